use model::NameClass;
//@type v PatId derive=Copy,Clone,PartialEq,Eq,Structural
//@type v Pat
pub broadcast proof fn empty_seq(s: Seq<char>) requires #[trigger] s.len() == 0 ensures s == Seq::<char>::empty() { assert(s =~= Seq::<char>::empty()); }
// ================================================================ what the patterns of the validator mean
// the language of a stored pattern; fixed when the pattern is first stored
pub uninterp spec fn lang(id: PatId) -> Lang;
// patterns of the content of one element: no After
pub uninterp spec fn isflat(id: PatId) -> bool;
pub open spec fn p_isflat(p: Pat) -> bool { match p { Pat::Choice(a, b, _) => isflat(a) && isflat(b), Pat::After(_, _) => false, _ => true } }
pub open spec fn sflat(id: PatId) -> bool { isflat(id) && flat(lang(id)) }
pub open spec fn sflat_pat(p: Pat) -> bool { p_isflat(p) && flat(patlang(p)) }
// choices of After patterns of one open element
pub uninterp spec fn aft2(id: PatId) -> bool;
// the pattern has been seen not to be a placeholder; once resolved a placeholder stays resolved, so this is never lost
pub uninterp spec fn seen(id: PatId) -> bool;
pub open spec fn patlang(p: Pat) -> Lang {
    match p {
        Pat::Choice(a, b, _) => l_union(lang(a), lang(b)),
        Pat::Interleave(a, b, _) => l_inter(lang(a), lang(b)),
        Pat::Group(a, b, _) => l_cat(lang(a), lang(b)),
        Pat::OneOrMore(a, _) => l_plus(lang(a)),
        Pat::Empty => l_eps(),
        Pat::Text => l_text(),
        Pat::NotAllowed => l_none(),
        Pat::Attribute(nc, a) => l_att(nc_pred(nc), lang(a)),
        Pat::Element(nc, a) => l_elem(nc_pred(nc), lang(a)),
        Pat::Datatype(d) => l_data(data_pred(d, None)),
        Pat::DatatypeValue(d) => l_data(value_pred(d)),
        Pat::DatatypeExcept(d, e) => l_data(data_pred(d, Some(lang(e)))),
        Pat::List(a) => l_list(lang(a)),
        Pat::Placeholder(ptr, _) => l_single(rlang(ptr)),
        Pat::After(a, b) => l_aft(lang(a), lang(b)),
    }
}
// the stored flag says whether the pattern is nullable
pub open spec fn flag_ok(p: Pat) -> bool {
    match p {
        Pat::Choice(_, _, n) | Pat::Interleave(_, _, n) | Pat::Group(_, _, n) | Pat::OneOrMore(_, n) | Pat::Placeholder(_, n) => n == nullable(patlang(p)),
        _ => true,
    }
}
pub open spec fn wf_pat(p: Pat) -> bool {
    match p {
        Pat::Choice(a, b, _) => ne(lang(a)) && ne(lang(b)),
        Pat::Interleave(a, b, _) | Pat::Group(a, b, _) => sflat(a) && sflat(b),
        Pat::OneOrMore(a, _) => sflat(a) && att_alone(lang(a)),
        Pat::After(a, b) => sflat(a) && ne(lang(b)),
        Pat::List(a) | Pat::Attribute(_, a) | Pat::Element(_, a) | Pat::DatatypeExcept(_, a) => sflat(a),
        _ => true,
    }
}
pub open spec fn p_aft2(p: Pat) -> bool {
    match p {
        Pat::Choice(a, b, _) => aft2(a) && aft2(b),
        Pat::After(a, b) => sflat(b),
        Pat::NotAllowed => true,
        _ => false,
    }
}
// what is left when d elements are open: it is NotAllowed itself if nothing can follow, and when no element is open any more, nothing need follow
pub uninterp spec fn fin(id: PatId, d: nat) -> bool;
pub open spec fn p_fin(p: Pat, d: nat) -> bool {
    p is NotAllowed || if d == 0 { nullable(patlang(p)) } else {
        match p {
            Pat::Choice(a, b, _) => fin(a, d) && fin(b, d),
            Pat::After(_, b) => fin(b, (d - 1) as nat),
            _ => false,
        }
    }
}
// choices of elements
// definitions that are nothing but choices of elements, as a start must be (7.1.5)
pub uninterp spec fn rroot(p: usize) -> bool;
pub uninterp spec fn root(id: PatId) -> bool;
pub open spec fn p_root(p: Pat) -> bool { match p { Pat::Choice(a, b, _) => root(a) && root(b), Pat::Element(..) | Pat::NotAllowed => true, _ => false } }
// p is finished when d more elements end
pub open spec fn fins(p: PatId, r: PatId) -> bool { forall|d: nat| #[trigger] fin(p, d) && d > 0 ==> fin(r, d) }
pub open spec fn p_fins(p: Pat, r: PatId) -> bool { forall|d: nat| #[trigger] p_fin(p, d) && d > 0 ==> fin(r, d) }
proof fn flat_ne(a: Lang) requires flat(a) ensures ne(a) { }
broadcast proof fn b_flat_ne(a: Lang) requires #[trigger] flat(a) ensures ne(a) { }
proof fn pat_ne(p: Pat) requires wf_pat(p) ensures ne(patlang(p)) { match p { Pat::OneOrMore(a, _) => { plus_flat(lang(a)); } _ => {} } }
