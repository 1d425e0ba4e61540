//@method to_string => vx_to_string ref
// ================================================================ C09: definitions of one name combine
pub ghost enum How { Plain, Choice, Interleave }
// what is known of a definition put together from some pieces: whether one of them was plain, how they combine, what they mean
pub ghost struct Def { pub plain: bool, pub rule: Option<Op>, pub lang: Lang }
pub open spec fn op_of(r: CombineRule) -> Op { match r { CombineRule::Choice => Op::Choice, CombineRule::Interleave => Op::Interleave } }
pub open spec fn def_of(r: DefineRule) -> Def {
    match r {
        DefineRule::AssignCombine(_, c, p) => Def { plain: true, rule: match c { Some(x) => Some(op_of(x)), None => None }, lang: mlang(p) },
        DefineRule::CombineOnly(_, c, p) => Def { plain: false, rule: Some(op_of(c)), lang: mlang(p) },
    }
}
// the body of a definition that is still without a plain piece is of the kind of its combine rule
pub open spec fn rule_ok(r: DefineRule) -> bool {
    match r { DefineRule::AssignCombine(_, _, _) => true, DefineRule::CombineOnly(_, c, p) => nary(p) is Some && nary(p).unwrap().0 == op_of(c) }
}
pub open spec fn combine(a: Def, b: Def) -> Option<Def> {
    if a.plain && b.plain { None }
    else {
        match (a.rule, b.rule) {
            (Some(x), Some(y)) => if x == y { Some(Def { plain: a.plain || b.plain, rule: Some(x), lang: l_op(x, a.lang, b.lang) }) } else { None },
            (Some(x), None) | (None, Some(x)) => Some(Def { plain: a.plain || b.plain, rule: Some(x), lang: l_op(x, a.lang, b.lang) }),
            (None, None) => None,
        }
    }
}
pub open spec fn both_plain(a: DefineRule, b: DefineRule) -> bool { def_of(a).plain && def_of(b).plain }
#[verifier::external_body] pub struct VxLoaded { x: u64 }
#[verifier::external_body] pub struct VxCodeMap { x: u64 }
#[verifier::external_body] pub struct VxFs { x: u64 }
#[verifier::external_body] pub struct VxSyntax { x: u64 }
pub struct Compiler { pub loaded: VxLoaded, pub codemap: VxCodeMap, pub fs: VxFs, pub syntax: VxSyntax, pub datatype_compiler: datatype::Compiler }
impl Compiler {
//@fn l Compiler::append_choice params=choice,c props=C09
    requires *old($choice) is Choice
    ensures *final($choice) is Choice, mlang(*final($choice)) == l_op(Op::Choice, mlang(*old($choice)), mlang($c))
//@post
    proof {
        nary_lang(*old($choice)); nary_lang(*$choice);
        let v = nary(*old($choice)).unwrap().1;
        if $c is Choice { nary_lang($c); append_lang(Op::Choice, v, nary($c).unwrap().1); } else { push_lang(Op::Choice, v, $c); }
    }
//@end
//@fn l Compiler::append_interleave params=interleave,c props=C09
    requires *old($interleave) is Interleave
    ensures *final($interleave) is Interleave, mlang(*final($interleave)) == l_op(Op::Interleave, mlang(*old($interleave)), mlang($c))
//@post
    proof {
        nary_lang(*old($interleave)); nary_lang(*$interleave);
        let v = nary(*old($interleave)).unwrap().1;
        if $c is Interleave { nary_lang($c); append_lang(Op::Interleave, v, nary($c).unwrap().1); } else { push_lang(Op::Interleave, v, $c); }
    }
//@end
//@fn l Compiler::merge1 ret=r params=name,a,b props=C09,C18
    requires rule_ok($a), rule_ok($b)
    ensures
        match combine(def_of($a), def_of($b)) { Some(d) => r matches Ok(x) && rule_ok(x) && def_of(x) == d, None => r is Err },
        r matches Err(e) ==> if both_plain($a, $b) { e matches RelaxError::DuplicateDefinition { name: nm, .. } && nm@ == $name@ } else { e is DefineRulesMixesChoiceAndInterleave },
//@pre
    proof { broadcast use two_lang; }
//@end
//@fn l Compiler::merge ret=r params=name,a,b props=C09,C18
//@inline map=res_map
    requires $a matches Some(x) ==> rule_ok(x), $b matches Some(x) ==> rule_ok(x)
    ensures
        match ($a, $b) {
            (Some(x), Some(y)) => match combine(def_of(x), def_of(y)) { Some(d) => r matches Ok(Some(z)) && rule_ok(z) && def_of(z) == d, None => r is Err },
            (Some(x), None) => r == Ok::<Option<DefineRule>, RelaxError>(Some(x)),
            (None, Some(x)) => r == Ok::<Option<DefineRule>, RelaxError>(Some(x)),
            (None, None) => r == Ok::<Option<DefineRule>, RelaxError>(None),
        },
//@end
}
// ---- the order in which the pieces are written does not matter, nor how they are put together
pub open spec fn rule_op(d: Def) -> bool { match d.rule { Some(o) => !(o is Group), None => d.plain } }
pub proof fn combine_comm(a: Def, b: Def) requires rule_op(a), rule_op(b) ensures combine(a, b) == combine(b, a) {
    op_comm(Op::Choice, a.lang, b.lang); op_comm(Op::Interleave, a.lang, b.lang);
}
pub open spec fn combine_o(a: Option<Def>, b: Option<Def>) -> Option<Def> { match (a, b) { (Some(x), Some(y)) => combine(x, y), _ => None } }
pub proof fn combine_assoc(a: Def, b: Def, c: Def) requires rule_op(a), rule_op(b), rule_op(c)
    ensures combine_o(combine(a, b), Some(c)) == combine_o(Some(a), combine(b, c))
{
    op_assoc(Op::Choice, a.lang, b.lang, c.lang); op_assoc(Op::Interleave, a.lang, b.lang, c.lang);
}
// all the pieces, one after the other
pub open spec fn all_of(s: Seq<Def>) -> Option<Def> decreases s.len() { if s.len() == 0 { None } else if s.len() == 1 { Some(s[0]) } else { combine_o(all_of(s.drop_last()), Some(s.last())) } }
// exchanging two neighbours, and so any reordering, changes nothing
pub proof fn swap(s: Seq<Def>, t: Seq<Def>, i: int)
    requires 0 <= i < s.len() - 1, forall|j: int| 0 <= j < s.len() ==> rule_op(#[trigger] s[j]), t == s.update(i, s[i + 1]).update(i + 1, s[i])
    ensures all_of(s) == all_of(t)
    decreases s.len()
{
    let n = s.len();
    assert(t.len() == n);
    if i < n - 2 {
        assert(t.drop_last() =~= s.drop_last().update(i, s.drop_last()[i + 1]).update(i + 1, s.drop_last()[i]));
        swap(s.drop_last(), t.drop_last(), i);
    } else {
        let u = s.drop_last().drop_last();
        assert(t.drop_last().drop_last() =~= u);
        let (a, b) = (s[n - 2], s[n - 1]);
        assert(rule_op(a) && rule_op(b));
        assert(s.drop_last().last() == a && t.drop_last().last() == b && t.last() == a);
        combine_comm(a, b);
        if u.len() == 0 { assert(s.drop_last()[0] == a && t.drop_last()[0] == b); }
        else {
            match all_of(u) { Some(d) => { all_rule(u); combine_assoc(d, a, b); combine_assoc(d, b, a); } None => {} }
        }
    }
}
pub proof fn all_rule(s: Seq<Def>) requires forall|j: int| 0 <= j < s.len() ==> rule_op(#[trigger] s[j]) ensures all_of(s) matches Some(d) ==> rule_op(d) decreases s.len() {
    if s.len() > 1 { all_rule(s.drop_last()); }
}

