// ---------------------------------------------------------------- the leaves
pub type NamePred = spec_fn(Name) -> bool;
pub type TextPred = spec_fn(Seq<char>) -> bool;
// one child element, with a name of the class and content in the language
pub open spec fn l_elem(nc: NamePred, a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 1 && (st[0].ch[0] matches Sym::Child(n, c) && nc(n) && a(seq![c]))
}
// the language of a string matched by a pattern (9.3.3): as text, or as nothing when it is all white space
pub open spec fn val_in(a: Lang, v: Seq<char>) -> bool { a(one(seq![], seq![Sym::Text(v)])) || (ws(v) && nullable(a)) }
pub open spec fn l_att(nc: NamePred, a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 1 && st[0].ch.len() == 0 && nc(st[0].attrs[0].name) && val_in(a, st[0].attrs[0].value)
}
pub open spec fn l_data(p: TextPred) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 1 && (st[0].ch[0] matches Sym::Text(s) && p(s))
}
// the white space separated words of a string
pub open spec fn word_end(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || xml_ws(s[0]) { 0 } else { 1 + word_end(s.drop_first()) } }
pub open spec fn words(s: Seq<char>) -> Seq<Sym> decreases s.len() {
    if s.len() == 0 { seq![] } else if xml_ws(s[0]) { words(s.drop_first()) } else { let k = word_end(s); if k > s.len() || k == 0 { seq![] } else { seq![Sym::Text(s.take(k as int))] + words(s.skip(k as int)) } }
}
// a list's text is that of all its runs
pub open spec fn words_of(ch: Seq<Sym>) -> Seq<Sym> decreases ch.len() {
    if ch.len() == 0 { seq![] } else { (match ch[0] { Sym::Text(s) => words(s), _ => seq![] }) + words_of(ch.drop_first()) }
}
pub open spec fn l_list(a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() > 0 && texts(st[0].ch) && a(one(seq![], words_of(st[0].ch)))
}
pub open spec fn l_opt(a: Lang) -> Lang { l_union(a, l_eps()) }
pub open spec fn l_zom(a: Lang) -> Lang { l_union(l_plus(a), l_eps()) }
pub open spec fn l_mixed(a: Lang) -> Lang { l_inter(a, l_text()) }
pub open spec fn l_single(a: Lang) -> Lang { |st: Stack| st.len() == 1 && a(st) }
