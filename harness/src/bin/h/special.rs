//! Cases made to measure: facets near their bounds, names over all of Unicode, schemas and documents with one mistake.
use crate::{mode, Tally};
use harness::gen::{Docs, Gen};
use harness::print::{doc, esc, rnc, rng, DocKnobs};
use harness::rnd::Rnd;
use harness::sem::*;
use harness::sx::{closure, present, FileS, Op, G, S};

/// percentage of cases that are made to measure
pub fn share(p: &str) -> usize {
    match p {
        "C13" | "C14" | "C19" => 100,
        "C15" => 50,
        "C18" => 80,
        "C05" => 30,
        "C09" => 50,
        "C06" | "C07" | "C11" | "C12" | "C16" => 20,
        "C17" => 5,
        _ => 0,
    }
}
pub fn special(p: &str, r: &mut Rnd, t: &mut Tally) -> bool {
    match p {
        "C13" => numbers(r, t),
        "C14" => strings(r, t),
        "C15" => values(r, t),
        "C19" => names(r, t),
        "C06" => prefixes(r, t),
        "C07" => references(r, t),
        "C05" if r.pct(70) => mistake(p, r, t, &[20]),
        "C05" => aliases(p, r, t),
        "C09" if r.pct(60) => combos(p, r, t),
        "C09" => mistake(p, r, t, &[1, 2]),
        "C11" if r.pct(50) => own_prefixes(r, t),
        "C11" => mistake(p, r, t, &[10]),
        "C12" => mistake(p, r, t, &[3, 4, 13]),
        "C16" => mistake(p, r, t, &[10, 10, 16]),
        "C17" => bases(r, t),
        "C18" if r.pct(10) => own_prefixes(r, t),
        "C18" => mistake(p, r, t, &[1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 15, 20]),
        _ => return false,
    }
    true
}
// ------------------------------------------------------------------------------------------------ facets
fn one(r: &mut Rnd, body_rnc: &str, body_rng: &str) -> (Vec<(String, String)>, bool) {
    // in an element or in an attribute
    let att = r.pct(30);
    let f = if r.pct(60) {
        let s = if att { format!("element a {{ attribute x {{ {body_rnc} }} }}\n") } else { format!("element a {{ {body_rnc} }}\n") };
        ("main0.rnc".to_string(), s)
    } else {
        let lib = "datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"";
        let b = if att { format!("<attribute name=\"x\">{body_rng}</attribute>") } else { body_rng.to_string() };
        ("main0.rng".to_string(), format!("<element name=\"a\" xmlns=\"http://relaxng.org/ns/structure/1.0\" {lib}>{b}</element>\n"))
    };
    (vec![f], att)
}
fn write(r: &mut Rnd, att: bool, v: &str) -> String {
    if att {
        format!("<a x=\"{}\"/>", esc(v, true))
    } else if v.is_empty() && r.pct(50) {
        "<a/>".into()
    } else {
        format!("<a>{}</a>", esc(v, false).replace('\r', "&#13;"))
    }
}
fn facets(ty: &str, ps: &[(String, String)]) -> (String, String) {
    let a: Vec<String> = ps.iter().map(|(k, v)| format!("{k} = \"{v}\"")).collect();
    let b: Vec<String> = ps.iter().map(|(k, v)| format!("<param name=\"{k}\">{}</param>", esc(v, false))).collect();
    let a = if ps.is_empty() { format!("xsd:{ty}") } else { format!("xsd:{ty} {{ {} }}", a.join(" ")) };
    (a, format!("<data type=\"{ty}\">{}</data>", b.concat()))
}
fn numbers(r: &mut Rnd, t: &mut Tally) {
    let ty = *r.pick(&["short", "unsignedShort", "int", "unsignedInt", "long", "unsignedLong", "integer", "positiveInteger", "decimal"]);
    let (lo, hi, dec) = num_range(ty).unwrap();
    let unsigned = ty.starts_with("unsigned") || ty == "positiveInteger";
    let base: i128 = if unsigned { r.range(1, 40) as i128 } else { r.range(0, 60) as i128 - 30 };
    let big = "9".repeat(r.range(20, 40));
    let near = |r: &mut Rnd, c: i128| -> String {
        let v = c + r.below(5) as i128 - 2;
        let v = if unsigned { v.max(1) } else { v };
        let mut s = v.to_string();
        if dec && r.pct(50) {
            s.push_str(*r.pick(&[".5", ".0", ".25", ".50", ".500001", ".49999999999999999999"]));
        }
        if r.pct(15) && !s.starts_with('-') {
            s = format!("{}{s}", *r.pick(&["+", "0", "00"]));
        }
        s
    };
    let mut limits: Vec<String> = vec![];
    for l in [lo, hi].into_iter().flatten() {
        let v: i128 = l.parse().unwrap();
        limits.extend([v.to_string(), (v + 1).to_string(), (v - 1).to_string()]);
    }
    if lo.is_none() || hi.is_none() {
        limits.push(big.clone());
        if !unsigned {
            limits.push(format!("-{big}"));
        }
    }
    let in_range = |s: &str| num_ok(ty, &[], s);
    // facets
    let mut ps: Vec<(String, String)> = vec![];
    let mut ok = true;
    for _ in 0..r.weighted(&[1, 3, 4, 1]) {
        let k = *r.pick(&["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"]);
        let c = if k.starts_with("min") { base } else { base + r.below(9) as i128 - 2 };
        let v = match r.below(12) {
            0 => r.pick(&limits).clone(),
            1 if r.pct(30) => r.pick(&["x", "", "1x", "--1", "0x1"]).to_string(),
            _ => near(r, c),
        };
        if ty == "positiveInteger" && num(&v, false).is_some_and(|n| n.1.is_empty()) {
            continue; // (a bound of 0 is let pass)
        }
        ps.push((k.to_string(), v));
    }
    if r.pct(4) {
        let i = r.below(ps.len() + 1);
        ps.insert(i, (r.pick(&["length", "minLength", "maxlength", "enumeration"]).to_string(), "3".into()));
    }
    let mut mins = vec![];
    let mut maxs = vec![];
    for (k, v) in &ps {
        if !k.ends_with("clusive") || !in_range(v) {
            ok = false;
        } else if k.starts_with("min") {
            mins.push((k.contains("Incl"), num(v, dec).unwrap()));
        } else {
            maxs.push((k.contains("Incl"), num(v, dec).unwrap()));
        }
    }
    if mins.len() > 1 || maxs.len() > 1 {
        ok = false;
    }
    if let (Some(a), Some(b)) = (mins.first(), maxs.first()) {
        match num_cmp(&a.1, &b.1) {
            std::cmp::Ordering::Greater => ok = false,
            std::cmp::Ordering::Equal => ok &= a.0 && b.0,
            _ => {}
        }
    }
    let (a, b) = facets(ty, &ps);
    let (files, att) = one(r, &a, &b);
    t.schemas += 1;
    if !ok {
        t.check(&files, None, "schema-error");
        return;
    }
    if !t.check(&files, None, "schema-ok") {
        return;
    }
    for _ in 0..8 {
        let mut v = match r.below(10) {
            0 | 1 => r.pick(&limits).clone(),
            2 => r.pick(&["", "x", "1x", "--1", "1 2", "+ 1", "1,0", "0x10", "1-", "\u{661}", "1\u{a0}"]).to_string(),
            3 if !dec => "1.0".into(),
            4 if !ps.is_empty() => r.pick(&ps).1.clone(),
            _ => {
                let c = if r.pct(50) { base } else { base + r.below(9) as i128 - 2 };
                let c = if unsigned && r.pct(20) { 0 } else { c };
                near(r, c)
            }
        };
        if unsigned && v.starts_with('-') && num(&v, false).is_some_and(|n| n.1.is_empty()) {
            v = "0".into();
        }
        if r.pct(20) {
            v = format!("{}{v}{}", *r.pick(&[" ", "\n", "\t ", ""]), *r.pick(&[" ", "\n", "", "\r"]));
        }
        let d = write(r, att, &v);
        t.check(&files, Some(d), if num_ok(ty, &ps, &v) { "valid" } else { "invalid" });
    }
}
fn strings(r: &mut Rnd, t: &mut Tally) {
    let ty = *r.pick(&["string", "string", "string", "string", "NCName", "token", "normalizedString", "NMTOKEN", "NMTOKENS"]);
    let patterns = matches!(ty, "string" | "normalizedString");
    let mut ps: Vec<(String, String)> = vec![];
    let mut ok = true;
    let base = r.range(0, 4);
    for _ in 0..r.weighted(&[1, 4, 5, 1]) {
        let k = *r.pick(&["length", "minLength", "maxLength", "minLength", "maxLength"]);
        let v = match r.below(20) {
            0 => r.pick(&["-1", "x", "", "1.5", "-0x"]).to_string(),
            1 => format!("0{}", base),
            _ => (base + if k == "maxLength" { r.below(4) } else { r.below(2) }).to_string(),
        };
        ps.push((k.into(), v));
    }
    if r.pct(35) && patterns {
        let i = r.below(ps.len() + 1);
        ps.insert(i, ("pattern".into(), r.pick(&["[a-z]+", "a|b", "[0-9]{2}", "x*", "[^0]+"]).to_string()));
    }
    if r.pct(4) {
        let i = r.below(ps.len() + 1);
        ps.insert(i, (r.pick(&["minInclusive", "maxExclusive", "totalDigits", "size"]).to_string(), "3".into()));
    }
    let get = |n: &str| ps.iter().filter(|(k, _)| k == n).map(|(_, v)| v.parse::<usize>().ok()).collect::<Vec<_>>();
    let (l, a, b) = (get("length"), get("minLength"), get("maxLength"));
    if ps.iter().any(|(k, _)| !k.ends_with("ength") && k != "pattern") || l.iter().chain(a.iter()).chain(b.iter()).any(|v| v.is_none()) {
        ok = false;
    }
    if l.len() + a.len() > 1 || l.len() + b.len() > 1 {
        ok = false;
    }
    if ok && a.len() == 1 && b.len() == 1 && a[0] > b[0] {
        ok = false;
    }
    let (x, y) = facets(ty, &ps);
    let (files, att) = one(r, &x, &y);
    t.schemas += 1;
    if !ok {
        t.check(&files, None, "schema-error");
        return;
    }
    if !t.check(&files, None, "schema-ok") {
        return;
    }
    let dt = Dt { xsd: true, name: ty.into() };
    for _ in 0..8 {
        let n = r.range(0, base + 4);
        let pool: &[char] = match r.below(4) {
            0 if !matches!(ty, "string" | "NCName") => &['a', 'b', ' ', ' ', '\n', '\t'],
            0 => &['a', 'b', 'x'],
            1 => &['a', '\u{e9}', '\u{4e00}', '\u{1f600}', '\u{301}'],
            2 => &['x'],
            _ => &['a', ' ', '0', '1', '\n', '\u{10ffff}', '\u{a0}', '<', '&', ']'],
        };
        let v: String = (0..n).map(|_| *r.pick(pool)).collect();
        let d = write(r, att, &v);
        t.check(&files, Some(d), if data_ok(&dt, &ps, &v) { "valid" } else { "invalid" });
    }
}
fn values(r: &mut Rnd, t: &mut Tally) {
    let pool = ['a', 'a', 'b', ' ', ' ', '\n', '\t', '\u{a0}', '\u{2003}', '\u{85}', '\u{3000}'];
    let s = |r: &mut Rnd| -> String { (0..r.range(0, 5)).map(|_| *r.pick(&pool)).collect() };
    let v = s(r);
    let dt = Dt { xsd: r.pct(30), name: r.pick(&["string", "token"]).to_string() };
    let val = P::Value(dt.clone(), v.clone());
    let inner = match r.below(5) {
        0 => P::Data(Dt { xsd: false, name: "string".into() }, vec![], Some(Box::new(val.clone()))),
        1 => P::List(Box::new(P::Group(vec![val.clone(), P::Star(Box::new(val.clone()))]))),
        2 => P::Choice(vec![val.clone(), P::Value(dt.clone(), s(r))]),
        _ => val.clone(),
    };
    let att = r.pct(40);
    let name = |n: &str| NC::Named(String::new(), n.into());
    let body = if att { P::Att(name("x"), Box::new(inner)) } else { inner };
    let sch = Schema { start: P::Elem(name("a"), Box::new(body)), defs: vec![] };
    let k = Default::default();
    let fs = present(r, &k, &sch);
    let files = if r.pct(30) { rng(r, &k, &fs) } else { rnc(r, &k, &fs) };
    t.schemas += 1;
    if !t.check(&files, None, "schema-ok") {
        return;
    }
    for _ in 0..10 {
        let d = match r.below(4) {
            0 => v.clone(),
            1 => {
                // the same words, spaced differently
                let mut o = String::new();
                if r.pct(40) {
                    o.push(' ');
                }
                for w in tokens(&v) {
                    o.push_str(w);
                    for _ in 0..r.range(1, 2) {
                        o.push(*r.pick(&[' ', '\n', '\t', '\r']));
                    }
                }
                if r.pct(50) {
                    o = norm(&o);
                }
                o
            }
            2 => {
                let mut o: Vec<char> = v.chars().collect();
                if !o.is_empty() {
                    let i = r.below(o.len());
                    if r.pct(50) {
                        o.remove(i);
                    } else {
                        o[i] = *r.pick(&pool);
                    }
                }
                o.into_iter().collect()
            }
            _ => s(r),
        };
        let mut e = Elem { ns: String::new(), local: "a".into(), attrs: vec![], kids: vec![] };
        if att {
            e.attrs.push((String::new(), "x".into(), d));
        } else if !d.is_empty() {
            e.kids.push(Node::Tx(d));
        }
        if let Some(ok) = Oracle::valid(&sch, &e) {
            let d = doc(r, &DocKnobs::default(), &e);
            t.check(&files, Some(d), if ok { "valid" } else { "invalid" });
        }
    }
}
// ------------------------------------------------------------------------------------------------ names
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn names(r: &mut Rnd, t: &mut Tally) {
    // a stretch of Unicode; stretches around the ends of the ranges in the definition more often
    const EDGES: [u32; 49] = [
        0x85, 0x2028, 0x3000,
        0x2d, 0x2e, 0x30, 0x39, 0x3a, 0x41, 0x5a, 0x5f, 0x61, 0x7a, 0xb7, 0xc0, 0xd6, 0xd8, 0xf6, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37f, 0x1fff, 0x200c, 0x200d, 0x203f, 0x2040,
        0x2070, 0x218f, 0x2c00, 0x2fef, 0x3001, 0xd7ff, 0xe000, 0xf900, 0xfdcf, 0xfdf0, 0xfffd, 0x10000, 0x1ffff, 0x20000, 0xeffff, 0xf0000, 0xfffff, 0x100000, 0x10ffff,
    ];
    let lo = if r.pct(70) { (*r.pick(&EDGES) as i64 - r.below(40) as i64).max(0x20) as u32 } else { r.below(0x110000) as u32 };
    let len = if r.pct(50) { 40 } else { 600 };
    let cs: Vec<char> = (lo..lo + len).filter_map(char::from_u32).filter(|c| xml_char(*c) && !matches!(c, ' ')).collect();
    t.schemas += 1;
    // values of xsd:NCName: all the names in one list, all the others in another
    let mk = |c: char, first: bool| if first { c.to_string() } else { format!("x{c}") };
    for first in [true, false] {
        let (good, bad): (Vec<char>, Vec<char>) = cs.iter().partition(|c| ncname(&mk(**c, first)));
        let all = |v: &[char]| esc(&v.iter().map(|c| mk(*c, first)).collect::<Vec<_>>().join(" "), false);
        let f1 = vec![("main0.rnc".to_string(), "element a { list { xsd:NCName* } }\n".to_string())];
        if !t.check(&f1, Some(format!("<a>{}</a>", all(&good))), "valid") {
            for c in &good {
                t.check(&f1, Some(format!("<a>{}</a>", all(&[*c]))), "valid");
            }
        }
        // values of xsd:NMTOKEN: no character is special at the start
        if r.pct(30) {
            let tok = |v: &[char], more: &[&str]| esc(&v.iter().map(|c| mk(*c, first)).chain(more.iter().map(|s| s.to_string())).collect::<Vec<_>>().join(" "), false);
            let (good, bad): (Vec<char>, Vec<char>) = cs.iter().partition(|c| **c == ':' || name_char(**c));
            let g = vec![("main0.rnc".to_string(), "element a { list { xsd:NMTOKEN* } }\n".to_string())];
            t.check(&g, Some(format!("<a>{}</a>", tok(&good, &["-", "1:2", ":", "a:", "::b"]))), "valid");
            let b = vec![("main0.rnc".to_string(), "element a { list { (string - xsd:NMTOKEN)* } }\n".to_string())];
            t.check(&b, Some(format!("<a>{}</a>", tok(&bad, &["a/", ":(", "1:2:&"]))), "valid");
        }
        let f2 = vec![("main0.rnc".to_string(), "element a { list { (string - xsd:NCName)* } }\n".to_string())];
        if !t.check(&f2, Some(format!("<a>{}</a>", all(&bad))), "valid") {
            for c in &bad {
                t.check(&f2, Some(format!("<a>{}</a>", all(&[*c]))), "valid");
            }
        }
        // names in schemas: as local names, definition names and prefixes
        let kind = r.below(7);
        let schema = |n: &[String]| -> Vec<(String, String)> {
            let ns = |f: &dyn Fn(&String) -> String, sep: &str| n.iter().map(f).collect::<Vec<_>>().join(sep);
            let (name, text) = match kind {
                0 => ("main0.rnc", format!("element ({}) {{ empty }}\n", ns(&|n| n.clone(), " | "))),
                1 => ("main0.rnc", format!("start = element a {{ empty }}\n{}\n", ns(&|n| format!("{n} = empty"), "\n"))),
                2 => ("main0.rnc", format!("{}\nstart = element a {{ empty }}\n", ns(&|n| format!("namespace {n} = \"urn:x\""), "\n"))),
                3 => ("main0.rng", {
                    let n = ns(&|n| format!("<name>{}</name>", esc(n, false)), "");
                    format!("<element xmlns=\"http://relaxng.org/ns/structure/1.0\"><choice>{n}</choice><empty/></element>\n")
                }),
                4 => ("main0.rng", {
                    let n = ns(&|n| format!("<element name=\"{}\"><empty/></element>", esc(n, true)), "");
                    format!("<choice xmlns=\"http://relaxng.org/ns/structure/1.0\">{n}</choice>\n")
                }),
                5 => ("main0.rng", {
                    let n = ns(&|n| format!("<name>p:{}</name>", esc(n, false)), "");
                    format!("<element xmlns=\"http://relaxng.org/ns/structure/1.0\" xmlns:p=\"urn:p\"><choice>{n}</choice><empty/></element>\n")
                }),
                _ => ("main0.rng", {
                    let n = ns(&|n| format!("<define name=\"{}\"><empty/></define>", esc(n, true)), "");
                    format!("<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element name=\"a\"><empty/></element></start>{n}</grammar>\n")
                }),
            };
            vec![(name.to_string(), text)]
        };
        // (a single letter may be part of the syntax; x alone is a name already)
        let good: Vec<String> = good.iter().map(|c| format!("n{}", mk(*c, false))).chain(good.iter().filter(|_| first).map(|c| format!("{c}q1"))).collect();
        if !good.is_empty() && !t.check(&schema(&good), None, "schema-ok") {
            for n in &good {
                t.check(&schema(&[n.clone()]), None, "schema-ok");
            }
        }
        for c in bad.iter().take(30) {
            // characters that mean something in a schema are not merely wrong within a name
            if c.is_ascii() && !c.is_ascii_alphanumeric() && (kind < 3 || matches!(c, ':' | '<' | '&')) && !matches!(c, '!' | '$' | '%' | '^' | '@' | ';') {
                continue;
            }
            if matches!(c, ' ' | '\t' | '\r' | '\n') || (kind < 3 && first && c.is_ascii_digit()) {
                continue;
            }
            let n = if first { format!("{c}q1") } else { format!("n{c}q1") };
            if kind >= 3 && !first && c.is_ascii_alphanumeric() {
                continue;
            }
            t.check(&schema(&[n]), None, "schema-error");
        }
    }
}
// ------------------------------------------------------------------------------------------------ documents
// ------------------------------------------------------------------------------------------------ xml:base
/// one base, or none
fn some_base(r: &mut Rnd) -> Option<String> {
    if r.pct(40) {
        return None;
    }
    Some(r.pick(&["p/", "q/", "p/q/", "x.rng", "q/x.rng", "p/q/x", "/r/", "/r/x.rng", "/r/s", "q.q/"]).to_string())
}
/// the references of RFC 2396 that have a path only, without dot segments
fn rebase(old: Option<String>, new: &str) -> String {
    match old {
        Some(b) if !new.starts_with('/') => match b.rfind('/') {
            Some(i) => format!("{}{new}", &b[..=i]),
            None => new.to_string(),
        },
        _ => new.to_string(),
    }
}
/// references to other files, with xml:base on the elements around them (and on others that have no say)
fn bases(r: &mut Rnd, t: &mut Tally) {
    let n = r.range(1, 2);
    let mut files: Vec<(String, String)> = vec![];
    let mut at = "main0.rng".to_string();
    for i in 0..=n {
        let def = |b: &str| format!("<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"x\"/></start><define name=\"x\">{b}</define></grammar>");
        if i == n {
            files.push((at.clone(), def("<element name=\"t\"><empty/></element>")));
            break;
        }
        let href = r.pick(&["z.rng", "q/z.rng", "p/z.rng", "z.rng", "/r/z.rng"]).to_string().replace('z', ["z", "y"][i]);
        let b: Vec<Option<String>> = (0..5).map(|_| some_base(r)).collect();
        let a = |i: usize| b[i].as_ref().map_or(String::new(), |b| format!(" xml:base=\"{b}\""));
        // bases that do not enclose the reference
        let mut not = |tag: &str, inner: &str| match some_base(r) {
            Some(b) => format!("<{tag} xml:base=\"{b}\">{inner}</{}>", tag.split(' ').next().unwrap()),
            None => String::new(),
        };
        let (n1, n2, n3) = (not(&format!("define name=\"u{i}\""), "<text/>"), not("div", &format!("<define name=\"v{i}\"><text/></define>")), not("f:f xmlns:f=\"urn:f\"", ""));
        let (n4, n5) = (not("empty", ""), not("optional", "<empty/>"));
        let ns = "xmlns=\"http://relaxng.org/ns/structure/1.0\"";
        let main = i == 0;
        let inc = r.pct(50);
        let body = if inc {
            let over = if main { "<start><element name=\"a\"><ref name=\"x\"/></element></start>" } else { "" };
            let inc = format!("<include href=\"{href}\"{}>{n3}{over}</include>", a(4));
            format!("<grammar {ns}{}>{n1}<div{}>{n2}<div{}>{n3}<div{}>{inc}</div></div>{n3}</div></grammar>", a(0), a(1), a(2), a(3))
        } else {
            let ext = format!("<externalRef href=\"{href}\"{}>{n3}</externalRef>", a(4));
            let inner = format!("<group{}>{n5}<group{}>{n4}{ext}</group>{n5}</group>", a(2), a(3));
            if main {
                format!("<grammar {ns}{}>{n1}{n2}<start{}><element name=\"a\">{inner}</element></start></grammar>", a(0), a(1))
            } else {
                format!("<grammar {ns}{}>{n1}{n2}<start><ref name=\"x\"/></start><define name=\"x\"{}>{inner}</define></grammar>", a(0), a(1))
            }
        };
        files.push((at.clone(), body));
        let mut to: Option<String> = None;
        for x in b.iter().flatten() {
            to = Some(rebase(to, x));
        }
        let to = rebase(to, &href);
        at = rebase(Some(at), &to);
        if files.iter().any(|f| f.0 == at) {
            return;
        }
    }
    // what a wrong base might lead to
    let name = at.rsplit('/').next().unwrap().to_string();
    let want: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    for d in ["", "p/", "q/", "p/q/", "/r/", "/r/q/", "/r/p/", "/r/p/q/", "p/p/", "q/p/", "q/q/", "p/q/q/", "p/q/p/", "q.q/", "/r/q.q/"] {
        let f = format!("{d}{name}");
        if !want.contains(&f) {
            files.push((f, "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"x\"/></start><define name=\"x\"><element name=\"d\"><empty/></element></define></grammar>".to_string()));
        }
    }
    t.schemas += 1;
    t.check(&files, Some("<a><t/></a>".to_string()), "valid");
    t.check(&files, Some("<a><d/></a>".to_string()), "invalid");
}
fn prefixes(r: &mut Rnd, t: &mut Tally) {
    let files = vec![("main0.rnc".to_string(), "start = el\nel = element * { attribute * { text }*, (el | text)* }\n".to_string())];
    t.schemas += 1;
    let sch = Schema { start: P::Text, defs: vec![] };
    let mut cfg = harness::gen::Cfg::default();
    cfg.ns = vec!["", "urn:a", "urn:b", "urn:c"];
    for _ in 0..4 {
        let mut e = Docs::new(r, &sch, &cfg).random_elem(3);
        dedup(&mut e);
        let k = DocKnobs { ns: 50, split: 5, entities: false };
        let d = doc(r, &k, &e);
        t.check(&files, Some(d), "valid");
        // one element somewhere with a prefix that is not declared there, although it is elsewhere
        let mark = if r.pct(50) { "\u{1}E" } else { "\u{1}A" };
        let tag = |r: &mut Rnd, e: &mut Elem| {
            let mut n = 0;
            count(e, &mut n);
            let mut i = r.below(n);
            put(e, &mut i, mark);
        };
        tag(r, &mut e);
        let d = doc(r, &DocKnobs { split: 0, ..k }, &e);
        // the marker stands for something bound by an enclosed, a preceding or a following element only
        let bound = "<qq:b xmlns:qq=\"urn:q\"/>";
        let d = if mark == "\u{1}E" {
            d.replace("\u{1}E", &format!("{bound}<qq:zz/>"))
        } else if r.pct(50) {
            d.replace("\u{1}A", &format!("<zz qq:at=''>{bound}</zz>"))
        } else {
            d.replace("\u{1}A", &format!("<zz at='' qq:at='1'/>{bound}"))
        };
        t.check(&files, Some(d), "invalid");
    }
}
fn dedup(e: &mut Elem) {
    let mut seen: Vec<(String, String)> = vec![];
    e.attrs.retain(|a| {
        let k = (a.0.clone(), a.1.clone());
        !seen.contains(&k) && {
            seen.push(k);
            true
        }
    });
    for k in e.kids.iter_mut() {
        if let Node::El(x) = k {
            dedup(x)
        }
    }
}
fn count(e: &Elem, n: &mut usize) {
    *n += 1;
    for k in &e.kids {
        if let Node::El(x) = k {
            count(x, n)
        }
    }
}
fn put(e: &mut Elem, i: &mut usize, mark: &str) {
    if *i == 0 {
        e.kids.push(Node::Tx(mark.into()));
        *i = usize::MAX;
        return;
    }
    *i -= 1;
    for k in e.kids.iter_mut() {
        if *i == usize::MAX {
            return;
        }
        if let Node::El(x) = k {
            put(x, i, mark)
        }
    }
}
fn references(r: &mut Rnd, t: &mut Tally) {
    let files = vec![("main0.rnc".to_string(), "element a { attribute x { text }?, (text | element b { text })* }\n".to_string())];
    t.schemas += 1;
    let bad = [
        "&undef;", "&#x110000;", "&#1114112;", "&#xD800;", "&#55296;", "&;", "&#;", "&#x;", "&#12a;", "&#xG;", "&# 12;", "&#+65;", "&#x+41;", "&#-1;", "&#99999999999999999999;", "&Amp;", "&e2;",
        "&#X41;", "&amp ;",
    ];
    let open = ["&amp", "&#65", "&#x41", "&", "&lt"];
    let good = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#x10FFFF;", "&#1114111;", "&#xe9;", "&e1;", "&#x0000041;", "&#9;"];
    for _ in 0..8 {
        let (mut pre, mut post) = (String::new(), String::new());
        for _ in 0..r.below(3) {
            pre.push_str(*r.pick(&["x", " ", "é", ";", "&amp;", "&#65;"]));
            post.push_str(*r.pick(&["x", " ", "é", ";", "&amp;", "&#65;"]));
        }
        let (mid, ok) = match r.below(3) {
            0 => (*r.pick(&good), true),
            1 => (*r.pick(&open), false),
            _ => (*r.pick(&bad), false),
        };
        if !bad.contains(&mid) && !good.contains(&mid) {
            // unterminated: nothing that follows may complete it
            post = post.replace(';', "");
            post = post.replace("&amp", "").replace("&#65", "");
        }
        let s = format!("{pre}{mid}{post}");
        let d = match r.below(4) {
            0 => format!("<a x=\"{s}\"/>"),
            1 => format!("<a><b>{s}</b></a>"),
            2 => format!("<a>{s}<b/></a>"),
            _ => format!("<a>{s}</a>"),
        };
        let d = format!("<!DOCTYPE a [<!ENTITY e1 \"one\">]>\n{d}");
        t.check(&files, Some(d), if ok { "valid" } else { "invalid" });
    }
    // which character a reference stands for
    const CHARS: [char; 16] = ['\r', '\n', '\t', ' ', 'A', '&', '<', ';', '\u{85}', '\u{a0}', '\u{2028}', '\u{e9}', '\u{fffd}', '\u{10000}', '\u{10ffff}', '\u{d7ff}'];
    let want = *r.pick(&CHARS);
    let files = vec![(
        "main0.rng".to_string(),
        format!(
            "<element name=\"a\" xmlns=\"http://relaxng.org/ns/structure/1.0\"><choice><attribute name=\"x\"><value type=\"string\">x&#{0};y</value></attribute><value type=\"string\">x&#{0};y</value></choice></element>\n",
            want as u32
        ),
    )];
    t.schemas += 1;
    for _ in 0..6 {
        let c = if r.pct(50) { want } else { *r.pick(&CHARS) };
        let n = c as u32;
        let m = match r.below(4) {
            0 => format!("&#{n};"),
            1 => format!("&#x{n:x};"),
            2 => format!("&#x{n:X};"),
            _ => format!("&#x000{n:x};"),
        };
        let m = if r.pct(25) { "&e1;".to_string() } else { m };
        // (the value of e2 is not what e1 stands for: the first declaration of a name is binding)
        let decl = if m == "&e1;" { format!("<!DOCTYPE a [<!ENTITY e0 \"zz\"><!ENTITY e1 \"{}\"><!ENTITY e1 \"A\">]>\n", if c == '<' || c == '&' || c == '\r' { "A".to_string() } else { c.to_string() }) } else { String::new() };
        let c = if m == "&e1;" && (c == '<' || c == '&' || c == '\r') { 'A' } else { c };
        let att = r.pct(40) && m != "&e1;";
        let d = if att { format!("<a x='x{m}y'/>") } else { format!("<a>x{m}y</a>") };
        t.check(&files, Some(decl + &d), if c == want { "valid" } else { "invalid" });
    }
}
// ------------------------------------------------------------------------------------------------ schemas with a mistake
/// number of places within the content of elements
fn places(p: &P, inside: bool) -> usize {
    let n = if inside { 1 } else { 0 };
    n + match p {
        P::Choice(v) | P::Group(v) | P::Inter(v) => v.iter().map(|q| places(q, inside)).sum(),
        P::Opt(q) | P::Star(q) | P::Plus(q) | P::Mixed(q) => places(q, inside),
        P::Elem(_, q) => places(q, true),
        _ => 0,
    }
}
fn replace(p: &mut P, i: &mut usize, inside: bool, new: &P) -> bool {
    if inside {
        if *i == 0 {
            *p = new.clone();
            return true;
        }
        *i -= 1;
    }
    match p {
        P::Choice(v) | P::Group(v) | P::Inter(v) => v.iter_mut().any(|q| replace(q, i, inside, new)),
        P::Opt(q) | P::Star(q) | P::Plus(q) | P::Mixed(q) => replace(q, i, inside, new),
        P::Elem(_, q) => replace(q, i, true, new),
        _ => false,
    }
}
fn put_pattern(r: &mut Rnd, sch: &mut Schema, new: P) -> bool {
    let used = closure(sch, &sch.start);
    let n0 = places(&sch.start, false);
    // (definitions may be referred to from within attributes: only those that contain elements are considered)
    let ns: Vec<usize> = used.iter().map(|d| places(&sch.defs[*d], false)).collect();
    let total = n0 + ns.iter().sum::<usize>();
    if total == 0 {
        return false;
    }
    let mut i = r.below(total);
    if i < n0 {
        return replace(&mut sch.start, &mut i, false, &new);
    }
    i -= n0;
    for (d, n) in used.iter().zip(ns) {
        if i < n {
            return replace(&mut sch.defs[*d], &mut i, false, &new);
        }
        i -= n;
    }
    false
}
fn wrap(r: &mut Rnd, p: P, depth: usize) -> P {
    let e = || P::Elem(NC::Named(String::new(), "w".into()), Box::new(P::Empty));
    if depth == 0 {
        return p;
    }
    let q = match r.below(9) {
        0 => P::Choice(vec![e(), p]),
        1 => P::Choice(vec![p, P::Empty]),
        2 => P::Group(vec![e(), p]),
        3 => P::Group(vec![p, e()]),
        4 => P::Inter(vec![e(), p]),
        5 => P::Opt(Box::new(p)),
        6 => P::Star(Box::new(p)),
        7 => P::Mixed(Box::new(p)),
        _ => P::Plus(Box::new(p)),
    };
    wrap(r, q, depth - 1)
}
/// wrap for what may be in an attribute or a list
fn wrap_data(r: &mut Rnd, p: P, depth: usize) -> P {
    let e = || P::Value(Dt { xsd: false, name: "token".into() }, "x".into());
    if depth == 0 {
        return p;
    }
    let q = match r.below(8) {
        0 => P::Choice(vec![e(), p]),
        1 => P::Choice(vec![p, P::Empty]),
        7 => P::Data(Dt { xsd: true, name: "string".into() }, vec![], Some(Box::new(p))),
        2 => P::Group(vec![e(), p]),
        3 => P::Group(vec![p, e()]),
        4 => P::Opt(Box::new(p)),
        5 => P::Star(Box::new(p)),
        _ => P::Plus(Box::new(p)),
    };
    wrap_data(r, q, depth - 1)
}
/// a definition whose bodies are of every shape, to be given in pieces
fn combos(p: &str, r: &mut Rnd, t: &mut Tally) {
    let mut m = mode(p, r).unwrap();
    m.cfg.shuffle = 50;
    let names = ["a", "b", "c", "d", "e", "f"];
    let mut next = 0;
    let mut el = |r: &mut Rnd| {
        let n = if r.pct(85) { next } else { r.below(3) };
        next = (next + 1) % 6;
        P::Elem(NC::Named("".into(), names[n].into()), Box::new(P::Empty))
    };
    let mut n = 0;
    let mut parts = vec![];
    while n < 2 || n < 4 && r.pct(40) {
        let k = r.range(2, 3);
        parts.push(match r.below(8) {
            0 | 1 => el(r),
            2 | 3 => P::Group((0..k).map(|_| el(r)).collect()),
            4 => P::Inter((0..2).map(|_| el(r)).collect()),
            5 => P::Choice((0..2).map(|_| el(r)).collect()),
            6 => P::Opt(Box::new(el(r))),
            _ => P::Plus(Box::new(P::Choice(vec![el(r), el(r)]))),
        });
        n += 1;
    }
    let d = if r.pct(60) { P::Inter(parts) } else { P::Choice(parts) };
    let root = P::Elem(NC::Named("".into(), "r".into()), Box::new(if r.pct(80) { P::Ref(0) } else { P::Group(vec![P::Ref(0), el(r)]) }));
    crate::compare(r, t, &m, Schema { start: root, defs: vec![d] });
}
/// recursive definitions whose contents are given through chains of definitions
fn aliases(p: &str, r: &mut Rnd, t: &mut Tally) {
    let m = mode(p, r).unwrap();
    let name = |r: &mut Rnd| NC::Named("".into(), r.pick(&["a", "b"]).to_string());
    let n = r.range(1, 2);
    let mut defs: Vec<P> = vec![P::Empty; n];
    for i in 0..n {
        // a chain of definitions that ends in something small
        let len = r.range(0, 3);
        let first = defs.len();
        for k in 0..len {
            let q = P::Ref(first + k + 1);
            defs.push(match r.below(8) {
                0 => P::Opt(Box::new(q)),
                1 => P::Choice(vec![P::NotAllowed, q]),
                2 => P::Group(vec![q, P::Empty]),
                3 => P::Plus(Box::new(q)),
                _ => q,
            });
        }
        defs.push(match r.below(5) {
            0 | 1 => P::Empty,
            2 => P::Star(Box::new(P::Elem(name(r), Box::new(P::Empty)))),
            3 => P::Elem(name(r), Box::new(P::Empty)),
            _ => P::Choice(vec![P::Elem(name(r), Box::new(P::Empty)), P::Ref(first + len)]),
        });
        if let Some(P::Choice(v)) = defs.last_mut() {
            v[1] = P::Empty;
        }
        // (the definition itself, within an element, perhaps by way of the other)
        let to = r.below(n);
        let inner = match r.below(5) {
            0 | 1 => P::Group(vec![P::Ref(to), P::Ref(first)]),
            2 => P::Inter(vec![P::Ref(first), P::Ref(to)]),
            3 => P::Group(vec![P::Ref(to), P::Star(Box::new(P::Elem(name(r), Box::new(P::Empty))))]),
            _ => P::Ref(to),
        };
        let inner = if r.pct(10) { P::Plus(Box::new(inner)) } else { inner };
        let e = P::Elem(name(r), Box::new(inner));
        defs[i] = match r.below(6) {
            0 => P::Choice(vec![P::Ref(first), e]),
            1 => P::Group(vec![P::Opt(Box::new(e)), P::Ref(first)]),
            2 => P::Group(vec![P::Ref(first), P::Star(Box::new(e))]),
            3 => P::Inter(vec![P::Choice(vec![e, P::Empty]), P::Ref(first)]),
            _ => P::Choice(vec![e, P::Ref(first)]),
        };
    }
    let start = P::Elem(NC::Named("".into(), "r".into()), Box::new(if r.pct(60) { P::Ref(0) } else { P::Group(vec![P::Ref(n - 1), P::Ref(0)]) }));
    crate::compare(r, t, &m, Schema { start, defs });
}
/// files that put one another together, each with its own prefixes
fn own_prefixes(r: &mut Rnd, t: &mut Tally) {
    const DT: &str = "http://www.w3.org/2001/XMLSchema-datatypes";
    let n = r.range(2, 3);
    let mut ok = true;
    let mut files = vec![];
    let pool = ["p", "q"];
    let used = |r: &mut Rnd, ns: &[&str], dt: &[&str], ok: &mut bool, name: &str| -> String {
        // (mostly what is declared)
        let d = if !dt.is_empty() && r.pct(80) { *r.pick(dt) } else { *r.pick(&["xsd", "xsd", "xsd", "dt", "d2"]) };
        let p = if !ns.is_empty() && r.pct(80) { *r.pick(ns) } else if r.pct(80) { "xml" } else { *r.pick(&pool) };
        *ok &= (d == "xsd" || dt.contains(&d)) && (p == "xml" || ns.contains(&p));
        if r.pct(50) { format!("element {p}:{name} {{ {d}:int }}") } else { format!("element a {{ attribute {p}:{name} {{ {d}:string }} }}") }
    };
    let decls = |r: &mut Rnd| -> (Vec<&'static str>, Vec<&'static str>) {
        let pool = ["p", "q"];
        (pool.into_iter().filter(|_| r.pct(40)).collect(), ["dt", "d2"].into_iter().filter(|_| r.pct(40)).collect())
    };
    for i in 0..n {
        let (ns, dt) = decls(r);
        let mut s = String::new();
        for p in &ns {
            s.push_str(&format!("namespace {p} = \"urn:{p}{}\"\n", r.below(2)));
        }
        for d in &dt {
            s.push_str(&format!("datatypes {d} = \"{DT}\"\n"));
        }
        let mine = used(r, &ns, &dt, &mut ok, "e");
        if i + 1 == n {
            s.push_str(&if i > 0 && r.pct(50) { format!("start = r{i}\nr{i} = {mine}\nover{i} = empty\n") } else { format!("start |= r{i}\nr{i} = {mine}\nover{i} = notAllowed\n") });
            if i == 0 {
                s = s.replace("|=", "=");
            }
        } else {
            let next = i + 1;
            let inherit = if r.pct(30) {
                let p = if !ns.is_empty() && r.pct(90) { *r.pick(&ns) } else { *r.pick(&["p", "q", "xml"]) };
                ok &= p == "xml" || ns.contains(&p);
                format!(" inherit = {p}")
            } else {
                String::new()
            };
            if r.pct(70) {
                // (overriding all that the start of the next file might be)
                let o = used(r, &ns, &dt, &mut ok, "o");
                let over = format!("start = top{i}\nover{next} = {o}");
                let over = match r.below(4) {
                    0 => format!("div {{ {over} }}"),
                    1 => format!("div {{ start = top{i} }} over{next} |= {o}\nover{next} |= notAllowed"),
                    _ => over,
                };
                s.push_str(&format!("include \"f{next}.rnc\"{inherit} {{ {over} }}\ntop{i} = element top {{ over{next}, r{next} }}\nr{i} = {mine}\nover{i} = empty\n"));
            } else {
                s.push_str(&format!("start = r{i}\nr{i} = element b {{ ({mine})?, external \"f{next}.rnc\"{inherit} }}\nover{i} = empty\n"));
            }
        }
        files.push((if i == 0 { "main0.rnc".to_string() } else { format!("f{i}.rnc") }, s));
    }
    t.schemas += 1;
    t.check(&files, None, if ok { "schema-ok" } else { "schema-error" });
}
fn mistake(p: &str, r: &mut Rnd, t: &mut Tally, kinds: &[usize]) {
    let m = mode(p, r).unwrap();
    let mut sch = Gen::schema(r, m.cfg.clone());
    let kind = *r.pick(kinds);
    let raw = |a: &str, b: &str| P::Raw(a.to_string(), b.to_string());
    let pat = match kind {
        5 => Some(raw("nowhere", "<%ref name=\"nowhere\"/>")),
        6 => Some(match r.below(3) {
            0 => raw("xsd:nosuch", "<%data type=\"nosuch\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"/>"),
            1 => raw("list { xsd:nosuch* }", "<%list><%zeroOrMore><%data type=\"nosuch\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"/></%zeroOrMore></%list>"),
            _ => raw("attribute qa { xsd:nosuch }", "<%attribute name=\"qa\"><%data type=\"nosuch\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"/></%attribute>"),
        }),
        7 => Some(match r.below(4) {
            0 => raw("attribute qa { element qe { empty } }", "<%attribute name=\"qa\"><%element name=\"qe\"><%empty/></%element></%attribute>"),
            1 => raw("attribute qa { text | element qe { empty } }", "<%attribute name=\"qa\"><%choice><%text/><%element name=\"qe\"><%empty/></%element></%choice></%attribute>"),
            2 => raw("attribute qa { (text, (element qe { text })*)? }", "<%attribute name=\"qa\"><%optional><%text/><%zeroOrMore><%element name=\"qe\"><%text/></%element></%zeroOrMore></%optional></%attribute>"),
            _ => raw("(text, attribute qa { mixed { element * { empty }+ } })", "<%group><%text/><%attribute name=\"qa\"><%mixed><%oneOrMore><%element><%anyName/><%empty/></%element></%oneOrMore></%mixed></%attribute></%group>"),
        }),
        9 => Some(raw("attribute qa { external \"missing.rnc\" }", "<%externalRef href=\"missing.rng\"/>")),
        11 => Some(raw("nosuchlib:int", "<%data type=\"int\" datatypeLibrary=\"http://example.com/nosuchlib\"/>")),
        10 => Some(match r.below(6) {
            0 => raw("element undecl:x { empty }", "<%element name=\"undecl:x\"><%empty/></%element>"),
            1 => raw("attribute undecl:x { text }", "<%attribute name=\"undecl:x\"/>"),
            2 => raw("element * - undecl:x { empty }", "<%element><%anyName><%except><%name>undecl:x</%name></%except></%anyName><%empty/></%element>"),
            3 => raw("element (a | undecl:x) { empty }", "<%element><%choice><%name>a</%name><%name>undecl:x</%name></%choice><%empty/></%element>"),
            4 => raw("attribute * - (xml:* | undecl:x) { text }+", "<%oneOrMore><%attribute><%anyName><%except><%name>undecl:x</%name></%except></%anyName></%attribute></%oneOrMore>"),
            _ => raw("element undecl:x { element y { text } }", "<%element><%name>undecl:x</%name><%text/></%element>"),
        }),
        16 => Some({
            // in the library without a name there are but two types
            let x = "http://www.w3.org/2001/XMLSchema-datatypes";
            let d = *r.pick(&["<%data type=\"int\"AT/>", "<%value type=\"integer\"AT>1</%value>", "<%data type=\"NCName\"AT/>"]);
            let g = match r.below(4) {
                0 => d.replace("AT", " datatypeLibrary=\"\""),
                1 => format!("<%attribute name=\"qa\" datatypeLibrary=\"\">{}</%attribute>", d.replace("AT", "")),
                2 => format!("<%group datatypeLibrary=\"{x}\"><%attribute name=\"qa\" datatypeLibrary=\"\">{}</%attribute></%group>", d.replace("AT", "")),
                _ => format!("<%optional datatypeLibrary=\"\"><%attribute name=\"qa\"><%list>{}</%list></%attribute></%optional>", d.replace("AT", "")),
            };
            raw("xsd:nosuch", &g)
        }),
        12 => Some(raw("attribute qa { parent nowhere }", "<%attribute name=\"qa\"><%parentRef name=\"nowhere\"/></%attribute>")),
        _ => None,
    };
    if let Some(x) = pat {
        if !put_pattern(r, &mut sch, x) {
            return;
        }
    }
    let mut k = m.k.clone();
    if kind == 12 {
        // parent reference without an enclosing grammar
        k.grammar = 0;
    }
    if kind == 20 {
        // definitions that refer to one another without an element in between
        let n = r.range(1, 3);
        let first = sch.defs.len();
        for i in 0..n {
            let depth = r.range(0, 3);
            let q = P::Ref(first + (i + 1) % n);
            let q = if r.pct(10) { P::Group(vec![P::Att(NC::Named("".into(), "w".into()), Box::new(P::Text)), q]) } else { q };
            let q = wrap(r, q, depth);
            sch.defs.push(q);
        }
        // (reachable from anywhere: within a list or the value of an attribute too, where there are no elements)
        let x = if r.pct(35) {
            for i in 0..n {
                let depth = r.range(0, 2);
                sch.defs[first + i] = wrap_data(r, P::Ref(first + (i + 1) % n), depth);
            }
            let depth = r.range(0, 2);
            let to = first + r.below(n);
            let q = wrap_data(r, P::Ref(to), depth);
            if r.pct(50) { P::List(Box::new(q)) } else { P::Att(NC::Named("".into(), "qa".into()), Box::new(q)) }
        } else {
            let depth = r.range(0, 2);
            let to = first + r.below(n);
            wrap(r, P::Ref(to), depth)
        };
        if !put_pattern(r, &mut sch, x) {
            return;
        }
    }
    let mut fs = present(r, &k, &sch);
    // mistakes in the way grammars are put together
    if pat_kind(kind) {
        let extra = fs.len();
        let with_grammar: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i], FileS::Grammar(_))).collect();
        if with_grammar.is_empty() {
            return;
        }
        // (definitions of files that are only included may be overridden: the main file, where it is a grammar)
        let f = if matches!(fs[0], FileS::Grammar(_)) { 0 } else { return };
        let mut add: Vec<FileS> = vec![];
        let v = match &mut fs[f] {
            FileS::Grammar(v) => v,
            _ => unreachable!(),
        };
        let def = |n: &str, op| G::Def(n.to_string(), op, S::Empty);
        let nest = |r: &mut Rnd, g: G| match r.below(3) {
            0 => G::Div(vec![g]),
            1 => G::Div(vec![G::Div(vec![g])]),
            _ => g,
        };
        match kind {
            1 => {
                // two plain definitions
                let mut defs = vec![def("dup1", Op::Assign), def("dup1", Op::Assign)];
                let op = if r.pct(50) { Op::Choice } else { Op::Inter };
                for _ in 0..r.below(3) {
                    defs.push(def("dup1", op));
                }
                r.shuffle(&mut defs);
                let inc = r.pct(20);
                for g in defs {
                    let i = r.below(v.len() + 1);
                    let g = nest(r, g);
                    if inc && add.is_empty() {
                        add.push(FileS::Grammar(vec![g]));
                        v.insert(i, G::Include(extra, vec![]));
                    } else {
                        v.insert(i, g);
                    }
                }
            }
            2 => {
                // both ways of combining
                let mut defs = vec![def("dup1", Op::Choice), def("dup1", Op::Inter)];
                let op = *r.pick(&[Op::Choice, Op::Inter, Op::Assign]);
                for _ in 0..r.below(2) {
                    defs.push(def("dup1", op));
                }
                r.shuffle(&mut defs);
                for g in defs {
                    let i = r.below(v.len() + 1);
                    let g = nest(r, g);
                    v.insert(i, g);
                }
            }
            3 => {
                // an override of something that the included grammar lacks
                add.push(FileS::Grammar(vec![def("there", Op::Assign), def("also", Op::Choice)]));
                let mut over = vec![def("nosuchdef", *r.pick(&[Op::Assign, Op::Choice]))];
                if r.pct(50) {
                    over.insert(r.below(2), def("there", Op::Assign));
                }
                if r.pct(50) {
                    v.push(def("nosuchdef2", Op::Assign));
                }
                let i = r.below(v.len() + 1);
                v.insert(i, G::Include(extra, over));
            }
            4 => {
                // the included file is not a grammar
                add.push(FileS::Pattern(S::Elem(NC::Named("".into(), "a".into()), Box::new(S::Empty))));
                let i = r.below(v.len() + 1);
                let g = nest(r, G::Include(extra, vec![]));
                v.insert(i, g);
            }
            8 => {
                // no start: nothing but a grammar without one
                let only: Vec<G> = v.drain(..).filter(|g| matches!(g, G::Def(n, _, _) if n != "start")).collect();
                *v = only;
                fs.truncate(1);
                let keep = match &mut fs[0] {
                    FileS::Grammar(v) => v,
                    _ => unreachable!(),
                };
                // (only self-contained definitions, so that nothing else is wrong)
                keep.clear();
                keep.push(def("foo", Op::Assign));
                if r.pct(50) {
                    keep.push(G::Def("begin".into(), Op::Choice, S::Text));
                }
            }
            13 => {
                // files that include one another for ever
                let n = r.range(1, 3);
                for j in 0..n {
                    let next = extra + (j + 1) % n;
                    let mut c = vec![def(&format!("rec{j}"), Op::Choice), G::Include(next, vec![])];
                    if r.pct(30) {
                        c = vec![G::Div(c)];
                    }
                    add.push(FileS::Grammar(c));
                }
                let i = r.below(v.len() + 1);
                v.insert(i, G::Include(extra, vec![]));
            }
            15 => {
                // an attribute that contains an element, within grammars and files
                // (references and grammars within the attribute are not looked into: a known finding)
                let mut x = S::Elem(NC::Named("".into(), "qe".into()), Box::new(S::Empty));
                for _ in 0..r.below(4) {
                    x = match r.below(8) {
                        0 => S::Opt(Box::new(x)),
                        1 => S::Choice(vec![S::Text, x]),
                        2 => S::Star(Box::new(x)),
                        3 => S::List(Box::new(x)),
                        4 | 5 => {
                            add.push(FileS::Pattern(x));
                            S::External(extra + add.len() - 1)
                        }
                        6 => S::Group(vec![x, S::Text]),
                        _ => S::Inter(vec![S::Text, x]),
                    };
                }
                let mut a = S::Att(NC::Named("".into(), "qa".into()), Box::new(x));
                for _ in 0..r.below(3) {
                    a = match r.below(6) {
                        0 => S::Opt(Box::new(a)),
                        1 => S::Elem(NC::Named("".into(), "b".into()), Box::new(a)),
                        2 => S::Grammar(vec![G::Def("start".into(), Op::Assign, a)]),
                        3 => S::Grammar(vec![G::Def("inner".into(), Op::Assign, a), G::Def("start".into(), Op::Assign, S::Ref("inner".into()))]),
                        4 => {
                            add.push(FileS::Grammar(vec![G::Def("start".into(), Op::Assign, a)]));
                            let f = extra + add.len() - 1;
                            if r.pct(50) { S::External(f) } else { S::Grammar(vec![G::Include(f, vec![])]) }
                        }
                        _ => {
                            add.push(FileS::Pattern(a));
                            S::External(extra + add.len() - 1)
                        }
                    };
                }
                let e = S::Elem(NC::Named("".into(), "a".into()), Box::new(if r.pct(50) { a } else { S::Opt(Box::new(a)) }));
                v.push(G::Def("holder".into(), Op::Assign, e));
                v.push(G::Def("start".into(), Op::Choice, S::Ref("holder".into())));
                if starts(v) {
                    return;
                }
            }
            14 => {
                // a nested grammar without start
                let g = S::Grammar(vec![def("foo", Op::Assign)]);
                let e = S::Elem(NC::Named("".into(), "a".into()), Box::new(if r.pct(50) { g } else { S::Opt(Box::new(g)) }));
                v.push(G::Def("holder".into(), Op::Assign, e));
                v.push(G::Def("start".into(), Op::Choice, S::Ref("holder".into())));
                if starts(v) {
                    return;
                }
            }
            _ => {}
        }
        fs.extend(add);
    }
    let xml = r.pct(m.xml.max(if p == "C11" { 0 } else { 30 }));
    let files = if xml { rng(r, &k, &fs) } else { rnc(r, &k, &fs) };
    t.schemas += 1;
    t.check(&files, None, "schema-error");
}
/// are there interleaved starts?
fn starts(v: &[G]) -> bool {
    v.iter().any(|g| match g {
        G::Def(n, op, _) => n == "start" && *op == Op::Inter,
        G::Div(v) => starts(v),
        G::Include(_, v) => starts(v),
    })
}
fn pat_kind(k: usize) -> bool {
    matches!(k, 1 | 2 | 3 | 4 | 8 | 13 | 14 | 15)
}
