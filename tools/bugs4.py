V='relaxng-validator/src/lib.rs'; M='relaxng-model/src/lib.rs'; C='relaxng-syntax/src/compact.rs'; XM='relaxng-syntax/src/xml.rs'
RNG='xmlns="http://relaxng.org/ns/structure/1.0"'
def T(n): return f'<grammar {RNG}><start><ref name="x"/></start><define name="x"><element name="{n}"><empty/></element></define></grammar>'
BUGS=[
dict(id='c17-base-outer',property='C17',needs='four xml:base attributes on the elements around a reference to another file',
 breaks='of the xml:base attributes around a reference only the three nearest count',
 edits=[(XM,'''    for base in bases.iter().rev() {''','''    for base in bases.iter().rev().skip(bases.len().saturating_sub(3)) {''')],
 xml=True,
 files={'a.rng':f'<grammar {RNG} xml:base="p/"><start xml:base="q/"><element name="r" xml:base="s/"><group xml:base="u/"><externalRef href="z.rng"/></group></element></start></grammar>',
  'p/q/s/u/z.rng':T('t'),'q/s/u/z.rng':T('d'),'d.xml':'<r><t/></r>','e.xml':'<r><d/></r>'},
 cases=[('a.rng','d.xml',0),('a.rng','e.xml',2)]),
dict(id='c16-rng-prefix',property='C16',needs='a name with a prefix that is bound to the namespace of RELAX NG itself, as in a schema for schemas',
 breaks='a prefix bound to the namespace of RELAX NG counts as not declared where a name uses it',
 edits=[(XM,'''            .find(|ns| ns.name() == prefix)''','''            .find(|ns| ns.name() == prefix && !is_rng(Some(ns.uri())))''')],
 xml=True,
 files={'a.rng':'<r:element name="r:grammar" xmlns:r="http://relaxng.org/ns/structure/1.0"><r:empty/></r:element>',
  'd.xml':f'<grammar {RNG}/>','e.xml':'<grammar/>'},
 cases=[('a.rng','d.xml',0),('a.rng','e.xml',2)]),
dict(id='c17-two-foreign',property='C17',needs='two foreign elements one after the other between two patterns',
 breaks='what follows two foreign elements in a row is not read',
 edits=[(XM,'''    let mut child = node.next_sibling_element();
    // TODO: error on non-whitespace text nodes?
    while let Some(node) = child {
        if is_rng_node(node) {
            return Some(node);
        }
        child = node.next_sibling_element();
    }
    None
}
fn element(''','''    let child = node.next_sibling_element()?;
    // TODO: error on non-whitespace text nodes?
    if is_rng_node(child) {
        return Some(child);
    }
    child.next_sibling_element().filter(|c| is_rng_node(*c))
}
fn element(''')],
 xml=True,
 files={'a.rng':f'<element name="r" {RNG} xmlns:f="urn:f"><choice><element name="a"><empty/></element><f:x/><element name="b"><empty/></element><f:x/><!-- --><f:y/><element name="c"><empty/></element></choice></element>',
  'd.xml':'<r><b/></r>','e.xml':'<r><c/></r>'},
 cases=[('a.rng','d.xml',0),('a.rng','e.xml',0)]),
dict(id='c12-override-nested',property='C12',needs='an override of a name that is defined not in the included file but in one which that includes in turn',
 breaks='an override does not replace what comes from an include within the included file',
 edits=[(M,'''                    overrides.get_mut(id).unwrap().1 = true;
                    Ok(())
                } else {
                    parent.define(id, rule)
                }''','''                    overrides.get_mut(id).unwrap().1 = true;
                    Ok(())
                } else {
                    match parent {
                        Context::Include { parent, overrides, .. }
                            if !overrides.borrow().contains_key(id)
                                || matches!(rule, model::DefineRule::CombineOnly(..)) =>
                        {
                            if let Some(o) = overrides.borrow_mut().get_mut(id) {
                                o.1 = true;
                            }
                            parent.define(id, rule)
                        }
                        _ => parent.define(id, rule),
                    }
                }''')],
 files={'a.rnc':'start = element r { x }\ninclude "b.rnc" { x |= element new { empty } }\n','b.rnc':'include "c.rnc"\n','c.rnc':'x |= element old { empty }\n',
  'd.xml':'<r><new/></r>','e.xml':'<r><old/></r>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',2)]),
dict(id='c19-supplementary',property='C19',needs='a name whose first character is an ideograph of plane 14 in a compact schema',
 breaks='names that start with a character of the last plane that names may use are refused',
 edits=[(C,"char_in('\\u{10000}'..='\\u{EFFFF}'),","char_in('\\u{10000}'..='\\u{DFFFF}'),")],
 files={'a.rnc':'start = element \U000e0100x { empty }\n','b.rnc':'start = element \U00020000x { empty }\n','d.xml':'<\U000e0100x/>','e.xml':'<\U00020000x/>'},
 cases=[('a.rnc','d.xml',0),('b.rnc','e.xml',0)]),
]
