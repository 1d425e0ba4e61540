V='relaxng-validator/src/lib.rs'; M='relaxng-model/src/lib.rs'; C='relaxng-syntax/src/compact.rs'; XM='relaxng-syntax/src/xml.rs'
RNG='xmlns="http://relaxng.org/ns/structure/1.0"'
DT='datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes"'
BUGS=[
dict(id='c11-prefix-from-includer',property='C11',needs='an included file that uses a prefix which only the including file declares',
 breaks='a prefix that the included file does not declare is looked up in the file that includes it',
 edits=[(M,'''            Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                namespaces.get(prefix).map(|s| &s[..])
            }''','''            Context::Root { namespaces, .. } => namespaces.get(prefix).map(|s| &s[..]),
            Context::Include {
                parent, namespaces, ..
            } => match namespaces.get(prefix) {
                Some(s) => Some(&s[..]),
                None => parent.namespace_uri_for_prefix_str(prefix),
            },''')],
 files={'main.rnc':'namespace p = "urn:a"\ninclude "inc.rnc"\nstart = x | element p:s { empty }\n','inc.rnc':'x = element p:r { empty }\n','ok.rnc':'namespace p = "urn:b"\ninclude "inc2.rnc"\nstart = x | element p:s { empty }\n','inc2.rnc':'namespace p = "urn:a"\nx = element p:r { empty }\n','d.xml':'<r xmlns="urn:a"/>'},
 cases=[('main.rnc',None,'bad'),('ok.rnc','d.xml',0)]),
dict(id='c17-nested-div-override',property='C17',needs='an include whose redefinitions stand in a div within a div, with one more after the inner div',
 breaks='only the inner div of an include is read when a div starts with another',
 edits=[(XM,'"div" => div_include_content(node),','"div" => div_include_content(\n                node.first_element_child()\n                    .filter(|c| is_el(*c, "div"))\n                    .unwrap_or(node),\n            ),')],
 files={'main.rng':f'<grammar {RNG}><include href="inc.rng"><div><div><define name="x"><element name="x2"><empty/></element></define></div><define name="y"><element name="y2"><empty/></element></define></div></include><start><element name="r"><ref name="x"/><ref name="y"/></element></start></grammar>',
  'inc.rng':f'<grammar {RNG}><define name="x"><element name="x"><empty/></element></define><define name="y"><element name="y"><empty/></element></define></grammar>',
  'd.xml':'<r><x2/><y2/></r>','e.xml':'<r><x2/><y/></r>'},
 cases=[('main.rng','d.xml',0),('main.rng','e.xml',2)]),
dict(id='c07-surrogate',property='C07',needs='a character reference to a code point that is not a character, such as a surrogate',
 breaks='a reference to something that is no character is taken for the replacement character',
 edits=[(V,'''            std::char::from_u32(c)
                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,''','''            std::char::from_u32(c).unwrap_or(std::char::REPLACEMENT_CHARACTER),''')],
 files={'a.rnc':'start = element r { text }\n','d.xml':'<r>a&#xD800;b</r>','e.xml':'<r>a&#x1F600;b</r>'},
 cases=[('a.rnc','d.xml','bad'),('a.rnc','e.xml',0)]),
dict(id='c06-undeclared-default',property='C06',needs='a default namespace that is undeclared with xmlns="" below an element that declares it',
 breaks='xmlns="" does not hide the default namespace that an outer element declares',
 edits=[(V,'''            .find_map(|elem| elem.lookup_namespace_uri(prefix))''','''            .filter_map(|elem| elem.lookup_namespace_uri(prefix))
            .find(|uri| !uri.as_str().is_empty())''')],
 files={'a.rnc':'namespace a = "urn:a"\nstart = element a:r { element c { empty } | element a:d { empty } }\n','d.xml':'<r xmlns="urn:a"><c xmlns=""/></r>','e.xml':'<r xmlns="urn:a"><d/></r>','f.xml':'<r xmlns="urn:a"><d xmlns=""/></r>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0),('a.rnc','f.xml',2)]),
dict(id='c03-list-blank',property='C03',needs='a list that needs a token in an element with nothing but white space',
 breaks='white space is taken for a list that cannot be empty',
 edits=[(V,'if pat.is_nullable() && is_whitespace_str(val) {','if is_whitespace_str(val) && (pat.is_nullable() || matches!(pat, Pat::List(_))) {')],
 files={'a.rnc':'start = element r { attribute a { list { xsd:int+ } } }\n','d.xml':'<r a=" "/>','e.xml':'<r a=" 1 2 "/>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c02-same-attribute-group',property='C02',needs='a group of the same pattern twice, each with optional attributes, and a document that gives both',
 breaks='of a pattern that stands twice in a group, only the first takes attributes',
 edits=[(V,'''                let s2 = schema.group(p1, d2);
                schema.choice(s1, s2)''','''                if p1 == p2 && schema.patt(s1) != Pat::NotAllowed {
                    return s1;
                }
                let s3 = schema.group(p1, d2);
                schema.choice(s1, s3)''')],
 files={'a.rnc':'start = element r { x, x }\nx = (attribute a { text }, element y { empty }) | (attribute * - a { text }?, element z { empty })\n','b.rnc':'start = element r { x, x }\nx = element y { empty } | (attribute * { text }, element z { empty })\n',
  'd.xml':'<r b="1"><y/><z/></r>','e.xml':'<r b="1"><z/><y/></r>'},
 cases=[('b.rnc','e.xml',0),('b.rnc','d.xml',0)]),
]
