V='relaxng-validator/src/lib.rs'; X='relaxng-model/src/datatype/xsd.rs'; R='relaxng-model/src/datatype/relax.rs'; M='relaxng-model/src/lib.rs'; C='relaxng-syntax/src/compact.rs'; XM='relaxng-syntax/src/xml.rs'
BUGS=[
dict(id='c01-interleave-second',property='C01',needs='an interleave both of whose members start with an element of the same name, where the child is the one of the second member',
 breaks='once the first member can take a child, the second member is not tried',
 edits=[(V,'''                    schema.interleave(pid1, pat)
                });
                schema.choice(c1, c2)''','''                    schema.interleave(pid1, pat)
                });
                match schema.patt(c1) {
                    Pat::NotAllowed => c2,
                    _ => c1,
                }''')],
 files={'a.rnc':'start = element r { element b { empty } & element b { element c { empty } } }\n','d.xml':'<r><b><c/></b><b/></r>','e.xml':'<r><b/><b><c/></b></r>','f.xml':'<r><b/><b/></r>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0),('a.rnc','f.xml',2)]),
dict(id='c02-interleave-attr-second',property='C02',needs='attributes in an interleave below a choice, the first attribute matched by both members',
 breaks='an attribute that the first member of an interleave takes is never given to the second',
 edits=[(V,'''                let i2 = schema.interleave(p1, d2);
                schema.choice(i1, i2)''','''                let i2 = schema.interleave(p1, d2);
                if schema.patt(i1).is_nullable() {
                    i1
                } else {
                    schema.choice(i1, i2)
                }''')],
 files={'a.rnc':'start = element r { (attribute a { text }, element x { empty })? & attribute * - b { text }? }\n','b.rnc':'start = element r { attribute * { text }* & (attribute a { text }, element x { empty })? }\n','d.xml':'<r a="1"><x/></r>'},
 cases=[('b.rnc','d.xml',0),('a.rnc','d.xml',0)]),
dict(id='c03-list-group',property='C03',needs='a list whose first member is nullable and can also take the token that the second member needs',
 breaks='the second member of a group is tried on a token only if the first cannot take it',
 edits=[(V,'''                if nullable {
                    let d2 = Self::text_deriv(pat2, schema, text);
                    schema.choice(p, d2)''','''                if nullable && schema.patt(p) == Pat::NotAllowed {
                    let d2 = Self::text_deriv(pat2, schema, text);
                    schema.choice(p, d2)''')],
 files={'a.rnc':'start = element r { list { xsd:int*, xsd:int } }\n','d.xml':'<r>1 2 3</r>','e.xml':'<r>1</r>','f.xml':'<r/>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0),('a.rnc','f.xml',2)]),
dict(id='c09-mix-after-assign',property='C09',needs='three definitions of a name: =, then &=, then |=',
 breaks='a mixture of |= and &= goes unreported when a plain definition comes first',
 edits=[(M,'''                Ok(DefineRule::AssignCombine(
                    this,
                    Some(CombineRule::Interleave),
                    result,
                ))''','''                Ok(DefineRule::AssignCombine(this, None, result))''')],
 files={'a.rnc':'start = element r { x }\nx = element a { empty }\nx &= element b { empty }\nx |= element c { empty }\n','b.rnc':'start = element r { x }\nx = element a { empty }\nx |= element b { empty }\nx |= element c { empty }\n','d.xml':'<r><c/></r>'},
 cases=[('a.rnc',None,'bad'),('b.rnc','d.xml',0)]),
dict(id='c09-body-of-group',property='C09',needs='an &= definition whose body is a group, given after the plain one',
 breaks='the members of a group are interleaved one by one with the other bodies',
 edits=[(M,'''            if let Pattern::Interleave(mut other) = c {
                this.append(&mut other)
            } else {
                this.push(c)
            }''','''            if let Pattern::Interleave(mut other) = c {
                this.append(&mut other)
            } else if let Pattern::Group(mut other) = c {
                this.append(&mut other)
            } else {
                this.push(c)
            }''')],
 files={'a.rnc':'start = element r { x }\nx &= element c { empty }\nx = element a { empty }, element b { empty }\n','d.xml':'<r><b/><a/><c/></r>','e.xml':'<r><a/><c/><b/></r>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c10-interleave-group',property='C10',needs='a parenthesised group as the last member of an interleave of a certain shape',
 breaks='the order of the members of a group is lost when it stands last in an interleave whose other member is an interleave',
 edits=[(M,'''        let mut i = vec![];
        match a {
            Pattern::Interleave(mut v) => i.append(&mut v),
            _ => i.push(a),
        }
        match b {
            Pattern::Interleave(mut v) => i.append(&mut v),
            _ => i.push(b),
        }''','''        let mut i = vec![];
        match a {
            Pattern::Interleave(mut v) => i.append(&mut v),
            _ => i.push(a),
        }
        match b {
            Pattern::Interleave(mut v) => i.append(&mut v),
            Pattern::Group(mut v) if i.len() > 1 => i.append(&mut v),
            _ => i.push(b),
        }''')],
 files={'a.rnc':'start = element r { element a { empty } & element b { empty } & (element c { empty }, element d { empty }) }\n','b.rnc':'start = element r { (element a { empty } & element b { empty }) & (element c { empty }, element d { empty }) }\n','d.xml':'<r><a/><d/><b/><c/></r>','e.xml':'<r><c/><a/><d/><b/></r>'},
 cases=[('a.rnc','d.xml',2),('b.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c11-attr-except-default',property='C11',needs='a default namespace and an unprefixed name in the except of an attribute wildcard',
 breaks='the unprefixed name in the except takes the default namespace',
 edits=[(M,'''                Ok(model::NameClass::any_name(if let Some(except) = except {
                    Some(self.compile_nameclass(ctx, elem_attr, except)?)''','''                Ok(model::NameClass::any_name(if let Some(except) = except {
                    Some(self.compile_nameclass(ctx, ElemAttr::Element, except)?)''')],
 files={'a.rnc':'default namespace = "urn:d"\nstart = element r { attribute * - x { text }* }\n','d.xml':'<r xmlns="urn:d" x="1"/>','e.xml':'<r xmlns="urn:d" y="1"/>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c12-override-first',property='C12',needs='an override of a name that the included grammar defines in two pieces with |=',
 breaks='only the first of the definitions of an overridden name is replaced',
 edits=[(M,'''                if overrides.contains_key(id) {
                    overrides.get_mut(id).unwrap().1 = true;
                    Ok(())
                } else {''','''                if overrides.get(id).is_some_and(|o| !o.1) {
                    overrides.get_mut(id).unwrap().1 = true;
                    Ok(())
                } else {''')],
 files={'a.rnc':'include "b.rnc" { x |= element z { empty } }\n','b.rnc':'start = element r { x }\nx |= element a { empty }\nx |= element b { empty }\n','d.xml':'<r><b/></r>','e.xml':'<r><z/></r>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c18-cycle-in-attribute',property='C18',needs='two definitions that refer to each other, reachable only from within an attribute',
 breaks='what the value of an attribute refers to is not checked',
 edits=[(M,'''            | Pattern::Attribute(_, p)
            | Pattern::Element(_, p)
            | Pattern::List(p) => self.check(seen, p)?,
            Pattern::Empty''','''            | Pattern::Element(_, p)
            | Pattern::List(p) => self.check(seen, p)?,
            Pattern::Attribute(_, _)
            | Pattern::Empty''')],
 files={'a.rnc':'start = element r { attribute a { x } }\nx = "1" | y\ny = "2" | x\n','b.rnc':'start = element r { attribute a { x } }\nx = "1" | y\ny = "2"\n','d.xml':'<r a="2"/>'},
 cases=[('a.rnc',None,1),('b.rnc','d.xml',0)]),
dict(id='c18-nested-attribute',property='C18',needs='an element inside an attribute with a definition or include between them',
 breaks='an element within a list within an attribute of an external file is not reported',
 edits=[(M,'''            Context::Root { .. } | Context::Grammar { .. } => None,
            Context::Attribute { span, .. } => Some(*span),
            Context::Include { parent, .. }
            | Context::IncludeOverrides { parent }''','''            Context::Root { .. } | Context::Grammar { .. } | Context::Include { .. } => None,
            Context::Attribute { span, .. } => Some(*span),
            Context::IncludeOverrides { parent }''')],
 files={'a.rnc':'start = element r { attribute a { external "b.rnc" } }\n','b.rnc':'element x { empty }\n','c.rnc':'start = element r { attribute a { external "d.rnc" } }\n','d.rnc':'"v"\n','d.xml':'<r a="v"/>'},
 cases=[('a.rnc',None,1),('c.rnc','d.xml',0)]),
dict(id='c05-cycle-in-list',property='C05',needs='two definitions that refer to each other, reachable only from within a list',
 breaks='what a list refers to is not checked for recursion, and compiling the schema for validation never ends',
 edits=[(M,'''            | Pattern::Element(_, p)
            | Pattern::List(p) => self.check(seen, p)?,
            Pattern::Empty''','''            | Pattern::Element(_, p) => self.check(seen, p)?,
            Pattern::List(_)
            | Pattern::Empty''')],
 files={'a.rnc':'start = element r { list { x } }\nx = "1" | y\ny = "2" | x\n','b.rnc':'start = element r { list { x } }\nx = "1" | y\ny = "2"\n','d.xml':'<r>2</r>'},
 cases=[('a.rnc',None,1),('b.rnc','d.xml',0)]),
dict(id='c06-xmlns-last',property='C06',needs='xmlns="" inside an element that has a default namespace',
 breaks='xmlns="" does not undo the default namespace',
 edits=[(V,'''            .find(|ns| ns.prefix.as_str() == prefix)
            .map(|ns| ns.namespace_uri)''','''            .find(|ns| ns.prefix.as_str() == prefix && !ns.namespace_uri.is_empty())
            .map(|ns| ns.namespace_uri)''')],
 files={'a.rnc':'namespace p = "urn:p"\nstart = element p:a { element b { empty } }\n','d.xml':'<a xmlns="urn:p"><b xmlns=""/></a>','e.xml':'<a xmlns="urn:p"><b/></a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',2)]),
dict(id='c08-interleave-rev',property='C08',needs='an interleave of three members, the first of which may be empty and the last not',
 breaks='an interleave is nullable as soon as its left member is',
 edits=[(V,'''            (l, r) => self.push(Pat::Interleave(
                left,
                right,
                l.is_nullable() && r.is_nullable(),
            )),''','''            (l, r) => self.push(Pat::Interleave(
                left,
                right,
                match r {
                    Pat::Interleave(_, _, _) => l.is_nullable(),
                    _ => l.is_nullable() && r.is_nullable(),
                },
            )),''')],
 files={'a.rnc':'start = element r { element a { empty }? & element b { empty }? & element c { empty } }\n','d.xml':'<r/>','e.xml':'<r><c/></r>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',0)]),
dict(id='c16-nsname-own',property='C16',needs='<nsName/> that inherits its ns attribute',
 breaks='nsName takes its namespace from its own ns attribute only',
 edits=[(XM,'''    let ns = get_ns(node);
    let except = if''','''    let ns = rng_attribute(node, "ns")
        .or_else(|| node.parent_element().and_then(|p| rng_attribute(p, "ns")))
        .map(|ns| Literal::new(ns.range_value(), ns.value().to_string()));
    let except = if''')],
 files={'a.rng':'<element xmlns="http://relaxng.org/ns/structure/1.0" ns="urn:a"><choice><nsName/><name>r</name></choice><empty/></element>','d.xml':'<x xmlns="urn:a"/>','e.xml':'<x/>'},
 cases=[('a.rng','d.xml',0),('a.rng','e.xml',2)]),
dict(id='c17-except-three',property='C17',needs='a data except of three or more children',
 breaks='the middle children of a data except form a group',
 edits=[(XM,'''        let this = pattern(next)?;
        node = next;
        pat = Pattern::ChoicePair(Box::new(pat), Box::new(this));''','''        let this = pattern(next)?;
        node = next;
        pat = match pat {
            Pattern::ChoicePair(a, b) => {
                Pattern::ChoicePair(a, Box::new(Pattern::ListPair(b, Box::new(this))))
            }
            pat => Pattern::ChoicePair(Box::new(pat), Box::new(this)),
        };''')],
 files={'a.rng':'<element name="r" xmlns="http://relaxng.org/ns/structure/1.0"><data type="token"><except><value>a</value><value>b</value><value>c</value></except></data></element>','d.xml':'<r>b</r>','e.xml':'<r>d</r>'},
 cases=[('a.rng','d.xml',2),('a.rng','e.xml',0)]),
]
