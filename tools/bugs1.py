V='relaxng-validator/src/lib.rs'; X='relaxng-model/src/datatype/xsd.rs'; R='relaxng-model/src/datatype/relax.rs'; M='relaxng-model/src/lib.rs'; C='relaxng-syntax/src/compact.rs'; XM='relaxng-syntax/src/xml.rs'
BUGS=[
dict(id='c13-exclusive-adjacent',property='C13',needs='minInclusive given after maxExclusive, both with the same number',
 breaks='an empty range is accepted as a schema when the two facets are written in that order',
 edits=[(X,'''            Max::Exclusive(max) => {
                if val >= *max {
                    return Err(FacetError::ConflictingFacet(
                        "minInclusive conflicts with maxExclusive",
                    ));
                }
            }
        }
        self.min = match self.min {
            Min::Unbounded => Min::Inclusive(val),''','''            Max::Exclusive(max) => {
                if val > *max {
                    return Err(FacetError::ConflictingFacet(
                        "minInclusive conflicts with maxExclusive",
                    ));
                }
            }
        }
        self.min = match self.min {
            Min::Unbounded => Min::Inclusive(val),''')],
 files={'a.rnc':'start = element a { xsd:int { maxExclusive="5" minInclusive="5" } }\n','b.rnc':'start = element a { xsd:int { maxExclusive="5" minInclusive="4" } }\n','d.xml':'<a>4</a>'},
 cases=[('a.rnc',None,'bad'),('b.rnc','d.xml',0)]),
dict(id='c13-long-through-f64',property='C13',needs='an xsd:unsignedLong value above i64::MAX',
 breaks='values in the upper half of the range of unsignedLong are refused',
 edits=[(X,'''                u64::from_str(value)
                    .ok()
                    .is_some_and(|v| min_max.is_valid(&v))''','''                i64::from_str(value)
                    .ok()
                    .and_then(|v| u64::try_from(v).ok())
                    .is_some_and(|v| min_max.is_valid(&v))''')],
 files={'a.rnc':'start = element a { xsd:unsignedLong }\n','d.xml':'<a>18446744073709551615</a>','e.xml':'<a>9223372036854775807</a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
dict(id='c14-bytes',property='C14',needs='a length facet and a value with characters outside ASCII',
 breaks='length facets count UTF-8 bytes once a minimum and a maximum are both given',
 edits=[(X,'''            LengthFacet::MinMaxLength(min, max) => *min <= actual && actual <= *max,''','''            LengthFacet::MinMaxLength(min, max) => (*min..=*max).contains(&value.len()),''')],
 files={'a.rnc':'start = element a { xsd:string { minLength="1" maxLength="3" } }\n','d.xml':'<a>\u00e9\u00e9\u00e9</a>','e.xml':'<a>abc</a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
dict(id='c04-alt-except',property='C04',needs='a choice of names in an except, where the name tested is the second one, under anyName',
 breaks='only the first alternative of an except clause of anyName is excluded',
 edits=[(V,'''            Some(nc) => !contains(nc, target_name),
        },''','''            Some(nc) => match &**nc {
                NameClass::Alt { a, .. } => !contains(a, target_name),
                nc => !contains(nc, target_name),
            },
        },''')],
 files={'a.rnc':'start = element * - (x | y) { empty }\n','d.xml':'<y/>','e.xml':'<x/>','f.xml':'<z/>'},
 cases=[('a.rnc','d.xml',2),('a.rnc','e.xml',2),('a.rnc','f.xml',0)]),
dict(id='c06-outer-prefix',property='C06',needs='the same prefix declared with different URIs on nested elements',
 breaks='a prefix takes the URI of the outermost declaration instead of the nearest',
 edits=[(V,'''            .iter()
            .rev()
            .find_map(|elem|''','''            .iter()
            .find_map(|elem|''')],
 files={'a.rnc':'namespace p = "urn:p"\nnamespace q = "urn:q"\nstart = element p:a { element q:b { empty } }\n','d.xml':'<n:a xmlns:n="urn:p"><n:b xmlns:n="urn:q"/></n:a>'},
 cases=[('a.rnc','d.xml',0)]),
dict(id='c07-blank-between',property='C07',needs='an attribute value with white space only between two references',
 breaks='white space between two references is dropped',
 edits=[(V,'''            Txt::Text(_pos, val) => buffer.push_str(val),''','''            Txt::Text(_pos, val) if is_whitespace_str(val) => {}
            Txt::Text(_pos, val) => buffer.push_str(val),''')],
 files={'a.rnc':'start = element a { attribute b { string "< >" } }\n','d.xml':'<a b="&lt; &gt;"/>','e.xml':'<a b="&lt;&gt;"/>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',2)]),
dict(id='c19-combining',property='C19',needs='a name whose first character is a combining mark allowed only in later positions',
 breaks='a combining mark is accepted as the first character of a name',
 edits=[(C,"'\\u{370}'..='\\u{37D}'","'\\u{300}'..='\\u{37D}'")],
 files={'a.rnc':'start = element \u0301a { empty }\n','b.rnc':'start = element a\u0301 { empty }\n','d.xml':'<a\u0301/>'},
 cases=[('a.rnc',None,1),('b.rnc','d.xml',0)]),
dict(id='c15-xsd-token-literal',property='C15',needs='an xsd:token value written in the schema with a run of white space inside',
 breaks='the literal of an xsd:token value is trimmed but its inner runs of white space are kept, so that nothing matches it',
 edits=[(X,"""            "token" => Ok(XsdDatatypeValues::Token(normalize_whitespace(value))),""","""            "token" => Ok(XsdDatatypeValues::Token(value.trim().to_string())),""")],
 files={'a.rnc':'start = element a { xsd:token "  x   y " | xsd:token " z" }\n','d.xml':'<a>x y</a>','e.xml':'<a>z</a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
dict(id='c02-choice-memo',property='C02',needs='two attributes in a row that have the same value, and different names',
 breaks='the memo table is kept from one attribute to the next when their values are the same, so that the second one gets the verdict of the first for every pattern seen before',
 edits=[(V,"""                for att in attributes {
                    let mut memo = HashMap::new();
""","""                let mut memo = HashMap::new();
                let mut last: Option<Attr> = None;
                for att in attributes {
                    if last.is_some_and(|l| {
                        l.name.namespace_uri.is_some() != att.name.namespace_uri.is_some()
                            || l.value.as_str() != att.value.as_str()
                    }) {
                        memo.clear();
                    }
                    last = Some(att);
""")],
 files={'a.rnc':'start = element a { (attribute b { text } & attribute c { text })* , attribute * - (b | c) { text }* }\n','b.rnc':'start = element a { attribute b { text }+, attribute c { text } }\n','d.xml':'<a b="x" c="x" d="x"/>','f.xml':'<a b="x" c="x"/>'},
 cases=[('a.rnc','d.xml',0),('b.rnc','f.xml',0)]),
dict(id='c02-group-first',property='C02',needs='an attribute that both members of a group match, where only taking it with the second leaves the rest matched',
 breaks='an attribute that the first member of a group matches is not tried with the second',
 edits=[(V,"""                let s1 = schema.group(d1, p2);
                let d2 = Self::att_deriv(memo, p2, schema, att, value);
                let s2 = schema.group(p1, d2);
                schema.choice(s1, s2)""","""                let s1 = schema.group(d1, p2);
                if let Pat::NotAllowed = schema.patt(s1) {
                    let d2 = Self::att_deriv(memo, p2, schema, att, value);
                    schema.group(p1, d2)
                } else {
                    s1
                }""")],
 files={'a.rnc':'start = element a { (attribute b { "x" } | attribute c { text }), (attribute b { text } | attribute d { text }) }\n','d.xml':'<a b="x" c="1"/>','e.xml':'<a b="x" d="1"/>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
dict(id='c01-group-nullable-left',property='C01',needs='a group whose first member is nullable and can itself begin with the element that also begins the second',
 breaks='when the first member of a group can begin with an element, skipping the member is not tried',
 edits=[(V,"""                if nullable {
                    let p2 = schema.patt(pid2);
                    let d2 = Self::start_tag_open_deriv(p2, schema, name);
                    schema.choice(x, d2)""","""                if nullable && matches!(schema.patt(x), Pat::NotAllowed) {
                    let p2 = schema.patt(pid2);
                    let d2 = Self::start_tag_open_deriv(p2, schema, name);
                    schema.choice(x, d2)""")],
 files={'a.rnc':'start = element a { (b, c)?, b, d }\nb = element b { empty }\nc = element c { empty }\nd = element d { empty }\n','d.xml':'<a><b/><d/></a>','e.xml':'<a><b/><c/><b/><d/></a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
dict(id='c08-zeroormore-once',property='C08',needs='p* where p is nullable',
 breaks='zeroOrMore of a nullable pattern is compiled as the pattern itself, once',
 edits=[(V,"""            model::Pattern::ZeroOrMore(p) => {
                s.choice(s.one_or_more(Self::compile(s, p)), s.empty())
            }""","""            model::Pattern::ZeroOrMore(p) => {
                let p = Self::compile(s, p);
                if s.patt(p).is_nullable() {
                    // already optional
                    return p;
                }
                s.choice(s.one_or_more(p), s.empty())
            }""")],
 files={'a.rnc':'start = element a { (b | c?)* }\nb = element b { empty }\nc = element c { empty }\n','d.xml':'<a><b/><c/><b/></a>','e.xml':'<a><b/></a>'},
 cases=[('a.rnc','d.xml',0),('a.rnc','e.xml',0)]),
]
