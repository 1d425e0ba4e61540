import json
V='relaxng-validator/src/lib.rs'; M='relaxng-model/src/lib.rs'; X='relaxng-syntax/src/xml.rs'; R='relaxng-model/src/datatype/relax.rs'; D='relaxng-model/src/datatype/xsd.rs'; DM='relaxng-model/src/datatype/mod.rs'; C='relaxng-syntax/src/compact.rs'
SC=" (Scope throughout: schemas that use supported features and obey the restrictions of RELAX NG section 7; well-formed, namespace-well-formed documents.)"
P=[]
def p(id,title,st,over,q,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Children of an element are accepted exactly when its content model matches them',
 "A well-formed document is reported valid exactly when, for every element, the sequence of its child elements and text is a member of the language that the element's pattern denotes: group is concatenation, choice is union, interleave is shuffle, oneOrMore is one or more repetitions, notAllowed matches nothing. In particular nothing is dropped, counted twice or reordered, and an element is only accepted at its end tag if its pattern can match with nothing further."+SC,
 ['inputs','programs'],'every schema pattern built from element, text, empty, notAllowed, group, choice, interleave and oneOrMore, and every finite document tree',
 'The language of a pattern is infinite and derivatives are composed one tag at a time; spectest samples a few dozen trees, none deep enough to reach most combinations of nullable groups, nested interleaves and repetition.',
 [V],[('start_tag_open_deriv',V+': Validator::start_tag_open_deriv'),('apply_after',V+': Validator::apply_after'),('start_tag_close_deriv, end_tag_deriv',V),('smart constructors choice/interleave/group/after',V+': Schema')])
p('C02','Attributes are accepted as a set, each matched by exactly one attribute pattern',
 "A start tag is accepted exactly when its attributes, in whatever order they are written, can be divided so that each attribute pattern the content model requires consumes exactly one attribute whose name and value it matches, and no attribute is left over. A required attribute that is missing, an attribute that no pattern allows, and a value the attribute's pattern does not match are each rejected."+SC,
 ['inputs','programs'],'every legal pattern containing attributes in group, interleave, choice, optional and oneOrMore, and every attribute set in every order',
 'The number of orders and of ways to distribute attributes over patterns is exponential; tests fix one order and one or two attributes.',
 [V],[('att_deriv',V+': Validator::att_deriv'),('value_match',V+': Validator::value_match'),('start_tag_close_deriv',V+': Validator::start_tag_close_deriv'),('close_element_start',V+': Validator::close_element_start')])
p('C03','Text, data, value and list patterns decide character data as RELAX NG specifies',
 "The text of an element is matched as one string however comments, processing instructions and CDATA sections divide it: text matches any string, value and data match exactly the strings of their datatype, data with except excludes what the except pattern matches, and list matches the sequence of whitespace-separated tokens. An element with no children is treated as containing the empty string; whitespace-only text is insignificant exactly where RELAX NG section 6.2 says so (beside child elements, or when the content may be empty)."+SC,
 ['inputs','programs'],'every text node content, every split of it into tokens, and every legal combination of text, data, value, except, list and empty content',
 'Whitespace, empty content and token boundaries interact; each combination is a separate case and strings are unbounded.',
 [V],[('text_deriv',V+': Validator::text_deriv'),('flush_text, validate',V+': Validator'),('list_tokens, is_whitespace_str',V)])
p('C04','A name is matched by a name class exactly when it is a member of it',
 "For element and attribute names alike, a concrete name matches exactly the one (namespace, local part) pair, nsName every name of its namespace, anyName every name, a choice the union of its parts, and except removes exactly the names of its argument; nesting to any depth composes these. No namespace and a namespace given as the empty string are the same.",
 ['inputs','programs'],'every name class tree and every (namespace URI, local name) pair',
 'Name classes nest arbitrarily (except within choice within except) and are tested against unboundedly many names.',
 [V,M],[('contains, is_ns_match',V),('compile_nameclass',M+': Compiler::compile_nameclass'),('NameClass',"relaxng-model/src/model.rs")])
p('C05','Following references gives the same language as the definitions they name',
 "A reference behaves as the body of the definition it names, including when definitions are recursive or mutually recursive through elements, are aliases of one another, or are referenced before they are defined. A definition that refers to itself without an intervening element, directly or through others, is reported as a schema error; no schema of either kind causes a panic or unbounded recursion.",
 ['programs','inputs'],'every finite graph of definitions, every order of definition and use, and every document',
 'Reference graphs are unbounded, and nullability, placeholders and pattern sharing depend on the order in which cycles are entered; tests hold a few two-node cycles.',
 [V,M],[('compile of Pattern::Ref, resolve_ref, ref_placeholder',V+': Validator::compile, Schema'),('is_nullable',V+': Validator::is_nullable'),('check, check_ref_cycle',M+': Compiler'),('check_ref_recursion',M+': Context')])
p('C06','Names in the document are resolved by the namespace declarations in scope',
 "Every prefixed element or attribute name takes the namespace declared for its prefix by the nearest enclosing start tag (its own included, wherever in the tag the declaration stands); an unprefixed element takes the innermost default namespace, and an unprefixed attribute none. A declaration's scope ends with its element, xmlns attributes are not themselves validated, xml is always bound, and an undeclared prefix is an error.",
 ['inputs','histories'],'every nesting, shadowing and un-declaring of prefixes and default namespaces, over every document',
 'What a name means depends on the history of tags opened and closed before it; tests use one or two declarations at the root.',
 [V],[('ElementStack::lookup_namespace_uri, try_lookup_namespace_uri',V),('push, pop, add_attr',V+': ElementStack'),('current_element, current_attributes',V+': ElementStack')])
p('C07','Entity and character references are replaced by exactly the text they denote',
 "In attribute values and character data, decimal and hexadecimal character references, the five predefined entities and internal general entities declared in the document (the first declaration of a name being binding; replacement text without markup or further references) are replaced by the text they denote, everything else is kept unchanged, and validation sees the result. A reference to an undeclared entity, an unterminated reference and a malformed or out-of-range character reference are errors.",
 ['inputs'],'every string, with any number of references in any positions, and every set of entity declarations',
 'Strings are unbounded, and the scanner carries offset state from one reference to the next.',
 [V],[('parse_entities, numeric_entity',V),('decode_entities',V),('entity declarations in validate',V+': Validator::validate')])
p('C08','Derived and n-ary patterns mean what their definitions in RELAX NG say',
 "optional p accepts what p or empty accepts, zeroOrMore p what oneOrMore p or empty accepts, mixed p what p interleaved with text accepts; and a group, choice or interleave of any number of members accepts what the nested binary form of those members, in the same order, accepts. Compiling a schema for validation never changes the set of documents that it accepts.",
 ['programs','inputs'],'every pattern tree and every document',
 'Patterns nest without bound and hash-consing, sharing and simplification apply at each node; tests compare a handful of shapes.',
 [V],[('compile',V+': Validator::compile'),('push, choice, group, interleave, one_or_more, mixed',V+': Schema')])
p('C09','Definitions of one name combine to the choice or interleave of all their bodies',
 "When a name is defined several times with |= (combine=choice) or &= (combine=interleave), with at most one plain definition, it denotes the choice, or the interleave, of all the bodies, in whatever order and however many pieces they are written, and whatever shape the bodies have. Two plain definitions, or a mixture of |= and &=, is reported as a schema error in every order.",
 ['programs'],'every sequence of definitions of a name, every order, every body shape',
 'The number of sequences is exponential and the merge keeps state from each step to the next; tests cover a few pairs.',
 [M],[('merge, merge1',M+': Compiler'),('append_choice, append_interleave',M+': Compiler'),('Context::define, compile_define',M)])
p('C10','Parentheses, nesting and n-ary flattening do not change what a schema accepts',
 "Writing p1,p2,p3 or (p1,p2),p3 or p1,(p2,p3), and likewise for | and &, gives the same language, with members in the order written; a parenthesised pattern nested in one with a different connector keeps its own connector; and ?, * and + apply to exactly the pattern that they follow.",
 ['programs'],'every pattern written with every legal parenthesisation, in every position',
 'Parenthesisations grow exponentially and flattening inspects the shape of already-compiled operands.',
 [M,C],[('compile_sequence, compile_interleave, compile_choice',M+': Compiler'),('compile_pattern',M+': Compiler')])
p('C11','Names in compact schemas are resolved by the declarations of their own file',
 "An unprefixed element name takes the default namespace declared (or inherited through include/external) and an unprefixed attribute name none; a prefixed name takes the URI that its prefix is declared with in the file containing it, whether inside nested grammars, definitions, include overrides or excepts; datatype prefixes likewise select the datatype library, xsd and xml being predefined. An undeclared prefix is a schema error.",
 ['programs','inputs'],'every placement of names within nested contexts and files, every set of declarations',
 'Resolution walks an unbounded chain of contexts whose kinds may occur in any order.',
 [M],[('namespace_uri_for_prefix_str, default_namespace_uri',M+': Context'),('datatype_uri_for_prefix, declare_datatype',M+': Context'),('declare_namespace, set_default_namespace, including_context',M+': Context'),('compile_nameclass',M+': Compiler')])
p('C12','References resolve within their own grammar, its parent, and its includes',
 "A reference resolves to the definition of that name in the nearest enclosing grammar, and a parent reference to the one in the grammar enclosing that, so equally named definitions of different grammars never mix; a nested or external grammar contributes its start pattern. An include contributes the definitions of the included grammar, except that a definition given in its override block replaces every definition of that name in the included grammar; overriding a name the included grammar lacks is an error.",
 ['programs'],'every nesting of grammars, includes and external references, and every assignment of names to definitions',
 'Nesting depth, the number of files and name collisions between scopes are unbounded.',
 [M],[('Context::define, get_ref, acquire_ref, acquire_parent_ref',M),('compile_include, compile_external, compile_grammar_pattern',M+': Compiler')])
p('C13','Numeric XSD types accept exactly the numbers within their range facets',
 "For short, unsignedShort, int, unsignedInt, long, unsignedLong, integer, positiveInteger and decimal, a lexically valid number is accepted exactly when it lies in the type's own range and satisfies every minInclusive, minExclusive, maxInclusive and maxExclusive facet given, in whatever order they are written. Contradictory or repeated bounds, bounds that are not numbers of the type, and facets that the type does not have are schema errors; whitespace around the number is ignored.",
 ['inputs'],'every type, every set and order of facets with every bound, and every value',
 'Values and bounds are unbounded and the interesting ones are the boundaries of each combination; tests try a few constants.',
 [D],[('MinMaxFacet::min_inclusive .. max_exclusive, is_valid; Min, Max',D),('Compiler::short .. decimal',D),('XsdDatatypes::is_valid',D)])
p('C14','Length and pattern facets count and match the whole string',
 "For xsd:string, a string is accepted exactly when its number of characters (not bytes) satisfies every length, minLength and maxLength facet given, in any order, and the pattern facet, if any, matches the whole of it. The length facets of the other string types work alike, on the value as the type's white space processing leaves it (normalizedString: white space characters replaced by spaces; token: collapsed; NCName and NMTOKEN: trimmed); those of NMTOKENS count the tokens. Contradictory or repeated length facets, negative or non-numeric lengths, and unknown facets are schema errors.",
 ['inputs'],'every set and order of facets, and every string, multi-byte characters included',
 'Lengths and strings are unbounded; facet order and repeated facets multiply the cases.',
 [D],[('LengthFacet::merge, is_valid',D),('StringFacets::is_valid',D),('Compiler::string, normalized_string',D),('Compiler::pattern',D)])
p('C15','Values of type token compare after whitespace normalisation, string exactly',
 "A value pattern of type token (the default type) accepts a string exactly when the two are equal once leading and trailing whitespace is removed and every internal run of whitespace is replaced by one space; one of type string accepts only the identical string. The same holds in attribute values, for the built-in and the XSD library, in list tokens and in data excepts.",
 ['inputs'],'every pair of strings',
 'Strings are unbounded; position, length and kind of the whitespace all matter.',
 [R,D],[('normalize_whitespace',R),('BuiltinDatatypeValue::is_valid, datatype_value',R),('XsdDatatypeValues::is_valid, compile_value',D)])
p('C16','XML-syntax schemas resolve names, ns and datatypeLibrary by inheritance',
 "In the XML syntax, an unprefixed element name (name attribute, or name child) and nsName take their namespace from the nearest ns attribute on or above them in their document, an unprefixed name attribute of <attribute> only from its own ns attribute; a prefixed name takes the URI bound to its prefix; data and value take the nearest datatypeLibrary in their document. None of these leaks to siblings or ancestors, foreign elements and attributes are ignored, and an unbound prefix is a schema error.",
 ['programs','inputs'],'every schema tree with ns, datatypeLibrary and xmlns declarations at any depth',
 'Inheritance walks unboundedly deep trees; tests set the attribute on at most one ancestor.',
 [X],[('get_ns_att, get_dt_lib_att',X),('qname_att, qname_el',X),('ns_name, attribute, data, value',X),('lookup_namespace_def',X)])
p('C17','XML-syntax patterns with many children mean the same as their compact form',
 "In the XML syntax, element, define, group, oneOrMore, zeroOrMore, optional, list and mixed with several children act on the group of all of them in document order; choice and interleave combine all of theirs; except takes the choice of its children; an attribute without a pattern child means text. The language is that of the corresponding compact schema, for any number of children, with foreign elements and comments between them ignored. The href of an include or externalRef is resolved against the xml:base attributes of the elements around it and of itself, however many there are.",
 ['programs'],'every number and nesting of children',
 'Each construct folds an unbounded child list; tests have two or three children in a few constructs.',
 [X,M],[('single_pattern_or_group, choice, interleave, single_pattern_or_choice',X),('name_class_choice, except_nameclass, params',X),('first_rng_child, next_rng_sibling',X),('rebase_path, resolve',X)])
p('C18','Incorrect schemas are reported as errors, wherever in the schema the mistake is',
 "Compilation fails with an error (not a panic, and not silently) exactly when the grammar it is given breaks one of the rules it enforces: reachable references to undefined names, no start, a duplicate plain definition, element inside attribute (also through nested groups), parent reference without an enclosing grammar, unknown datatype or library, recursive include, included file that is not a grammar, and an override of something not defined. Correct schemas are never refused.",
 ['programs'],'every otherwise correct schema with one such mistake at any position, depth or nesting',
 'The mistake may sit behind any chain of contexts, groups, references and files.',
 [M,DM],[('check',M+': Compiler::check'),('parent_attribute, new_element, check_include',M+': Context'),('acquire_parent_ref, merge1, compile_include, compile_external, compile_grammar_pattern',M),('dt_name, dt_value',DM)])
p('C19','Names in schemas are recognised exactly by the XML NCName production',
 "Definition names, prefixes and local names in schemas, and values of xsd:NCName, are accepted exactly when they are NCNames as XML Namespaces 1.0 defines them: no colon, first character an XML NameStartChar, the rest XML NameChars, over all of Unicode. Values of xsd:NMTOKEN are accepted exactly when they are one or more XML NameChars, the colon among them.",
 ['inputs'],'every Unicode scalar value in every position of a name of every length',
 'There are 1.1 million scalar values; tests use ASCII names.',
 [X,C,D],[('is_nc_name_start_char, is_nc_name_char, ncname, ident',X),('nc_name_start_char, nc_name_char',C),('is_valid_ncname',D)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
