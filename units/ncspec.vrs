// ---- the specification: XML Namespaces 1.0 NCName, XML 1.0 NameStartChar and NameChar without the colon
pub open spec fn start_char(c: char) -> bool {
    ('A' <= c && c <= 'Z') || c == '_' || ('a' <= c && c <= 'z') || ('\u{C0}' <= c && c <= '\u{D6}') || ('\u{D8}' <= c && c <= '\u{F6}') || ('\u{F8}' <= c && c <= '\u{2FF}') || ('\u{370}' <= c && c <= '\u{37D}') || ('\u{37F}' <= c && c <= '\u{1FFF}') || ('\u{200C}' <= c && c <= '\u{200D}') || ('\u{2070}' <= c && c <= '\u{218F}') || ('\u{2C00}' <= c && c <= '\u{2FEF}') || ('\u{3001}' <= c && c <= '\u{D7FF}') || ('\u{F900}' <= c && c <= '\u{FDCF}') || ('\u{FDF0}' <= c && c <= '\u{FFFD}') || ('\u{10000}' <= c && c <= '\u{EFFFF}')
}
pub open spec fn name_char(c: char) -> bool {
    start_char(c) || c == '-' || c == '.' || ('0' <= c && c <= '9') || c == '\u{B7}' || ('\u{300}' <= c && c <= '\u{36F}') || ('\u{203F}' <= c && c <= '\u{2040}')
}
pub open spec fn ncname_(s: Seq<char>) -> bool { s.len() > 0 && start_char(s[0]) && forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) }
// XML 1.0 Nmtoken
pub open spec fn nmtoken_(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) || s[k] == ':' }
