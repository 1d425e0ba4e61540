// ---- mirror of xmlparser (a dependency): slices of the document and where they start, and the tokens made of them
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct StrSpan<'a> { text: &'a str, start: usize }
impl<'a> StrSpan<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    pub uninterp spec fn start_(&self) -> usize;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { self.text }
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.start_() { self.start }
    #[verifier::external_body] pub fn from(s: &'a str) -> (r: Self) ensures r@ == s@, r.start_() == 0 { StrSpan { text: s, start: 0 } }
}
impl<'a> VxShow for StrSpan<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
#[derive(Copy, Clone)]
pub enum ExternalId<'a> { System(StrSpan<'a>), Public(StrSpan<'a>, StrSpan<'a>) }
#[derive(Copy, Clone)]
pub enum EntityDefinition<'a> { EntityValue(StrSpan<'a>), ExternalId(ExternalId<'a>) }
#[derive(Copy, Clone)]
pub enum ElementEnd<'a> { Open, Close(StrSpan<'a>, StrSpan<'a>), Empty }
#[derive(Copy, Clone)]
pub enum Token<'a> {
    Declaration { version: StrSpan<'a>, encoding: Option<StrSpan<'a>>, standalone: Option<bool>, span: StrSpan<'a> },
    ProcessingInstruction { target: StrSpan<'a>, content: Option<StrSpan<'a>>, span: StrSpan<'a> },
    Comment { text: StrSpan<'a>, span: StrSpan<'a> },
    DtdStart { name: StrSpan<'a>, external_id: Option<ExternalId<'a>>, span: StrSpan<'a> },
    EmptyDtd { name: StrSpan<'a>, external_id: Option<ExternalId<'a>>, span: StrSpan<'a> },
    EntityDeclaration { name: StrSpan<'a>, definition: EntityDefinition<'a>, span: StrSpan<'a> },
    DtdEnd { span: StrSpan<'a> },
    ElementStart { prefix: StrSpan<'a>, local: StrSpan<'a>, span: StrSpan<'a> },
    Attribute { prefix: StrSpan<'a>, local: StrSpan<'a>, value: StrSpan<'a>, span: StrSpan<'a> },
    ElementEnd { end: ElementEnd<'a>, span: StrSpan<'a> },
    Text { text: StrSpan<'a> },
    Cdata { text: StrSpan<'a>, span: StrSpan<'a> },
}
pub struct XmlError { x: u64 }
// the tokens of a document that has been well-formed so far: attributes and ends only come inside of an element
#[verifier::external_body] pub struct Tokenizer<'a> { text: &'a str }
impl<'a> Tokenizer<'a> {
    // how many elements are open, with the one whose start tag is being read
    pub uninterp spec fn open(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Token<'a>, XmlError>>)
        ensures r matches Some(Ok(t)) ==> match t {
            Token::ElementStart {..} => final(self).open() == old(self).open() + 1,
            Token::Attribute {..} | Token::ElementEnd { end: ElementEnd::Open, .. } => old(self).open() > 0 && final(self).open() == old(self).open(),
            Token::ElementEnd {..} => old(self).open() > 0 && final(self).open() == old(self).open() - 1,
            _ => final(self).open() == old(self).open(),
        }
    { unimplemented!() }
}
//@typemap xmlparser::Error => XmlError
//@type v ValidatorError
//@type v QualifiedName derive=Copy,Clone
//@type v Attr derive=Copy,Clone
