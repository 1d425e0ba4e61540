pub mod types {
    use super::*;
    pub type Span = Range<usize>;
//@type t Schema
//@type t Decl
//@type t NamespaceDeclaration
//@type t DefaultNamespaceDeclaration
//@type t DatatypesDeclaration
//@type t Pattern
//@type t ElementPattern
//@type t GrammarPattern
//@type t AttributePattern
//@type t ListPattern
//@type t MixedPattern
//@type t ExternalPattern
//@type t DatatypeValuePattern
//@type t DatatypeNamePattern
//@type t DatatypeName
//@type t NamespacedName
//@type t Param
//@type t PatternOrGrammar
//@type t GrammarContent
//@type t AssignMethod
//@type t Define
//@type t Include
//@type t Inherit
//@type t IncludeContent
//@type t IdentifierOrKeyword
//@type t NamespaceUriLiteral
//@type t Literal
//@type t LiteralSegment
//@type t Identifier
//@type t Keyword
//@type t NcName
//@type t NameClass
//@type t Name
//@type t NamespaceOrPrefix
//@type t NsName
//@type t AnyName
//@type t AltName
//@type t ParenName
//@type t QName
//@type t InitialAnnotation
//@type t AnnotationAttribute
//@type t AnnotationElement
//@type t AnnotationElementOrLiteral
}
