From 638c872198b7564e11316bc7793c79a162ec18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 01/52] fix: treat an element with no children as containing an
 empty text node

---
 relaxng-validator/src/lib.rs | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..e72dfa3 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -711,22 +711,10 @@ impl<'a> Validator<'a> {
                         let next_id =
                             Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
                         let pat = self.schema.patt(next_id);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
+                        // As for ElementEnd::Close above: an empty element tag never has any
+                        // children, so it always needs the fake empty text node
+                        let p = Self::text_deriv(pat, &mut self.schema, "");
+                        let next_pat = self.schema.patt(p);
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
@@ -804,11 +792,14 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
+        // the start tag is only complete once we reach the end of its attributes
+        self.last_was_start_element = matches!(
+            evt,
+            Token::ElementEnd {
+                end: ElementEnd::Open,
+                ..
+            }
+        );
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
-- 
2.43.0


From 9444cb591da37ab68bc9be41563abfd58d3bae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 02/52] fix: report indirect recursive references as a schema
 error

---
 relaxng-model/src/lib.rs | 52 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..f6ebf55 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -741,6 +741,7 @@ impl<FS: Files> Compiler<FS> {
                 let ptr = def.0.as_ptr() as usize;
                 if !seen.contains(&ptr) {
                     seen.insert(ptr);
+                    Self::check_ref_cycle(&mut vec![], &mut HashSet::new(), patt)?;
                     if let Some(rule) = def.0.borrow().as_ref() {
                         self.check(seen, rule.pattern())?
                     } else {
@@ -760,6 +761,57 @@ impl<FS: Files> Compiler<FS> {
         Ok(())
     }
 
+    /// Reports an error if a definition refers to itself, perhaps by way of other definitions,
+    /// without passing through the body of an element.
+    fn check_ref_cycle(
+        open: &mut Vec<usize>,
+        done: &mut HashSet<usize>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
+                for p in v {
+                    Self::check_ref_cycle(open, done, p)?
+                }
+            }
+            Pattern::Mixed(p)
+            | Pattern::Optional(p)
+            | Pattern::ZeroOrMore(p)
+            | Pattern::OneOrMore(p)
+            | Pattern::Attribute(_, p)
+            | Pattern::List(p) => Self::check_ref_cycle(open, done, p)?,
+            Pattern::DatatypeName { except, .. } => {
+                if let Some(e) = except.as_ref() {
+                    Self::check_ref_cycle(open, done, e)?;
+                }
+            }
+            Pattern::Element(_, _)
+            | Pattern::Empty
+            | Pattern::Text
+            | Pattern::NotAllowed
+            | Pattern::DatatypeValue { .. } => {}
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                if let Some(rule) = def.0.borrow().as_ref() {
+                    if open.contains(&ptr) {
+                        return Err(RelaxError::RecursiveReference {
+                            ref_id: name.to_string(),
+                            ref_span: *span,
+                            def_id: name.to_string(),
+                            def_span: *rule.span(),
+                        });
+                    }
+                    if done.insert(ptr) {
+                        open.push(ptr);
+                        Self::check_ref_cycle(open, done, rule.pattern())?;
+                        open.pop();
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn dump_diagnostic(&self, err: &RelaxError) {
         let mut emitter = codemap_diagnostic::Emitter::stderr(
             codemap_diagnostic::ColorConfig::Always,
-- 
2.43.0


From 524bee4b1f92f8accfc32aa009c0b6cde65b3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 03/52] fix: track nullability of references to definitions
 still being compiled

---
 relaxng-validator/src/lib.rs | 58 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index e72dfa3..4b2803a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -48,7 +48,8 @@ enum Pat {
     DatatypeValue(datatype::DatatypeValues),
     DatatypeExcept(datatype::Datatypes, PatId),
     List(PatId),
-    Placeholder(*const Option<relaxng_model::model::DefineRule>),
+    // records the nullability of the definition it stands for, as enclosing patterns copy that flag
+    Placeholder(*const Option<relaxng_model::model::DefineRule>, bool),
     After(PatId, PatId),
 }
 
@@ -68,7 +69,7 @@ impl Pat {
             Pat::DatatypeValue(_) => false,
             Pat::DatatypeExcept(_, _) => false,
             Pat::List(_) => false,
-            Pat::Placeholder(_name) => false, //unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(_, nullable) => *nullable,
             Pat::After(_, _) => false,
         }
     }
@@ -207,9 +208,9 @@ impl Schema {
     fn ref_placeholder(
         &self,
         p: *const Option<relaxng_model::model::DefineRule>,
-        _name: &str,
+        nullable: bool,
     ) -> PatId {
-        let pl = Pat::Placeholder(p);
+        let pl = Pat::Placeholder(p, nullable);
         let id = self.push(pl);
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
@@ -221,7 +222,7 @@ impl Schema {
             return;
         }
         let target = self.patt(id);
-        if let Pat::Placeholder(_) = target {
+        if let Pat::Placeholder(_, _) = target {
             panic!(
                 "can't resolve placeholder {} with another placeholder {}",
                 placeholder_id.0, id.0
@@ -229,7 +230,7 @@ impl Schema {
         }
         let mut inner = self.inner.borrow_mut();
         match &inner.patterns[placeholder_id.0 as usize] {
-            Pat::Placeholder(_) => (),
+            Pat::Placeholder(_, _) => (),
             p => panic!(
                 "expected placeholder but got {:?}, with id {} while trying to resolve it to {}, for definition {:?}",
                 p, placeholder_id.0, id.0, name
@@ -273,7 +274,7 @@ impl Schema {
             Pat::Datatype(_) => {}
             Pat::DatatypeValue(_) => {}
             Pat::DatatypeExcept(_, _) => {}
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(_, _) | Pat::After(_, _) => unreachable!(),
         }
         false
     }
@@ -297,7 +298,7 @@ impl Schema {
             Pat::Empty | Pat::Text | Pat::NotAllowed | Pat::Datatype(_) | Pat::DatatypeValue(_) => {
             }
             Pat::DatatypeExcept(_, p) => self.check_choices(p, seen),
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(_, _) | Pat::After(_, _) => unreachable!(),
         }
     }
 
@@ -401,7 +402,7 @@ impl Schema {
                     }
                     writeln!(w, ")")
                 }
-                Pat::Placeholder(_) => {
+                Pat::Placeholder(_, _) => {
                     writeln!(w, "Placeholder{}", pat.0)
                 }
                 Pat::After(p1, p2) => {
@@ -455,7 +456,7 @@ impl Schema {
                 Pat::List(_p) => {
                     writeln!(w, "List{}!", pat.0)
                 }
-                Pat::Placeholder(_) => unreachable!(),
+                Pat::Placeholder(_, _) => unreachable!(),
                 Pat::After(_p1, _p2) => {
                     writeln!(w, "After{}!", pat.0)
                 }
@@ -595,8 +596,9 @@ impl<'a> Validator<'a> {
                 if let Some(id) = s.get_ref(ptr) {
                     id
                 } else {
-                    let placeholder_id = s.ref_placeholder(ptr, name);
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
+                        let placeholder_id =
+                            s.ref_placeholder(ptr, Self::is_nullable(thing.pattern()));
                         let id = Self::compile(s, thing.pattern());
                         s.resolve_ref(placeholder_id, id, name);
                         placeholder_id
@@ -614,6 +616,32 @@ impl<'a> Validator<'a> {
         }
     }
 
+    // Does the given pattern match the empty sequence?  References are followed; these can't be
+    // recursive without an intervening Element, and there's no need to look inside one of those.
+    fn is_nullable(p: &model::Pattern) -> bool {
+        match p {
+            model::Pattern::Choice(v) => v.iter().any(Self::is_nullable),
+            model::Pattern::Interleave(v) | model::Pattern::Group(v) => {
+                v.iter().all(Self::is_nullable)
+            }
+            model::Pattern::Mixed(p) | model::Pattern::OneOrMore(p) => Self::is_nullable(p),
+            model::Pattern::Empty
+            | model::Pattern::Text
+            | model::Pattern::Optional(_)
+            | model::Pattern::ZeroOrMore(_) => true,
+            model::Pattern::Ref(_, _, r) => Rc::as_ref(&r.0)
+                .borrow()
+                .as_ref()
+                .is_some_and(|def| Self::is_nullable(def.pattern())),
+            model::Pattern::NotAllowed
+            | model::Pattern::Attribute(_, _)
+            | model::Pattern::Element(_, _)
+            | model::Pattern::DatatypeValue { .. }
+            | model::Pattern::DatatypeName { .. }
+            | model::Pattern::List(_) => false,
+        }
+    }
+
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => Some(self.validate(evt)),
@@ -626,7 +654,7 @@ impl<'a> Validator<'a> {
     fn assert_health(&self) {
         let mut fail = false;
         for v in self.schema.inner.borrow().refs.values() {
-            if let Pat::Placeholder(_p) = self.schema.patt(*v) {
+            if let Pat::Placeholder(_p, _) = self.schema.patt(*v) {
                 println!("Still a placeholder: {v:?}");
                 fail = true;
             }
@@ -970,7 +998,7 @@ impl<'a> Validator<'a> {
                     schema.not_allowed()
                 }
             }
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(name, _) => unreachable!("Placeholder {:?}", name),
         }
     }
 
@@ -1043,7 +1071,7 @@ impl<'a> Validator<'a> {
             | Pat::DatatypeValue(_)
             | Pat::DatatypeExcept(_, _)
             | Pat::List(_) => schema.not_allowed(),
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(name, _) => unreachable!("Placeholder {:?}", name),
         }
     }
 
@@ -1235,7 +1263,7 @@ impl<'a> Validator<'a> {
                 result.insert(pat);
             }
             Pat::List(p) => self.head(result, p),
-            Pat::Placeholder(_) => panic!("Unexpected {pat:?}"),
+            Pat::Placeholder(_, _) => panic!("Unexpected {pat:?}"),
             Pat::After(p, _) => self.head(result, p),
         }
     }
-- 
2.43.0


From f679cc632767a041f42ccf26edfe7292d523053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 04/52] fix: allow a definition to be an alias for an enclosing
 recursive definition

---
 relaxng-validator/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 4b2803a..0d270ea 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -199,12 +199,10 @@ impl Schema {
         let inner = self.inner.borrow_mut();
         inner.refs.get(&p).copied()
     }
-    /*
     fn set_ref(&self, p: *const Option<relaxng_model::model::DefineRule>, id: PatId) {
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
     }
-    */
     fn ref_placeholder(
         &self,
         p: *const Option<relaxng_model::model::DefineRule>,
@@ -600,6 +598,12 @@ impl<'a> Validator<'a> {
                         let placeholder_id =
                             s.ref_placeholder(ptr, Self::is_nullable(thing.pattern()));
                         let id = Self::compile(s, thing.pattern());
+                        if let Pat::Placeholder(_, _) = s.patt(id) {
+                            // this definition is just another name for one that we are still in
+                            // the middle of compiling
+                            s.set_ref(ptr, id);
+                            return id;
+                        }
                         s.resolve_ref(placeholder_id, id, name);
                         placeholder_id
                     } else {
-- 
2.43.0


From d9c06e99ccb6ba425a8dd7a4f1514868524881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 05/52] fix: drop an element's namespace declarations once it
 has been closed

---
 relaxng-validator/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 0d270ea..77a99ba 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -737,6 +737,8 @@ impl<'a> Validator<'a> {
                         } else {
                             pat
                         };
+                        // the namespaces declared by this element are now out of scope
+                        self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
@@ -747,6 +749,7 @@ impl<'a> Validator<'a> {
                         // children, so it always needs the fake empty text node
                         let p = Self::text_deriv(pat, &mut self.schema, "");
                         let next_pat = self.schema.patt(p);
+                        self.stack.pop();
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
@@ -1607,6 +1610,9 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) {
+        self.elements.pop();
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From 0e52f9a6388ca83a957856b9279db475de6acc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 06/52] fix: resolve the xml: namespace prefix without
 requiring a declaration

---
 relaxng-validator/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 77a99ba..530828b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1583,6 +1583,10 @@ struct ElementStack<'a> {
 
 impl<'a> ElementStack<'a> {
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+        if prefix == "xml" {
+            // always bound, without needing to be declared
+            return Some(StrSpan::from("http://www.w3.org/XML/1998/namespace"));
+        }
         self.elements
             .iter()
             .rev()
-- 
2.43.0


From d23c4b25469c32092ebf565fc6ffe85786c72f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 07/52] fix: apply default namespaces, both in schemas and in
 instance documents

---
 relaxng-model/src/lib.rs     | 22 +++++++++++++++++++++-
 relaxng-validator/src/lib.rs |  3 ++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index f6ebf55..7a4d260 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -256,7 +256,8 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            // inherited, unless the included file goes on to declare its own
+            default_namespace: self.default_namespace_uri().to_string(),
             datatypes,
         })
     }
@@ -345,6 +346,24 @@ impl<'a> Context<'a> {
         }
     }
 
+    fn set_default_namespace(&mut self, uri: String) {
+        match self {
+            Context::Root {
+                default_namespace, ..
+            }
+            | Context::Include {
+                default_namespace, ..
+            } => *default_namespace = uri,
+            Context::IncludeOverrides { .. }
+            | Context::Grammar { .. }
+            | Context::Define { .. }
+            | Context::Element { .. }
+            | Context::Attribute { .. } => {
+                unreachable!("Not expecting to see namespace declarations in this context")
+            }
+        }
+    }
+
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
@@ -1899,6 +1918,7 @@ impl<FS: Files> Compiler<FS> {
                         panic!("Can't inherit namespace {prefix:?} at top level, I think?")
                     }
                     NamespaceUriLiteral::Uri(uri) => {
+                        ctx.set_default_namespace(uri.as_string_value());
                         if let Some(p) = prefix {
                             ctx.declare_namespace(p.clone(), uri.as_string_value())
                         } else {
diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 530828b..40b58de 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1598,7 +1598,8 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
     ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
-            Ok(None)
+            // there might be no default namespace declaration in scope
+            Ok(self.lookup_namespace_uri(""))
         } else {
             Ok(Some(self.lookup_namespace_uri(&prefix).ok_or(
                 ValidatorError::UndefinedNamespacePrefix { prefix },
-- 
2.43.0


From c66efb65c3e09ce58f48ac055d1c5b312d9ef5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 08/52] fix: resolve names in include overrides against the
 including file

---
 relaxng-model/src/lib.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 7a4d260..e3b203e 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -307,15 +307,7 @@ impl<'a> Context<'a> {
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
+            Context::IncludeOverrides { parent, .. } => parent.including_context().file(),
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -323,6 +315,18 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The context of the file which contains the include for this context.  The body of an
+    /// include-overrides block is part of that file, rather than of the included file.
+    fn including_context(&self) -> &Context<'a> {
+        if let Context::Include { parent, .. } = self {
+            parent
+        } else {
+            unreachable!(
+                "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
+            )
+        }
+    }
+
     /// Utility to convert a simple Span from the relaxng-compact-syntax model into the specialised
     /// Span type that we use for diagnostics
     fn convert_span(&self, span: &model::Span) -> codemap::Span {
@@ -338,8 +342,10 @@ impl<'a> Context<'a> {
             | Context::Include {
                 default_namespace, ..
             } => &default_namespace[..],
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.including_context().default_namespace_uri()
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.default_namespace_uri(),
@@ -400,8 +406,10 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.including_context().namespace_uri_for_prefix_str(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.namespace_uri_for_prefix_str(prefix),
-- 
2.43.0


From 83121cd56d4633a3abf3227b9ea7b324783ec8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 09/52] fix: accept an explicit declaration of the predefined
 xsd datatypes prefix

---
 relaxng-model/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index e3b203e..240d94c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -420,6 +420,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
+                    // notably, the predefined 'xsd' prefix may be declared explicitly
+                    Entry::Occupied(e) if *e.get() == uri => Ok(()),
                     Entry::Occupied(e) => {
                         Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
                     }
-- 
2.43.0


From 66fcc55ce1275fb2e4781868ecb1312f4bdeb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 10/52] fix: honour the declarations of a file referenced with
 'external'

---
 relaxng-model/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 240d94c..8af5119 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1698,13 +1698,17 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        for dec in s.decls.iter() {
+            self.compile_declaration(&mut inc_ctx, dec)
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
+        }
 
         match &s.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(pat) => self
                 .compile_pattern(&mut inc_ctx, pat)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
-                let mut child_ctx = ctx.new_grammar();
+                let mut child_ctx = inc_ctx.new_grammar();
                 for g in content {
                     self.compile_grammar_content_item(&mut child_ctx, g)?;
                 }
-- 
2.43.0


From ee45fe95bba81ea37bf3f2521bab5795ae1b06cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 11/52] fix: always use the replacement text of references in
 character data

---
 relaxng-validator/src/lib.rs | 73 ++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 40b58de..44a718e 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1,6 +1,7 @@
 use relaxng_model::datatype::Datatype;
 use relaxng_model::model::NameClass;
 use relaxng_model::{datatype, model};
+use std::borrow::Cow;
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::io;
@@ -756,47 +757,8 @@ impl<'a> Validator<'a> {
             }
             Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
             Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
-                }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
-                };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
+                let data = decode_entities(&self.entity_definitions, text)?;
+                let next_id = Self::text_deriv(pat, &mut self.schema, &data);
                 let next_pat = self.schema.patt(next_id);
                 if let Pat::NotAllowed = next_pat {
                     return Err(ValidatorError::NotAllowed(Token::Text { text }));
@@ -1568,6 +1530,35 @@ fn parse_entities(
     }
 }
 
+/// Replaces the entity and character references in the given text with the text they refer to
+fn decode_entities<'a>(
+    entity_definitions: &HashMap<String, String>,
+    text: StrSpan<'a>,
+) -> Result<Cow<'a, str>, ValidatorError<'a>> {
+    if !text.as_str().contains('&') {
+        // no need to copy data into a buffer
+        return Ok(Cow::Borrowed(text.as_str()));
+    }
+    let mut buffer = String::new();
+    for val in parse_entities(text.start(), text.as_str()) {
+        match val? {
+            Txt::Text(_pos, val) => buffer.push_str(val),
+            Txt::Entity(pos, name) => {
+                if let Some(txt) = entity_definitions.get(name) {
+                    buffer.push_str(txt);
+                } else {
+                    return Err(ValidatorError::UndefinedEntity {
+                        name,
+                        span: pos..pos + name.len(),
+                    });
+                }
+            }
+            Txt::Char(_pos, val) => buffer.push(val),
+        }
+    }
+    Ok(Cow::Owned(buffer))
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
-- 
2.43.0


From 22e13b1559e0de4839ef4daf22c7211bf7f3acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 12/52] fix: replace entity and character references in
 attribute values

---
 relaxng-validator/src/lib.rs | 40 ++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 44a718e..70ec342 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -719,7 +719,13 @@ impl<'a> Validator<'a> {
             Token::ElementEnd { end, span: _ } => {
                 match end {
                     ElementEnd::Open => {
-                        Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
+                        Self::close_element_start(
+                            &self.stack,
+                            &self.entity_definitions,
+                            &mut self.schema,
+                            evt,
+                            pat,
+                        )?
                     }
                     ElementEnd::Close(_, _) => {
                         let next_pat = if self.last_was_start_element {
@@ -743,8 +749,13 @@ impl<'a> Validator<'a> {
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
-                        let next_id =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
+                        let next_id = Self::close_element_start(
+                            &self.stack,
+                            &self.entity_definitions,
+                            &mut self.schema,
+                            evt,
+                            pat,
+                        )?;
                         let pat = self.schema.patt(next_id);
                         // As for ElementEnd::Close above: an empty element tag never has any
                         // children, so it always needs the fake empty text node
@@ -807,6 +818,7 @@ impl<'a> Validator<'a> {
 
     fn close_element_start<'b: 'a>(
         stack: &ElementStack<'b>,
+        entity_definitions: &HashMap<String, String>,
         schema: &mut Schema,
         evt: Token<'b>,
         pat: Pat,
@@ -827,7 +839,8 @@ impl<'a> Validator<'a> {
                 let mut pat = next_pat;
                 for att in attributes {
                     let mut memo = HashMap::new();
-                    pat = Self::att_deriv(&mut memo, pat, schema, att);
+                    let value = decode_entities(entity_definitions, att.value)?;
+                    pat = Self::att_deriv(&mut memo, pat, schema, att, &value);
                     if let Pat::NotAllowed = schema.patt(pat) {
                         return Err(ValidatorError::NotAllowed(Token::Attribute {
                             prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
@@ -1074,6 +1087,7 @@ impl<'a> Validator<'a> {
         pat: PatId,
         schema: &mut Schema,
         att: Attr,
+        value: &str,
     ) -> PatId {
         if let Some(result) = memo.get(&pat) {
             return *result;
@@ -1083,36 +1097,36 @@ impl<'a> Validator<'a> {
         //schema.dumpy(pat, &mut o).unwrap();
         let v = match schema.patt(pat) {
             Pat::After(p1, p2) => {
-                let d = Self::att_deriv(memo, p1, schema, att);
+                let d = Self::att_deriv(memo, p1, schema, att, value);
                 schema.after(d, p2)
             }
             Pat::Choice(p1, p2, _) => {
-                let c1 = Self::att_deriv(memo, p1, schema, att);
-                let c2 = Self::att_deriv(memo, p2, schema, att);
+                let c1 = Self::att_deriv(memo, p1, schema, att, value);
+                let c2 = Self::att_deriv(memo, p2, schema, att, value);
                 schema.choice(c1, c2)
             }
             Pat::Group(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, att, value);
                 let s1 = schema.group(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, att, value);
                 let s2 = schema.group(p1, d2);
                 schema.choice(s1, s2)
             }
             Pat::Interleave(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, att, value);
                 let i1 = schema.interleave(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, att, value);
                 let i2 = schema.interleave(p1, d2);
                 schema.choice(i1, i2)
             }
             Pat::OneOrMore(p, _) => {
-                let s1 = Self::att_deriv(memo, p, schema, att);
+                let s1 = Self::att_deriv(memo, p, schema, att, value);
                 let s2 = schema.choice(pat, schema.empty());
                 schema.group(s1, s2)
             }
             Pat::Attribute(ref nc, p) => {
                 let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, &att.value) {
+                if contains(nc, att.name) && Self::value_match(att_pat, schema, value) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
-- 
2.43.0


From 131f49d12565735920e99efdf8034d7660e2da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 13/52] fix: the first declaration of an entity is the binding
 one

---
 relaxng-validator/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 70ec342..ea04b42 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -783,8 +783,10 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        // when an entity is declared more than once, the first one is binding
                         self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                            .entry(name.to_string())
+                            .or_insert_with(|| val.to_string());
                         // does not change current_step state
                         return Ok(());
                     }
-- 
2.43.0


From 808bb11b7ba605a73377042298979d62728191d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 14/52] fix: a character reference may not include a sign

---
 relaxng-validator/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index ea04b42..7ff2d27 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1518,12 +1518,13 @@ fn parse_entities(
         }
     }
     fn numeric_entity(pos: usize, text: &str) -> Result<Txt<'_>, ValidatorError<'_>> {
-        if text.is_empty() {
+        if text.is_empty() || text.starts_with('+') {
             return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
         }
         let c = if let Some(text) = text.strip_prefix('x') {
             let pos = pos + 1;
-            if text.is_empty() {
+            // from_str_radix() itself would also accept a leading sign
+            if !text.starts_with(|c: char| c.is_ascii_hexdigit()) {
                 return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
             }
             u32::from_str_radix(text, 16)
-- 
2.43.0


From 2980a86b2e6d19517f85e5f0007b05171ce0999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 15/52] fix: only split lists at XML whitespace

---
 relaxng-validator/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 7ff2d27..9703f52 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -936,7 +936,7 @@ impl<'a> Validator<'a> {
             }
             Pat::List(p) => {
                 let mut p = p;
-                for item in text.split_whitespace() {
+                for item in list_tokens(text) {
                     let pat = schema.patt(p);
                     p = Self::text_deriv(pat, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
@@ -1580,6 +1580,11 @@ fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
 
+// Splits at XML whitespace, which is not the same as what str::split_whitespace() splits at
+fn list_tokens(s: &str) -> impl Iterator<Item = &str> {
+    s.split(is_whitespace_char).filter(|item| !item.is_empty())
+}
+
 fn is_whitespace_str(s: &str) -> bool {
     s.chars().all(is_whitespace_char)
 }
-- 
2.43.0


From 4f6e4a1584d476f1d91ab29caf589d0b6541901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 16/52] fix: support length facets in any order, and report
 repeated ones

---
 relaxng-model/src/datatype/xsd.rs | 34 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..403ee1c 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -291,15 +291,31 @@ impl LengthFacet {
                 }
                 LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
             },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
-            }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
-            }
-            LengthFacet::Length(_) => {
-                unimplemented!()
-            }
+            LengthFacet::MaxLength(max) => match other {
+                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
+                LengthFacet::MinLength(min) => {
+                    if min > *max {
+                        return Err(FacetError::ConflictingFacet(
+                            "minLength greater than maxLength",
+                        ));
+                    }
+                    LengthFacet::MinMaxLength(min, *max)
+                }
+                LengthFacet::MaxLength(_max) => {
+                    return Err(FacetError::ConflictingFacet("maxLength"));
+                }
+                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
+            },
+            LengthFacet::MinMaxLength(_, _) | LengthFacet::Length(_) => match other {
+                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
+                LengthFacet::MinLength(_) => {
+                    return Err(FacetError::ConflictingFacet("minLength"));
+                }
+                LengthFacet::MaxLength(_) => {
+                    return Err(FacetError::ConflictingFacet("maxLength"));
+                }
+                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
+            },
         };
         Ok(())
     }
-- 
2.43.0


From 2138ac9dd06d812efa59104bc9279866b051bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 17/52] fix: report repeated range facets

---
 relaxng-model/src/datatype/xsd.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 403ee1c..ed55f8b 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -449,7 +449,9 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => {
+                return Err(FacetError::ConflictingFacet("minInclusive"));
+            }
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -483,7 +485,9 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => {
+                return Err(FacetError::ConflictingFacet("minExclusive"));
+            }
         };
         Ok(())
     }
@@ -507,7 +511,9 @@ where
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => {
+                return Err(FacetError::ConflictingFacet("maxInclusive"));
+            }
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -541,7 +547,9 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => {
+                return Err(FacetError::ConflictingFacet("maxExclusive"));
+            }
         };
         Ok(())
     }
-- 
2.43.0


From 7869bbd1fc67d47c74382a85c5d6851103b44ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 18/52] fix: zero is not a positiveInteger

---
 relaxng-model/src/datatype/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index ed55f8b..31e15ae 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -108,7 +108,7 @@ impl super::Datatype for XsdDatatypes {
             XsdDatatypes::PositiveInteger(min_max, patt) => {
                 num_bigint::BigUint::from_str(value)
                     .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                    .is_some_and(|v| v != num_bigint::BigUint::from(0u8) && min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
-- 
2.43.0


From 9ff84b6e0839646c1ef565434a21ecd194ae8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 19/52] fix: ignore whitespace around values of XSD datatypes
 other than strings

---
 relaxng-model/src/datatype/xsd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 31e15ae..e909dda 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -69,6 +69,11 @@ pub enum XsdDatatypes {
 }
 impl super::Datatype for XsdDatatypes {
     fn is_valid(&self, value: &str) -> bool {
+        // other than for the string types, leading and trailing whitespace is not significant
+        let value = match self {
+            XsdDatatypes::NormalizedString(_) | XsdDatatypes::String(_) => value,
+            _ => value.trim_matches(|c: char| c.is_ascii_whitespace()),
+        };
         match self {
             XsdDatatypes::NormalizedString(str_facets) => {
                 let normal_val = super::relax::normalize_whitespace(value);
-- 
2.43.0


From e861b714b5b341158797b7725f369d228a3e962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 20/52] fix: the name attribute of <attribute> does not inherit
 a namespace

---
 relaxng-syntax/src/xml.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..bdf5efb 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -138,7 +138,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name)?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -318,8 +318,10 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let ns = get_ns_att(node);
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+        // unlike that of an element, an attribute's 'name' does not inherit the namespace of an
+        // ancestor
+        let ns = node.attribute_node("ns");
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -334,7 +336,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name)?),
+            NameClass::Name(qname_att(node, &name, ns)?),
             first_rng_child(node),
         )
     } else {
@@ -817,7 +819,8 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
+/// The given `ns` attribute supplies the namespace if the name has no prefix
+fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -833,7 +836,9 @@ fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
             localname,
         }))
     } else {
-        let ns = get_ns(node).unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
+        let ns = ns
+            .map(|ns| Literal::new(ns.range_value(), ns.value().to_string()))
+            .unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
-- 
2.43.0


From 6886742ec45346e2349dc69ae3639f67c9f9eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 21/52] fix: read all the text of <value>, <param> and <name>
 elements

---
 relaxng-syntax/src/xml.rs | 40 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index bdf5efb..74b6e38 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -465,21 +465,9 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
-    let val = if let Some(child) = node.first_child() {
-        let seg = LiteralSegment {
-            body: child
-                .text()
-                .ok_or(Error::Expected(node.range(), "Text content"))?
-                .to_string(),
-        };
-        Literal(child.range(), vec![seg])
-    } else {
-        // treat the value as ""
-        let seg = LiteralSegment {
-            body: "".to_string(),
-        };
-        Literal(node.range(), vec![seg])
-    };
+    // a value without any content is treated as ""
+    let range = node.first_child().unwrap_or(node).range();
+    let val = Literal::new(range, text_content(node));
     Ok(DatatypeValuePattern(
         type_name.map(|name| {
             DatatypeName::NamespacedName(NamespacedName {
@@ -576,16 +564,11 @@ fn param(node: Node) -> Result<Param> {
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
+    no_element_children(node)?;
     let child = node
         .first_child()
         .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let seg = LiteralSegment {
-        body: child
-            .text()
-            .ok_or(Error::Expected(node.range(), "Text content"))?
-            .to_string(),
-    };
-    let val = Literal(child.range(), vec![seg]);
+    let val = Literal::new(child.range(), text_content(node));
 
     Ok(Param(
         node.range(),
@@ -849,7 +832,8 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name
 
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
-    if let Some(val) = name.text() {
+    let val = text_content(name);
+    if !val.is_empty() {
         if let Some(pos) = val.find(':') {
             let start = name.range().start;
             let end = name.range().end;
@@ -858,7 +842,7 @@ fn qname_el(name: Node) -> Result<Name> {
             Ok(Name::CName(QName(prefix, localname)))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(name.first_child().unwrap().range(), val)?;
+            let localname = ncname(name.first_child().unwrap().range(), &val)?;
             Ok(Name::NamespacedName(NamespacedName {
                 namespace_uri: ns,
                 localname,
@@ -996,6 +980,14 @@ fn no_rng_element_children(node: Node) -> Result<()> {
     }
 }
 
+/// The text directly within the given element, ignoring any comments etc. that interrupt it
+fn text_content(node: Node) -> String {
+    node.children()
+        .filter(|child| child.is_text())
+        .filter_map(|child| child.text())
+        .collect()
+}
+
 fn no_element_children(node: Node) -> Result<()> {
     if let Some(child) = node.first_element_child() {
         Err(Error::Unexpected(child.range(), "Unexpected child element"))
-- 
2.43.0


From 681cabc9e78adba0193e5ae01a5b83ea86c05fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 22/52] fix: resolve the prefix used in a <name> element

---
 relaxng-syntax/src/xml.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 74b6e38..1eac1e1 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -838,8 +838,13 @@ fn qname_el(name: Node) -> Result<Name> {
             let start = name.range().start;
             let end = name.range().end;
             let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
+            let namespace = lookup_namespace_def(name, Some(&prefix.1))
+                .ok_or_else(|| Error::Unexpected(prefix.0.clone(), "Unknown namespace prefix"))?;
             let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
+            Ok(Name::NamespacedName(NamespacedName {
+                namespace_uri: Literal::new(prefix.0, namespace.to_string()),
+                localname,
+            }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
             let localname = ncname(name.first_child().unwrap().range(), &val)?;
-- 
2.43.0


From c620bf60ca358af77b381dc45d193cec54774b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 23/52] fix: match each text node as a whole, however it is
 divided into tokens

---
 relaxng-validator/src/lib.rs | 46 ++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 9703f52..66d95b4 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -524,6 +524,8 @@ pub struct Validator<'a> {
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
     last_was_start_element: bool,
+    // character data seen since the last tag, and the token with which it began
+    pending_text: Option<(Token<'a>, String)>,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
 }
@@ -549,6 +551,7 @@ impl<'a> Validator<'a> {
             tokenizer,
             current_step: start,
             last_was_start_element: false,
+            pending_text: None,
             stack: ElementStack::default(),
             entity_definitions,
         }
@@ -672,7 +675,37 @@ impl<'a> Validator<'a> {
         self.schema.check_choices(self.current_step, &mut seen);
     }
 
+    // A single text node may be split up by comments, CDATA sections, etc. so it can't be matched
+    // until we know that it's complete
+    fn push_text(&mut self, evt: Token<'a>, text: &str) {
+        self.pending_text
+            .get_or_insert_with(|| (evt, String::new()))
+            .1
+            .push_str(text);
+    }
+
+    fn flush_text(&mut self) -> Result<(), ValidatorError<'a>> {
+        if let Some((evt, text)) = self.pending_text.take() {
+            let pat = self.schema.patt(self.current_step);
+            let new = Self::text_deriv(pat, &mut self.schema, &text);
+            if let Pat::NotAllowed = self.schema.patt(new) {
+                return Err(ValidatorError::NotAllowed(evt));
+            }
+            self.last_was_start_element = false;
+            self.current_step = new;
+        }
+        Ok(())
+    }
+
     fn validate(&mut self, evt: Token<'a>) -> Result<(), ValidatorError<'a>> {
+        if let Token::ElementStart { .. }
+        | Token::ElementEnd {
+            end: ElementEnd::Close(_, _),
+            ..
+        } = evt
+        {
+            self.flush_text()?;
+        }
         let pat = self.schema.patt(self.current_step);
         let new = match evt {
             Token::EmptyDtd { .. }
@@ -766,15 +799,14 @@ impl<'a> Validator<'a> {
                     }
                 }
             }
-            Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
+            Token::Cdata { text, span: _ } => {
+                self.push_text(evt, &text);
+                return Ok(());
+            }
             Token::Text { text } => {
                 let data = decode_entities(&self.entity_definitions, text)?;
-                let next_id = Self::text_deriv(pat, &mut self.schema, &data);
-                let next_pat = self.schema.patt(next_id);
-                if let Pat::NotAllowed = next_pat {
-                    return Err(ValidatorError::NotAllowed(Token::Text { text }));
-                }
-                next_id
+                self.push_text(evt, &data);
+                return Ok(());
             }
             Token::EntityDeclaration {
                 name,
-- 
2.43.0


From bdd142d98f24e95bafac5e56ae92a7e032be73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 24/52] fix: a pattern facet must match the whole value

---
 relaxng-model/src/datatype/xsd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index e909dda..6bfbd79 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1466,7 +1466,8 @@ impl Compiler {
     }
 
     fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        regex::Regex::new(&param.3.as_string_value())
+        // the pattern must match the whole value, not just some part of it
+        regex::Regex::new(&format!("^(?:{})$", param.3.as_string_value()))
             .map(|re| PatternFacet(param.3.as_string_value(), re))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
-- 
2.43.0


From 92f03103db66a0c9e4b801872718eb699345f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 25/52] fix: minExclusive equal to maxInclusive is a
 contradiction in either order

---
 relaxng-model/src/datatype/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 6bfbd79..27279d3 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -469,7 +469,7 @@ where
         match &self.max {
             Max::Unbounded => {}
             Max::Inclusive(max) => {
-                if val > *max {
+                if val >= *max {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxInclusive",
                     ));
-- 
2.43.0


From 4c3374412dabee95aa6a823d4c0c31af31dad79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 26/52] fix: accept ns and datatypeLibrary attributes on every
 schema element

---
 relaxng-syntax/src/xml.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 1eac1e1..87d248c 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -499,7 +499,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     };
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "type" && a.name() != "datatypeLibrary")
+        .find(|a| is_rng_att(a) && a.name() != "type" && !is_common_att(a))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -652,7 +652,7 @@ fn start(node: Node) -> Result<Define> {
     };
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "combine")
+        .find(|a| is_rng_att(a) && a.name() != "combine" && !is_common_att(a))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -965,12 +965,20 @@ fn is_rng_att(a: &Attribute) -> bool {
     a.namespace().is_none() || is_rng(a.namespace())
 }
 
+/// 'ns' and 'datatypeLibrary' are allowed on every element, even where nothing can inherit them
+fn is_common_att(a: &Attribute) -> bool {
+    a.namespace().is_none() && matches!(a.name(), "ns" | "datatypeLibrary")
+}
+
 fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
 
 fn no_attrs(node: Node) -> Result<()> {
-    if let Some(att) = node.attributes().find(|a| is_rng_att(a)) {
+    if let Some(att) = node
+        .attributes()
+        .find(|a| is_rng_att(a) && !is_common_att(a))
+    {
         Err(Error::Unexpected(att.range(), "Unexpected attribute"))
     } else {
         Ok(())
-- 
2.43.0


From e5c832d688856fde7aebc7713e8ef1bd780aefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 27/52] fix: a parent reference within an element of a nested
 grammar is not unguarded recursion

---
 relaxng-model/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8af5119..d8ff371 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -606,7 +606,9 @@ impl<'a> Context<'a> {
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
-            Context::Grammar { parent, .. } => parent.acquire_ref(id),
+            // the reference may be within an element of the nested grammar, which can't be told from
+            // here, so unguarded recursion is left for check_ref_cycle() to report
+            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
-- 
2.43.0


From 74eeb73d5191ad1ccb97549b31d79877294aab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 28/52] fix: attributes of foreign namespaces are not schema
 attributes

---
 relaxng-syntax/src/xml.rs | 58 +++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 87d248c..6f73431 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -84,7 +84,7 @@ fn pattern(node: Node) -> Result<Pattern> {
 }
 
 fn check_standard_attrs(node: Node) -> Result<()> {
-    if let Some(dt_lib) = node.attribute_node("datatypeLibrary") {
+    if let Some(dt_lib) = rng_attribute(node, "datatypeLibrary") {
         let val = dt_lib.value();
         if val.is_empty() {
             Ok(())
@@ -137,7 +137,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 }
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, pattern) = if let Some(name) = rng_attribute(node, "name") {
         let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
@@ -270,7 +270,7 @@ fn get_ns(node: Node) -> Option<Literal> {
 fn get_ns_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("ns") {
+        if let Some(ns) = rng_attribute(node, "ns") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -287,7 +287,7 @@ fn get_datatype_lib(node: Node) -> Option<Literal> {
 fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("datatypeLibrary") {
+        if let Some(ns) = rng_attribute(node, "datatypeLibrary") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -318,10 +318,10 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, rest) = if let Some(name) = rng_attribute(node, "name") {
         // unlike that of an element, an attribute's 'name' does not inherit the namespace of an
         // ancestor
-        let ns = node.attribute_node("ns");
+        let ns = rng_attribute(node, "ns");
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -428,7 +428,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_attribute(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -437,7 +437,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_attribute(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -461,8 +461,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_name = node
-        .attribute_node("type")
+    let type_name = rng_attribute(node, "type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
     // a value without any content is treated as ""
@@ -483,9 +482,8 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_attr = node
-        .attribute_node("type")
-        .ok_or(Error::Expected(node.range(), "type attribute"))?;
+    let type_attr =
+        rng_attribute(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
         // TODO: check datatypeLibrary namespace!
         "token" => DatatypeName::Token,
@@ -559,9 +557,8 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name =
+        rng_attribute(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     no_element_children(node)?;
@@ -585,9 +582,8 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href =
+        rng_attribute(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
     //       be altered to make using it here simpler
@@ -636,7 +632,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 }
 
 fn start(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_attribute(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -673,7 +669,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_attribute(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -688,9 +684,8 @@ fn define(node: Node) -> Result<Define> {
         AssignMethod::Assign
     };
 
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name =
+        rng_attribute(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     let patt = single_pattern_or_group(
@@ -751,9 +746,8 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href =
+        rng_attribute(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     let seg = LiteralSegment {
         body: rebase_path(node, href.value())?,
@@ -970,6 +964,16 @@ fn is_common_att(a: &Attribute) -> bool {
     a.namespace().is_none() && matches!(a.name(), "ns" | "datatypeLibrary")
 }
 
+/// The attribute of the given name that has no namespace; Node::attribute_node() would also find an
+/// attribute of a foreign namespace
+fn rng_attribute<'a, 'input: 'a>(
+    node: Node<'a, 'input>,
+    name: &str,
+) -> Option<Attribute<'a, 'input>> {
+    node.attributes()
+        .find(|a| a.namespace().is_none() && a.name() == name)
+}
+
 fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
-- 
2.43.0


From 7946048abe28cabd90efeed4f69733822839e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 29/52] fix: minInclusive equal to maxExclusive is a
 contradiction in either order

---
 relaxng-model/src/datatype/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 27279d3..600756a 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -531,7 +531,7 @@ where
         match &self.min {
             Min::Unbounded => {}
             Min::Inclusive(min) => {
-                if *min > val {
+                if *min >= val {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxInclusive",
                     ));
-- 
2.43.0


From 4e87048de8995f3bdf12762498f9d869b36364fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 30/52] fix: report a reference that is cut off right after the
 ampersand

---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 66d95b4..befdd21 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1512,7 +1512,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
-- 
2.43.0


From 68548cc6124d63cab4533c645c7a60ed91453bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 31/52] fix: report a parent reference without a parent grammar
 in the file that contains it

---
 relaxng-model/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index d8ff371..0095d2f 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -596,19 +596,24 @@ impl<'a> Context<'a> {
     }
 
     fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+        // the span belongs to the file that this context is in, not to that of the root context
+        self.acquire_parent_ref_impl(id)
+            .unwrap_or_else(|| Err(RelaxError::NoParentAvailable(self.convert_span(&id.0))))
+    }
+    fn acquire_parent_ref_impl(
+        &self,
+        id: &types::Identifier,
+    ) -> Option<Result<model::PatRef, RelaxError>> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => None,
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref_impl(id),
             // the reference may be within an element of the nested grammar, which can't be told from
             // here, so unguarded recursion is left for check_ref_cycle() to report
-            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
+            Context::Grammar { parent, .. } => Some(parent.acquire_ref_impl(id)),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
-- 
2.43.0


From 6f7c3628bf54a03cf9257514f73f13099f4873bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 32/52] fix: report ill-formed schema documents with a valid
 span

---
 relaxng-syntax/src/xml.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 6f73431..fca63fc 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -16,15 +16,21 @@ pub enum Error {
 
 pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
-        // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
-        // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
+        // Gah!  The interface we want to expose is in terms of byte ranges, but the errors from
+        // roxmltree give us a line number, and a column number counted in characters
+        let pos = e.pos();
+        let (row, col) = (pos.row.max(1) as usize, pos.col.max(1) as usize);
+        let mut start = 0;
+        let mut end = 0;
+        for (i, line) in text.split_inclusive('\n').take(row).enumerate() {
+            if i + 1 == row {
+                start += line.char_indices().nth(col - 1).map_or(line.len(), |c| c.0);
+                end += line.len();
+            } else {
+                start += line.len();
+                end = start;
+            }
+        }
         Error::Xml(start..end, e.to_string())
     })?;
     Ok(Schema {
-- 
2.43.0


From 7c0124e6e3d95068c8fb04d1c83e09e79ef58450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 33/52] fix: strip only XML white space around names, and none
 around the colon of a prefixed name

---
 relaxng-syntax/src/xml.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index fca63fc..4b8eff0 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -468,7 +468,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_name = rng_attribute(node, "type")
-        .map(|attr| ncname(attr.range_value(), attr.value()))
+        .map(|attr| ncname(attr.range_value(), trim_ws(attr.value())))
         .transpose()?;
     // a value without any content is treated as ""
     let range = node.first_child().unwrap_or(node).range();
@@ -490,7 +490,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_attr =
         rng_attribute(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
-    let type_name = match type_attr.value().trim() {
+    let type_name = match trim_ws(type_attr.value()) {
         // TODO: check datatypeLibrary namespace!
         "token" => DatatypeName::Token,
         val => {
@@ -639,7 +639,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 
 fn start(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = rng_attribute(node, "combine") {
-        match combine.value().trim() {
+        match trim_ws(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -676,7 +676,7 @@ fn start(node: Node) -> Result<Define> {
 
 fn define(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = rng_attribute(node, "combine") {
-        match combine.value().trim() {
+        match trim_ws(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -716,7 +716,7 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        ident(attr.range_value(), trim_ws(attr.value()))
     }
 }
 
@@ -804,13 +804,13 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
 
 /// The given `ns` attribute supplies the namespace if the name has no prefix
 fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
-    let val = name.value();
+    let val = trim_ws(name.value());
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
         let end = name.range_value().end;
         let prefix = &val[0..pos];
         let prefix_span = start..(start + pos);
-        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
+        let namespace = lookup_namespace_def(node, Some(prefix))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
         let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
@@ -833,21 +833,22 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
     let val = text_content(name);
+    let val = trim_ws(&val);
     if !val.is_empty() {
         if let Some(pos) = val.find(':') {
             let start = name.range().start;
             let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
+            let prefix = ncname(start..(start + pos), &val[0..pos])?;
             let namespace = lookup_namespace_def(name, Some(&prefix.1))
                 .ok_or_else(|| Error::Unexpected(prefix.0.clone(), "Unknown namespace prefix"))?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
+            let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
             Ok(Name::NamespacedName(NamespacedName {
                 namespace_uri: Literal::new(prefix.0, namespace.to_string()),
                 localname,
             }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(name.first_child().unwrap().range(), &val)?;
+            let localname = ncname(name.first_child().unwrap().range(), val)?;
             Ok(Name::NamespacedName(NamespacedName {
                 namespace_uri: ns,
                 localname,
@@ -858,8 +859,12 @@ fn qname_el(name: Node) -> Result<Name> {
     }
 }
 
+/// Removes leading and trailing XML white space
+fn trim_ws(val: &str) -> &str {
+    val.trim_matches([' ', '\t', '\n', '\r'])
+}
+
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
@@ -896,7 +901,6 @@ fn lookup_namespace_def<'a, 'input: 'a>(
 }
 
 fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
-- 
2.43.0


From 29a5e3f2f7892cdd0d92e06086279c96d555e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 34/52] fix: validating xsd:token, NMTOKEN and NMTOKENS
 panicked

---
 relaxng-model/src/datatype/xsd.rs | 38 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 600756a..cdcf505 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -127,16 +127,15 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
-            XsdDatatypes::NmTokens(_len) => {
-                unimplemented!()
-            }
-            XsdDatatypes::NmToken(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmTokens(len) => {
+                let tokens = value.split_ascii_whitespace().collect::<Vec<_>>();
+                !tokens.is_empty()
+                    && tokens.iter().all(|token| is_valid_nmtoken(token))
+                    && len.allows(tokens.len())
             }
+            XsdDatatypes::NmToken(len) => len.is_valid(value) && is_valid_nmtoken(value),
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(_len) => {
-                unimplemented!()
-            }
+            XsdDatatypes::Token(len) => len.is_valid(&normalize_whitespace(value)),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
@@ -190,6 +189,14 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+/// One or more of the characters that can follow the first one of a name
+fn is_valid_nmtoken(text: &str) -> bool {
+    !text.is_empty()
+        && text
+            .split(':')
+            .all(|part| is_valid_ncname(&format!("_{part}")))
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct StringFacets {
     len: LengthFacet,
@@ -268,13 +275,16 @@ pub enum LengthFacet {
 }
 impl LengthFacet {
     fn is_valid(&self, value: &str) -> bool {
-        let actual = value.chars().count();
-        match self {
+        self.allows(value.chars().count())
+    }
+
+    fn allows(&self, actual: usize) -> bool {
+        match *self {
             LengthFacet::Unbounded => true,
-            LengthFacet::MinLength(min) => *min <= actual,
-            LengthFacet::MaxLength(max) => actual <= *max,
-            LengthFacet::MinMaxLength(min, max) => *min <= actual && actual <= *max,
-            LengthFacet::Length(len) => actual == *len,
+            LengthFacet::MinLength(min) => min <= actual,
+            LengthFacet::MaxLength(max) => actual <= max,
+            LengthFacet::MinMaxLength(min, max) => min <= actual && actual <= max,
+            LengthFacet::Length(len) => actual == len,
         }
     }
 
-- 
2.43.0


From af8c2afa36abf89b4508e4e4387c9c3e1a36ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 35/52] fix: a value of an unsupported type, or a QName with a
 prefix, panicked

---
 relaxng-model/src/datatype/xsd.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index cdcf505..c638724 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -820,7 +820,10 @@ impl Compiler {
                     }
                 })?,
             )),
-            _ => unimplemented!("{:?} not yet supported", name),
+            _ => Err(XsdDatatypeError::UnsupportedDatatype {
+                span: ctx.convert_span(span),
+                name: name.to_string(),
+            }),
         }
     }
 
@@ -1491,16 +1494,8 @@ trait TryFromVal: Sized {
 pub struct QNameVal(String);
 impl TryFromVal for QNameVal {
     fn try_from_val(val: &str) -> Result<Self, ()> {
-        if let Some(pos) = val.find(':') {
-            let prefix = &val[0..pos];
-            let localname = &val[pos + 1..];
-            if is_valid_ncname(prefix) && is_valid_ncname(localname) {
-                unimplemented!("Need to be able to look up prefix {:?}", prefix);
-            //Ok(QNameVal(val.to_string()))
-            } else {
-                Err(())
-            }
-        } else if is_valid_ncname(val) {
+        // TODO: names with a prefix; need to be able to look up the prefix
+        if is_valid_ncname(val) {
             Ok(QNameVal(val.to_string()))
         } else {
             Err(())
-- 
2.43.0


From a6b920e6ad931864df21928910b022ecfb0fbd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 36/52] fix: <data type="token"> ignored its datatypeLibrary

---
 relaxng-syntax/src/xml.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 4b8eff0..e226b8f 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -490,17 +490,10 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_attr =
         rng_attribute(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
-    let type_name = match trim_ws(type_attr.value()) {
-        // TODO: check datatypeLibrary namespace!
-        "token" => DatatypeName::Token,
-        val => {
-            let name = ncname(type_attr.range_value(), val)?;
-            DatatypeName::NamespacedName(NamespacedName {
-                namespace_uri: datatype_ns,
-                localname: name,
-            })
-        }
-    };
+    let type_name = DatatypeName::NamespacedName(NamespacedName {
+        namespace_uri: datatype_ns,
+        localname: ncname(type_attr.range_value(), trim_ws(type_attr.value()))?,
+    });
     if let Some(a) = node
         .attributes()
         .find(|a| is_rng_att(a) && a.name() != "type" && !is_common_att(a))
-- 
2.43.0


From 85d5ac7fe63fca882dba692165829bebc2fc835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 37/52] fix: a <param> without content was an error

---
 relaxng-syntax/src/xml.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index e226b8f..9cce45b 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -561,10 +561,9 @@ fn param(node: Node) -> Result<Param> {
     let name = attr_ncname(&name)?;
 
     no_element_children(node)?;
-    let child = node
-        .first_child()
-        .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let val = Literal::new(child.range(), text_content(node));
+    // a param without any content is treated as ""
+    let range = node.first_child().unwrap_or(node).range();
+    let val = Literal::new(range, text_content(node));
 
     Ok(Param(
         node.range(),
-- 
2.43.0


From f102c85150070b5a3486f914e0842e342b840e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 38/52] fix: datatype prefixes are those of the file that uses
 them

---
 relaxng-model/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 0095d2f..bdc205a 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -451,21 +451,14 @@ impl<'a> Context<'a> {
 
     fn datatype_uri_for_prefix(&self, prefix: &str) -> Option<&str> {
         match self {
-            Context::Root { datatypes, .. } => {
+            Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 // TODO: return Option, and have caller work out RelaxError value
                 datatypes.get(prefix).map(|s| &s[..])
             }
-            Context::Include {
-                parent, datatypes, ..
-            } => {
-                if let Some(uri) = datatypes.get(prefix).map(|s| &s[..]) {
-                    Some(uri)
-                } else {
-                    parent.datatype_uri_for_prefix(prefix)
-                }
+            Context::IncludeOverrides { parent } => {
+                parent.including_context().datatype_uri_for_prefix(prefix)
             }
-            Context::IncludeOverrides { parent }
-            | Context::Grammar { parent, .. }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.datatype_uri_for_prefix(prefix),
-- 
2.43.0


From 0f3b72c492b05a1d92250ee519114d40dca16486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 39/52] fix: an override given in several pieces combines them
 rather than panic

---
 relaxng-model/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index bdc205a..8d8bcb3 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -496,14 +496,12 @@ impl<'a> Context<'a> {
                     ..
                 } = parent
                 {
+                    // (an override may be given in several pieces, which combine)
                     let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
+                    if !overrides.contains_key(id) {
                         overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
+                    }
+                    parant_of_include.define(id, rule)?;
                     Ok(())
                 } else {
                     unreachable!(
-- 
2.43.0


From 350a0ebaaa071f7ab9489fdc640c7cd1234efd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 40/52] fix: overrides within a div of an include panicked

---
 relaxng-model/src/lib.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8d8bcb3..746825c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1365,12 +1365,19 @@ impl<FS: Files> Compiler<FS> {
         }
         Ok(())
     }
-    fn compile_include_div(
+    fn compile_include_content(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        content: &[types::IncludeContent],
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        for item in content {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_content(ctx, &d[..])?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
     }
     fn compile_include(
         &mut self,
@@ -1408,18 +1415,8 @@ impl<FS: Files> Compiler<FS> {
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
             let mut override_ctx = inc_ctx.new_inc_overrides();
-            for o in overrides.iter() {
-                match o {
-                    types::IncludeContent::Define(d) => {
-                        self.compile_define(&mut override_ctx, d)
-                            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?
-                    }
-                    types::IncludeContent::Div(d) => self
-                        .compile_include_div(&mut override_ctx, &d[..])
-                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?,
-                    types::IncludeContent::Annotation(_) => (),
-                }
-            }
+            self.compile_include_content(&mut override_ctx, &overrides[..])
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         }
 
         self.compile_schema(&mut inc_ctx, s)
-- 
2.43.0


From 66a26336af4993cad1f64e810d2ecd21ac969580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 41/52] fix: 'inherit = p' gives the included file the
 namespace of p as its default

---
 relaxng-model/src/lib.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 746825c..c77bb44 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1379,6 +1379,17 @@ impl<FS: Files> Compiler<FS> {
         }
         Ok(())
     }
+    /// The namespace that an included file inherits by way of a prefix of the including one
+    fn inherited_namespace(ctx: &Context, inherit: &types::Inherit) -> Result<String, RelaxError> {
+        let prefix = inherit.0.to_string();
+        match ctx.namespace_uri_for_prefix_str(&prefix) {
+            Some(uri) => Ok(uri.to_string()),
+            None => Err(RelaxError::UndefinedNamespacePrefix {
+                span: ctx.convert_span(&inherit.0.span()),
+                prefix,
+            }),
+        }
+    }
     fn compile_include(
         &mut self,
         ctx: &mut Context,
@@ -1401,15 +1412,7 @@ impl<FS: Files> Compiler<FS> {
         let mut inc_ctx = ctx.new_include(span, file)?;
 
         if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
+            inc_ctx.set_default_namespace(Self::inherited_namespace(ctx, inherit)?);
         }
 
         // replace any definitions for which the including file provides an override
-- 
2.43.0


From b7adfccc4accd9d864b33fd195ada113ddcdd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 42/52] fix: 'external' with 'inherit = p' panicked

---
 relaxng-model/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c77bb44..06a81a1 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1683,9 +1683,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = Path::new(ctx.file().name())
             .parent()
             .expect("TODO: no parent?")
@@ -1696,6 +1693,9 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        if let Some(ref inherit) = external.1 {
+            inc_ctx.set_default_namespace(Self::inherited_namespace(ctx, inherit)?);
+        }
         for dec in s.decls.iter() {
             self.compile_declaration(&mut inc_ctx, dec)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
-- 
2.43.0


From 8409cdb023bf06cc4972c335117ff881569440fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:00 +0000
Subject: [PATCH 43/52] fix: declarations of an inherited namespace panicked

---
 relaxng-model/src/lib.rs | 44 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 06a81a1..a687f61 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1272,8 +1272,9 @@ impl<FS: Files> Compiler<FS> {
     }
 
     fn compile_schema(&mut self, ctx: &mut Context, schema: Rc<Schema>) -> Result<(), RelaxError> {
+        let inherited = ctx.default_namespace_uri().to_string();
         for dec in schema.decls.iter() {
-            self.compile_declaration(ctx, dec)?;
+            self.compile_declaration(ctx, &inherited, dec)?;
         }
         match schema.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(ref p) => {
@@ -1696,8 +1697,9 @@ impl<FS: Files> Compiler<FS> {
         if let Some(ref inherit) = external.1 {
             inc_ctx.set_default_namespace(Self::inherited_namespace(ctx, inherit)?);
         }
+        let inherited = inc_ctx.default_namespace_uri().to_string();
         for dec in s.decls.iter() {
-            self.compile_declaration(&mut inc_ctx, dec)
+            self.compile_declaration(&mut inc_ctx, &inherited, dec)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         }
 
@@ -1918,35 +1920,33 @@ impl<FS: Files> Compiler<FS> {
         })
     }
 
+    /// The namespace that is declared, perhaps the one inherited from the including file
+    fn namespace_uri(inherited: &str, uri: &NamespaceUriLiteral) -> String {
+        match uri {
+            NamespaceUriLiteral::Inherit => inherited.to_string(),
+            NamespaceUriLiteral::Uri(uri) => uri.as_string_value(),
+        }
+    }
+
     fn compile_declaration(
         &mut self,
         ctx: &mut Context,
+        inherited: &str,
         dec: &types::Decl,
     ) -> Result<(), RelaxError> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
-                match uri {
-                    NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                    }
-                    NamespaceUriLiteral::Uri(uri) => {
-                        ctx.set_default_namespace(uri.as_string_value());
-                        if let Some(p) = prefix {
-                            ctx.declare_namespace(p.clone(), uri.as_string_value())
-                        } else {
-                            Ok(())
-                        }
-                    }
+                let uri = Self::namespace_uri(inherited, uri);
+                ctx.set_default_namespace(uri.clone());
+                if let Some(p) = prefix {
+                    ctx.declare_namespace(p.clone(), uri)
+                } else {
+                    Ok(())
                 }
             }
-            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
-                NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                }
-                NamespaceUriLiteral::Uri(uri) => {
-                    ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-                }
-            },
+            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => {
+                ctx.declare_namespace(prefix.clone(), Self::namespace_uri(inherited, uri))
+            }
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
                 ctx.declare_datatype(prefix.clone(), uri.as_string_value())
             }
-- 
2.43.0


From d3fd0b9d77555d0470e33a723d9f5639a0047bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:52 +0000
Subject: [PATCH 44/52] fix: quoted identifiers that are not keywords were
 refused, and names kept the backslash

---
 relaxng-syntax/src/compact.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..a09c67d 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -139,7 +139,10 @@ fn decl_datatypes(input: Span) -> IResult<Span, DatatypesDeclaration> {
 //                             | keyword
 fn identifier_or_keyword(input: Span) -> IResult<Span, IdentifierOrKeyword> {
     alt((
-        map(identifier, IdentifierOrKeyword::Identifier),
+        map(identifier, |Identifier(span, name)| {
+            let name = name.trim_start_matches('\\').to_string();
+            IdentifierOrKeyword::Identifier(Identifier(span, name))
+        }),
         map(keyword, IdentifierOrKeyword::Keyword),
     ))
     .parse(input)
@@ -199,7 +202,9 @@ fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
 //                   | quotedIdentifier
 fn identifier(input: Span) -> IResult<Span, Identifier> {
     let res = alt((
+        // (the backslash of a keyword is kept: the definition '\start' is not the start of the grammar)
         recognize((tag("\\"), keyword)),
+        preceded(tag("\\"), recognize(nc_name)),
         recognize((not(peek(keyword)), nc_name)),
     ))
     .parse(input);
-- 
2.43.0


From a06140351c07b18adf2a788a7daa8c7767496ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 45/52] fix: a comment on the last line, without a line break,
 panicked

---
 relaxng-syntax/src/compact.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index a09c67d..6563649 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -8,10 +8,7 @@ use nom::{
     AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
@@ -893,7 +890,7 @@ fn space_comment1(input: Span) -> IResult<Span, Span> {
     recognize(fold_many1(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
 fn comment(input: Span) -> IResult<Span, Span> {
-    recognize((tag("#"), not_line_ending)).parse(input)
+    recognize((tag("#"), opt(is_not("\r\n")))).parse(input)
 }
 
 fn maybe_initial_annotation(input: Span) -> IResult<Span, Option<InitialAnnotation>> {
-- 
2.43.0


From cccafdd521cfff617e578c2971b7cfc98c55eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 46/52] fix: an annotation following a name class panicked

---
 relaxng-syntax/src/compact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 6563649..7ddba1a 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -615,7 +615,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     if !follow_annotations.is_empty() {
         println!(
             "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
+            follow_annotations
         );
     }
 
-- 
2.43.0


From 5a0500d31b0f3415f964670f763ff0115026c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 47/52] fix: annotations of the name class of a top level
 element were taken for a grammar

---
 relaxng-syntax/src/compact.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 7ddba1a..c1b2193 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -719,7 +719,7 @@ fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
         map(define, GrammarContent::Define),
         map(div_grammar_content, GrammarContent::Div),
         map(include, GrammarContent::Include),
-        map(annotation_element, GrammarContent::Annotation),
+        map(annotation_element_not_keyword, GrammarContent::Annotation),
     ))
     .parse(input)
 }
@@ -858,7 +858,7 @@ fn include_content(input: Span) -> IResult<Span, IncludeContent> {
         println!("include-content annotation found but ignored!")
     }
     alt((
-        map(annotation_element, IncludeContent::Annotation),
+        map(annotation_element_not_keyword, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
         map(start, IncludeContent::Define),
         map(div_include_content, IncludeContent::Div),
@@ -978,6 +978,11 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
     parser.parse(input)
 }
 
+// annotationElementNotKeyword  ::=  foreignElementNameNotKeyword "[" annotationAttributes ... "]"
+fn annotation_element_not_keyword(input: Span) -> IResult<Span, AnnotationElement> {
+    preceded(not((keyword, not(tag(":")))), annotation_element).parse(input)
+}
+
 fn annotation_element_or_literal(input: Span) -> IResult<Span, AnnotationElementOrLiteral> {
     let mut parser = alt((
         map(annotation_element, AnnotationElementOrLiteral::Element),
-- 
2.43.0


From 3d0147e74bb7f4fe6c830e26a8e3e3e98d84d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 48/52] fix: annotations before a definition, start, div or
 include were refused

---
 relaxng-syntax/src/compact.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index c1b2193..6aab86a 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -714,14 +714,19 @@ where
 //                        | "div" "{" grammarContent* "}"
 //                        | "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
-    alt((
+    let (input, annotation) = maybe_initial_annotation(input)?;
+    let result = alt((
         map(start, GrammarContent::Define),
         map(define, GrammarContent::Define),
         map(div_grammar_content, GrammarContent::Div),
         map(include, GrammarContent::Include),
         map(annotation_element_not_keyword, GrammarContent::Annotation),
     ))
-    .parse(input)
+    .parse(input)?;
+    if annotation.is_some() {
+        println!("grammar-content annotation found but ignored!")
+    }
+    Ok(result)
 }
 
 // start	  ::=  	"start" assignMethod pattern
-- 
2.43.0


From ba4e0737834e26840ea0c66700d81f2adfe4754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:53 +0000
Subject: [PATCH 49/52] fix: references to definitions whose names begin with
 'string' or 'token' were refused

---
 relaxng-syntax/src/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 6aab86a..064028b 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -590,8 +590,8 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
+        map((tag("string"), not(nc_name_char)), |_| DatatypeName::String),
+        map((tag("token"), not(nc_name_char)), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
     ))
     .parse(input)
-- 
2.43.0


From 8fb4510955ebdadca09e4a7221d33107ebdea05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:53 +0000
Subject: [PATCH 50/52] fix: 'default namespace="..."' needed white space
 before the =

---
 relaxng-syntax/src/compact.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 064028b..301744d 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -92,12 +92,11 @@ fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     ))
 }
 fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclaration> {
-    let (input, (_keyword, _, _, _, prefix, _, _, _, uri)) = (
+    let (input, (_keyword, _, _, prefix, _, _, _, uri)) = (
         tag("default"),
         space_comment1,
         tag("namespace"),
-        space_comment1,
-        opt(identifier_or_keyword),
+        opt(preceded(space_comment1, identifier_or_keyword)),
         space_comment0,
         tag("="),
         space_comment0,
-- 
2.43.0


From ab98556a72ec20ea757a07eadc58b397fb11fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:52 +0000
Subject: [PATCH 51/52] fix: a definition called start in an XML schema was
 taken for the start of the grammar

---
 relaxng-syntax/src/xml.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 9cce45b..bb2e5ac 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -435,7 +435,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = rng_attribute(node, "name") {
-        attr_ncname(&name)
+        def_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -444,7 +444,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = rng_attribute(node, "name") {
-        attr_ncname(&name)
+        def_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -684,7 +684,7 @@ fn define(node: Node) -> Result<Define> {
 
     let name =
         rng_attribute(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
-    let name = attr_ncname(&name)?;
+    let name = def_name(&name)?;
 
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Child pattern element"))?,
@@ -703,6 +703,16 @@ fn div_grammar_content(node: Node) -> Result<GrammarContent> {
     Ok(GrammarContent::Div(content))
 }
 
+/// The name of a definition.  One that is called "start" is not the start of the grammar, for which
+/// we use the same name: it is called '\start', as in the compact syntax.
+fn def_name(attr: &Attribute) -> Result<Identifier> {
+    let mut name = attr_ncname(attr)?;
+    if name.1 == "start" {
+        name.1 = "\\start".to_string();
+    }
+    Ok(name)
+}
+
 fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     // TODO: further checks
     if attr.value().contains(':') {
-- 
2.43.0


From 528aa6893d61e280b18a22cf440591b41be426e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:00 +0000
Subject: [PATCH 52/52] fix: xsd:normalizedString collapsed white space before
 its facets were checked

---
 relaxng-model/src/datatype/xsd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index c638724..ce47d73 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -76,7 +76,8 @@ impl super::Datatype for XsdDatatypes {
         };
         match self {
             XsdDatatypes::NormalizedString(str_facets) => {
-                let normal_val = super::relax::normalize_whitespace(value);
+                // white space is replaced, but not collapsed
+                let normal_val = value.replace(['\t', '\n', '\r'], " ");
                 str_facets.is_valid(&normal_val)
             }
             XsdDatatypes::String(str_facets) => str_facets.is_valid(value),
-- 
2.43.0

