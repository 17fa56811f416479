From 9655f4e107d1eedd0df83ee05d8583927732117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:55 +0000
Subject: [PATCH 01/19] fix: read the first character of a comment after its
 ';'

The first character of the comment text was taken to be the ';' itself.
A comment with no text swallowed the following line, a comment starting
with a multi-byte character left the position inside that character, and
a ';' at the very end of the text read beyond the end of the text.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From a8a3088e774ae73316fe8835f4e6b9b0e202667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:55 +0000
Subject: [PATCH 02/19] fix: track newlines within whitespace

LexerOfStr::do_while does not support newlines, so the line and column
of everything after whitespace with a newline in it was wrong.
---
 src/hml_reader/lexer_parsers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..c11b3ee 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -68,10 +68,18 @@ where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    if !ch.is_whitespace() {
         return Ok(None);
-    };
-    let token = Token::whitespace(Span::new(start, end));
+    }
+    // Consume character by character, as do_while does not track newlines
+    let mut end = lexer.consumed_char(posn, ch);
+    while let Some(ch) = lexer.peek_at(&end) {
+        if !ch.is_whitespace() {
+            break;
+        }
+        end = lexer.consumed_char(end, ch);
+    }
+    let token = Token::whitespace(Span::new(posn, end));
     Ok(Some((end, token)))
 }
 
-- 
2.43.0


From 307f10a1b572dfe27211ca872c8506e3fd4aa061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:56 +0000
Subject: [PATCH 03/19] fix: permit all combining diacritical marks within
 names

The name characters are those of XML, where the range is U+0300 to
U+036F; only the marks from U+0369 were permitted.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From 9ceacf1cd386be49f974ff651795c46646db256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:50 +0000
Subject: [PATCH 04/19] fix: check that a closing tag matches the element it
 closes

A closing tag closed the innermost boxed element whatever its name and
depth, and one with no boxed element open at all caused a panic. The
grammar requires the same name and depth as the opening tag. A closing
tag that does not match is now an error.
---
 src/error.rs              | 7 +++++++
 src/hml_reader/builder.rs | 9 ++++++++-
 src/hml_reader/parser.rs  | 8 +++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..55f8299 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -123,6 +123,12 @@ where
         /// Depth
         depth: usize,
     },
+    /// A closing tag that does not close the innermost open boxed element
+    #[error("Closing tag does not match an open boxed element")]
+    UnexpectedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -239,6 +245,7 @@ where
             Self::IoError { span, .. } => Some(span),
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
+            Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..a24a7ab 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -147,6 +146,14 @@ where
         self.tag_name = tag.name;
         Ok(Event::start_element(self.open_tag.span, tag))
     }
+    /// Returns true if the close tag has the name (as written) of this element
+    pub fn is_closed_by(&self, close_tag: &CloseTag<P, T>) -> bool {
+        let name = &close_tag.name;
+        self.tag_name.prefix == name.prefix && self.tag_name.name == name.name
+    }
+    pub fn extra(&self) -> &T {
+        &self.open_tag.extra
+    }
     pub fn as_end_element(
         &self,
         ns_stack: &mut NamespaceStack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..fc29f5e 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -118,7 +118,13 @@ where
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
         } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
+            let matches = self.tag_stack.last().map_or(false, |element| {
+                element.is_closed_by(&close_tag) && element.extra().depth == close_tag.extra.depth
+            });
+            if !matches {
+                let span = *close_tag.span();
+                return Err(HmlError::UnexpectedCloseTag { span });
+            }
             self.pop_tag_stack(ns_stack, close_tag.span())
         }
     }
-- 
2.43.0


From cfb3d123db0ea16eb0ab60d6152d72e259052d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:51 +0000
Subject: [PATCH 05/19] fix: report a boxed element that is never closed

The end of the text silently closed boxed elements that had no closing
tag, which the grammar requires. It is now an unexpected EOF error.
---
 src/hml_reader/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index fc29f5e..a681eda 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -97,6 +97,9 @@ where
         if self.tag_stack.is_empty() {
             self.end_emitted = true;
             Ok(None)
+        } else if self.tag_depth == 0 {
+            // A boxed element at the top of the stack requires a closing tag
+            HmlError::unexpected_eof(&self.token_pos, &self.token_pos)
         } else {
             let span = Span::new_at(&self.token_pos);
             self.pop_tag_stack(ns_stack, &span)
-- 
2.43.0


From a8cec12d1bc361c4dbf822691b5bd4b32395c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:51 +0000
Subject: [PATCH 06/19] fix: reject content that is not within an element

A quoted string before or after the root element produced a content
event, although content is always within an element. It is now an error.
---
 src/error.rs             | 7 +++++++
 src/hml_reader/parser.rs | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 55f8299..c958ca0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -129,6 +129,12 @@ where
         /// Span of the error
         span: Span<P>,
     },
+    /// An element or content that is not within the root element
+    #[error("Only comments are permitted outside the root element")]
+    OutsideRootElement {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -246,6 +252,7 @@ where
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedCloseTag { span, .. } => Some(span),
+            Self::OutsideRootElement { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index a681eda..7a17a4e 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -241,6 +241,10 @@ where
                         HmlError::unexpected_attribute(span, &prefix, &name)
                     }
                 }
+                TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
+                    let span = Span::new_at(token.get_span().start());
+                    Err(HmlError::OutsideRootElement { span })
+                }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
                     let data = data.pop_front().unwrap();
-- 
2.43.0


From f35c5f6272fdfc7e60e64ef04b25195a7f1822cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:52 +0000
Subject: [PATCH 07/19] fix: require a document to have exactly one root
 element

A document with no element, or with further elements after the root
element, was accepted. The grammar has exactly one root element.
---
 src/hml_reader/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 7a17a4e..00ac785 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -30,6 +30,7 @@ where
     start_emitted: bool,
     end_emitted: bool,
     finished: bool,
+    root_opened: bool,
     tag_depth: usize,
     tag_stack: Vec<StackElement<P, TagExtra>>,
     pending_open_tag: Option<OpenTag<P, TagExtra>>,
@@ -50,6 +51,7 @@ where
             start_emitted: false,
             end_emitted: false,
             finished: false,
+            root_opened: false,
             tag_depth: 0,
             tag_stack: Vec::new(),
             pending_eof: false,
@@ -94,7 +96,10 @@ where
         &mut self,
         ns_stack: &mut NamespaceStack,
     ) -> HmlResult<Option<Event<P>>, P> {
-        if self.tag_stack.is_empty() {
+        if !self.root_opened {
+            // A document has exactly one root element
+            HmlError::unexpected_eof(&self.token_pos, &self.token_pos)
+        } else if self.tag_stack.is_empty() {
             self.end_emitted = true;
             Ok(None)
         } else if self.tag_depth == 0 {
@@ -148,6 +153,13 @@ where
             self.pending_open_tag = Some(open_tag);
             self.pop_tag_stack(ns_stack, &span)
         } else if open_tag.extra.depth == self.tag_depth + 1 {
+            if self.tag_stack.is_empty() {
+                if self.root_opened {
+                    let span = *open_tag.span();
+                    return Err(HmlError::OutsideRootElement { span });
+                }
+                self.root_opened = true;
+            }
             // open the new element
             let boxed = open_tag.extra.boxed;
             self.tag_stack
-- 
2.43.0


From 730efa040a06704f7aaa6535bd775e24e98dc010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:52 +0000
Subject: [PATCH 08/19] fix: iterate over each namespace prefix once

Iterating over a namespace stack also returned the mappings hidden by a
mapping of the same prefix in a higher frame, as the set of prefixes
already returned was never added to.
---
 src/names/namespace_stack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..69b0071 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -129,10 +129,10 @@ impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
             None
         } else if let Some(iter) = &mut self.frame_iter {
             if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
-                    self.next()
-                } else {
+                if self.used.insert(*p_id) {
                     Some(NSMap::new(*p_id, *u_id))
+                } else {
+                    self.next()
                 }
             } else {
                 self.frame -= 1;
-- 
2.43.0


From 8154c072e730efc96db8ef7b2f373e57d411e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:53 +0000
Subject: [PATCH 09/19] fix: iterate over a deep namespace stack without
 recursion

The iterator recursed for every frame with no mappings, so iterating
over the stack of a deeply nested document overflowed the call stack.
---
 src/names/namespace_stack.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 69b0071..8184c4a 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -125,24 +125,21 @@ impl<'ns, 'b> NamespaceStackIterator<'ns, 'b> {
 impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.frame == 0 {
-            None
-        } else if let Some(iter) = &mut self.frame_iter {
-            if let Some((p_id, u_id)) = iter.next() {
+        while self.frame > 0 {
+            let stack = self.stack;
+            let frame = self.frame;
+            let iter = self
+                .frame_iter
+                .get_or_insert_with(|| stack.borrow_frame(frame - 1).mappings.iter());
+            for (p_id, u_id) in iter {
                 if self.used.insert(*p_id) {
-                    Some(NSMap::new(*p_id, *u_id))
-                } else {
-                    self.next()
+                    return Some(NSMap::new(*p_id, *u_id));
                 }
-            } else {
-                self.frame -= 1;
-                self.frame_iter = None;
-                self.next()
             }
-        } else {
-            self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
-            self.next()
+            self.frame -= 1;
+            self.frame_iter = None;
         }
+        None
     }
 }
 
-- 
2.43.0


From c61042b1b4b6953319d60f4fee92d798476e00c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:53 +0000
Subject: [PATCH 10/19] fix: make iteration over the topmost mappings work

iter_top_mappings asserted that the stack was empty, and the order of
the mappings in a frame was never recorded for it to iterate over.
---
 src/names/namespace_stack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 8184c4a..871ccf8 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,10 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        let prefix_id = map.prefix_id();
+        if self.mappings.insert(prefix_id, map.uri_id()).is_none() {
+            self.order.push(prefix_id);
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -288,7 +291,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From ee87cbed93418edb6ee76995ffff9143419a7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:54 +0000
Subject: [PATCH 11/19] fix: do not print namespace declarations to stdout

The library printed a line for every namespace attribute it parsed.
---
 src/names/attribute.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index b13dec9..9a885ab 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -27,12 +27,10 @@ impl Attribute {
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                println!("Add ns '' to be {}", value);
                 ns_stack.add_ns("", &value);
                 let name = Name::new(ns_stack, name, name)?;
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
-                println!("Add ns {} to be value {}", name, value);
                 ns_stack.add_ns(name, &value);
             }
         }
-- 
2.43.0


From 495bad0d907c85edd82efbd43806556a9e513679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:54 +0000
Subject: [PATCH 12/19] fix: do not give the default namespace attribute a
 prefix

An attribute xmlns='uri' was named 'xmlns:xmlns', and was written to XML
as that, so the XML did not declare the default namespace.
---
 src/names/attribute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 9a885ab..307c73f 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -1,5 +1,5 @@
 //a Imports
-use super::{Name, NamespaceStack};
+use super::{NSPrefixId, Name, NamespaceStack};
 use crate::MarkupResult;
 
 //a Attribute
@@ -28,7 +28,9 @@ impl Attribute {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
                 ns_stack.add_ns("", &value);
-                let name = Name::new(ns_stack, name, name)?;
+                let mut name = Name::new(ns_stack, name, name)?;
+                // the attribute is in the xmlns namespace but it has no prefix
+                name.prefix = NSPrefixId::none();
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
                 ns_stack.add_ns(name, &value);
-- 
2.43.0


From ccf625faa66d6c9254b8dd3de6ce67b688b8b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:55 +0000
Subject: [PATCH 13/19] fix: declare namespaces before resolving attribute
 names

A namespace attribute only applied to attributes after it in the tag. The
namespaces of an element apply to all of its attributes, so an attribute
before the declaration was given the wrong URI or an unmapped prefix
error.
---
 src/hml_reader/builder.rs | 25 ++++++++++++++++++-------
 src/hml_reader/parser.rs  |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index a24a7ab..27dcd12 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -96,7 +96,7 @@ where
     parent_depth: usize,
     open_tag: OpenTag<P, T>,
     tag_name: Name,
-    attributes: Attributes,
+    attributes: Vec<(Span<P>, String, String, String)>,
 }
 
 //ii StackElement
@@ -112,7 +112,7 @@ where
     ) -> Self {
         ns_stack.push_frame();
 
-        let attributes = Attributes::default();
+        let attributes = Vec::new();
         let tag_name = Name::none();
         StackElement {
             parent_depth,
@@ -125,15 +125,26 @@ where
         &mut self,
         span: Span<P>,
         ns_stack: &mut NamespaceStack,
-        prefix: &str,
-        name: &str,
+        prefix: String,
+        name: String,
         value: String,
-    ) -> HmlResult<(), P> {
-        HmlError::map_markup_error(self.attributes.add(ns_stack, prefix, name, value), &span)
+    ) {
+        // Add namespaces now; names are resolved when all the attributes are known
+        if ns_stack.uses_xmlns() {
+            if prefix.is_empty() && name == "xmlns" {
+                ns_stack.add_ns("", &value);
+            } else if prefix == "xmlns" {
+                ns_stack.add_ns(&name, &value);
+            }
+        }
+        self.attributes.push((span, prefix, name, value));
     }
 
     pub fn as_start_element(&mut self, ns_stack: &mut NamespaceStack) -> HmlResult<Event<P>, P> {
-        let attributes = std::mem::take(&mut self.attributes);
+        let mut attributes = Attributes::default();
+        for (span, prefix, name, value) in std::mem::take(&mut self.attributes) {
+            HmlError::map_markup_error(attributes.add(ns_stack, &prefix, &name, value), &span)?;
+        }
         let tag = HmlError::map_markup_error(
             Tag::new(
                 ns_stack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 00ac785..f135436 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -247,7 +247,7 @@ where
                         self.tag_stack
                             .last_mut()
                             .unwrap()
-                            .add_attribute(span, ns_stack, &prefix, &name, value)?;
+                            .add_attribute(span, ns_stack, prefix, name, value);
                         Ok(None)
                     } else {
                         HmlError::unexpected_attribute(span, &prefix, &name)
-- 
2.43.0


From 69d04689b57defa17419cd1aa1b8c1bf8074e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:56 +0000
Subject: [PATCH 14/19] fix: do not replace character references that have no
 digits

The references '&;', '&#;' and '&#x;' were replaced with a NUL character,
and an 'x' was permitted anywhere in a hexadecimal reference. These are
not character references and are now left as they are.
---
 src/escape.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..2bd1d7b 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -186,6 +186,7 @@ impl<'a> Entities<'a> {
             let mut is_hex = false;
             let mut is_dec = true;
             let mut value = 0;
+            let mut has_digits = false;
             while i < n {
                 let b = bytes[i];
                 if b == b';' {
@@ -194,7 +195,7 @@ impl<'a> Entities<'a> {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if has_digits && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -209,12 +210,12 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    has_digits = true;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
+                    has_digits = true;
                     if is_dec {
                         value = (value * 10).wrapping_add((b - b'0') as u32);
                     } else {
-- 
2.43.0


From ec608c828e743fbf0d9e31f70ebdc769f76aab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:56 +0000
Subject: [PATCH 15/19] fix: write to the file given by --output in hmlconvert

The option was accepted but the XML was always written to stdout.
---
 src/bin/hmlconvert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index d507e81..832afd4 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -61,7 +61,10 @@ fn main() {
     let lexer_parsers = hml_rs::hml_reader::parse_fns();
     let mut lexer_iter = lexer.iter(&lexer_parsers);
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
-    let output = std::io::stdout();
+    let output: Box<dyn Write> = match matches.get_one::<String>("output") {
+        None => Box::new(std::io::stdout()),
+        Some(filename) => Box::new(File::create(filename).unwrap()),
+    };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
         .create_writer(output);
-- 
2.43.0


From 80da0f6ce4c7fe2c55f40b0e206b1569b19318cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:56 +0000
Subject: [PATCH 16/19] fix: exit with a failure from hmlconvert on a parse
 error

The exit status was that of success even if the input was not valid.
---
 src/bin/hmlconvert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 832afd4..7c210f6 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -89,7 +89,7 @@ fn main() {
                     eprintln!("Parse error: {e}");
                     eprintln!();
                 }
-                break;
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From 12a46ca8086a466ac523b1ef4d59811aff6652ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:32:17 +0000
Subject: [PATCH 17/19] Expose the HML escape module when built with the
 hml_verif cfg

The module is private. Building with RUSTFLAGS="--cfg hml_verif" makes it
public so that it can be exercised from outside of the crate.
---
 src/hml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hml.rs b/src/hml.rs
index f441eac..97546cb 100644
--- a/src/hml.rs
+++ b/src/hml.rs
@@ -9,4 +9,8 @@ This module provides escape handling for XML and entity replacement
 
 !*/
 
+#[cfg(not(hml_verif))]
 mod escape;
+#[cfg(hml_verif)]
+#[allow(missing_docs)]
+pub mod escape;
-- 
2.43.0


From 9bd3d20bf9bb950f5d424bfce101810cd898cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:34 +0000
Subject: [PATCH 18/19] fix: refuse long hexadecimal character references

The size of the value was only checked after the digits 0 to 9, not after
A to F, so a reference such as '&#x100000aa0;' lost its upper bits and was
replaced by another character. It is now left as it is.
---
 src/escape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 2bd1d7b..031e5f4 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -211,6 +211,10 @@ impl<'a> Entities<'a> {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
                     has_digits = true;
+                    if value > 0x10ffff {
+                        is_hex = false;
+                        value = 0;
+                    }
                 } else if b == b'x' {
                     is_hex = i == start + 1 && is_dec;
                     is_dec = false;
-- 
2.43.0


From 7fbd59adf9094697fa30c90dfb8f36e44bac4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:53 +0000
Subject: [PATCH 19/19] fix: report input and output that hmlconvert cannot use
 instead of panicking

A missing input file, input that is not UTF-8, an output file that cannot be
created and a failing write each ended in a panic. Output that was only
written at exit could be lost without an error.
---
 src/bin/hmlconvert.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 7c210f6..5b789c1 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -12,6 +12,12 @@ use lexer_rs::{Lexer, LineColumn, StreamCharPos};
 type LexerPos = StreamCharPos<LineColumn>;
 type HmlError = hml_rs::HmlError<LexerPos>;
 
+/// Report that the input or the output cannot be used, and exit
+fn fail(what: &str, error: impl std::fmt::Display) -> ! {
+    eprintln!("{what}: {error}");
+    std::process::exit(1);
+}
+
 fn main() {
     let matches = Command::new("hml")
         .about("HML parser to output file generator")
@@ -47,11 +53,14 @@ fn main() {
     let mut text = String::new();
     match matches.get_one::<String>("file") {
         None => {
-            std::io::stdin().read_to_string(&mut text).unwrap();
+            std::io::stdin()
+                .read_to_string(&mut text)
+                .unwrap_or_else(|e| fail("Failed to read standard input", e));
         }
         Some(filename) => {
-            let mut file = File::open(filename).unwrap();
-            file.read_to_string(&mut text).unwrap();
+            File::open(filename)
+                .and_then(|mut file| file.read_to_string(&mut text))
+                .unwrap_or_else(|e| fail(&format!("Failed to read {filename}"), e));
         }
     }
     let mut namespace = Namespace::new(false);
@@ -63,7 +72,10 @@ fn main() {
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
     let output: Box<dyn Write> = match matches.get_one::<String>("output") {
         None => Box::new(std::io::stdout()),
-        Some(filename) => Box::new(File::create(filename).unwrap()),
+        Some(filename) => Box::new(
+            File::create(filename)
+                .unwrap_or_else(|e| fail(&format!("Failed to create {filename}"), e)),
+        ),
     };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
@@ -72,8 +84,14 @@ fn main() {
         match parser.next_event(&mut namespace_stack, || lexer_iter.next()) {
             Ok(event) => {
                 if let Some(x) = event.as_xml_writer(&namespace_stack) {
-                    writer.write(x).unwrap();
+                    writer
+                        .write(x)
+                        .unwrap_or_else(|e| fail("Failed to write the output", e));
                 } else {
+                    writer
+                        .inner_mut()
+                        .flush()
+                        .unwrap_or_else(|e| fail("Failed to write the output", e));
                     break;
                 }
             }
-- 
2.43.0

