From 9bc7e86bebdce2ea40619d7af3bf5ef2737444b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:25 +0000
Subject: [PATCH 01/12] fix: keep the patterns already stored below an entry
 when another one is added

---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From aa1feea2c4b0cacb622030d06618b4bc684622ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:25 +0000
Subject: [PATCH 02/12] fix: compare literal nodes by their first character,
 not by their first byte

---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..f41ab01 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -56,7 +56,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From 586194e96161eadc512b7b6d76741e77386ae704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:25 +0000
Subject: [PATCH 03/12] fix: match the SET parser by characters, it split
 multi-byte ones

---
 src/parsers/set.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..48e5fa5 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,25 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
-        BTreeSet::from_iter(vset)
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        BTreeSet::from_iter(set.chars())
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
+    // the length of the match in characters and in bytes
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
         let mut match_len = 0;
+        let mut byte_len = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
                 match_len += 1;
+                byte_len += c.len_utf8();
             } else {
                 break;
             }
         }
 
-        match_len
+        (match_len, byte_len)
     }
 }
 
@@ -76,10 +78,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (match_len, byte_len) = self.calculate_match_length(value);
 
         if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+            Some(ParseResult::new(self, &value[..byte_len]))
         } else {
             None
         }
-- 
2.43.0


From f23a02779ac7d3953ac2b77399fc19b7a7741f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:46 +0000
Subject: [PATCH 04/12] fix: match a pattern that ends at a parser even if
 longer patterns continue after it

---
 src/matcher/suffix_array/impls.rs | 4 +++-
 src/matcher/trie/node/parser.rs   | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..a7654b0 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,7 +187,9 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else if let Some(child) = self.child() {
                 child.parse(value).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..205e9d5 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -38,6 +38,10 @@ impl ParserNode {
             trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
             let text = text.ltrunc(parsed_kwpair.value().len());
 
+            if text.is_empty() && self.pattern().is_some() {
+                return self.push_last_kvpair(text, parsed_kwpair);
+            }
+
             return match self.node() {
                 Some(node) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
@@ -89,6 +93,10 @@ impl ParserEntry for ParserNode {
             trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
             let text = value.ltrunc(parsed_kwpair.value().len());
 
+            if text.is_empty() && self.pattern().is_some() {
+                return self.push_last_kvpair(text, parsed_kwpair);
+            }
+
             return match self.node() {
                 Some(node) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
-- 
2.43.0


From 072c03d41e8b47330086cb5815c49eb46e03364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:41 +0000
Subject: [PATCH 05/12] fix: suffix array: accept only whole literals and try
 the remaining alternatives

---
 src/matcher/suffix_array/impls.rs | 49 +++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index a7654b0..199e47c 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,33 @@ impl SuffixTable {
         }
     }
 
+    // the number of literal entries which are not greater than the value
+    fn count_not_greater(&self, value: &str) -> usize {
+        match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
+            Ok(pos) => pos + 1,
+            Err(pos) => pos
+        }
+    }
+
+    // Every literal which is a prefix of the value is tried, the longest one first
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let mut end = self.count_not_greater(value);
+
+        while end > 0 {
+            let entry = &self.literal_entries[end - 1];
+            let common_prefix_len = entry.literal().common_prefix_len(value);
+            if common_prefix_len == entry.literal().len() {
+                if let Some(result) = entry.parse(value.ltrunc(common_prefix_len)) {
+                    return Some(result);
+                }
+                end -= 1;
+            } else {
+                end = self.count_not_greater(&value[..common_prefix_len]);
+            }
+        }
+        None
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -220,6 +247,14 @@ impl LiteralE {
             child: None
         }
     }
+
+    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if value.is_empty() && self.pattern().is_some() {
+            self.pattern().map(MatchResult::new)
+        } else {
+            self.child().and_then(|child| child.parse(value))
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -249,19 +284,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From 794987115cb27d4b7625131de9602448dcc1a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:50 +0000
Subject: [PATCH 06/12] fix: trie: try the shorter literals and the parsers
 when the longest literal leads nowhere

---
 src/matcher/trie/node/literal.rs | 14 +++++++++++
 src/matcher/trie/node/mod.rs     | 43 ++++++++++++++------------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index f41ab01..3feef79 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -3,6 +3,7 @@ use utils::common_prefix::CommonPrefix;
 
 use matcher::trie::node::SuffixTree;
 use matcher::Pattern;
+use matcher::result::MatchResult;
 
 use matcher::trie::node::interface::{Entry, LiteralEntry};
 
@@ -95,6 +96,19 @@ impl LiteralNode {
         self.node.is_none()
     }
 
+    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !text.starts_with(self.literal()) {
+            return None;
+        }
+        let text = text.ltrunc(self.literal().len());
+
+        if text.is_empty() && self.pattern().is_some() {
+            self.pattern().map(MatchResult::new)
+        } else {
+            self.node().and_then(|node| node.parse(text))
+        }
+    }
+
     fn compare_first_chars(&self, other: &LiteralNode) -> Ordering {
         self.cmp_str(other.literal())
     }
diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..b9a3d8b 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,31 +160,26 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
-            }
-        }
-    }
-
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
-        if let Some(pattern) = child.pattern() {
-            let result = MatchResult::new(pattern);
-            Some(result)
+        trace!("parse(): #parser_children = {}", self.parser_children.len());
+        self.parse_with_literals(text)
+            .or_else(|| self.parse_with_parsers(text))
+    }
+
+    // A child without literal stands for the end of the literal above it, so it's
+    // tried after the longer ones.
+    fn parse_with_literals<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let parse_with_child = |prefix: &str| {
+            self.literal_children
+                .binary_search_by(|probe| probe.cmp_str(prefix))
+                .ok()
+                .and_then(|pos| self.literal_children.get(pos))
+                .and_then(|child| child.parse(text))
+        };
+
+        if text.is_empty() {
+            parse_with_child(text)
         } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
+            parse_with_child(text).or_else(|| parse_with_child(""))
         }
     }
 
-- 
2.43.0


From b40c9a6f857bc7b5c0dec85a546a168be5bbbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:23 +0000
Subject: [PATCH 07/12] fix: unescape the literal that follows a GREEDY parser

---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..41775e6 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(grammar::unescape_literal);
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..5bb42a5 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,13 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(grammar::unescape_literal);
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref()
+                                                                                                                .map(|string| &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 6d7569507419100e8a3c37fe5181f2d090d3f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 08/12] fix: reject length limits that do not fit instead of
 panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 41775e6..c1a3209 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "number that fits") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 5bb42a5..16099f7 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1187,9 +1187,13 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match usize::from_str(match_str) {
+                            Ok(value) => Matched(pos, value),
+                            Err(_) => {
+                                state.mark_failure(pos, "number that fits");
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From 0e27425c15a837d86cb0d689193507ee8cc6ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:53 +0000
Subject: [PATCH 09/12] fix: report the right line and column for pattern texts
 with CRLF line ends

---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 16099f7..40e4c18 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0


From 343198a6993a895c10e5d7f6d184341d55b2ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:03 +0000
Subject: [PATCH 10/12] fix: name the uuid field when it is missing from a
 pattern

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From 1b3810e62868bae108a26a02d79fb8484b8251d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:04 +0000
Subject: [PATCH 11/12] fix: an empty list of expected tags is met by a pattern
 without tags

---
 src/matcher/pattern/testmessage/message.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/matcher/pattern/testmessage/message.rs b/src/matcher/pattern/testmessage/message.rs
index 7b912a9..e605fb1 100644
--- a/src/matcher/pattern/testmessage/message.rs
+++ b/src/matcher/pattern/testmessage/message.rs
@@ -83,13 +83,10 @@ impl TestMessage {
 
     fn test_tags(&self, result: &MatchResult) -> Result<(), Error> {
         if let Some(expected_tags) = self.tags() {
-            if let Some(got_tags) = result.pattern().tags() {
-                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
-                                                                      got_tags,
-                                                                      result));
-            } else {
-                return Err(self.report_unexpected_tags_error(result));
-            }
+            let got_tags = result.pattern().tags().unwrap_or(&[]);
+            try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
+                                                                  got_tags,
+                                                                  result));
         }
         Ok(())
     }
-- 
2.43.0


From 057893efc834ede3e9bfdf78600d92098f442f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:49 +0000
Subject: [PATCH 12/12] fix: report an error that occurs while reading a
 pattern file

PatternLoader::read dropped the result of read_to_string, so a read error (or
content that is not UTF-8) left a truncated or empty buffer, which could load
as a document with fewer patterns.
---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0

