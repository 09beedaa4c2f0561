From 7b948d93962ee1bc1a1d30f4a8777d21b677e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:09 +0000
Subject: [PATCH 01/22] fix: NHS check digit only accepts numbers with exactly
 ten digits

---
 sds/src/secondary_validation/nhs_check_digit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..cef0dc6 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -17,7 +17,7 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit >= 10 {
                 return false;
             }
             if nb_digit < 9 {
@@ -28,6 +28,9 @@ impl Validator for NhsCheckDigit {
             }
             nb_digit += 1;
         }
+        if nb_digit != 10 {
+            return false;
+        }
 
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
-- 
2.43.0


From 8a94c3a917ab0a0dc8d5fd6f0e398bc31fdea481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 02/22] fix: GitHub token checksum pads the base62 checksum
 with leading zeros

---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..377ad84 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // the base62 checksum is left-padded with zeros to 6 chars
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From d02c212444db03f79e506f0318c46db727c9b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:30 +0000
Subject: [PATCH 03/22] fix: a match may start at the same index as its
 included keyword

The regex search starts at the start of the included keyword, so the first match
can have the same start index. The debug assertion panicked in that case.
---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..d7853c5 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -128,7 +128,7 @@ pub fn is_index_within_prefix(
     target: usize,
     prefix_size: usize,
 ) -> bool {
-    debug_assert!(target > prefix_start);
+    debug_assert!(target >= prefix_start);
     debug_assert!(content.is_char_boundary(prefix_start));
     debug_assert!(content.is_char_boundary(target));
 
-- 
2.43.0


From f0fe3cece5a75aadf926967e7c9c16448a4e9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 04/22] fix: included keywords before a match still apply to
 later matches

After a match was found near an included keyword, every keyword before the start
of that match was skipped. A later match that is only close enough to one of the
skipped keywords was never reported.
---
 sds/src/scanner/regex_rule/compiled.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..b0d0fe4 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -149,13 +149,15 @@ impl RegexCompiledRule {
         }
 
         let mut included_keyword_matches = included_keywords.keyword_matches(content);
+        // The end of the last emitted match. Matches are only searched for after this.
+        let mut last_match_end = 0;
 
         'included_keyword_search: while let Some(included_keyword_match_start) =
             included_keyword_matches.next(regex_caches)
         {
             let true_positive_search = self.true_positive_matches(
                 content,
-                included_keyword_match_start,
+                included_keyword_match_start.max(last_match_end),
                 regex_caches.get(&self.regex),
                 false,
                 exclusion_check,
@@ -169,11 +171,9 @@ impl RegexCompiledRule {
                     true_positive_match.start,
                     included_keywords.look_ahead_character_count,
                 ) {
-                    // The match start might be further than the current start, so some chars
-                    // can be skipped before the next included keyword scanning. The start
-                    // is used instead of the end since the included keyword can overlap with
-                    // a previous match (maybe this can be removed in the future?)
-                    included_keyword_matches.skip_to(true_positive_match.start);
+                    // Included keywords before this match can't be skipped, since they can still
+                    // be close enough to a later match that is too far from the current keyword.
+                    last_match_end = true_positive_match.end;
                     match_emitter.emit(true_positive_match);
 
                     // Continue search since another true positive could potentially be found within the same prefix
-- 
2.43.0


From 7fed3857a280e4d76ac1b501f0227ba3bc9f848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 05/22] fix: keyword regexes are not shared with rules that
 have the same pattern

---
 sds/src/proximity_keywords/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index d7853c5..10d3fad 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -214,20 +214,22 @@ fn compile_keywords(
 ) -> Result<Option<(SharedRegex, SharedRegex)>, ProximityKeywordsValidationError> {
     let (content_pattern, path_pattern) =
         match compile_keywords_to_ast(&keywords, look_ahead_character_count, remove_chars) {
-            Ok(Some((content_ast, path_ast))) => (content_ast.to_string(), path_ast.to_string()),
+            // Regexes are memoized by pattern, so the case insensitive flag has to be part of the
+            // pattern. Otherwise a rule with the same pattern would share the same regex.
+            Ok(Some((content_ast, path_ast))) => {
+                (format!("(?i:{content_ast})"), format!("(?i:{path_ast})"))
+            }
             Ok(None) => return Ok(None),
             Err(e) => return Err(e),
         };
 
     let mut builder = meta::Regex::builder();
-    let regex_builder = builder
-        .configure(
-            meta::Config::new()
-                .nfa_size_limit(None)
-                // This is the default that `Regex` uses
-                .hybrid_cache_capacity(2 * (1 << 20)),
-        )
-        .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
+    let regex_builder = builder.configure(
+        meta::Config::new()
+            .nfa_size_limit(None)
+            // This is the default that `Regex` uses
+            .hybrid_cache_capacity(2 * (1 << 20)),
+    );
 
     Ok(Some((
         get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-- 
2.43.0


From 44a49edba2f6945034a1dd46a088c120e9eca0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:58 +0000
Subject: [PATCH 06/22] fix: validate_matches keeps matches of rules without a
 match validator

---
 sds/src/scanner/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..2ae8e00 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches from rules without a match validator are kept as they are
+        let mut unchecked_rule_matches = vec![];
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                unchecked_rule_matches.push(rule_match);
             }
         }
 
@@ -420,6 +424,7 @@ impl Scanner {
         );
 
         // Refill the rule_matches with the validated matches
+        rule_matches.append(&mut unchecked_rule_matches);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From eab0f1fa13151551a405310afd29dd6cd5f2defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:02 +0000
Subject: [PATCH 07/22] fix: matches in JSON booleans and numbers do not panic

---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..75f17b5 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                // These are visited as strings, so they can contain matches too
+                let mut s = value.to_string();
+                if (visit)(&mut s) {
+                    *value = serde_json::Value::String(s);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From f759957b299ce18b1a593d06f86b529338c26755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:15 +0000
Subject: [PATCH 08/22] fix: the last character of non-ASCII path segments and
 keywords is recognized

---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 10d3fad..e1444b4 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -328,7 +328,7 @@ where
         return;
     };
 
-    let kw_length = characters.len();
+    let kw_length = characters.chars().count();
 
     let mut previous = char;
     for (i, current) in characters_iter.enumerate() {
-- 
2.43.0


From 5a5ebfa35a8f69b91a20582b5fe511c50fb1cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:54 +0000
Subject: [PATCH 09/22] fix: excluded keywords next to stripped characters are
 recognized

The characters added around the prefix for assertion checking were removed
from the searched span even if they had been stripped ('-' and '_'), which
removed a character of the prefix instead.
---
 sds/src/proximity_keywords/excluded_keywords.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..deb1c22 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -49,10 +49,17 @@ fn contains_excluded_keyword_match(
     let stripped_prefix =
         content[prefix_start_info.start..prefix_end].replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
 
-    // Subtracting one to exclude the last char which was added only for boundary checking
-    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);
+    // Subtracting one to exclude the last char which was added only for boundary checking, unless
+    // it was already stripped
+    let span_end = if content[match_start..].starts_with(EXCLUDED_KEYWORDS_REMOVED_CHARS) {
+        stripped_prefix.len()
+    } else {
+        prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0)
+    };
 
-    let span_start = if prefix_start_info.used_all_chars {
+    let span_start = if prefix_start_info.used_all_chars
+        && !content[prefix_start_info.start..].starts_with(EXCLUDED_KEYWORDS_REMOVED_CHARS)
+    {
         // an extra char was added for assertion checking, so it needs to be removed here
         next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
     } else {
-- 
2.43.0


From e53870fbed77b8110f1f8400c8f9a21b5b78b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:22 +0000
Subject: [PATCH 10/22] fix: an included keyword is found even if a later one
 ends before it

---
 sds/src/proximity_keywords/included_keywords.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/included_keywords.rs b/sds/src/proximity_keywords/included_keywords.rs
index d068c7a..bb5e4ea 100644
--- a/sds/src/proximity_keywords/included_keywords.rs
+++ b/sds/src/proximity_keywords/included_keywords.rs
@@ -31,7 +31,9 @@ impl<'a> IncludedKeywordSearch<'a> {
     }
 
     pub fn next(&mut self, regex_caches: &mut RegexCaches) -> Option<usize> {
-        let input = Input::new(self.content).range(self.start..).earliest(true);
+        // This can't be an "earliest" search. The keyword that ends first is not necessarily the one
+        // that starts first, and the one that starts first would never be found.
+        let input = Input::new(self.content).range(self.start..);
 
         if let Some(included_keyword_match) =
             self.keywords.keywords_pattern.content_regex.search_with(
-- 
2.43.0


From fc158bab097a62a449344bf820fb2a4cc2c9b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:04 +0000
Subject: [PATCH 11/22] fix: reject regex patterns that can match an empty
 string inside a text

A pattern such as `\b` or `a*\b` does not match the empty text, so it was accepted, but
it matches empty strings inside longer texts and a scan of such a text never finished.
---
 sds/src/validation.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..fca1e47 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -65,7 +65,7 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if regex.is_match("") || can_match_empty_string(&converted_pattern)? {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
@@ -84,6 +84,20 @@ fn is_regex_within_complexity_limit(
     }
 }
 
+/// Whether the pattern can produce a match with a length of 0 in any text. A pattern such as `\b`
+/// doesn't match the empty text, but it still matches an empty string inside of a longer text.
+fn can_match_empty_string(converted_pattern: &str) -> Result<bool, RegexValidationError> {
+    regex_automata::util::syntax::parse_with(converted_pattern, &syntax_config())
+        .map(|hir| hir.properties().minimum_len() == Some(0))
+        .map_err(|_| RegexValidationError::InvalidSyntax)
+}
+
+fn syntax_config() -> regex_automata::util::syntax::Config {
+    regex_automata::util::syntax::Config::default()
+        .dot_matches_new_line(false)
+        .unicode(true)
+}
+
 fn build_regex(
     converted_pattern: &str,
     complexity_limit: usize,
@@ -95,11 +109,7 @@ fn build_regex(
                 // This is purely a performance setting. This is the default, but it might be worth testing this in benchmarks for a better number
                 .hybrid_cache_capacity(2 * (1 << 20)),
         )
-        .syntax(
-            regex_automata::util::syntax::Config::default()
-                .dot_matches_new_line(false)
-                .unicode(true),
-        )
+        .syntax(syntax_config())
         .build(converted_pattern)
         .map_err(|regex_err| {
             if regex_err.size_limit().is_some() {
-- 
2.43.0


From afc3ceaa4808966c08f9c49798b3f45b2a8410d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:35 +0000
Subject: [PATCH 12/22] fix: apply quantifiers to the whole of a converted `$`
 or `\Z`

`$` is converted to `\n?$`, so `a$?b` became `a\n?$?b`, which also matches "a\nb".
---
 sds/src/normalization/rust_regex_adapter.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..b471ca4 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,7 +119,21 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(convert_ast(&repetition.inner)?),
+            ast: Box::new(match repetition.inner.as_ref() {
+                // These are converted to more than one expression, so they need to be grouped
+                // for the quantifier to apply to all of it.
+                SdsAst::Assertion(
+                    SdsAssertionType::EndLine | SdsAssertionType::EndTextOptionalNewline,
+                ) => RegexAst::Group(RegexGroup {
+                    span: span(),
+                    kind: RegexGroupKind::NonCapturing(RegexFlags {
+                        span: span(),
+                        items: vec![],
+                    }),
+                    ast: Box::new(convert_ast(&repetition.inner)?),
+                }),
+                inner => convert_ast(inner)?,
+            }),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
-- 
2.43.0


From fe271714ef4ec6ea20ab91cc9d1d458580ed5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:07 +0000
Subject: [PATCH 13/22] fix: count stored regexes in the
 scanner.total_regex_cache_size gauge

The gauge was only ever decremented, so it became negative when regexes were dropped.
---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From 188fa60a269e444dad31a7639d58fdb2d6e000ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:03 +0000
Subject: [PATCH 14/22] fix: keep escaped non-ASCII whitespace with the x flag

`(?x)a\x{A0}b` was converted to a verbatim U+00A0, which the regex crate ignores with the
x flag, so it matched "ab" instead of "a\u{A0}b".
---
 sds/src/normalization/rust_regex_adapter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index b471ca4..0665856 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -446,11 +446,13 @@ fn convert_unicode_class(class: &SdsUnicodePropertyClass) -> RegexClassUnicode {
 fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
     let kind = if regex_syntax::is_meta_character(literal.c) {
         RegexLiteralKind::Meta
-    } else if kind == LiteralKind::BracketedCharacterClass && literal.c.is_whitespace() {
+    } else if (kind == LiteralKind::BracketedCharacterClass || literal.escaped)
+        && literal.c.is_whitespace()
+    {
         // Rust's "x" flag ignores _all_ whitespace, where in the SDS standard syntax (and PCRE2)
-        // "x" doesn't ignore whitespace in bracketed character classes. If the literal is being
-        // used in a bracketed character class, all whitespace is hex encoded to ensure it
-        // is never ignored.
+        // "x" doesn't ignore whitespace in bracketed character classes, or escaped whitespace.
+        // If the literal is escaped or used in a bracketed character class, all whitespace is
+        // hex encoded to ensure it is never ignored.
         RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
     } else if kind == LiteralKind::Normal && ASCII_WHITESPACE_CHARS.contains(&literal.c) {
         // The HexBrace kind is usually preferred since it makes whitespace characters easier
-- 
2.43.0


From 4ceda13b5d4f1641c4dd1f91a545120d3c30f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:18 +0000
Subject: [PATCH 15/22] fix: decide whether a regex can match an empty string
 from its NFA

The minimum length is unknown for a pattern with an expression that can never match, such
as `\b|\b[^\s\S]?`, which was still accepted.
---
 sds/src/validation.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index fca1e47..e46b921 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -1,6 +1,7 @@
 use crate::normalization::rust_regex_adapter::{convert_to_rust_regex, QUANTIFIER_LIMIT};
 use crate::parser::error::ParseError;
 use regex_automata::meta::{self};
+use regex_automata::nfa::thompson;
 use thiserror::Error;
 
 #[derive(Debug, PartialEq, Eq, Error)]
@@ -87,9 +88,33 @@ fn is_regex_within_complexity_limit(
 /// Whether the pattern can produce a match with a length of 0 in any text. A pattern such as `\b`
 /// doesn't match the empty text, but it still matches an empty string inside of a longer text.
 fn can_match_empty_string(converted_pattern: &str) -> Result<bool, RegexValidationError> {
-    regex_automata::util::syntax::parse_with(converted_pattern, &syntax_config())
-        .map(|hir| hir.properties().minimum_len() == Some(0))
-        .map_err(|_| RegexValidationError::InvalidSyntax)
+    let nfa = thompson::Compiler::new()
+        .syntax(syntax_config())
+        .build(converted_pattern)
+        .map_err(|_| RegexValidationError::InvalidSyntax)?;
+
+    // Follow all transitions that don't consume any input
+    let mut visited = vec![false; nfa.states().len()];
+    let mut pending = vec![nfa.start_anchored()];
+    while let Some(id) = pending.pop() {
+        if visited[id.as_usize()] {
+            continue;
+        }
+        visited[id.as_usize()] = true;
+        match nfa.state(id) {
+            thompson::State::Match { .. } => return Ok(true),
+            thompson::State::Look { next, .. } | thompson::State::Capture { next, .. } => {
+                pending.push(*next)
+            }
+            thompson::State::Union { alternates } => pending.extend(alternates.iter()),
+            thompson::State::BinaryUnion { alt1, alt2 } => pending.extend([alt1, alt2]),
+            thompson::State::ByteRange { .. }
+            | thompson::State::Sparse(_)
+            | thompson::State::Dense(_)
+            | thompson::State::Fail => {}
+        }
+    }
+    Ok(false)
 }
 
 fn syntax_config() -> regex_automata::util::syntax::Config {
-- 
2.43.0


From 11cda66fe5fa64bc0155a20249c9d6f015afc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 16/22] fix: mark AWS matches as errors instead of panicking
 when the request cannot be signed

---
 sds/src/match_validation/aws_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..fff636c 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -139,6 +139,15 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // A request can only be signed for a valid URL, and with an id that fits in a header
+                if reqwest::Url::parse(&self.config.aws_sts_endpoint).is_err() {
+                    *match_status = MatchStatus::Error("Invalid aws_sts_endpoint".to_string());
+                    return;
+                }
+                if reqwest::header::HeaderValue::from_str(match_id).is_err() {
+                    *match_status = MatchStatus::Error("Invalid characters in aws_id".to_string());
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0


From 195c2bb7e4fb7e381ff7c873240e1b85aeefeeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:56 +0000
Subject: [PATCH 17/22] fix: keep the scanner.total_count gauge right when
 scanners are built and dropped concurrently

---
 sds/src/stats.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sds/src/stats.rs b/sds/src/stats.rs
index 51bd129..709068c 100644
--- a/sds/src/stats.rs
+++ b/sds/src/stats.rs
@@ -1,6 +1,7 @@
 use lazy_static::lazy_static;
 use metrics::{counter, gauge, Counter, Gauge};
 use std::sync::atomic::{AtomicI64, Ordering};
+use std::sync::{Mutex, PoisonError};
 
 lazy_static! {
     pub static ref GLOBAL_STATS: Stats = Stats::new();
@@ -10,9 +11,9 @@ pub struct Stats {
     pub scanner_creations: Counter,
     pub scanner_deletions: Counter,
 
-    // Count of total scanners. The actual count is calculated with an atomic
+    // Count of total scanners. The actual count is calculated here
     // since some metrics exporters don't support incrementing gauges (e.g. statsd)
-    total_scanners_count: AtomicI64,
+    total_scanners_count: Mutex<i64>,
     total_scanners: Gauge,
 
     total_regexes: Gauge,
@@ -26,7 +27,7 @@ impl Stats {
         Self {
             scanner_creations: counter!("scanner.creations"),
             scanner_deletions: counter!("scanner.deletions"),
-            total_scanners_count: AtomicI64::new(0),
+            total_scanners_count: Mutex::new(0),
             total_scanners: gauge!("scanner.total_count"),
             total_regexes: gauge!("scanner.total_regexes"),
             total_regex_cache_size_count: AtomicI64::new(0),
@@ -43,10 +44,13 @@ impl Stats {
     }
 
     fn update_total_scanners(&self, delta: i64) {
-        let prev_value = self
+        // The gauge is set while the lock is held, so an older count never overwrites a newer one
+        let mut total_scanners_count = self
             .total_scanners_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_scanners.set((prev_value + delta) as f64);
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        *total_scanners_count += delta;
+        self.total_scanners.set(*total_scanners_count as f64);
     }
 
     pub fn set_total_regexes(&self, total_regexes: usize) {
-- 
2.43.0


From 6804bebeb73360c6edaf4fc6b655012fef8649e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 18/22] fix: treat a hyphen before a class escape in a bracket
 as a literal

"[a-\d]" was read as the range from "a" to "d", so the class contained
neither the digits nor the hyphen. PCRE never reads a class escape (or a
POSIX class) as the end of a range.
---
 sds/src/parser/regex_parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 391d042..99be4b5 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -11,7 +11,7 @@ use crate::parser::error::ParseError;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, take_until};
 use nom::character::complete::{digit1, none_of, one_of};
-use nom::combinator::{eof, map, opt, recognize};
+use nom::combinator::{eof, map, not, opt, recognize};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, many_m_n, separated_list1};
 use nom::sequence::{delimited, tuple};
@@ -25,6 +25,8 @@ const ASCII_LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXY
 const ASCII_LETTERS_WITH_UNDERSCORE: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
 const ASCII_ALPHANUMERIC_WITH_UNDERSCORE: &str =
     "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
+// letters that make an escape a character class (such as "\d")
+const CHARACTER_CLASS_ESCAPES: &str = "dswhvDSWHV";
 const HEX_DIGIT: &str = "0123456789ABCDEFabcdef";
 
 // characters not allowed in different types of literals
@@ -429,11 +431,18 @@ fn bracket_character_class_item_literal(input: Input) -> ParseResult<BracketChar
 
 fn bracket_character_class_item_range(input: Input) -> ParseResult<BracketCharacterClassItem> {
     let (input, start) = literal(LiteralKind::BracketedCharacterClass)(input)?;
-    let (input, _) = tag("-")(input)?;
-    let (input, end) = literal(LiteralKind::BracketedCharacterClass)(input)?;
+    let (input, end) = bracket_character_class_range_end(input)?;
     Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))
 }
 
+fn bracket_character_class_range_end(input: Input) -> ParseResult<Literal> {
+    let (input, _) = tag("-")(input)?;
+    // A character class can't be the end of a range. The hyphen is a literal in that case.
+    let (input, _) = not(tuple((tag("\\"), one_of(CHARACTER_CLASS_ESCAPES))))(input)?;
+    let (input, _) = not(bracket_character_class_ascii_class)(input)?;
+    literal(LiteralKind::BracketedCharacterClass)(input)
+}
+
 fn perl_character_class(input: Input) -> ParseResult<PerlCharacterClass> {
     alt((
         map(tag("\\d"), |_| PerlCharacterClass::Digit),
-- 
2.43.0


From 4d1d8e5edaa1f7d7c7e0e76e86b54b3c02ee18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 19/22] fix: let "]" start a range at the beginning of a
 bracket character class

"[]-a]" was read as the three characters "]", "-" and "a".
---
 sds/src/parser/regex_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 99be4b5..28fe19f 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -317,15 +317,23 @@ fn bracket_character_class(input: Input) -> ParseResult<BracketCharacterClass> {
     let (input, _) = tag("[")(input)?;
     let (input, negated) = opt(tag("^"))(input)?;
 
-    // "]" is only allowed if it's the very first char
+    // "]" is only allowed if it's the very first char (where it can also start a range)
     let (input, closing_bracket) = opt(tag("]"))(input)?;
+    let (input, range_end) = match closing_bracket {
+        Some(_) => opt(bracket_character_class_range_end)(input)?,
+        None => (input, None),
+    };
 
     let (input, items) = many0(bracket_character_class_item)(input)?;
     let mut items: Vec<_> = items.into_iter().flatten().collect();
     let (input, _) = tag("]")(input)?;
 
     if closing_bracket.is_some() {
-        items.insert(0, BracketCharacterClassItem::Literal(']'));
+        let first_item = match range_end {
+            Some(end) => BracketCharacterClassItem::Range(']', end.c),
+            None => BracketCharacterClassItem::Literal(']'),
+        };
+        items.insert(0, first_item);
     }
 
     if items.is_empty() {
-- 
2.43.0


From ce1e7b24854016029f873eb76f8d1b6494c04905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 20/22] fix: reject a sign in \x{...}

"\x{+41}" was accepted, since u32::from_str_radix accepts a leading "+".
---
 sds/src/parser/regex_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 28fe19f..70f7c91 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -503,6 +503,10 @@ fn hex_escaped_literal(input: Input) -> ParseResult<char> {
     ))(input)?;
 
     let hex_value = if has_brace {
+        // `from_str_radix` also accepts a sign
+        if hex_string.value.starts_with('+') {
+            return Err(nom::Err::Failure(ParseError::InvalidSyntax));
+        }
         u32::from_str_radix(hex_string.value, 16)
             .map_err(|_| nom::Err::Failure(ParseError::InvalidSyntax))?
     } else {
-- 
2.43.0


From 4c3bdb732db65a64a1e5351429e2155548ac4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 21/22] fix: reject quantifiers that do not fit in 32 bits

"a{4294967296}" was accepted as a literal text, while "a{4294967295}"
is rejected because it exceeds the quantifier limit.
---
 sds/src/parser/regex_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 70f7c91..8847619 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -546,8 +546,8 @@ fn hex_digit(input: Input) -> ParseResult<char> {
 
 fn integer(input: Input) -> ParseResult<u32> {
     let (input, digits) = digit1(input)?;
-    let value =
-        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
+    // This only fails if the value is too large, which exceeds any quantifier limit
+    let value = u32::from_str(digits.value).unwrap_or(u32::MAX);
     Ok((input, value))
 }
 
-- 
2.43.0


From c5c5501f794a35b4c1018ec2f0aedf09e9ddacc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 22/22] fix: reject unknown POSIX classes

"[[:Alpha:]]" was accepted as the class of "[", ":", "A", "l", "p", "h"
and "a" followed by "]".
---
 sds/src/parser/regex_parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 8847619..8a7604a 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -370,6 +370,7 @@ fn bracket_character_class_item(input: Input) -> ParseResult<Vec<BracketCharacte
         }),
         bracket_character_class_quoted_literals,
         map(bracket_character_class_ascii_class, |item| vec![item]),
+        bracket_character_class_unknown_ascii_class,
         map(bracket_character_class_item_range, |item| vec![item]),
         map(bracket_character_class_item_literal, |item| vec![item]),
     ))(input)
@@ -423,6 +424,19 @@ fn bracket_character_class_ascii_class(input: Input) -> ParseResult<BracketChara
     ))
 }
 
+// A misspelled name (such as "[:Alpha:]") is an error and not a list of literals.
+fn bracket_character_class_unknown_ascii_class(
+    input: Input,
+) -> ParseResult<Vec<BracketCharacterClassItem>> {
+    tuple((
+        tag("[:"),
+        opt(tag("^")),
+        many0(one_of(ASCII_LETTERS)),
+        tag(":]"),
+    ))(input)?;
+    Err(nom::Err::Failure(ParseError::InvalidSyntax))
+}
+
 fn bracket_character_class_item_literal(input: Input) -> ParseResult<BracketCharacterClassItem> {
     alt((
         map(literal(LiteralKind::BracketedCharacterClass), |literal| {
-- 
2.43.0

