From 822f2a2aa3e93505eb70f8cdd75fc081eeefebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 01/19] fix: Soundex and RefinedSoundex panic on letters
 outside the latin alphabet

---
 src/refined_soundex.rs | 6 +++++-
 src/soundex.rs         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..c5a6ee1 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -161,7 +161,11 @@ impl Default for RefinedSoundex {
 
 impl Encoder for RefinedSoundex {
     fn encode(&self, value: &str) -> String {
-        let value = Self::soundex_clean(value);
+        // The mapping only covers the latin alphabet, any other letter has no code.
+        let value: String = Self::soundex_clean(value)
+            .chars()
+            .filter(char::is_ascii_uppercase)
+            .collect();
 
         let mut code = match value.chars().next() {
             Some(ch) => {
diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..838c38e 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -221,7 +221,11 @@ impl TryFrom<String> for Soundex {
 
 impl Encoder for Soundex {
     fn encode(&self, value: &str) -> String {
-        let value = Self::soundex_clean(value);
+        // The mapping only covers the latin alphabet, any other letter has no code.
+        let value: String = Self::soundex_clean(value)
+            .chars()
+            .filter(char::is_ascii_uppercase)
+            .collect();
         let mut iterator = value.chars();
 
         let mut code: [char; 4] = ['0', '0', '0', '0'];
-- 
2.43.0


From cf3d23461de08fd712176b0a4f4c047e592298dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 02/19] fix: Nysiis strict mode panics when the 6th byte is not
 a char boundary

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From 08ba50480e77548860378a4d533b9bc223dc5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 03/19] fix: DoubleMetaphone panics on multi-byte characters

---
 src/double_metaphone.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..b3161ce 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -230,8 +230,8 @@ impl DoubleMetaphone {
 
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
+        // There is no match if positions don't fall on a `char` boundary.
+        if let Some(target) = value.get(start..start + length) {
             return criteria.contains(&target);
         }
 
@@ -246,8 +246,8 @@ impl DoubleMetaphone {
         }
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
+        // There is no match if positions don't fall on a `char` boundary.
+        if let Some(target) = value.get(start..start + length) {
             return criteria.contains(&target);
         }
 
@@ -255,8 +255,8 @@ impl DoubleMetaphone {
     }
 
     fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+        if index >= 0 {
+            return value.get(index as usize..)?.chars().next();
         }
 
         None
-- 
2.43.0


From 38c64d29ec6b263ce6c6b9a3a3f1c01356dccaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 04/19] fix: MatchRatingApproach panics on codes with
 multi-byte characters

---
 src/match_rating_approach.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..7a8591d 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,13 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let length = value.chars().count();
+        if length > 6 {
+            value
+                .chars()
+                .take(3)
+                .chain(value.chars().skip(length - 3))
+                .collect()
         } else {
             value
         }
-- 
2.43.0


From c97fc0d59a4e423406e47ae15c506e9b3a8e161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 05/19] fix: MatchRatingApproach comparison underflows on empty
 codes

---
 src/match_rating_approach.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 7a8591d..4b9138c 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -220,6 +220,11 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
+        // Nothing left to compare.
+        if name1.is_empty() || name2.is_empty() {
+            return false;
+        }
+
         if name1.len().abs_diff(name2.len()) >= 3 {
             return false;
         }
-- 
2.43.0


From 4eb9d1b6c5f98c04391633e9e988e0586ab7c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 06/19] fix: Caverphone keeps letters outside the latin
 alphabet and panics

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From 01839d3730ec723f78b3506e6f1cbd54c1a7736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 07/19] fix: Metaphone mixes byte and char positions and panics

---
 src/metaphone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..22de956 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,7 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        text.chars().skip(index).take(test.len()).eq(test.chars())
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -124,7 +124,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From 944c6b200966dcb98ac070b6c251c1c365c72724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 08/19] fix: Phonex code can exceed the maximum length

---
 src/phonex.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..e96c593 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -165,7 +165,7 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if result.chars().count() >= self.max_code_length {
                 break 'char_iter;
             }
 
@@ -196,7 +196,9 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            // The first character might already have filled the code.
+            let complete = result.chars().count() >= self.max_code_length;
+            if last != code && code != '0' && i != 0 && !complete {
                 result.push(code);
                 last_push = code;
             }
@@ -209,7 +211,7 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while result.chars().count() < self.max_code_length {
             result.push('0');
         }
 
-- 
2.43.0


From bfa162b85e258e3adc7b48dc1aee3210e1eed4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 09/19] fix: Daitch-Mokotoff skips too many characters after a
 multi-byte pattern

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..4ab2fdf 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -83,7 +83,7 @@ impl Rule {
     }
 
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
-- 
2.43.0


From 062bfd1eaeb90f6ffee6ac64b2cbb856bef428f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 10/19] fix: Daitch-Mokotoff panics when truncating a
 multi-byte replacement

---
 src/daitch_mokotoff.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 4ab2fdf..e0e9edc 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -47,7 +47,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        while self.builder.chars().count() < MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -58,11 +58,9 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
-            self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
-            }
+        if append {
+            let remaining = MAX_LENGTH.saturating_sub(self.builder.chars().count());
+            self.builder.extend(replacement.chars().take(remaining));
         }
 
         self.last_replacement = Some(replacement);
-- 
2.43.0


From fda16799fc102997b2502e19d9a2136b3be729f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 11/19] fix: Daitch-Mokotoff builder panics on an empty pattern

---
 src/daitch_mokotoff.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index e0e9edc..d06d810 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -477,8 +477,17 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let ch = match rule.pattern.chars().next() {
+                    Some(ch) => ch,
+                    None => {
+                        return Err(build_error(
+                            line_number,
+                            None,
+                            remains,
+                            "Pattern is empty".to_string(),
+                        ))
+                    }
+                };
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From bd9cad8b22f458a8ecdf0f24fe09e4001801c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 12/19] fix: CharSequence index overflows on an inclusive range
 ending at usize::MAX

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 0740afb..67a53e2 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -176,7 +176,7 @@ impl Index<RangeInclusive<usize>> for CharSequence<'_> {
     type Output = str;
 
     fn index(&self, index: RangeInclusive<usize>) -> &Self::Output {
-        &self[*index.start()..*index.end() + 1]
+        &self[*index.start()..index.end().saturating_add(1)]
     }
 }
 
-- 
2.43.0


From cec981f98ab226eadccff0eb0ba9954bf41947b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 13/19] fix: Daitch-Mokotoff wrong line number after a
 multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index d06d810..b41e7f5 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -508,7 +508,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 7b038e37c8b35c5bf1f4bb7597e9d9227a1760ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 14/19] fix: a rule can not span several lines

---
 src/rules_parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..657ec34 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -69,7 +69,12 @@ pub fn end_of_line<'a>(
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
     // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // A part can't span several lines.
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch| ch == '"' || ch == '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
@@ -91,7 +96,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\r\n"), char('='), none_of("\r\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
@@ -99,8 +107,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From 192f7db2207dd4db2ec14ead16543675cf9a615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 15/19] fix: wrong line and missing filename in Beider-Morse
 parsing errors

---
 src/beider_morse/lang.rs | 5 ++---
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..53175f7 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,10 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +137,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..7fb53d4 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -265,7 +265,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -278,6 +277,7 @@ fn parse_rule(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0


From aa3c17c94fc93a2843f2ffe04953a8f07e5e6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 16/19] fix: Beider-Morse rules loading panics on an empty
 pattern

---
 src/beider_morse/rule.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 7fb53d4..ea978ef 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -228,6 +228,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let ch = pattern.chars().next().ok_or_else(|| {
+                build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Pattern is empty".to_string(),
+                )
+            })?;
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -252,7 +260,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
-- 
2.43.0


From 6e6305f172e1ad957cdd6bd5c4ea9c70a345c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 17/19] fix: Beider-Morse rules loading recurses infinitely on
 cyclic includes

---
 src/beider_morse/rule.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index ea978ef..10ced2b 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -215,6 +215,19 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_include(resolver, filename, &[])
+}
+
+/// Parse a file, `parents` are the files that are including it.
+fn parse_include(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &[&str],
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.contains(&filename) {
+        return Err(BMError::BadRule(format!("{filename} includes itself")).into());
+    }
+    let files = [parents, &[filename]].concat();
     let content = resolver.resolve(filename)?;
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
@@ -272,7 +285,7 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
+            let rules = parse_include(resolver, include_filename, &files).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
                         line_number,
-- 
2.43.0


From 01a9a416da9dcaf0f8a80cdc3477cfee134ad572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 18/19] fix: Beider-Morse loading panics when a languages file
 is missing

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 53175f7..8cee278 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -153,7 +153,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From d03adcfc67598176b2b243c1081f7246218ca80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 19/19] fix: Beider-Morse encoding panics when a language has
 no rules

---
 src/beider_morse/engine.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..6fb0e37 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -31,6 +31,9 @@ lazy_static::lazy_static! {
     ]);
 }
 
+/// For a configuration that doesn't contain `any` language.
+static NO_RULES: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
+
 #[derive(Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
 struct PhonemeBuilder {
     phonemes: BTreeSet<Phoneme>,
@@ -188,25 +191,31 @@ impl PhoneticEngine<'_> {
     }
 
     pub fn encode_with_language_set(&self, input: &str, languages: &LanguageSet) -> String {
-        let l = if languages.is_singleton() {
-            match languages.any() {
-                Some(l) => l,
-                None => unreachable!(
-                    "It's a singleton, so there is one language and 'any()' must be 'Some(...)'"
-                ),
+        let l = match languages.any() {
+            // Languages that are not part of the configuration have no rules.
+            Some(l)
+                if languages.is_singleton()
+                    && self
+                        .rules
+                        .rules(self.name_type, PrivateRuleType::Rules, l)
+                        .is_some() =>
+            {
+                l
             }
-        } else {
-            "any"
+            _ => "any",
         };
         let rules = self
             .rules
             .rules(self.name_type, PrivateRuleType::Rules, l)
-            .unwrap();
+            .unwrap_or(&NO_RULES);
         let final_rules1 = self
             .rules
             .rules(self.name_type, self.rule_type, "common")
-            .unwrap();
-        let final_rules2 = self.rules.rules(self.name_type, self.rule_type, l).unwrap();
+            .unwrap_or(&NO_RULES);
+        let final_rules2 = self
+            .rules
+            .rules(self.name_type, self.rule_type, l)
+            .unwrap_or(&NO_RULES);
 
         let input = input.to_lowercase().replace('-', " ");
 
-- 
2.43.0

