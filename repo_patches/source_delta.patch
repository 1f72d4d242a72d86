From 6f886c75e0a3abe9362e4ca50ff51223981613f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 01/10] fix: do not panic on digit-led words with non-ascii
 characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Unicode word boundaries keep e.g. "5é" and "1’000" together; splitting such a word
works on chars and needs no ascii assumption.
---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From bf9eacbb6a3c296b89c9b34eba7c399a95a8b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 02/10] fix: token_has_any forwards must not panic on a token
 without single-token attributes

---
 src/ll_line/x.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..eb9b8cc 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,9 +143,8 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
-            .iter()
+            .into_iter()
+            .flat_map(|values| values.get::<T>())
             .filter_map(|value| {
                 if set.contains(value) {
                     Some((value, ToIdx(self.from_idx)))
-- 
2.43.0


From 731f1ed362adbadda9718810fa23e47d2740b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 03/10] fix: token_has_any backwards only looks at the
 attributes of the one token, like forwards

---
 src/ll_line/x.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index eb9b8cc..e222cb6 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -250,26 +250,16 @@ impl<'l> XDirection<'l> for XBackwards {
         //   [...] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
-            .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .into_iter()
+            .flat_map(|values| values.get::<T>())
+            .filter_map(|value| {
+                if set.contains(value) {
+                    Some((value, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From ddff5e288fb42b2e11aca0f90553ce8917e61b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 04/10] fix: LLSelection::after is None exactly when the
 selection ends the line

---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 7bdae5e352bb179e25ae63991a3a6fb02f9ff0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 05/10] fix: split_by must not return matched tokens when
 matches overlap or nest

---
 src/ll_line/ll_selection.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..5c3de0e 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -72,34 +72,19 @@ impl LLSelection {
             return vec![self.clone()];
         }
 
-        if matches.len() == 1 {
-            return matches[0]
-                .0
-                .start_idx
-                .checked_sub(1)
-                .and_then(|end_idx| self.selection_from(self.start_idx, end_idx))
-                .into_iter()
-                .chain(self.selection_from(matches[0].0.end_idx + 1, self.end_idx))
-                .collect();
+        // Matches are ordered by their start but may overlap or contain each other, so the next
+        // piece starts after the furthest end so far.
+        let mut pieces = Vec::new();
+        let mut piece_start_idx = self.start_idx;
+        for (matched, _) in &matches {
+            if let Some(piece_end_idx) = matched.start_idx.checked_sub(1) {
+                pieces.extend(self.selection_from(piece_start_idx, piece_end_idx));
+            }
+            piece_start_idx = piece_start_idx.max(matched.end_idx + 1);
         }
+        pieces.extend(self.selection_from(piece_start_idx, self.end_idx));
 
-        let start_opt = matches[0]
-            .0
-            .start_idx
-            .checked_sub(1)
-            .and_then(|end_idx| self.selection_from(self.start_idx, end_idx));
-
-        let end_opt = self.selection_from(matches.last().unwrap().0.end_idx + 1, self.end_idx);
-        start_opt
-            .into_iter()
-            .chain(matches.windows(2).into_iter().filter_map(|m| {
-                m[1].0
-                    .start_idx
-                    .checked_sub(1)
-                    .and_then(|end_idx| self.selection_from(m[0].0.end_idx + 1, end_idx))
-            }))
-            .chain(end_opt)
-            .collect()
+        pieces
     }
 
     pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
-- 
2.43.0


From ae53e5b4952a41fdf0abf1aab459eb4b39fa79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 06/10] fix: trimming the end must remove a match that reaches
 the start of the line

---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 5c3de0e..d6ee24f 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -324,10 +324,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left in front of a match which reaches the start of the line
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 187423cd7e299c740b91518d17021c481ca710fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 07/10] fix: case insensitive lookup keeps the values of all
 keys that differ only by case

---
 src/resolvers/text_match.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..166af1a 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,21 +20,29 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        let mut lowercase_lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in lookup {
+            lowercase_lookup
+                .entry(key.to_lowercase())
+                .or_default()
+                .extend(val);
+        }
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup: lowercase_lookup,
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
+        let mut lowercase_lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in lookup.iter() {
+            lowercase_lookup
+                .entry(key.to_lowercase())
+                .or_default()
+                .push(val.clone());
+        }
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup: lowercase_lookup,
         }
     }
 }
-- 
2.43.0


From 0fc2cb6a862adc6b5cc9aba88435082edd47a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 08/10] fix: AmountResolver must not panic on numbers too large
 for a Decimal

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..d01b26a 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // Numbers which do not fit into a Decimal are left unassigned
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From be852f2bcc00a75baef89d6989c2b7a6c96777f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:20 +0000
Subject: [PATCH 09/10] fix: french amounts use a decimal comma, as documented

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index d01b26a..97c9f1e 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 3d1003d4314ec599fd95f47d088665f6703a6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 10/10] fix: clause keywords match configured words in any case

---
 layered-clauses/src/clause_keyword.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/layered-clauses/src/clause_keyword.rs b/layered-clauses/src/clause_keyword.rs
index 6cf6994..e3b8a03 100644
--- a/layered-clauses/src/clause_keyword.rs
+++ b/layered-clauses/src/clause_keyword.rs
@@ -11,17 +11,20 @@ pub enum ClauseKeyword {
 }
 
 pub struct ClauseKeywordResolver {
-    cond_start: Vec<&'static str>,
-    and: Vec<&'static str>,
-    then: Vec<&'static str>,
+    // all in lower case
+    cond_start: Vec<String>,
+    and: Vec<String>,
+    then: Vec<String>,
 }
 
 impl ClauseKeywordResolver {
     pub fn new(cond_start: &[&'static str], and: &[&'static str], then: &[&'static str]) -> Self {
+        let lowercase = |words: &[&'static str]| words.iter().map(|w| w.to_lowercase()).collect();
+
         ClauseKeywordResolver {
-            cond_start: cond_start.to_vec(),
-            and: and.to_vec(),
-            then: then.to_vec(),
+            cond_start: lowercase(cond_start),
+            and: lowercase(and),
+            then: lowercase(then),
         }
     }
 }
@@ -36,11 +39,11 @@ impl Resolver for ClauseKeywordResolver {
                 let text = text.to_lowercase();
 
                 Some(
-                    sel.finish_with_attr(if self.cond_start.contains(&text.as_str()) {
+                    sel.finish_with_attr(if self.cond_start.contains(&text) {
                         ClauseKeyword::ConditionStart
-                    } else if self.then.contains(&text.as_str()) {
+                    } else if self.then.contains(&text) {
                         ClauseKeyword::Then
-                    } else if self.and.contains(&text.as_str()) {
+                    } else if self.and.contains(&text) {
                         ClauseKeyword::And
                     } else {
                         return None;
-- 
2.43.0

