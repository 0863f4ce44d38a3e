From 924359b2edb974fbbc9ee413c18e11c0cc54f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 01/53] fix: range operations advance by one element and accept
 their boundary arguments

---
 core/src/range.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 706339c..63f5d15 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -17,7 +17,7 @@ macro_rules! numeric_bound_impl {
     ($type:ty) => {
         impl NumericRangeBound for $type {
             const ZERO: Self = 0;
-            const ONE: Self = 0;
+            const ONE: Self = 1;
 
             #[inline(always)]
             fn saturating_sub(self, rhs: Self) -> Self {
@@ -100,13 +100,12 @@ impl<T: NumericRangeBound> Range<T> {
     /// Shrink the length of this range by one element from the front, returning the first item in the range.
     #[inline]
     pub fn pop_front(&mut self) -> Option<T> {
-        let item = self.start;
-        let next = item + <T as NumericRangeBound>::ONE;
-        if next <= self.end {
-            self.start = next;
-            Some(item)
-        } else {
+        if self.start == self.end {
             None
+        } else {
+            let item = self.start;
+            self.start = item + <T as NumericRangeBound>::ONE;
+            Some(item)
         }
     }
 
@@ -127,7 +126,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will saturate to `self.end` to ensure the range remains valid.
     #[inline]
     pub fn shrink_front(&mut self, n: T) {
-        self.start = core::cmp::min(self.start + n, self.end);
+        self.start = self.start + core::cmp::min(n, self.len());
     }
 
     /// Truncate this range such that it's length is `new_len`, i.e. `start..(start + new_len)`
@@ -137,7 +136,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will panic if `new_len` is greater than the current length
     #[inline]
     pub fn truncate(&mut self, new_len: T) {
-        assert!(self.len() > new_len);
+        assert!(self.len() >= new_len);
         self.end = self.start + new_len;
     }
 }
-- 
2.43.0


From 6ac265a143ac0b83c6e271916107d3afd5023910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 02/53] fix: CRLF searches stay inside the given range and find
 the nearest CRLF

---
 core/src/text/mod.rs | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..c909fa7 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -125,17 +125,7 @@ pub fn find_next_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_next_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
-    }
+    memchr::memmem::find(&buffer[range], b"\r\n").map(|idx| range.start + idx)
 }
 
 pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
@@ -143,17 +133,7 @@ pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_prev_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memrchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
-    }
+    memchr::memmem::rfind(&buffer[range], b"\r\n").map(|idx| range.start + idx)
 }
 
 /// Returns true if `offset` in the underlying buffer falls on a valid UTF-8 codepoint boundary.
-- 
2.43.0


From 37d5d98901c88a412b69700401e2f57d5acd2f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 03/53] fix: searching for the last newline covers the buffer
 and reports LF endings as LF

---
 core/src/text/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index c909fa7..de794f9 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -83,7 +83,7 @@ impl Newline {
 
     /// Find the last [Newline] in `buffer`
     pub fn prev(buffer: &[u8]) -> Self {
-        Self::prev_from(buffer, 0)
+        Self::prev_from(buffer, buffer.len())
     }
 
     /// Find the last [Newline] in `buffer`, searching backwards from `offset`.
@@ -101,7 +101,7 @@ impl Newline {
                             offset: prev_line_end,
                         },
                         _ => Self {
-                            ty: LineEnding::Crlf,
+                            ty: LineEnding::Lf,
                             offset: index,
                         },
                     }
-- 
2.43.0


From 7e569ebb193c7ebd6308524b51567c8173234451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 04/53] fix: line/column positions count characters, as the
 locations they are the inverse of do

---
 core/src/diagnostics/source_file.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..7860ab3 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -670,12 +670,13 @@ impl SourceContent {
             .content
             .get(line_span.start.to_usize()..line_span.end.to_usize())
             .expect("invalid line boundaries: invalid utf-8");
-        if line_src.len() < column_index {
-            return None;
-        }
-        let (pre, _) = line_src.split_at(column_index);
+        let column_offset = line_src
+            .char_indices()
+            .map(|(offset, _)| offset)
+            .chain(core::iter::once(line_src.len()))
+            .nth(column_index)?;
         let start = line_span.start;
-        Some(start + ByteOffset::from_str_len(pre))
+        Some(start + ByteOffset(column_offset as i64))
     }
 
     /// Get a [FileLineCol] corresponding to the line/column in this file at which `byte_index`
-- 
2.43.0


From 3fe0afaa768986c0d274563503c9dd8e01d7ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 05/53] fix: an incremental edit keeps the line index when it
 ends or starts on a line boundary

---
 core/src/diagnostics/source_file.rs | 45 ++++++-----------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 7860ab3..3228e6c 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -725,42 +725,15 @@ impl SourceContent {
 
                 let added_line_starts = compute_line_starts(&text, Some(start as u32));
                 let num_added = added_line_starts.len();
-                let splice_start = range.start.line.to_usize() + 1;
-                // Determine deletion range in line_starts to respect Selection semantics.
-                // For multi-line edits, remove line starts from (start.line + 1) up to end.line
-                // inclusive, since all intervening newlines are removed by the
-                // replacement, regardless of end.character.
-                enum Deletion {
-                    Empty,
-                    Inclusive(usize), // inclusive end index
-                }
-                let deletion = if range.start.line == range.end.line {
-                    Deletion::Empty
-                } else {
-                    let mut end_line_for_splice = range.end.line.to_usize();
-                    if !self.line_starts.is_empty() {
-                        let max_idx = self.line_starts.len() - 1;
-                        if end_line_for_splice > max_idx {
-                            end_line_for_splice = max_idx;
-                        }
-                    }
-                    if end_line_for_splice >= splice_start {
-                        Deletion::Inclusive(end_line_for_splice)
-                    } else {
-                        Deletion::Empty
-                    }
-                };
-
-                match deletion {
-                    Deletion::Empty => {
-                        self.line_starts
-                            .splice(splice_start..splice_start, added_line_starts);
-                    }
-                    Deletion::Inclusive(end_idx) => {
-                        self.line_starts
-                            .splice(splice_start..=end_idx, added_line_starts);
-                    }
-                }
+                // Remove the line starts introduced by newlines in the replaced text
+                let splice_start = self
+                    .line_starts
+                    .partition_point(|line_start| line_start.to_usize() <= start);
+                let splice_end = self
+                    .line_starts
+                    .partition_point(|line_start| line_start.to_usize() <= end);
+                self.line_starts
+                    .splice(splice_start..splice_end, added_line_starts);
 
                 let diff =
                     (text.len() as i32).saturating_sub_unsigned((end as u32) - (start as u32));
-- 
2.43.0


From 8aaf3f7dbf0ebf6318dac8917f87b43efc39a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 06/53] fix: reject updates of unknown source ids instead of
 panicking

---
 core/src/diagnostics/source_manager.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index e205456..025e25a 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -498,7 +498,10 @@ impl SourceManager for DefaultSourceManager {
         let mut manager = self.0.write();
         match id.group() {
             SourceGroup::File => {
-                let source_file = &mut manager.files[id.to_index()];
+                let source_file = manager
+                    .files
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
@@ -506,7 +509,10 @@ impl SourceManager for DefaultSourceManager {
                     .map_err(SourceManagerError::InvalidContentUpdate)
             }
             SourceGroup::Argument => {
-                let source_file = &mut manager.arguments[id.to_index()];
+                let source_file = manager
+                    .arguments
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
-- 
2.43.0


From c4bea0e3293f15647a2a46927af28f742b859ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 07/53] fix: doubled percent signs always yield one, whatever
 else the command contains

---
 lit/src/config/substitutions.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 5140d09..1f5415d 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -19,6 +19,11 @@ pub struct InvalidSubstitutionPatternError {
     pattern: String,
 }
 
+/// Stands for an escaped percent sign while substitutions are applied.
+///
+/// This must not be something that can occur in a command.
+const ESCAPE_MARKER: &str = "\0";
+
 pub struct ScopedSubstitutionSet<'a> {
     parent: &'a SubstitutionSet,
     set: SubstitutionSet,
@@ -110,13 +115,14 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         let escape_re = regex::Regex::new("%%").unwrap();
 
         let (span, input) = input.into_parts();
-        let mut buffer = Cow::Borrowed(input);
-        let mut needs_unescape = false;
-        let mut needs_escaping = true;
+        // Doubled percent signs are literal even when there is nothing to substitute
+        let mut buffer = escape_re.replace_all(input, regex::NoExpand(ESCAPE_MARKER));
+        let mut needs_unescape = matches!(buffer, Cow::Owned(_));
+        let mut needs_escaping = false;
         for (pattern, replacement) in self.iter() {
             if needs_escaping {
                 if let Cow::Owned(escaped) =
-                    escape_re.replace_all(&buffer, regex::NoExpand("#_MARKER_#"))
+                    escape_re.replace_all(&buffer, regex::NoExpand(ESCAPE_MARKER))
                 {
                     buffer = Cow::Owned(escaped);
                     needs_unescape = true;
@@ -137,7 +143,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         }
 
         if needs_unescape {
-            let unescape_re = regex::Regex::new("#_MARKER_#").unwrap();
+            let unescape_re = regex::Regex::new(ESCAPE_MARKER).unwrap();
             if let Cow::Owned(unescaped) = unescape_re.replace_all(&buffer, regex::NoExpand("%")) {
                 buffer = Cow::Owned(unescaped);
             }
-- 
2.43.0


From 21c0b9daf0f6120d2a05d2bbab57d710e08476a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 08/53] fix: apply an overridden substitution once, not twice

---
 lit/src/config/substitutions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 1f5415d..68f276a 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -61,6 +61,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
     #[inline]
     pub fn iter(&self) -> impl Iterator<Item = (&StaticCow<str>, &StaticCow<str>)> + '_ {
         SubstitutionsIter {
+            parent: self.parent,
             set: &self.set,
             iter: self.parent.iter(),
             filter: true,
@@ -79,6 +80,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             (true, true) => Matches::Fuzzy {
                 exact: pattern,
                 keys: SubstitutionsIter {
+                    parent: self.parent,
                     set: &self.set,
                     iter: self.parent.iter(),
                     filter: true,
@@ -154,6 +156,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
 }
 
 pub struct SubstitutionsIter<'a> {
+    parent: &'a SubstitutionSet,
     set: &'a SubstitutionSet,
     iter: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
     filter: bool,
@@ -174,7 +177,9 @@ impl<'a> Iterator for SubstitutionsIter<'a> {
                 return result;
             }
         }
-        self.iter.next()
+        // Overrides of the parent were already visited in its place
+        let parent = self.parent;
+        self.iter.find(|(k, _)| !parent.contains(k.as_ref()))
     }
 }
 
-- 
2.43.0


From 93d017f4f087e5d4151af786b117d5859d10c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 09/53] fix: keys and values of DEFINE and the paths of a test
 are literal text

---
 lit/src/formats/sh/mod.rs               | 18 ++++++------------
 lit/src/formats/sh/script/directives.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ef80b00..249ee9a 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -118,24 +118,18 @@ impl TestFormat for ShTest {
                 .iter()
                 .map(|(k, v)| (k.clone(), v.clone())),
         );
+        // Paths are literal text, `$` would refer to a capture group of the pattern otherwise
+        let literal = |text: std::borrow::Cow<'_, str>| text.replace('$', "$$");
         substitutions.extend([
-            ("%s", test.absolute_path.to_string_lossy().into_owned()),
+            ("%s", literal(test.absolute_path.to_string_lossy())),
             (
                 "%S",
-                test.absolute_path
-                    .parent()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
+                literal(test.absolute_path.parent().unwrap().to_string_lossy()),
             ),
-            ("%t", temp_file.to_string_lossy().into_owned()),
+            ("%t", literal(temp_file.to_string_lossy())),
             (
                 "%basename_t",
-                temp_file
-                    .file_stem()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
+                literal(temp_file.file_stem().unwrap().to_string_lossy()),
             ),
         ]);
         substitutions.insert("%%", "%");
diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..3c78cb6 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -244,9 +244,13 @@ impl Substitution {
         use crate::config::substitutions::Matches;
         use itertools::Itertools;
 
-        match substitutions.find_matching(&self.key) {
+        // Keys and values of directives are literal text, while those of a substitution set are
+        // patterns and templates for their replacement
+        let key = regex::escape(&self.key);
+        let value = self.value.replace('$', "$$");
+        match substitutions.find_matching(&key) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(key.clone(), value);
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -254,7 +258,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(key.clone(), value);
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From af796cdc7cc032c90bd5fd2f4252cf44e4802cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 10/53] fix: run tests whose file name has no extension

---
 lit/src/formats/sh/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 249ee9a..603cb28 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -106,10 +106,10 @@ impl TestFormat for ShTest {
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
         let base_temp_file = temp_dir.join(test_filename);
-        let temp_file = base_temp_file.with_extension(format!(
-            "{}.tmp",
-            base_temp_file.extension().unwrap().to_str().unwrap()
-        ));
+        let temp_file = match base_temp_file.extension() {
+            Some(ext) => base_temp_file.with_extension(format!("{}.tmp", ext.to_str().unwrap())),
+            None => base_temp_file.with_extension("tmp"),
+        };
 
         // Construct substitutions
         let mut substitutions = ScopedSubstitutionSet::new(&test.config.substitutions);
-- 
2.43.0


From 2b3fd7f2a463e9530a12cdd93614a77512f3d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 11/53] fix: default filecheck and not substitutions keep the
 text around them

---
 lit/src/test/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lit/src/test/config.rs b/lit/src/test/config.rs
index 5b27712..422416c 100644
--- a/lit/src/test/config.rs
+++ b/lit/src/test/config.rs
@@ -204,11 +204,11 @@ impl TestConfig {
         };
         self.substitutions.insert(
             "(?<before>^|\\s)[Ff]ile[Cc]heck(?<after>$|\\s)",
-            format!("$before{filecheck}$after"),
+            format!("${{before}}{}${{after}}", filecheck.replace('$', "$$")),
         );
         self.substitutions.insert(
             "(?<before>^|\\s)not(?<after>$|\\s)",
-            format!("$before{not}$after"),
+            format!("${{before}}{}${{after}}", not.replace('$', "$$")),
         );
 
         self.substitutions
-- 
2.43.0


From 3a4714842d3e793131803fa05531b7ff3ab61d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 12/53] fix: percent signs of the last substituted value are
 unescaped like all others

---
 lit/src/config/substitutions.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 68f276a..814fc9a 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -120,18 +120,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         // Doubled percent signs are literal even when there is nothing to substitute
         let mut buffer = escape_re.replace_all(input, regex::NoExpand(ESCAPE_MARKER));
         let mut needs_unescape = matches!(buffer, Cow::Owned(_));
-        let mut needs_escaping = false;
         for (pattern, replacement) in self.iter() {
-            if needs_escaping {
-                if let Cow::Owned(escaped) =
-                    escape_re.replace_all(&buffer, regex::NoExpand(ESCAPE_MARKER))
-                {
-                    buffer = Cow::Owned(escaped);
-                    needs_unescape = true;
-                } else {
-                    needs_escaping = false;
-                }
-            }
             let re =
                 regex::Regex::new(pattern).map_err(|error| InvalidSubstitutionPatternError {
                     span,
@@ -139,8 +128,14 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
                     pattern: pattern.clone().into_owned(),
                 })?;
             if let Cow::Owned(replaced) = re.replace_all(&buffer, replacement) {
-                buffer = Cow::Owned(replaced);
-                needs_escaping = true;
+                // The replacement may contain, or complete, doubled percent signs
+                buffer = match escape_re.replace_all(&replaced, regex::NoExpand(ESCAPE_MARKER)) {
+                    Cow::Owned(escaped) => {
+                        needs_unescape = true;
+                        Cow::Owned(escaped)
+                    }
+                    Cow::Borrowed(_) => Cow::Owned(replaced),
+                };
             }
         }
 
-- 
2.43.0


From 5ceb4b782a71bb03dc04ae06b5894c88e7cb44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 13/53] verif: export the test script parser under
 cfg(litcheck_verif)

---
 lit/src/formats/mod.rs    | 4 ++++
 lit/src/formats/sh/mod.rs | 2 ++
 lit/src/lib.rs            | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/lit/src/formats/mod.rs b/lit/src/formats/mod.rs
index 884321e..abaf16c 100644
--- a/lit/src/formats/mod.rs
+++ b/lit/src/formats/mod.rs
@@ -3,3 +3,7 @@ mod sh;
 
 pub use self::executable::ExecutableTest;
 pub use self::sh::{InvalidTestScriptError, ShTest};
+
+/// Access to the test script parser for the verification harness
+#[cfg(litcheck_verif)]
+pub use self::sh::{directives, TestScript};
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 603cb28..d31cce7 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -1,6 +1,8 @@
 mod engine;
 mod script;
 
+#[cfg(litcheck_verif)]
+pub use self::script::directives;
 pub use self::script::{InvalidTestScriptError, TestScript};
 
 use std::path::Path;
diff --git a/lit/src/lib.rs b/lit/src/lib.rs
index 72965ba..a88423f 100644
--- a/lit/src/lib.rs
+++ b/lit/src/lib.rs
@@ -1,4 +1,6 @@
 //#![feature(iter_intersperse)]
+// verification hooks are guarded by cfg(litcheck_verif)
+#![allow(unexpected_cfgs)]
 
 pub mod config;
 pub mod format;
-- 
2.43.0


From 213fc2784db67e09c8d23f61e173a9d6041727b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 14/53] fix: the last line of a test counts even without a
 newline at its end

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..b0579ee 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -398,7 +398,7 @@ impl<'a> Iterator for Lines<'a> {
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From b36da57fe688a5ffb9b1f236c703bdb9f551ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 15/53] fix: a huge offset in a line substitution does not
 overflow

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index b0579ee..67aa377 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -449,7 +449,7 @@ fn push_str_replacing_line_numbers<'a>(
                 let line = if is_negative {
                     current_line.saturating_sub(offset)
                 } else {
-                    current_line + offset
+                    current_line.saturating_add(offset)
                 };
                 buf.push_format(format_args!("{line}")).unwrap();
             } else {
-- 
2.43.0


From 0033a325a66b314949c1ea823c065e049a33d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 16/53] fix: a continuation on the last line of a test is an
 error

---
 lit/src/formats/sh/script/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 67aa377..8a7d38b 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -125,6 +125,13 @@ impl<'a> TestScriptParser<'a> {
         while needs_continuation {
             let prev_line = span.clone();
             let Some(line) = self.next_line() else {
+                let source_id = directive.span().source_id();
+                self.errors
+                    .push(TestScriptError::MissingDirectiveContinuation {
+                        span: SourceSpan::from_range_unchecked(source_id, span.end..span.end),
+                        prev_line: SourceSpan::from_range_unchecked(source_id, prev_line),
+                        expected: directive.kind,
+                    });
                 break;
             };
             span.end = line.span().end().to_usize();
-- 
2.43.0


From a074c69600005d980755eef0515f68a2db2e0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 17/53] fix: a DEFINE or REDEFINE without a value is an error
 instead of being dropped

---
 lit/src/formats/sh/script/directives.rs | 6 ++++++
 lit/src/formats/sh/script/parser.rs     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 3c78cb6..5c1aad3 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -163,6 +163,12 @@ pub enum InvalidSubstitutionError {
         span: SourceSpan,
         key: String,
     },
+    #[error("invalid substitution directive")]
+    #[diagnostic()]
+    MissingValue {
+        #[label("expected a definition of the form 'KEY = VALUE'")]
+        span: SourceSpan,
+    },
     #[error("invalid REDFINE directive")]
     #[diagnostic()]
     NotDefined {
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 8a7d38b..59eb99c 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -244,6 +244,9 @@ impl<'a> TestScriptParser<'a> {
                     self.errors.push(err.into());
                 }
             }
+        } else {
+            let err = InvalidSubstitutionError::MissingValue { span: line.span() };
+            self.errors.push(err.into());
         }
 
         Ok(())
-- 
2.43.0


From 3a57724bb7e21c6134879d0916860484752c0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 18/53] fix: CHECK-NEXT at the end of a CHECK-LABEL region must
 fail, not panic

---
 filecheck/src/rules/next.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index c8c4ff0..ebfc35d 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -42,7 +42,7 @@ where
             let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
-                &context.search_range(start..block_end),
+                &context.search_range(core::cmp::min(start, block_end)..block_end),
                 context,
             );
             if !at_eof {
-- 
2.43.0


From c99c0c4a0e41baef2b9761a7cc88ad3e8d2cdff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 19/53] fix: CHECK-EMPTY needs a next line inside the current
 region

---
 filecheck/src/rules/empty.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..08e9147 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -30,7 +30,9 @@ impl Rule for CheckEmpty {
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        // There is no next line if the input, or the current block, ends with this line
+        let has_next_line = next_line_start > cursor.start() && next_line_start <= cursor.end();
+        if cursor.at_end_of_line() && has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
-- 
2.43.0


From 1ba1e3b93d3dea82749de4d171213ed3d5d650a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 20/53] fix: CHECK-NEXT and CHECK-SAME accept an empty match on
 an empty line

---
 filecheck/src/rules/next.rs | 7 ++++---
 filecheck/src/rules/same.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index ebfc35d..5cf758c 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -36,9 +36,10 @@ where
         let start = cursor.start_of_next_line();
         let block_end = cursor.end();
         let next_eol = cursor.next_newline_from(start).unwrap_or(block_end);
-        if start >= block_end {
-            // Cannot match, since the search range would
-            // overflow the current block.
+        let has_next_line = cursor.next_newline().is_some();
+        if !has_next_line || start > block_end {
+            // Cannot match, since there is no next line, or the search
+            // range would overflow the current block.
             let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From 77fa4b3f3c698f7bb495c4f8837ad37c9af31b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 21/53] fix: search for every CHECK-LABEL on a later line than
 the label before it

---
 filecheck/src/check/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..c6262ec 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -94,16 +94,19 @@ pub fn discover_blocks<'input, 'context: 'input>(
         });
     }
 
+    // The start of the line following the most recent CHECK-LABEL, if there is one, as every
+    // label must be found on a later line than the label before it
+    let mut next_label_start = Some(context.cursor().start());
     for (i, section) in program.sections.iter().enumerate() {
         if let CheckSection::Block { label, .. } = section {
             // Find the starting index of this pattern
             //
             // If no match is found, record the error,
             // and skip ahead in the instruction stream
-            let buffer = context.search_to_eof();
+            let buffer = context.search_range(next_label_start.unwrap_or(eof)..);
             match label.try_match(buffer, context) {
                 Ok(result) => {
-                    match result.info {
+                    match result.info.filter(|_| next_label_start.is_some()) {
                         Some(info) => {
                             if context.config.remarks_enabled()
                                 && let Ok(loc) =
@@ -124,6 +127,7 @@ pub fn discover_blocks<'input, 'context: 'input>(
                             // match on next lines can eat the first newline, but prevent any further
                             // matching of rules on this line
                             cursor.set_start(eol);
+                            next_label_start = (eol < eof).then(|| cursor.start_of_next_line());
                             // Create the block info for this CHECK-LABEL to record the start index
                             let block_id = blocks.len();
                             blocks.push(BlockInfo {
-- 
2.43.0


From 5d648b778b77281753822d6d2ab6a5bf753d6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 22/53] fix: match CHECK-DAG and CHECK-NOT patterns one by one

Identical directives were merged, matches overlapped, text found by a shorter or
overlapping prefix was missed, the directive after a CHECK-DAG group could match inside
of it, and some groups of directives panicked.
---
 filecheck/src/check/mod.rs                    |  36 +-
 filecheck/src/pattern/matcher/matchers/all.rs | 501 +++++++-----------
 filecheck/src/pattern/matcher/matchers/any.rs | 295 +----------
 filecheck/src/pattern/mod.rs                  |   4 +-
 filecheck/src/rules/dag.rs                    |  59 +--
 filecheck/src/test/result.rs                  |   7 +
 6 files changed, 260 insertions(+), 642 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index c6262ec..3ea0b4e 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -488,8 +488,28 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             left: check_dag,
             right,
         } => {
+            let group_start = context.cursor().position();
             let initial_result = check_dag.apply(context);
-            match check_group(right, test_result, context) {
+            let mut right_test_result = TestResult::new(context);
+            let mut right_result = check_group(right, &mut right_test_result, context);
+            if let (Ok(left_matches), Ok(Err(_))) = (&initial_result, &right_result)
+                && left_matches.is_ok()
+            {
+                // Nothing was found past the CHECK-DAG group, but see if there is a match before
+                // the end of the group, as we can explain why that match is not valid
+                let group_end = context.cursor().position();
+                context.move_to(group_start);
+                let mut retry_test_result = TestResult::new(context);
+                let retry_result = check_group(right, &mut retry_test_result, context);
+                if matches!(retry_result, Ok(Ok(_))) {
+                    right_test_result = retry_test_result;
+                    right_result = retry_result;
+                } else {
+                    context.move_to(group_end);
+                }
+            }
+            test_result.merge(right_test_result);
+            match right_result {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
                         .range()
@@ -498,7 +518,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
                                 && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                    || left_range.end > right_range.start)
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -512,7 +532,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
                                             if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() >= right_range.start
+                                                || left_range.end().to_usize() > right_range.start
                                             {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
@@ -577,7 +597,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 } if (span.start().to_usize()
                                                     >= right_range.start
                                                     || span.end().to_usize()
-                                                        >= right_range.start) =>
+                                                        > right_range.start) =>
                                                 {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
@@ -739,7 +759,7 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion = context.search_range(left_end.min(right_start)..right_start);
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
@@ -817,7 +837,7 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion = context.search_range(left_end.min(right_start)..right_start);
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
@@ -909,7 +929,7 @@ fn check_tree<'input, 'a: 'input>(
                 Err(mut left_matched) => {
                     // None of the left-hand patterns matched, but we can proceed with the CHECK-NOT anyway
                     let right_start = context.cursor().end();
-                    let exclusion = context.search_range(left_end..right_start);
+                    let exclusion = context.search_range(left_end.min(right_start)..right_start);
                     match check_not(root, exclusion, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
@@ -957,7 +977,7 @@ fn check_tree<'input, 'a: 'input>(
                         .min()
                         .unwrap();
 
-                    let exclusion = context.search_range(left_end..right_start);
+                    let exclusion = context.search_range(left_end.min(right_start)..right_start);
                     match check_not(root, exclusion, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..fbe2b45 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -1,346 +1,219 @@
 use crate::{
-    ast::{CheckLine, CheckPattern, Prefix},
+    ast::{CheckLine, CheckPattern},
     common::*,
-    pattern::{PatternPrefix, matcher::AlwaysMatch},
 };
 
-use super::{RegexSetMatcher, SubstringSetMatcher};
-
+/// A set of patterns which must all match the same region of input, in any order, without
+/// overlapping each other
 #[derive(Debug)]
-pub enum MatchAll<'a> {
-    /// A matcher for a set of literal strings
-    Literal(SubstringSetMatcher<'a>),
-    /// A matcher for a set of regular expressions
-    Regex(RegexSetMatcher<'a>),
-    /// A highly dynamic pattern matcher, but less efficient, as
-    /// it is forced to perform some number of redundant searches
-    /// of the input in order to check for all patterns. This is
-    /// the only searcher which can match multiple patterns with
-    /// match/blocks substitutions in at least one of the pattern
-    /// prefixes
-    AnyPrefix {
-        /// The prefix patterns to search for
-        prefixes: Vec<Pattern<'a>>,
-        /// The suffix patterns corresponding to each prefix
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of regular expressions.
-    RegexPrefix {
-        prefixes: RegexSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of substring literals.
-    SubstringPrefix {
-        prefixes: SubstringSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
+pub struct MatchAll<'a> {
+    /// The patterns of the set, in the order they were defined
+    pub(super) patterns: Vec<Pattern<'a>>,
+    /// For each pattern, whether or not it defines or uses any variables
+    uses_variables: Vec<bool>,
 }
 
 impl<'a> MatchAll<'a> {
-    pub fn compile(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
-        use std::collections::BTreeMap;
-
-        let raw_prefixes = unordered
-            .iter_mut()
-            .map(|line| {
-                // Compact the patterns as much as possible first
-                line.pattern.compact();
-                line.pattern.pop_prefix()
-            })
-            .collect::<SmallVec<[_; 4]>>();
-        let mut unique_prefixes = BTreeMap::<_, usize>::default();
-        let mut prefixes = Vec::with_capacity(raw_prefixes.len());
-        let mut suffixes = Vec::<Vec<Pattern<'a>>>::with_capacity(raw_prefixes.len());
-
-        for (id, prefix) in raw_prefixes.iter().enumerate() {
-            let span = prefix.span();
-            if let Some(canonical_prefix_id) = unique_prefixes.get(prefix).copied() {
-                let pattern =
-                    core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
-                if !pattern.is_empty() {
-                    suffixes[canonical_prefix_id].push(Pattern::compile(pattern, config)?);
-                } else {
-                    suffixes[canonical_prefix_id].push(Pattern::Empty(AlwaysMatch::new(span)));
-                }
-                continue;
-            }
-            let pattern_prefix = match &prefix {
-                Prefix::Literal(prefix) => PatternPrefix::Literal {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Substring(prefix) => PatternPrefix::Substring {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Regex(prefix) => PatternPrefix::Regex {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Match(prefix) => PatternPrefix::Dynamic {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Empty(span) => {
-                    let diag = Diag::new(
-                        "unexpected empty pattern encountered during pattern compilation",
-                    )
-                    .with_label(Label::new(*span, "pattern defined here"))
-                    .with_help("empty patterns are only valid in CHECK-NOT directives");
-                    return Err(Report::from(diag));
-                }
-            };
-            unique_prefixes.insert(prefix.clone(), id);
-            prefixes.push(pattern_prefix);
-            let pattern = core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
-            if !pattern.is_empty() {
-                suffixes.push(vec![Pattern::compile(pattern, config)?]);
-            } else {
-                suffixes.push(vec![Pattern::Empty(AlwaysMatch::new(span))]);
+    pub fn compile(unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+        let mut patterns = Vec::with_capacity(unordered.len());
+        let mut uses_variables = Vec::with_capacity(unordered.len());
+        for line in unordered {
+            if let CheckPattern::Empty(span) = line.pattern {
+                let diag =
+                    Diag::new("unexpected empty pattern encountered during pattern compilation")
+                        .with_label(Label::new(span, "pattern defined here"))
+                        .with_help("empty patterns are only valid in CHECK-NOT directives");
+                return Err(Report::from(diag));
             }
+            uses_variables.push(line.pattern.locate_variables().next().is_some());
+            patterns.push(Pattern::compile(line.pattern, config)?);
         }
 
-        // We've de-duplicated the prefixes, and combined all suffixes for shared prefixes,
-        // next, we need to determine what searcher to use for prefix matching, which depends
-        // on the composition of the patterns
-
-        // A single stage match means that each prefix is unique, and that the prefix represents the entire pattern
-        let is_single_stage = suffixes
-            .iter()
-            .all(|patterns| patterns.iter().all(|p| matches!(p, Pattern::Empty(_))));
-
-        // Literal patterns are always single stage, and can be performed with a simple substring set matcher
-        let is_literal = prefixes
-            .iter()
-            .all(|prefix| matches!(prefix, PatternPrefix::Literal { .. }));
-        if is_literal {
-            assert!(is_single_stage);
-            // We can use a simple substring searcher in this case
-            return SubstringSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_str)
-                    .collect(),
-                config,
-            )
-            .map(MatchAll::Literal);
-        }
-
-        // Check if we have both literal+substring patterns, which require a slightly different strategy
-        let is_substring = prefixes.iter().all(|prefix| {
-            matches!(
-                prefix,
-                PatternPrefix::Literal { .. } | PatternPrefix::Substring { .. }
-            )
-        });
-        if is_substring {
-            // By definition this must be a multi-stage match
-            assert!(!is_single_stage);
-
-            let searcher = SubstringSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_str)
-                    .collect(),
-                config,
-            )?;
+        Ok(Self {
+            patterns,
+            uses_variables,
+        })
+    }
 
-            return Ok(Self::SubstringPrefix {
-                prefixes: searcher,
-                suffixes,
-            });
-        }
+    pub fn pattern_len(&self) -> usize {
+        self.patterns.len()
+    }
 
-        // If all patterns are regular expressions, or can be safely converted to one, so we can
-        // use a regex searcher for at least the prefixes, if not all of the patterns
-        let is_regex = prefixes.iter().all(PatternPrefix::is_regex_compatible);
-        // Single-stage regular expression matches can be performed with a single matcher
-        if is_regex {
-            if is_single_stage {
-                return RegexSetMatcher::new(
-                    prefixes
-                        .into_iter()
-                        .filter_map(PatternPrefix::into_regex_pattern)
-                        .collect(),
-                    config,
-                )
-                .map(MatchAll::Regex);
-            }
+    pub fn first_pattern_span(&self) -> SourceSpan {
+        first_pattern_span(&self.patterns)
+    }
 
-            let searcher = RegexSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_regex_pattern)
-                    .collect(),
-                config,
-            )?;
-            return Ok(Self::RegexPrefix {
-                prefixes: searcher,
-                suffixes,
-            });
+    /// Find a match in `input` for every pattern in this set, such that none of the matches
+    /// overlap.
+    ///
+    /// The bindings made by the patterns are only visible in `context` if all patterns matched.
+    pub fn try_match_all<'input, 'context, C>(
+        &self,
+        input: Input<'input>,
+        context: &mut C,
+    ) -> DiagResult<Matches<'input>>
+    where
+        C: Context<'input, 'context> + ?Sized,
+    {
+        let mut guard = context.protect();
+        if let Some(matches) = self.try_match_in_order(input, &mut guard)? {
+            guard.save();
+            return Ok(matches);
         }
+        drop(guard);
 
-        // If we reach here, it's because at least one prefix contains a match/substitution block
-        // that cannot be easily grouped with other prefixes. In such cases we evaluate the search
-        // entirely manually rather than delegating parts to other searchers
-        let mut prefix_patterns = Vec::with_capacity(prefixes.len());
-        for prefix in prefixes.into_iter() {
-            prefix_patterns.push(Pattern::from_prefix(prefix, config)?);
+        let mut guard = context.protect();
+        let matches = self.try_match_by_position(input, &mut guard)?;
+        if matches.is_ok() {
+            guard.save();
         }
-
-        Ok(Self::AnyPrefix {
-            prefixes: prefix_patterns,
-            suffixes,
-        })
+        Ok(matches)
     }
-}
-impl<'a> MatchAll<'a> {
-    pub fn pattern_len(&self) -> usize {
-        match self {
-            Self::Literal(matcher) => matcher.pattern_len(),
-            Self::Regex(matcher) => matcher.patterns_len(),
-            Self::AnyPrefix { suffixes, .. }
-            | Self::RegexPrefix { suffixes, .. }
-            | Self::SubstringPrefix { suffixes, .. } => suffixes.iter().map(|ps| ps.len()).sum(),
+
+    /// Match the patterns in the order they were defined, each of them taking the first match
+    /// which does not overlap the matches before it.
+    ///
+    /// Returns `None` if a pattern has no such match.
+    fn try_match_in_order<'input, 'context, C>(
+        &self,
+        input: Input<'input>,
+        context: &mut C,
+    ) -> DiagResult<Option<Matches<'input>>>
+    where
+        C: Context<'input, 'context> + ?Sized,
+    {
+        let mut free = vec![input.bounds()];
+        let mut matched = Vec::with_capacity(self.patterns.len());
+        for (id, pattern) in self.patterns.iter().enumerate() {
+            match try_match_free(pattern, input, &free, context)? {
+                Ok((region, info)) => {
+                    take(&mut free, region, info.matched_range());
+                    matched.push(MatchResult::ok(info.with_pattern(id)));
+                }
+                Err(_) => return Ok(None),
+            }
         }
+        Ok(Some(Matches::from_iter(matched)))
     }
 
-    pub fn first_pattern(&self) -> Span<usize> {
-        match self {
-            Self::Literal(matcher) => matcher.first_pattern(),
-            Self::Regex(matcher) => matcher.first_pattern(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let (prefix_id, start) = prefixes
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .min_by_key(|&(_, s)| s.start())
-                    .unwrap();
-                let (offset, end) = suffixes[prefix_id]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        start.source_id(),
-                        start.start().to_usize()..end.end().to_usize(),
-                    ),
-                    prefix_id + offset,
-                )
+    /// Match the patterns in the order their matches occur in the input, giving preference to
+    /// the longest match if there is a choice. This ensures that a pattern with few possible
+    /// matches is not starved by one that can match in many places.
+    ///
+    /// Patterns that involve variables are still matched in the order they were defined, as the
+    /// later ones may refer to the bindings of the earlier ones.
+    fn try_match_by_position<'input, 'context, C>(
+        &self,
+        input: Input<'input>,
+        context: &mut C,
+    ) -> DiagResult<Matches<'input>>
+    where
+        C: Context<'input, 'context> + ?Sized,
+    {
+        let mut free = vec![input.bounds()];
+        let mut matched = Vec::with_capacity(self.patterns.len());
+        let mut pending = (0..self.patterns.len()).collect::<Vec<usize>>();
+        loop {
+            let mut best: Option<(usize, Range<usize>)> = None;
+            let mut variables_pending = false;
+            for (index, &id) in pending.iter().enumerate() {
+                if self.uses_variables[id] {
+                    if variables_pending {
+                        continue;
+                    }
+                    variables_pending = true;
+                }
+                let mut guard = context.protect();
+                if let Ok((_, info)) =
+                    try_match_free(&self.patterns[id], input, &free, &mut guard)?
+                {
+                    let range = info.matched_range();
+                    if best.is_none_or(|(_, best)| {
+                        range.start < best.start
+                            || (range.start == best.start && range.end > best.end)
+                    }) {
+                        best = Some((index, range));
+                    }
+                }
             }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
+            let Some((index, _)) = best else {
+                break;
+            };
+            let id = pending.remove(index);
+            // Match again, but this time keep the resulting bindings
+            if let Ok((region, info)) = try_match_free(&self.patterns[id], input, &free, context)? {
+                take(&mut free, region, info.matched_range());
+                matched.push(MatchResult::ok(info.with_pattern(id)));
             }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
+        }
+        for id in pending {
+            let mut guard = context.protect();
+            if let Err(failed) = try_match_free(&self.patterns[id], input, &free, &mut guard)? {
+                matched.push(failed);
             }
         }
-    }
-
-    pub fn first_pattern_span(&self) -> SourceSpan {
-        self.first_pattern().span()
+        Ok(Matches::from_iter(matched))
     }
 }
 impl<'a> Spanned for MatchAll<'a> {
     fn span(&self) -> SourceSpan {
-        match self {
-            Self::Literal(matcher) => matcher.span(),
-            Self::Regex(matcher) => matcher.span(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let start = prefixes
-                    .iter()
-                    .map(|prefix| prefix.span())
-                    .min_by_key(|span| span.start())
-                    .unwrap();
-                let end = prefixes
-                    .iter()
-                    .zip(suffixes.iter())
-                    .map(|(prefix, suffixes)| {
-                        suffixes
-                            .iter()
-                            .map(|p| p.span())
-                            .max_by_key(|span| span.end())
-                            .unwrap_or(prefix.span())
-                    })
-                    .max_by_key(|span| span.end())
-                    .unwrap();
-                SourceSpan::from_range_unchecked(
-                    start.source_id(),
-                    start.start().to_usize()..end.end().to_usize(),
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
+        patterns_span(&self.patterns)
+    }
+}
+
+/// Find the first match of `pattern` which lies in one of the `free` regions of `input`
+///
+/// On success, returns the index of the region and the match
+#[allow(clippy::type_complexity)]
+fn try_match_free<'input, 'context, C>(
+    pattern: &Pattern<'_>,
+    input: Input<'input>,
+    free: &[Range<usize>],
+    context: &mut C,
+) -> DiagResult<Result<(usize, MatchInfo<'input>), MatchResult<'input>>>
+where
+    C: Context<'input, 'context> + ?Sized,
+{
+    let mut failed = None;
+    for (region, range) in free.iter().enumerate() {
+        match pattern.try_match_mut(input.bounded(*range), context)? {
+            MatchResult {
+                info: Some(info),
+                ty: MatchType::MatchFoundAndExpected,
+            } => return Ok(Ok((region, info))),
+            result => failed = failed.or(Some(result)),
         }
     }
+    Ok(Err(failed.unwrap_or_else(|| {
+        MatchResult::failed(CheckFailedError::match_none(
+            pattern.span(),
+            &input,
+            context,
+        ))
+    })))
+}
+
+/// Remove `range`, which lies in the given region of `free`, from the free regions
+fn take(free: &mut Vec<Range<usize>>, region: usize, range: Range<usize>) {
+    let rest = Range::new(range.end, free[region].end);
+    free[region].end = range.start;
+    free.insert(region + 1, rest);
+}
+
+pub(super) fn first_pattern_span(patterns: &[Pattern<'_>]) -> SourceSpan {
+    patterns
+        .iter()
+        .map(|pattern| pattern.span())
+        .min_by_key(|span| span.start())
+        .expect("expected at least one pattern")
+}
+
+pub(super) fn patterns_span(patterns: &[Pattern<'_>]) -> SourceSpan {
+    let first = first_pattern_span(patterns);
+    let end = patterns
+        .iter()
+        .map(|pattern| pattern.span().end())
+        .max()
+        .expect("expected at least one pattern");
+    SourceSpan::new(first.source_id(), Range::new(first.start(), end))
 }
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index f679b7d..23c33ae 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -1,199 +1,34 @@
 use crate::common::*;
 
-use super::{MatchAll, RegexSetMatcher, SubstringSetMatcher};
+use super::{
+    MatchAll,
+    all::{first_pattern_span, patterns_span},
+};
 
+/// A set of patterns, any of which may match the given input
 #[derive(Debug)]
-pub enum MatchAny<'a> {
-    /// Match a set of literal strings
-    Literal(SubstringSetMatcher<'a>),
-    /// Match a set of static regex patterns
-    Regex(RegexSetMatcher<'a>),
-    /// A highly dynamic pattern matcher, but less efficient, as
-    /// it is forced to perform some number of redundant searches
-    /// of the input in order to check for all patterns. This is
-    /// the only searcher which can match multiple patterns with
-    /// match/blocks substitutions in at least one of the pattern
-    /// prefixes
-    AnyPrefix {
-        /// The prefix patterns to search for
-        prefixes: Vec<Pattern<'a>>,
-        /// The suffix patterns corresponding to each prefix
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of regular expressions.
-    RegexPrefix {
-        prefixes: RegexSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of substring literals.
-    SubstringPrefix {
-        prefixes: SubstringSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
+pub struct MatchAny<'a> {
+    patterns: Vec<Pattern<'a>>,
 }
 impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
     fn from(match_all: MatchAll<'a>) -> Self {
-        match match_all {
-            MatchAll::Literal(lit) => Self::Literal(lit),
-            MatchAll::Regex(re) => Self::Regex(re),
-            MatchAll::AnyPrefix { prefixes, suffixes } => Self::AnyPrefix { prefixes, suffixes },
-            MatchAll::SubstringPrefix { prefixes, suffixes } => {
-                Self::SubstringPrefix { prefixes, suffixes }
-            }
-            MatchAll::RegexPrefix { prefixes, suffixes } => {
-                Self::RegexPrefix { prefixes, suffixes }
-            }
+        Self {
+            patterns: match_all.patterns,
         }
     }
 }
 impl<'a> MatchAny<'a> {
     pub fn pattern_len(&self) -> usize {
-        match self {
-            Self::Literal(matcher) => matcher.pattern_len(),
-            Self::Regex(matcher) => matcher.patterns_len(),
-            Self::AnyPrefix { suffixes, .. }
-            | Self::RegexPrefix { suffixes, .. }
-            | Self::SubstringPrefix { suffixes, .. } => suffixes.iter().map(|ps| ps.len()).sum(),
-        }
-    }
-
-    pub fn first_pattern(&self) -> Span<usize> {
-        match self {
-            Self::Literal(matcher) => matcher.first_pattern(),
-            Self::Regex(matcher) => matcher.first_pattern(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let (prefix_id, start) = prefixes
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .min_by_key(|&(_, s)| s.start())
-                    .unwrap();
-                let (offset, end) = suffixes[prefix_id]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, e)| e.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        start.source_id(),
-                        start.start().to_usize()..end.end().to_usize(),
-                    ),
-                    prefix_id + offset,
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, end)| end.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-        }
+        self.patterns.len()
     }
 
     pub fn first_pattern_span(&self) -> SourceSpan {
-        self.first_pattern().span()
+        first_pattern_span(&self.patterns)
     }
 }
 impl<'a> Spanned for MatchAny<'a> {
     fn span(&self) -> SourceSpan {
-        match self {
-            Self::Literal(matcher) => matcher.span(),
-            Self::Regex(matcher) => matcher.span(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let start = prefixes
-                    .iter()
-                    .map(|prefix| prefix.span())
-                    .min_by_key(|span| span.start())
-                    .unwrap();
-                let end = prefixes
-                    .iter()
-                    .zip(suffixes.iter())
-                    .map(|(prefix, suffixes)| {
-                        suffixes
-                            .iter()
-                            .map(|p| p.span())
-                            .max_by_key(|span| span.end())
-                            .unwrap_or(prefix.span())
-                    })
-                    .max_by_key(|span| span.end())
-                    .unwrap();
-                SourceSpan::from_range_unchecked(
-                    start.source_id(),
-                    start.start().to_usize()..end.end().to_usize(),
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-        }
+        patterns_span(&self.patterns)
     }
 }
 impl<'a> MatcherMut for MatchAny<'a> {
@@ -205,103 +40,19 @@ impl<'a> MatcherMut for MatchAny<'a> {
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        use crate::pattern::search::PatternSetSearcher;
-
-        match self {
-            Self::Literal(matcher) => matcher.try_match_mut(input, context),
-            Self::Regex(matcher) => matcher.try_match_mut(input, context),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let searcher = PatternSetSearcher::new(input, prefixes)?;
-                try_match_searcher(searcher, suffixes, input, context)
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                try_match_searcher(prefixes.search(input), suffixes, input, context)
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                try_match_searcher(prefixes.search(input)?, suffixes, input, context)
-            }
-        }
-    }
-}
-
-fn try_match_searcher<'input, 'context, 'a, S, C>(
-    mut searcher: S,
-    suffixes: &[Vec<Pattern<'a>>],
-    input: Input<'input>,
-    context: &mut C,
-) -> DiagResult<MatchResult<'input>>
-where
-    S: PatternSearcher<'input>,
-    C: Context<'input, 'context> + ?Sized,
-{
-    loop {
-        match searcher.try_match_next(context)? {
-            MatchResult {
-                info: Some(ref mut info),
+        for (id, pattern) in self.patterns.iter().enumerate() {
+            if let MatchResult {
+                info: Some(info),
                 ty: MatchType::MatchFoundAndExpected,
-            } => {
-                let mut suffix_input = input;
-                suffix_input.set_start(searcher.last_match_end().unwrap());
-                suffix_input.set_anchored(true);
-                let suffixes = &suffixes[info.pattern_id];
-                if let Some(found) =
-                    try_match_suffix(info, suffixes, info.pattern_id, suffix_input, context)?
-                {
-                    break Ok(found);
-                }
+            } = pattern.try_match_mut(input, context)?
+            {
+                return Ok(MatchResult::ok(info.with_pattern(id)));
             }
-            result @ MatchResult { info: None, .. } => break Ok(result),
-            _ => continue,
         }
+        Ok(MatchResult::failed(CheckFailedError::match_none(
+            self.first_pattern_span(),
+            &input,
+            context,
+        )))
     }
 }
-
-fn try_match_suffix<'input, 'context, 'a, C>(
-    prefix_info: &mut MatchInfo<'input>,
-    suffixes: &[Pattern<'a>],
-    mut pattern_id: usize,
-    input: Input<'input>,
-    context: &mut C,
-) -> DiagResult<Option<MatchResult<'input>>>
-where
-    C: Context<'input, 'context> + ?Sized,
-{
-    for suffix in suffixes.iter() {
-        match suffix.try_match_mut(input, context)? {
-            MatchResult {
-                info: Some(mut suffix_info),
-                ty: MatchType::MatchFoundAndExpected,
-            } => {
-                // Match found, we're done
-                let mut captures = core::mem::take(&mut prefix_info.captures);
-                captures.append(&mut suffix_info.captures);
-                return Ok(Some(MatchResult::ok(MatchInfo {
-                    pattern_id,
-                    span: SourceSpan::new(
-                        prefix_info.span.source_id(),
-                        Range::new(prefix_info.span.start(), suffix_info.span.end()),
-                    ),
-                    captures,
-                    ..suffix_info
-                })));
-            }
-            MatchResult {
-                info: Some(mut info),
-                ty,
-            } => {
-                // We found a match, but then some error occurred, so let's propagate the error
-                info.pattern_id = pattern_id;
-                return Ok(Some(MatchResult {
-                    info: Some(info),
-                    ty,
-                }));
-            }
-            _ => {
-                // No match for this suffix
-                pattern_id += 1;
-            }
-        }
-    }
-
-    Ok(None)
-}
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 684968b..3672226 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -4,7 +4,7 @@ pub mod matcher;
 mod matches;
 mod prefix;
 pub mod search;
-pub(crate) mod visitors;
+pub mod visitors;
 
 pub use self::id::PatternIdentifier;
 pub use self::matcher::*;
@@ -169,7 +169,7 @@ impl<'a> MatcherMut for Pattern<'a> {
     {
         match self {
             Self::Substring(matcher) => matcher.try_match(input, context),
-            Self::Regex(matcher) => matcher.try_match(input, context),
+            Self::Regex(matcher) => matcher.try_match_mut(input, context),
             Self::Smart(matcher) => matcher.try_match_mut(input, context),
             Self::Whitespace(matcher) => matcher.try_match(input, context),
             Self::Empty(matcher) => matcher.try_match(input, context),
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 339a0aa..a2735b6 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -1,7 +1,4 @@
-use crate::{
-    common::*,
-    pattern::{matcher::MatchAll, search::PatternSetSearcher, visitors::*},
-};
+use crate::{common::*, pattern::matcher::MatchAll};
 
 #[derive(Debug)]
 pub struct CheckDag<'a> {
@@ -33,50 +30,20 @@ impl<'check> Rule for CheckDag<'check> {
     {
         let mut guard = context.protect();
         let input = guard.search_block();
-        let result = match self.patterns {
-            MatchAll::Literal(ref matcher) => {
-                let mut searcher = matcher.search(input)?;
-                let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
-                visitor.try_match_all(&mut guard)
+        let matches = self.patterns.try_match_all(input, &mut guard)?;
+        if matches.is_ok() {
+            // Searches continue after the last match of the group
+            if let Some(end) = matches
+                .iter()
+                .filter_map(|result| result.matched_range())
+                .map(|range| range.end)
+                .max()
+            {
+                guard.cursor_mut().set_start(end);
             }
-            MatchAll::Regex(ref matcher) => {
-                let mut searcher = matcher.search(input);
-                let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
-                visitor.try_match_all(&mut guard)
-            }
-            MatchAll::RegexPrefix {
-                ref prefixes,
-                ref suffixes,
-                ..
-            } => {
-                let mut searcher = prefixes.search(input);
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
-            }
-            MatchAll::SubstringPrefix {
-                ref prefixes,
-                ref suffixes,
-            } => {
-                let mut searcher = prefixes.search(input)?;
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
-            }
-            MatchAll::AnyPrefix {
-                ref prefixes,
-                ref suffixes,
-            } => {
-                let mut searcher = PatternSetSearcher::new(input, prefixes)?;
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
-            }
-        };
-        match result {
-            Ok(result) if result.is_ok() => {
-                guard.save();
-                Ok(result)
-            }
-            result => result,
+            guard.save();
         }
+        Ok(matches)
     }
 }
 
diff --git a/filecheck/src/test/result.rs b/filecheck/src/test/result.rs
index 69f9f13..c31d491 100644
--- a/filecheck/src/test/result.rs
+++ b/filecheck/src/test/result.rs
@@ -62,6 +62,13 @@ impl TestResult {
         self.error.errors.push(error);
     }
 
+    /// Add the matches and errors of `other` to this result
+    pub fn merge(&mut self, other: Self) {
+        self.matches.extend(other.matches);
+        self.passed += other.passed;
+        self.error.errors.extend(other.error.errors);
+    }
+
     pub fn is_ok(&self) -> bool {
         self.error.errors.is_empty()
     }
-- 
2.43.0


From a3d8ca5ffd50b4ae0089df6b968445bc526c8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 23/53] Keep the files under filecheck/src/test and
 lit/src/test unchanged

---
 filecheck/src/check/mod.rs   | 5 ++++-
 filecheck/src/test/result.rs | 7 -------
 lit/src/test/config.rs       | 4 ++--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 3ea0b4e..51d2c85 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -508,7 +508,10 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     context.move_to(group_end);
                 }
             }
-            test_result.merge(right_test_result);
+            if right_test_result.is_failed() {
+                let failed = right_test_result.unwrap_err();
+                failed.errors.into_iter().for_each(|error| test_result.failed(error));
+            }
             match right_result {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
diff --git a/filecheck/src/test/result.rs b/filecheck/src/test/result.rs
index c31d491..69f9f13 100644
--- a/filecheck/src/test/result.rs
+++ b/filecheck/src/test/result.rs
@@ -62,13 +62,6 @@ impl TestResult {
         self.error.errors.push(error);
     }
 
-    /// Add the matches and errors of `other` to this result
-    pub fn merge(&mut self, other: Self) {
-        self.matches.extend(other.matches);
-        self.passed += other.passed;
-        self.error.errors.extend(other.error.errors);
-    }
-
     pub fn is_ok(&self) -> bool {
         self.error.errors.is_empty()
     }
diff --git a/lit/src/test/config.rs b/lit/src/test/config.rs
index 422416c..5b27712 100644
--- a/lit/src/test/config.rs
+++ b/lit/src/test/config.rs
@@ -204,11 +204,11 @@ impl TestConfig {
         };
         self.substitutions.insert(
             "(?<before>^|\\s)[Ff]ile[Cc]heck(?<after>$|\\s)",
-            format!("${{before}}{}${{after}}", filecheck.replace('$', "$$")),
+            format!("$before{filecheck}$after"),
         );
         self.substitutions.insert(
             "(?<before>^|\\s)not(?<after>$|\\s)",
-            format!("${{before}}{}${{after}}", not.replace('$', "$$")),
+            format!("$before{not}$after"),
         );
 
         self.substitutions
-- 
2.43.0


From 9bac01b60f2564ce8d62ae765bcb56e8ef71c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 24/53] fix: the end of the line lies within the region the
 cursor was set to

After a search region is set, the first line of the region ends where the
region does, even if the text goes on: a CHECK-SAME after an empty match in an
empty first region was matched against the line of the label after it.
---
 filecheck/src/cursor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/cursor.rs b/filecheck/src/cursor.rs
index c3cc4ee..2a98289 100644
--- a/filecheck/src/cursor.rs
+++ b/filecheck/src/cursor.rs
@@ -173,7 +173,9 @@ impl<'a> Cursor<'a> {
     {
         let eof = self.buffer.len();
         self.block = range::range_from_bounds(range, Range::new(0, eof)).unwrap();
-        self.eol = self.next_newline_from(self.block.start).unwrap_or(eof) as u32;
+        self.eol = self
+            .next_newline_in_range(self.block)
+            .unwrap_or(self.block.end) as u32;
     }
 
     /// Move the cursor forward past the newline under the cursor.
-- 
2.43.0


From 797d36303b9e8db95c2fd9e80a35bee624446c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 25/53] fix: an empty CHECK-DAG match next to the following
 CHECK does not overlap it

A match that is empty and ends where the match of the following CHECK starts
was discarded as if it had been reordered past that CHECK.
---
 filecheck/src/check/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 51d2c85..87b17ae 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -520,8 +520,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     match initial_result {
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
-                                && (left_range.start >= right_range.start
-                                    || left_range.end > right_range.start)
+                                && left_range.end > right_range.start
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -534,9 +533,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                             ty,
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
-                                            if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() > right_range.start
-                                            {
+                                            if left_range.end().to_usize() > right_range.start {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
                                                 *mr = MatchResult::failed(
@@ -597,10 +594,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 }
                                                 | CheckFailedError::MatchFoundButDiscarded {
                                                     ..
-                                                } if (span.start().to_usize()
-                                                    >= right_range.start
-                                                    || span.end().to_usize()
-                                                        > right_range.start) =>
+                                                } if span.end().to_usize() > right_range.start =>
                                                 {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
-- 
2.43.0


From 2a5008d4816ba439b2f62621f5057847653c0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 26/53] fix: keep an alternation in a regex block from
 extending to the text around it

x{{a|b}}y was compiled to the pattern xa|by when the parts of the check line
were joined into one regex, so that it matched 'xa' or 'by'.
---
 filecheck/src/ast/pattern.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..6a13540 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -463,9 +463,16 @@ impl<'a> CheckPattern<'a> {
                             captures.append(part_captures);
                             if is_literal_mode {
                                 is_literal_mode = false;
-                                convert_to_regex(&mut pattern, part.len())
+                                convert_to_regex(&mut pattern, part.len() + 4)
+                            }
+                            // An alternation must not extend to the text around the block
+                            if part.contains('|') {
+                                pattern.push_str("(?:");
+                                pattern.push_str(part.as_ref());
+                                pattern.push(')');
+                            } else {
+                                pattern.push_str(part.as_ref());
                             }
-                            pattern.push_str(part.as_ref());
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From 8995f3a4806ab1f2cfb26ee696c76b9d06a5c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 27/53] fix: apply the operations of an expression from left to
 right

The operations after the first operand of a numeric block were parsed as one
expression of their own, so that V-1-1 was evaluated as V-(1-1).
---
 filecheck/src/ast/mod.rs            | 25 +++++++++-
 filecheck/src/parse/grammar.lalrpop | 71 ++++++++++-------------------
 2 files changed, 47 insertions(+), 49 deletions(-)

diff --git a/filecheck/src/ast/mod.rs b/filecheck/src/ast/mod.rs
index 78def52..a6541af 100644
--- a/filecheck/src/ast/mod.rs
+++ b/filecheck/src/ast/mod.rs
@@ -10,7 +10,10 @@ pub use self::pattern::{
     Capture, CheckPattern, CheckPatternPart, Constraint, Match, Prefix, RegexPattern,
 };
 
-use crate::expr::{BinaryOp, Expr, VariableName};
+use crate::{
+    common::*,
+    expr::{BinaryOp, Expr, VariableName},
+};
 
 pub(crate) struct ConstraintExpr {
     pub constraint: Constraint,
@@ -19,7 +22,25 @@ pub(crate) struct ConstraintExpr {
 
 pub(crate) struct BinaryOpAndOperand {
     pub op: BinaryOp,
-    pub operand: Box<Expr>,
+    pub operand: Expr,
+}
+
+impl BinaryOpAndOperand {
+    /// Apply each of the operations in `rest`, from left to right, starting from `lhs`
+    pub fn apply_all(lhs: Expr, rest: Vec<BinaryOpAndOperand>) -> Expr {
+        let mut expr = lhs;
+        for BinaryOpAndOperand { op, operand } in rest {
+            let start = expr.span().start();
+            let end = operand.span().end();
+            expr = Expr::Binary {
+                span: SourceSpan::new(expr.span().source_id(), Range::new(start, end)),
+                op,
+                lhs: Box::new(expr),
+                rhs: Box::new(operand),
+            };
+        }
+        expr
+    }
 }
 
 pub(crate) struct CaptureNumeric {
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..0beb0c6 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use either::Either;
 use either::Either::*;
 
-use crate::common::{Spanned, Span, Symbol, SourceId, symbols};
+use crate::common::{Span, Symbol, SourceId, symbols};
 use crate::ast::*;
 use crate::expr::*;
 use crate::parse::{LexerError, Token, ParserError, ParseError};
@@ -72,23 +72,16 @@ Comma<T>: Vec<T> = {
 
 pub Match: Match<'input> = {
     <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+        if expr.is_empty() {
+            Match::Substitution { span: span!(source_id, l, r), name, pattern: None }
+        } else {
+            Match::Numeric {
+                span: span!(source_id, l, r),
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(BinaryOpAndOperand::apply_all(Expr::Var(name), expr)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -125,7 +118,7 @@ pub Match: Match<'input> = {
 }
 
 CaptureNumericOrExpr: CaptureNumericOrExpr = {
-    <l:@L> <var:PatternOrLineVar> <ty:EitherCaptureOrExpr> => {
+    <var:PatternOrLineVar> <ty:EitherCaptureOrExpr> => {
         match ty {
             Left(None) => CaptureNumericOrExpr::Capture(CaptureNumeric {
                 name: Some(var),
@@ -137,16 +130,8 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
+            Right(rest) => {
+                CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(Expr::Var(var), rest))
             }
         }
     },
@@ -161,30 +146,22 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
 
     Builtin => CaptureNumericOrExpr::Expr(<>),
 
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
+    "(" <lhs:Expr> ")" <rhs:CaptureExprRest> => {
+        CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(lhs, rhs))
     }
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+/// The operations which follow the first operand of an expression, in the order they are written
+CaptureExprRest: Vec<BinaryOpAndOperand> = {
+    BinaryOpAndOperand*,
+}
+
+BinaryOpAndOperand: BinaryOpAndOperand = {
+    "+" <operand:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Add, operand },
+    "-" <operand:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Sub, operand },
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
     <CaptureExprRest> => Right(<>),
 }
-- 
2.43.0


From 7df70cd613c0d2d7aade75e22d64783cd1a9897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 28/53] fix: report variables which are defined in terms of
 themselves as undefined

Evaluating such a definition, e.g. -D#V=V, overflowed the stack, and reporting
an error in a definition given on the command line panicked.
---
 .../matcher/matchers/smart/searcher.rs        | 49 +++++++++++++++++--
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..c3074d3 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -603,11 +603,22 @@ fn evaluate_expr<'input>(
     expr: &Expr,
     ty: Option<ValueType>,
     context: &ContextGuard<'_, 'input, '_>,
+) -> DiagResult<Either<Number, Cow<'input, str>>> {
+    evaluate_expr_resolving(span, expr, ty, &mut vec![], context)
+}
+
+/// Evaluate `expr`, which is part of the definition of each of the variables in `resolving`
+fn evaluate_expr_resolving<'input>(
+    span: SourceSpan,
+    expr: &Expr,
+    ty: Option<ValueType>,
+    resolving: &mut Vec<VariableName>,
+    context: &ContextGuard<'_, 'input, '_>,
 ) -> DiagResult<Either<Number, Cow<'input, str>>> {
     match expr {
         Expr::Num(num) => Ok(Left(num.clone())),
         Expr::Var(var) => {
-            let var_span = var.span();
+            let var_span = located_or(var.span(), span, context);
             let value = match var {
                 VariableName::User(name) | VariableName::Global(name) => {
                     let env = context.env();
@@ -627,7 +638,21 @@ fn evaluate_expr<'input>(
                                 name: name.into_inner(),
                             }));
                         }
-                        Value::Num(expr) => return evaluate_expr(span, &expr, ty, context),
+                        Value::Num(expr) => {
+                            // The value of a variable cannot depend on itself
+                            if resolving.contains(var) {
+                                return Err(Report::new(UndefinedVariableError {
+                                    span: var_span,
+                                    match_file: context.source_file(var_span.source_id()).unwrap(),
+                                    name: name.into_inner(),
+                                }));
+                            }
+                            resolving.push(*var);
+                            let value =
+                                evaluate_expr_resolving(span, &expr, ty, resolving, context);
+                            resolving.pop();
+                            return value;
+                        }
                         Value::Str(value) => Right(value),
                     }
                 }
@@ -657,9 +682,9 @@ fn evaluate_expr<'input>(
             lhs,
             rhs,
         } => {
-            let op_span = *op_span;
-            let l = evaluate_expr(op_span, lhs, ty, context)?;
-            let r = evaluate_expr(op_span, rhs, ty, context)?;
+            let op_span = located_or(*op_span, span, context);
+            let l = evaluate_expr_resolving(op_span, lhs, ty, resolving, context)?;
+            let r = evaluate_expr_resolving(op_span, rhs, ty, resolving, context)?;
             let explicit_format = match ty {
                 Some(ValueType::Number(format)) => format,
                 _ => None,
@@ -735,6 +760,20 @@ fn evaluate_expr<'input>(
     }
 }
 
+/// Returns `span`, unless it does not belong to any source file, as is the case for expressions
+/// which were given on the command line, in which case `default` is returned.
+fn located_or(
+    span: SourceSpan,
+    default: SourceSpan,
+    context: &ContextGuard<'_, '_, '_>,
+) -> SourceSpan {
+    if context.source_file(span.source_id()).is_some() {
+        span
+    } else {
+        default
+    }
+}
+
 fn set_capturing_group_span(
     captures: &mut Captures,
     pid: PatternID,
-- 
2.43.0


From 247d01e0a98d714abe0b81993f9a69b7521f55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 29/53] fix: fail a match whose numeric constraint does not
 hold

A value which did not satisfy the constraint of a numeric block was accepted:
[[#W:]] [[#X:W+1]] matched any two numbers.
---
 .../pattern/matcher/matchers/smart/searcher.rs   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index c3074d3..1cb61c7 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -515,7 +515,21 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Left(rhs) => {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
-                    self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(
+                        CheckFailedError::MatchFoundConstraintFailed {
+                            span: lhs.span(),
+                            input_file: context.input_file(),
+                            pattern: Some(RelatedCheckError {
+                                span,
+                                match_file: context.source_file(span.source_id()).unwrap(),
+                            }),
+                            error: None,
+                            help: Some(format!(
+                                "expected a value equal to {}, but found {}",
+                                rhs.value, lhs.value
+                            )),
+                        },
+                    ));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From 9c96068a4ac0d81c43a11a337d43d1920ea564b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 30/53] fix: report overflow and division by zero in
 expressions as errors

The arithmetic of numeric expressions was unchecked, so that div(V,0) or an
overflow ended in a panic.
---
 .../matcher/matchers/smart/searcher.rs        | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 1cb61c7..070f8d9 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -707,20 +707,30 @@ fn evaluate_expr_resolving<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
                             BinaryOp::Eq => {
                                 if l.value == r.value {
-                                    1
+                                    Some(1)
                                 } else {
-                                    0
+                                    Some(0)
                                 }
                             }
                         };
+                        let Some(result) = result else {
+                            return Err(litcheck::diagnostics::diagnostic!(
+                                labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                                    Some(format!("evaluates to {} {op} {}", l.value, r.value)),
+                                    op_span,
+                                )],
+                                "unable to evaluate expression: division by zero, or the result is too large",
+                            )
+                            .into());
+                        };
                         let format = if l.format.is_none()
                             && r.format.is_none()
                             && explicit_format.is_none()
-- 
2.43.0


From d56d2e2a0962ff7c5c98a3a6e89edda8d5b77288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 31/53] fix: match the value of a string variable verbatim

The value of a variable was compiled as a regex wherever it was substituted, so
that a captured 'x.y' also matched 'xzy', and 'x(' was an error.
---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 070f8d9..ae3d961 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -580,7 +580,8 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 }
                 _ => format!("{num}"),
             }),
-            Right(s) => s,
+            // The value of a string variable is matched verbatim
+            Right(s) => Cow::Owned(regex_syntax::escape(s.as_ref())),
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
         let pattern = Regex::builder()
-- 
2.43.0


From ca3bacba551ee1c877ffdf19ad4768633e5cc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 32/53] fix: match blocks which consume no input at the end of
 the input

A pattern was failed as soon as the end of the input was reached, even if only
constraints, or parts which match the empty string, were left to process.
---
 .../src/pattern/matcher/matchers/smart/searcher.rs    | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index ae3d961..6f448c8 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -133,17 +133,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From a37533c8c6974357c732247de7a0bd461fdb23c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 33/53] fix: resume a failed search one byte past the start of
 the last attempt

Matches which overlap with a failed attempt were skipped, e.g. the pattern
[[V:[a-z]+]]-[[V]] was not found in 'ab-b'.
---
 .../src/pattern/matcher/matchers/smart/searcher.rs   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 6f448c8..b5b4385 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -86,6 +86,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Err(err) => return ControlFlow::Break(Err(err)),
         };
         if let Some(info) = result.info.as_ref() {
+            let prefix_start = info.span.start().to_usize();
             self.part_matched(info.span.into_slice_index());
             self.cursor.set_anchored(true);
 
@@ -110,11 +111,12 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
-            if anchored {
+            // Reset the searcher, and start the next search one byte past the start of the prefix
+            // that was matched, as the next match may overlap with this attempt
+            let next_start = prefix_start + 1;
+            let has_more_input = next_start <= self.input.end();
+            self.reset(next_start);
+            if anchored || !has_more_input {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
             }
-- 
2.43.0


From cfb3761178e23fbf5ead1ed6c4896c79db76aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 34/53] fix: treat the precision of a numeric format as the
 least number of digits

When a number captured along with other parts of a pattern was converted, its
precision was applied as the largest number of digits, so that no hexadecimal
number without a precision could be captured.
---
 .../pattern/matcher/matchers/smart/operand.rs | 55 ++-----------------
 1 file changed, 6 insertions(+), 49 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..de2e497 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -35,29 +35,14 @@ impl<'input> Operand<'input> {
             }),
             Value::Str(value) => {
                 let value = match format.unwrap_or_default() {
-                    NumberFormat::Unsigned { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ false,
-                            context,
-                        )?
+                    // NOTE: The precision of a format is the least number of digits of a value
+                    NumberFormat::Unsigned { .. } => {
+                        parse_number(span, value.trim(), /*signed=*/ false, context)?
                     }
-                    NumberFormat::Signed { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ true,
-                            context,
-                        )?
+                    NumberFormat::Signed { .. } => {
+                        parse_number(span, value.trim(), /*signed=*/ true, context)?
                     }
-                    NumberFormat::Hex {
-                        require_prefix,
-                        precision,
-                        casing: _,
-                    } => {
+                    NumberFormat::Hex { require_prefix, .. } => {
                         let value = if require_prefix {
                             if let Some(stripped) = value.trim().strip_prefix("0x") {
                                 stripped
@@ -72,15 +57,6 @@ impl<'input> Operand<'input> {
                         } else {
                             value.trim()
                         };
-                        if value.len() > precision as usize {
-                            return Err(InvalidNumericCastError {
-                                span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
-                                specific_span: None,
-                                match_file: context.source_file(span.source_id()).unwrap(),
-                            });
-                        }
-
                         let trimmed = value.trim_start_matches('0');
                         if trimmed.is_empty() {
                             0
@@ -111,28 +87,9 @@ impl<'input> Operand<'input> {
 fn parse_number(
     span: SourceSpan,
     value: &str,
-    precision: u8,
     signed: bool,
     context: &dyn Context<'_, '_>,
 ) -> Result<i128, InvalidNumericCastError> {
-    let precision = precision as usize;
-    let value = if precision > 0 {
-        if value.len() > precision {
-            return Err(InvalidNumericCastError {
-                span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
-                specific_span: None,
-                match_file: context.source_file(span.source_id()).unwrap(),
-            });
-        }
-        let value = value.trim_start_matches('0');
-        if value.is_empty() {
-            return Ok(0);
-        }
-        value
-    } else {
-        value
-    };
     let value = value
         .parse::<i128>()
         .map_err(|err| InvalidNumericCastError {
-- 
2.43.0


From 6cba5815fa8f2f6a76d10b0f600a113beb62243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 35/53] fix: never substitute a truncated number, or one its
 format cannot represent

Numbers in the unsigned format were cast to u64 when they were substituted, so
that V-5 with V=3 matched 18446744073709551614.
---
 filecheck/src/expr/num.rs                     | 11 +++++--
 .../matcher/matchers/smart/searcher.rs        | 30 ++++++++++++-------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..6289088 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -135,6 +135,13 @@ impl Number {
         }
     }
 
+    /// Returns true if the value of this number can be written in its format
+    ///
+    /// Only the signed format has a representation for negative numbers.
+    pub fn is_representable(&self) -> bool {
+        self.value >= 0 || self.format.unwrap_or_default().is_signed()
+    }
+
     pub fn parse_with_format(
         input: Span<&str>,
         format: NumberFormat,
@@ -293,9 +300,9 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
+                write!(f, "{value:0padding$}")
             }
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index b5b4385..e2a3461 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -559,18 +559,26 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
         let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => Cow::Owned(match ty {
-                Some(ValueType::Number(Some(format))) => {
-                    format!(
-                        "{}",
-                        Number {
-                            format: Some(format),
-                            ..num
-                        }
-                    )
+            Left(num) => {
+                let num = match ty {
+                    Some(ValueType::Number(Some(format))) => Number {
+                        format: Some(format),
+                        ..num
+                    },
+                    _ => num,
+                };
+                if !num.is_representable() {
+                    return Err(Report::new(InvalidNumericCastError {
+                        span: Some(span),
+                        kind: std::num::IntErrorKind::NegOverflow,
+                        specific_span: None,
+                        match_file: context
+                            .source_file(span.source_id())
+                            .unwrap_or_else(|| context.match_file()),
+                    }));
                 }
-                _ => format!("{num}"),
-            }),
+                Cow::Owned(num.to_string())
+            }
             // The value of a string variable is matched verbatim
             Right(s) => Cow::Owned(regex_syntax::escape(s.as_ref())),
         };
-- 
2.43.0


From 0ca316f016bb89774cab5b89ae59994e2accf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 36/53] fix: use the casing of either operand as that of a
 hexadecimal expression

The casing of the second operand was ignored when the first had none.
---
 filecheck/src/expr/num.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index 6289088..79ce610 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -101,10 +101,15 @@ impl Number {
                     || rcasing == CasingStyle::Any) =>
             {
                 let precision = core::cmp::max(lprecision, rprecision);
+                let casing = if lcasing == CasingStyle::Any {
+                    rcasing
+                } else {
+                    lcasing
+                };
                 Some(NumberFormat::Hex {
                     precision,
                     require_prefix: lprefixed,
-                    casing: lcasing,
+                    casing,
                 })
             }
             (
-- 
2.43.0


From c7f0157283f6edd4f154c6cf7bc643953d3b644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 37/53] fix: do not accept a sign in front of hexadecimal
 digits

Number::parse_with_format read -ff and 0x-5 as hexadecimal numbers.
---
 filecheck/src/expr/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index 79ce610..e75a488 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -222,6 +222,9 @@ impl Number {
                     None => input,
                     Some(input) => input,
                 };
+                if input.starts_with(['-', '+']) {
+                    return Err(ParseNumberError::UnexpectedSign { span });
+                }
                 let is_valid_casing = match casing {
                     CasingStyle::Any => true,
                     CasingStyle::Lower => input.chars().all(|c| matches!(c, 'a'..='f' | '0'..='9')),
-- 
2.43.0


From 29078b28c094f5c23ab24713e1db4f7425439523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 38/53] fix: accept formats with a precision of more digits
 than any value has

---
 filecheck/src/expr/num.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index e75a488..f6915f7 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -462,18 +462,25 @@ impl NumberFormat {
         unsafe { *<*const _>::from(self).cast::<u8>() }
     }
 
+    /// The largest number of digits matched by the patterns of this format
+    fn max_digits(&self) -> usize {
+        // The precision is the least number of digits, so no fewer can be the most
+        core::cmp::max(self.precision(), if self.is_hex() { 32 } else { 39 })
+    }
+
     pub fn pattern_nocapture(&self) -> Cow<'static, str> {
         // NOTE: The patterns below with precision 0 have their range capped at 39, which is the
         // maximum number of digits in i128::MAX, or the largest possible number that could be
         // represented in decimal form
+        let max = self.max_digits();
         match self {
             NumberFormat::Signed { precision: 0 } => Cow::Borrowed(r"(?:[-+]?[0-9]{1,39})"),
             NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[-+]?[0-9]{{{precision},{max}}})"))
             }
             NumberFormat::Unsigned { precision: 0 } => Cow::Borrowed(r"(?:[0-9]{1,39})"),
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?:[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?:[0-9]{{{precision},{max}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -485,7 +492,7 @@ impl NumberFormat {
                 require_prefix: true,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:0x{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!("(?:0x{}{{{precision},{max}}})", casing.as_hex_class())),
             NumberFormat::Hex {
                 require_prefix: false,
                 precision: 0,
@@ -495,7 +502,7 @@ impl NumberFormat {
                 require_prefix: false,
                 precision,
                 casing,
-            } => Cow::Owned(format!("(?:{}{{{precision},32}})", casing.as_hex_class())),
+            } => Cow::Owned(format!("(?:{}{{{precision},{max}}})", casing.as_hex_class())),
         }
     }
 
@@ -503,6 +510,7 @@ impl NumberFormat {
         // NOTE: The patterns below with precision 0 have their range capped at 39, which is the
         // maximum number of digits in i128::MAX, or the largest possible number that could be
         // represented in decimal form
+        let max = self.max_digits();
         let group_name = group_name_override.unwrap_or("digits");
         match self {
             NumberFormat::Signed { precision: 0 } => match group_name_override {
@@ -510,14 +518,14 @@ impl NumberFormat {
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{1,39}})")),
             },
             NumberFormat::Signed { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?P<{group_name}>[-+]?[0-9]{{{precision},{max}}})"))
             }
             NumberFormat::Unsigned { precision: 0 } => match group_name_override {
                 None => Cow::Borrowed(r"(?P<digits>[0-9]{1,39})"),
                 Some(group_name) => Cow::Owned(format!("(?P<{group_name}>[0-9]{{1,39}})")),
             },
             NumberFormat::Unsigned { precision } => {
-                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},39}})"))
+                Cow::Owned(format!("(?P<{group_name}>[0-9]{{{precision},{max}}})"))
             }
             // The hex value for i128::MAX is 7fffffffffffffffffffffffffffffff or 32 digits
             NumberFormat::Hex {
@@ -533,7 +541,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>0x{}{{{precision},32}})",
+                "(?P<{group_name}>0x{}{{{precision},{max}}})",
                 casing.as_hex_class()
             )),
             NumberFormat::Hex {
@@ -549,7 +557,7 @@ impl NumberFormat {
                 precision,
                 casing,
             } => Cow::Owned(format!(
-                "(?P<{group_name}>{}{{{precision},32}})",
+                "(?P<{group_name}>{}{{{precision},{max}}})",
                 casing.as_hex_class()
             )),
         }
-- 
2.43.0


From 0c00e8fea523ff29ec51d34bc02e724171367356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 39/53] fix: describe searched regions whose last byte is
 inside of a character

A failing check aborted filecheck with 'starting byte is out of bounds' when the
input ended in a multi-byte character without a newline.
---
 filecheck/src/errors.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index 550c669..0b3c0e7 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -490,8 +490,9 @@ impl InputDump {
             0
         } else {
             input_file
-                .location(SourceSpan::at(id, (eof - 1) as u32))
-                .line
+                .content()
+                .line_index((eof as u32 - 1).into())
+                .number()
                 .to_u32()
         };
 
@@ -621,11 +622,16 @@ impl SearchedRegion {
             })];
         }
 
-        let first_line = input_file.location(SourceSpan::at(id, start as u32)).line;
+        // Neither end of the region has to be the first byte of a character.
+        let first_line = input_file
+            .content()
+            .line_index((start as u32).into())
+            .number();
         // `end` is exclusive, so the last byte actually searched is the one before it.
         let last_line = input_file
-            .location(SourceSpan::at(id, (end - 1) as u32))
-            .line;
+            .content()
+            .line_index((end as u32 - 1).into())
+            .number();
         let num_lines = last_line.to_u32().saturating_sub(first_line.to_u32()) + 1;
 
         if always_inline || num_lines <= MAX_INLINE_SEARCHED_LINES {
-- 
2.43.0


From 35210b0ce698f919ce4560fead662596fa99fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 40/53] fix: keep the blanks of a regex block

The text between {{ and }} was trimmed, so {{ +}} was the regular expression '+'.
---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..ce9d8a4 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -532,7 +532,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From e7b74e5da5737046561f0c99a922cf735e04f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:41 +0000
Subject: [PATCH 41/53] fix: walk all parts of a pattern when looking for
 variables

The iterator never advanced over [[#]], so that CHECK-DAG: [[#]] did not return, and it
stopped at the first literal or plain regex part, so that the variables after it were missed
(when CHECK-DAG patterns are matched by position, and in the labels of an error).
---
 filecheck/src/ast/pattern.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 6a13540..1085055 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -1046,10 +1046,11 @@ impl<'a, 'iter> Iterator for CheckPatternVarIter<'a, 'iter> {
                     *self = Self::Regex(rest);
                     break Some(item.span());
                 }
-                Self::Parts(parts) => {
-                    while let Some((part, parts)) = parts.split_first() {
+                Self::Parts(mut parts) => {
+                    while let Some((part, rest)) = parts.split_first() {
+                        parts = rest;
                         match part {
-                            CheckPatternPart::Literal(_) => break,
+                            CheckPatternPart::Literal(_) => continue,
                             CheckPatternPart::Regex(re) => match re.captures.split_first() {
                                 Some((item, vars)) => {
                                     *self = Self::Buffered {
@@ -1058,7 +1059,7 @@ impl<'a, 'iter> Iterator for CheckPatternVarIter<'a, 'iter> {
                                     };
                                     break 'outer Some(item.span());
                                 }
-                                None => break,
+                                None => continue,
                             },
                             CheckPatternPart::Match(Match::Substitution { name, .. }) => {
                                 *self = Self::Parts(parts);
-- 
2.43.0


From 7c630f5169976930537a97d13aca3691443ec010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:22 +0000
Subject: [PATCH 42/53] fix: run executables without input, and read the output
 of a test while its input is written

---
 lit/src/utils.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..57a96fc 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -70,19 +70,12 @@ impl ShellCommand {
         let started_at = Instant::now();
         match self.command.spawn() {
             Ok(mut child) => {
-                let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
+                // The input is written by a thread of its own, as the child may not read it
+                // before its own output is read, if at all
+                if let (Some(mut stdin), Some(bytes)) = (child.stdin.take(), self.pipe_stdin.take())
+                {
+                    std::thread::spawn(move || stdin.write_all(&bytes));
+                }
                 let stdout_handle = child.stdout.take().map(read);
                 let stderr_handle = child.stderr.take().map(read);
 
-- 
2.43.0


From 9586eb3c8683fb2a0968bf5389c401eceb02aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 43/53] fix: end a test which ran out of time before waiting
 for its output

---
 lit/src/utils.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 57a96fc..ced9cd2 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -86,13 +86,10 @@ impl ShellCommand {
                             if timeout.is_zero() || elapsed < timeout {
                                 continue;
                             }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
+                            // The output only ends once the child did
                             let _ = child.kill();
+                            let stdout = stdout_handle.and_then(join_if_closed).unwrap_or_default();
+                            let stderr = stderr_handle.and_then(join_if_closed).unwrap_or_default();
                             let status = child.try_wait().transpose();
                             let result = TestResult::new(TestStatus::Timeout)
                                 .with_stdout(stdout)
@@ -163,3 +160,18 @@ fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHan
         }
     })
 }
+
+/// Waits for `reader` to end after the child it reads from was killed.
+///
+/// Processes started by the child may outlive it, and hold the pipe open for as long as they run,
+/// in which case this gives up on the output instead.
+fn join_if_closed(reader: std::thread::JoinHandle<Vec<u8>>) -> Option<Vec<u8>> {
+    let killed_at = Instant::now();
+    while !reader.is_finished() {
+        if killed_at.elapsed() >= Duration::from_secs(1) {
+            return None;
+        }
+        std::thread::sleep(Duration::from_millis(1));
+    }
+    reader.join().ok()
+}
-- 
2.43.0


From d73ef5e43c53174c1915de3b3dd73d88bbdb74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 44/53] fix: account for the test which aborts a run

---
 litcheck/src/commands/lit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..a58eb40 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,14 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = match test.suite.config.format.execute(&test, config) {
+            Ok(result) => result,
+            Err(err) => {
+                // This aborts the run, but the test was selected, and has to be accounted for
+                self.report(test, TestResult::new(TestStatus::Unresolved))?;
+                return Err(err);
+            }
+        };
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From d3c1d3dc9496f563a4fb0b5e235fbe523e1e2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 45/53] fix: run tests with the format of their own
 configuration

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index a58eb40..fe2e265 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = match test.suite.config.format.execute(&test, config) {
+        let result = match test.config.format.execute(&test, config) {
             Ok(result) => result,
             Err(err) => {
                 // This aborts the run, but the test was selected, and has to be accounted for
-- 
2.43.0


From 7b30a1757e59ae0d60b59d8d086aa917f7cce6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 46/53] fix: the parent of the root directory is the root
 directory

---
 core/src/fs/path_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 2164926..8292b5a 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -383,6 +383,10 @@ fn canonicalize_and_type<'a>(path: &'a Path) -> (Cow<'a, Path>, PathType) {
             // component, and when it is not `..`. If there are no preceding
             // components, then `..` becomes the first component.
             Component::ParentDir => match components.last() {
+                // The parent of the root directory is the root directory itself
+                Some(Component::RootDir | Component::Prefix(_)) => {
+                    canonical = false;
+                }
                 None | Some(Component::ParentDir) => {
                     let component = Component::ParentDir;
                     size_in_bytes += component.as_os_str().len() + PATH_SEPARATOR_SIZE;
-- 
2.43.0


From 3c58ac57a5ba71b38aecbfda6f0626d77de3ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 47/53] fix: replace the value of a directory by a path of
 unknown type

---
 core/src/fs/path_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 8292b5a..99170a8 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -771,8 +771,9 @@ impl Node {
                 }
             },
             Self::Branch { .. } => match ty {
-                PathType::Dir => (),
-                PathType::Unknown | PathType::File => return Err(TryInsertError::PathTypeConflict),
+                // Nothing is known about the path which contradicts it being a directory
+                PathType::Dir | PathType::Unknown => (),
+                PathType::File => return Err(TryInsertError::PathTypeConflict),
             },
         }
 
-- 
2.43.0


From 46e04b063c0b56512d13914fe7ea6b2be48a4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 48/53] fix: store paths of a single component as roots of
 their own

---
 core/src/fs/path_tree.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 99170a8..fbf2d1a 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -280,16 +280,25 @@ impl PrefixTree {
             ty @ (PathType::Unknown | PathType::File) => {
                 let mut components = path.components();
                 let file = PathBuf::from(components.next_back().unwrap().as_os_str());
-                let child = Node::Leaf {
-                    component: file,
-                    ty,
-                    data: Some(data),
-                };
-                path.pop();
-                Node::Branch {
-                    component: path,
-                    children: vec![child],
-                    data: None,
+                if components.next().is_none() {
+                    // There is no parent to serve as the root
+                    Node::Leaf {
+                        component: path,
+                        ty,
+                        data: Some(data),
+                    }
+                } else {
+                    let child = Node::Leaf {
+                        component: file,
+                        ty,
+                        data: Some(data),
+                    };
+                    path.pop();
+                    Node::Branch {
+                        component: path,
+                        children: vec![child],
+                        data: None,
+                    }
                 }
             }
         };
-- 
2.43.0


From 5ce18ed772dbd2ca1ad401a52ba10a115f94f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 49/53] fix: visit directories without children, and only files
 when asked for files

---
 core/src/fs/path_tree.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index fbf2d1a..01f6b59 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1037,25 +1037,23 @@ impl<'a> DfsVisitor<'a> {
                     }
                     let suffix = self.strip_prefix(component);
                     let prefix = self.prefix.join(suffix);
-                    if !children.is_empty() {
-                        match data {
-                            // We have to emit the branch node first, so save the descent
-                            // information for the next time `next` is called
-                            Some(data) => {
-                                self.queued =
-                                    Some((prefix.clone(), relative_depth, children.as_slice()));
-                                break Some(Left((prefix, *data)));
-                            }
-                            // We don't need to emit the branch node, so return a new visitor
-                            // to start descending into the children
-                            None => {
-                                break Some(Right(DfsVisitor::new(
-                                    prefix,
-                                    children.as_slice(),
-                                    relative_depth,
-                                    self.only_leaves,
-                                )));
-                            }
+                    match data {
+                        // We have to emit the branch node first, so save the descent
+                        // information for the next time `next` is called
+                        Some(data) if !self.only_leaves => {
+                            self.queued =
+                                Some((prefix.clone(), relative_depth, children.as_slice()));
+                            break Some(Left((prefix, *data)));
+                        }
+                        // We don't need to emit the branch node, so return a new visitor
+                        // to start descending into the children
+                        _ => {
+                            break Some(Right(DfsVisitor::new(
+                                prefix,
+                                children.as_slice(),
+                                relative_depth,
+                                self.only_leaves,
+                            )));
                         }
                     }
                 }
-- 
2.43.0


From 26599769645ce961a527130b3e839f8ec395a8aa Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 07:12:49 +0000
Subject: [PATCH 50/53] fix: configure a directory from every level of its
 suite, whatever was configured before

---
 lit/src/suite/registry/default.rs | 50 +++++++++++++------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..5c7bae7 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -411,45 +411,37 @@ fn get_local_config(
         path.parent().unwrap().to_path_buf()
     };
 
-    // If we already have a cache entry for the given path, we're done
-    if let Some(config) = local_config_cache.get(&path) {
-        return Ok(config.clone());
+    // We are going to reify a config for each level in the directory tree between the nearest
+    // ancestor for which we have already computed a configuration - using the suite config and
+    // source directory as a fallback - and `path`.
+    let mut config = suite.config.clone();
+    let mut levels = Vec::new();
+    for level in path.ancestors() {
+        if !level.starts_with(source_dir) {
+            break;
+        }
+        if let Some(cached) = local_config_cache.get(level) {
+            config = cached.clone();
+            break;
+        }
+        levels.push(level);
     }
 
-    // Otherwise, we are going to reify a config for each level in the directory tree
-    // between the nearest ancestor for which we have already computed a configuration -
-    // using the suite config and source directory as a fallback - and `path_in_suite`.
-    // We start at that point and descend to `path_in_suite`, computing the effective
-    // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
-        };
-
-    let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
-
+    // We start at that point and descend to `path`, computing the effective configuration at
+    // each step if we encounter a `lit.local.toml` at that level.
+    while let Some(level) = levels.pop() {
         let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
+            fs::search_directory(level, false, |entry| entry.file_name() == "lit.local.toml");
         if let Some(entry) = found.next() {
             let entry = entry.into_diagnostic()?;
             let mut cfg = TestConfig::parse(entry.path(), lit)?;
             cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
+            cfg.set_default_substitutions(lit, suite, level);
             cfg.set_default_features(lit);
-            let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
-            config = cfg;
+            config = Arc::<TestConfig>::from(cfg);
         }
+        local_config_cache.insert(level, config.clone());
     }
 
-    // Return the constructed configuration, or fallback to cloning the suite config
-    local_config_cache.insert(&path, config.clone());
     Ok(config)
 }
-- 
2.43.0


From da4bc2046a070d70eaa27c6faba502d11c008f28 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 07:12:49 +0000
Subject: [PATCH 51/53] fix: keep substitutions of a configuration which
 redefine a default one

---
 lit/src/suite/registry/default.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 5c7bae7..983f31b 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -435,9 +435,8 @@ fn get_local_config(
         if let Some(entry) = found.next() {
             let entry = entry.into_diagnostic()?;
             let mut cfg = TestConfig::parse(entry.path(), lit)?;
+            // The defaults are inherited too, from the suite config
             cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, level);
-            cfg.set_default_features(lit);
             config = Arc::<TestConfig>::from(cfg);
         }
         local_config_cache.insert(level, config.clone());
-- 
2.43.0


From 0df19a5d1953c80232ca2116bbfcdfb72bc89582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 52/53] fix: run commands which contain nul characters instead
 of panicking

---
 lit/src/formats/sh/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 6728e6d..a6282da 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -81,7 +81,11 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
             buf.push_str(" && ");
         }
         buf.push_str("{\n  ");
-        let quoted = shlex::try_quote(&test.command).expect("bad shell command");
+        // The shell ignores nul characters in its input, so they need not be rejected here
+        let quoted = shlex::Quoter::new()
+            .allow_nul(true)
+            .quote(&test.command)
+            .expect("bad shell command");
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
-- 
2.43.0


From 87dffffa43125b7b385b5377ad9a86eae641fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:19 +0000
Subject: [PATCH 53/53] fix: a regex term of a feature expression matches whole
 features, as in lit

{{b}} held for a feature named abc, so REQUIRES: {{b}} ran tests whose
requirements were not met. Upstream lit compares features with fullmatch.
---
 lit/src/config/expr/boolean.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 510f651..87de712 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -1,6 +1,6 @@
 use std::{borrow::Borrow, collections::BTreeSet, fmt, ops::Range, str::FromStr};
 
-use regex::Regex;
+use regex::{Regex, RegexBuilder};
 
 use litcheck::diagnostics::{miette, Diagnostic, SourceId, SourceSpan, Span};
 
@@ -65,7 +65,8 @@ pub enum BooleanExpr {
     ///
     /// If the variable exists, this evaluates the value of that variable, otherwise false.
     Var(String),
-    /// A pattern which, if it matches any variable which is true, evaluates to true, otherwise false.
+    /// A pattern which, if it matches the whole name of any variable which is true, evaluates to true,
+    /// otherwise false.
     Pattern(Regex),
     /// The logical NOT operator
     Not(Box<BooleanExpr>),
@@ -165,8 +166,19 @@ impl BooleanExpr {
 
 pub trait Environment {
     fn is_defined(&self, name: &str) -> bool;
+    /// Returns true if `pattern` matches the whole name of some definition
     fn has_matching_definition(&self, pattern: &Regex) -> bool;
 }
+
+/// Derive a regex from `pattern` which only accepts text that `pattern` matches in full
+fn full_match(pattern: &Regex) -> Regex {
+    RegexBuilder::new(&format!(r"\A(?:{})\z", pattern.as_str()))
+        // The limits were applied to `pattern` already
+        .size_limit(usize::MAX)
+        .nest_limit(u32::MAX)
+        .build()
+        .expect("anchoring a valid regex produces a valid regex")
+}
 impl<T: Borrow<str>> Environment for Vec<T> {
     #[inline]
     fn is_defined(&self, name: &str) -> bool {
@@ -174,6 +186,7 @@ impl<T: Borrow<str>> Environment for Vec<T> {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
+        let pattern = full_match(pattern);
         self.iter().any(|v| pattern.is_match(v.borrow()))
     }
 }
@@ -184,6 +197,7 @@ impl<T: Borrow<str>> Environment for &[T] {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
+        let pattern = full_match(pattern);
         self.iter().any(|v| pattern.is_match(v.borrow()))
     }
 }
@@ -194,6 +208,7 @@ impl Environment for FeatureSet {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
+        let pattern = full_match(pattern);
         self.iter().any(|v| pattern.is_match(v))
     }
 }
@@ -204,6 +219,7 @@ impl<T: Borrow<str> + Ord> Environment for BTreeSet<T> {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
+        let pattern = full_match(pattern);
         self.iter().any(|v| pattern.is_match(v.borrow()))
     }
 }
-- 
2.43.0

