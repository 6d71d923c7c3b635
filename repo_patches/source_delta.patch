From 3ef0f81ffbe782bcc22492e9977b81c370e10fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 01/25] fix: don't skip an item when extending a common
 subsequence forwards

The item just after the run was skipped without being compared, so that
"A X B" and "A Y B" were reported as having no differences.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From b70a80efca16c512d298db381d3624e904cd06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 02/25] fix: a clump ends where its last change ends, not its
 first

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From 5a007147c7392f10536be2fcad8d2137bd80abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 03/25] fix: an empty subsequence is present at the end of a
 sequence

Byte clumps which only insert at the end of the data (including into
empty data) could never be applied.
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 8fb12ab7438775d11c6d2438e5a8e6a8a8e2c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 04/25] fix: use clump relative range when writing lines with
 reductions

The range was relative to the file so applying with reductions panicked
for any clump not at the start of the file.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From 20f7fdeabdd58f1724ce6e12d87466526a011750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 05/25] fix: don't underflow when data is shorter than the
 clump being placed

The end of the search window may be before the start of the data in which
case there is nowhere to search; it must not panic.
---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..4fb25a6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -154,10 +154,11 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 71ebf6f738e6e595971b9022c838c5980569a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 06/25] fix: include the last position when searching forwards
 for a clump

A displaced clump without context at the very end of the data was not
found.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4fb25a6..2e57d1e 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -177,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 49ccfb8eb2572d3f648eeaab3cdc458374d7eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 07/25] fix: don't place a text clump over lines that are
 already consumed

When an earlier clump is found to be already applied the expected place of
a later clump can be before the end of the lines consumed so far.  Applying
it there duplicated and dropped unrelated lines (or panicked).
---
 pw_diff_lib/src/apply_text.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 2e57d1e..cbd0210 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,21 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// Would applying as described by `will_apply` touch lines that have already been consumed
+    fn overlaps_consumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        will_apply: &WillApply,
+        reverse: bool,
+    ) -> bool {
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(*reductions),
+        };
+        self.before_adjusted_start(offset, reductions, reverse) < pd.consumed() as isize
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -179,7 +194,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
-                        return Some((i, will_apply));
+                        if !self.overlaps_consumed(pd, adjusted_offset, &will_apply, reverse) {
+                            return Some((i, will_apply));
+                        }
                     }
                 } else {
                     forward_done = true
@@ -269,7 +286,10 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump
+                .will_apply(patchable, offset, reverse)
+                .filter(|w| !clump.overlaps_consumed(&pd, offset, w, reverse))
+            {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
@@ -298,7 +318,10 @@ where
                         log::warn!("Clump #{clump_num} applies with {reductions:?} reductions and offset {offset_adj}.");
                     }
                 }
-            } else if let Some(appplied) = clump.is_already_applied(patchable, offset, reverse) {
+            } else if let Some(appplied) = clump
+                .is_already_applied(patchable, offset, reverse)
+                .filter(|w| !clump.overlaps_consumed(&pd, offset, w, !reverse))
+            {
                 match appplied {
                     WillApply::Cleanly => {
                         clump.already_applied_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From 77a5bcfedfc5d0d5993b35d847c87e762102c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 08/25] fix: don't place a byte clump over bytes that are
 already consumed

As for text: after a clump that is already applied a later clump could be
applied over bytes that had already been written, corrupting the output (or
panicking).
---
 pw_diff_lib/src/apply_bytes.rs | 9 +++++++--
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..0337a10 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,10 +43,14 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.before_start(reverse) >= pd.consumed()
+                && clump.will_apply(patchable, reverse)
+            {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
-            } else if clump.is_already_applied(patchable, reverse) {
+            } else if clump.before_start(!reverse) >= pd.consumed()
+                && clump.is_already_applied(patchable, reverse)
+            {
                 clump.already_applied_into(&mut pd, into, reverse)?;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From 11d80c6eebd50a12538ad5df1068c8cd727dfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 09/25] fix: always start conflict markers on a new line

The marker was glued to the last line of the clump's text when that line
had no end of line.
---
 pw_diff_lib/src/apply_text.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index cbd0210..4d3ffa4 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -244,8 +244,18 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
     fn write_failure_data_into<W: io::Write>(&self, into: &mut W, reverse: bool) -> io::Result<()> {
         into.write_all(b"<<<<<<<\n")?;
         self.before_write_into(into, None, reverse)?;
+        if let Some(line) = self.before_lines(None, reverse).last() {
+            if !line.ends_with('\n') {
+                into.write_all(b"\n")?;
+            }
+        }
         into.write_all(b"=======\n")?;
         self.after_write_into(into, None, reverse)?;
+        if let Some(line) = self.after_lines(None, reverse).last() {
+            if !line.ends_with('\n') {
+                into.write_all(b"\n")?;
+            }
+        }
         into.write_all(b">>>>>>>\n")
     }
 }
-- 
2.43.0


From 2e425e1c9a8f12781a48a018ca09693723751406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 10/25] fix: exit with an error when a file cannot be created
 by a patch

Failure to delete a file already did.  A file that could only be partly
written is removed again.
---
 pw_patch/src/main.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..dcc2bb0 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -112,11 +112,14 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -128,11 +131,14 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -208,11 +214,14 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -224,11 +233,14 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 9d1d885fe3c5d7810e0735e664a7274d01bb89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 11/25] fix: remove the temporary file when patching fails

std::process::exit() doesn't run destructors.
---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index dcc2bb0..328767d 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -81,12 +82,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -174,6 +177,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -183,12 +187,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From 8c1d615517b2d97328cde7aa8ff43a2fe4a69467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 12/25] fix: create the temporary file in the same directory as
 the patched file

A file on another file system than the current directory could not be
patched because the temporary file could not be renamed.
---
 pw_patch/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 328767d..3df0d5d 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -2,7 +2,7 @@
 
 use std::fs;
 use std::fs::File;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use clap::Parser;
 use log;
@@ -23,6 +23,14 @@ struct Cli {
     patch_path: PathBuf,
 }
 
+/// The directory containing the file with the given path
+fn dir_of(path: &Path) -> &Path {
+    match path.parent() {
+        Some(dir) if !dir.as_os_str().is_empty() => dir,
+        _ => Path::new("."),
+    }
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -66,7 +74,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(dir_of(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
@@ -171,7 +179,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(dir_of(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
-- 
2.43.0


From f3a7f986c9f34c02f227898064db7f36c39e715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 13/25] fix: retain the permissions of a patched file

Patching an executable script made it non executable.
---
 pw_patch/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 3df0d5d..6e4250c 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -31,6 +31,12 @@ fn dir_of(path: &Path) -> &Path {
     }
 }
 
+/// Replace the file at `path` with the one at `new_path` retaining its permissions
+fn replace_file(new_path: &Path, path: &Path) -> std::io::Result<()> {
+    fs::set_permissions(new_path, fs::metadata(path)?.permissions())?;
+    fs::rename(new_path, path)
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -86,7 +92,7 @@ fn main() {
                     };
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
-                            match std::fs::rename(temp_file.path(), patchable_path) {
+                            match replace_file(temp_file.path(), patchable_path) {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
@@ -191,7 +197,7 @@ fn main() {
                     };
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
-                            match std::fs::rename(temp_file.path(), patchable_path) {
+                            match replace_file(temp_file.path(), patchable_path) {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
-- 
2.43.0


From 18aef016570a9521911baadf9592d2225b2afcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 14/25] fix: report clumps that failed to apply through the
 exit status

pw_patch exited with 0 even though (part of) the patch had not been applied
and, for byte patches, nothing at all told the user so.
---
 pw_diff_lib/src/apply_bytes.rs | 10 ++++++++--
 pw_patch/src/main.rs           | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index 0337a10..6ed0866 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -4,6 +4,7 @@ use std::io;
 
 use log;
 
+use crate::apply_text::Statistics;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
@@ -37,8 +38,9 @@ where
         patchable: &'a Seq<u8>,
         into: &mut W,
         reverse: bool,
-    ) -> io::Result<()> {
+    ) -> io::Result<Statistics> {
         let mut pd = ConsumableSeq::<u8>::new(patchable);
+        let mut stats = Statistics::default();
         let mut iter = self.clumps();
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
@@ -47,17 +49,21 @@ where
                 && clump.will_apply(patchable, reverse)
             {
                 clump.apply_into(&mut pd, into, reverse)?;
+                stats.clean += 1;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.before_start(!reverse) >= pd.consumed()
                 && clump.is_already_applied(patchable, reverse)
             {
                 clump.already_applied_into(&mut pd, into, reverse)?;
+                stats.already_applied += 1;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
+                stats.failed += 1;
                 log::error!("Clump #{clump_num} could NOT be applied!");
             }
         }
-        pd.write_remainder(into)
+        pd.write_remainder(into)?;
+        Ok(stats)
     }
 
     fn already_applied(&self, patchable: &Seq<u8>, reverse: bool) -> bool {
diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 6e4250c..ee15794 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -93,7 +93,13 @@ fn main() {
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match replace_file(temp_file.path(), patchable_path) {
-                                Ok(_) => log::info!("{stats:?}"),
+                                Ok(_) => {
+                                    log::info!("{stats:?}");
+                                    if stats.failed > 0 {
+                                        log::error!("{} clump(s) failed to apply", stats.failed);
+                                        std::process::exit(1);
+                                    }
+                                }
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file);
@@ -198,7 +204,13 @@ fn main() {
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match replace_file(temp_file.path(), patchable_path) {
-                                Ok(_) => log::info!("{stats:?}"),
+                                Ok(_) => {
+                                    log::info!("{stats:?}");
+                                    if stats.failed > 0 {
+                                        log::error!("{} clump(s) failed to apply", stats.failed);
+                                        std::process::exit(1);
+                                    }
+                                }
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file);
-- 
2.43.0


From bd4bf078549afab6b97ec9aa447e085d160487b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 15/25] fix: don't include the line type character in a parsed
 clump's lines

They could never match the lines of the file that the clump is about.
---
 pw_cub_diff_lib/src/unified_diff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..4569cb9 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -148,18 +148,18 @@ impl UnifiedDiffClump {
         {
             let line = *iter.next().check_end_of_input()?;
             if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
             } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+                after_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
             } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
+                after_lines.push(line[1..].to_string());
                 if at_the_front {
                     start_context_length += 1
                 } else {
-- 
2.43.0


From 1da9884302ba64ce7859e300c0ec455ae69e344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 16/25] fix: process no end of line markers in unified clumps
 properly

- for a context line it applies to both the before and after lines
- it may be in the middle of the clump's lines
- only the end of line is to be removed, not all trailing white space
- it must not cause a panic when the clump has no lines
---
 pw_cub_diff_lib/src/unified_diff.rs | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 4569cb9..efc60f6 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,20 @@ pub fn starts_and_lengths(
     }
 }
 
+/// Process a "\\ No newline at end of file" line
+fn remove_final_eol(last_line_type: &str, before: &mut [String], after: &mut [String]) {
+    if last_line_type != "+" {
+        if let Some(line) = before.last_mut() {
+            line.truncate(line.strip_suffix('\n').unwrap_or(line).len());
+        }
+    }
+    if last_line_type != "-" {
+        if let Some(line) = after.last_mut() {
+            line.truncate(line.strip_suffix('\n').unwrap_or(line).len());
+        }
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -165,7 +179,9 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length += 1
                 }
-                last_line_type = "-";
+                last_line_type = " ";
+            } else if line.starts_with('\\') && index > 0 {
+                remove_final_eol(last_line_type, &mut before_lines, &mut after_lines);
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
@@ -175,18 +191,7 @@ impl UnifiedDiffClump {
         if let Some(line) = iter.next() {
             if line.starts_with("\\") {
                 lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
+                remove_final_eol(last_line_type, &mut before_lines, &mut after_lines);
             }
         }
         Ok(Some(Self {
-- 
2.43.0


From 2d56cd554f96e1efcc346d09887d108484e5312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 17/25] fix: don't overflow when a unified clump has more than
 255 lines of context

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index efc60f6..35f28a5 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -175,9 +175,9 @@ impl UnifiedDiffClump {
                 before_lines.push(line[1..].to_string());
                 after_lines.push(line[1..].to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = " ";
             } else if line.starts_with('\\') && index > 0 {
-- 
2.43.0


From b1ddc5d705f3b130e90f4272a27e15ebb02dbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 18/25] fix: reject unified clumps with more lines than their
 header states

---
 pw_cub_diff_lib/src/unified_diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 35f28a5..2032adc 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -187,6 +187,11 @@ impl UnifiedDiffClump {
             }
             index += 1;
         }
+        if before_lines.len() > starts_and_lengths.before.length
+            || after_lines.len() > starts_and_lengths.after.length
+        {
+            return Err(DiffParseError::SyntaxError(start_index));
+        }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
             if line.starts_with("\\") {
-- 
2.43.0


From b60cb486c4710fee54948943e5b2a5361d01a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 19/25] fix: line numbers in unified diffs start at 1

---
 pw_cub_diff_lib/src/unified_diff.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 2032adc..bd5ec29 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -211,10 +211,16 @@ impl UnifiedDiffClump {
 
 impl ChangeBasics for UnifiedDiffClump {
     fn before_start(&self, reverse: bool) -> usize {
-        if reverse {
+        let start = if reverse {
             self.starts_and_lengths.after.start
         } else {
             self.starts_and_lengths.before.start
+        };
+        // line numbers start at 1 but refer to the line before if there are no lines
+        if self.before_length(reverse) == 0 {
+            start
+        } else {
+            start.saturating_sub(1)
         }
     }
 
@@ -272,12 +278,13 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
 
         let starts = change_clump.starts();
         let ends = change_clump.ends();
+        // line numbers start at 1 but refer to the line before if there are no lines
         let before_start_and_end = StartAndLength {
-            start: starts.0,
+            start: starts.0 + (ends.0 - starts.0).min(1),
             length: ends.0 - starts.0,
         };
         let after_start_and_end = StartAndLength {
-            start: starts.1,
+            start: starts.1 + (ends.1 - starts.1).min(1),
             length: ends.1 - starts.1,
         };
         let starts_and_lengths = StartsAndLengths {
-- 
2.43.0


From e37d193cb7cbc41c6d2163b9c257b680c7c762e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 20/25] fix: mark every line without an end of line in a
 unified clump

Only the last line of the clump was checked so that the other file's last
line could be glued to the line following it.
---
 pw_cub_diff_lib/src/unified_diff.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index bd5ec29..cbb1f71 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -331,12 +331,10 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
+        for line in lines.iter_mut() {
+            if !line.ends_with('\n') {
+                line.push_str("\n\\ No newline at end of file\n");
+            }
         }
 
         Some(UnifiedClumpText { header, lines })
-- 
2.43.0


From ff93033647c62e718d66ac63e89cf07df2f12bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 21/25] fix: exit with an error if the end of the diff could
 not be written

The last line of the output has no end of line so it stayed in stdout's
buffer until exit where errors are ignored.
---
 pw_diff/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..b757182 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,7 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
 use std::io;
+use std::io::Write;
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -45,7 +46,12 @@ fn main() {
     };
 
     match diff.to_writer(&mut io::stdout()) {
-        Ok(_) => (),
+        Ok(_) => {
+            if let Err(err) = io::stdout().flush() {
+                log::error!("Error writing diff: {err}");
+                std::process::exit(5);
+            }
+        }
         Err(err) => {
             log::error!("Error writing diff: {err}");
             std::process::exit(5);
-- 
2.43.0


From e635edeeb76c698d42fb7399df33f9cf549555dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 22/25] fix: don't treat a file whose existence can't be
 determined as absent

The result was a diff that adds or removes the whole file.
---
 pw_diff_lib/src/diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..e4ef0a5 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -21,8 +21,8 @@ pub enum Diff {
 
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.exists() {
-            if after_file_path.exists() {
+        if before_file_path.try_exists()? {
+            if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +37,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.exists() {
+        } else if after_file_path.try_exists()? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From e44529aeb1156af2ec105d09fa9b1e2a755e74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 23/25] fix: don't start a conflict block part way through a
 line

---
 pw_diff_lib/src/apply_text.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4d3ffa4..5115e8e 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -275,6 +275,26 @@ pub struct Statistics {
     pub failed: usize,
 }
 
+/// A writer that knows whether what has been written so far ends part way through a line
+struct LineWriter<'w, W: io::Write> {
+    writer: &'w mut W,
+    mid_line: bool,
+}
+
+impl<W: io::Write> io::Write for LineWriter<'_, W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let count = self.writer.write(buf)?;
+        if let Some(byte) = buf[..count].last() {
+            self.mid_line = *byte != b'\n';
+        }
+        Ok(count)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.writer.flush()
+    }
+}
+
 pub trait ApplyClumpsFuzzy<C>
 where
     C: ApplyClumpFuzzy,
@@ -289,6 +309,10 @@ where
         into: &mut W,
         reverse: bool,
     ) -> io::Result<Statistics> {
+        let into = &mut LineWriter {
+            writer: into,
+            mid_line: false,
+        };
         let mut pd = ConsumableSeq::<String>::new(patchable);
         let mut stats = Statistics::default();
         let mut iter = self.clumps().peekable();
@@ -376,6 +400,9 @@ where
                 }
             } else {
                 stats.failed += 1;
+                if into.mid_line {
+                    io::Write::write_all(into, b"\n")?;
+                }
                 clump.write_failure_data_into(into, reverse)?;
                 log::error!("Clump #{clump_num} could NOT be applied!");
             }
-- 
2.43.0


From 29b189a41b5a3422aade62261ef1d6729aaa73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 24/25] fix: refuse stored clumps that cannot be what they say

A document whose context lengths exceed the clump, or whose positions
exceed what can be calculated with, was loaded and applying it panicked.
---
 pw_diff_lib/src/byte_diff.rs | 18 +++++++++++++++++-
 pw_diff_lib/src/snippet.rs   |  9 +++++++++
 pw_diff_lib/src/text_diff.rs | 18 +++++++++++++++++-
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index aad0ad5..43cff0a 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -4,7 +4,7 @@ use std::fs::File;
 use std::io;
 use std::path::{Path, PathBuf};
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::apply_bytes::{ApplyClumpClean, ApplyClumpsClean};
 use crate::changes::{ChangeClump, Changes};
@@ -89,11 +89,27 @@ impl<'a> ApplyClumpClean for ByteChangeClump {
     }
 }
 
+/// Deserialize clumps refusing those that no pair of files could give rise to
+fn plausible_clumps<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Box<[ByteChangeClump]>, D::Error> {
+    let clumps = <Box<[ByteChangeClump]>>::deserialize(deserializer)?;
+    for clump in clumps.iter() {
+        if !clump.before.is_plausible(clump.context_lengths)
+            || !clump.after.is_plausible(clump.context_lengths)
+        {
+            return Err(serde::de::Error::custom("malformed clump"));
+        }
+    }
+    Ok(clumps)
+}
+
 #[derive(Debug, Default, Serialize, Deserialize)]
 pub struct ByteChangeDiff {
     before_path: PathBuf,
     after_path: PathBuf,
     compressed: bool,
+    #[serde(deserialize_with = "plausible_clumps")]
     clumps: Box<[ByteChangeClump]>,
 }
 
diff --git a/pw_diff_lib/src/snippet.rs b/pw_diff_lib/src/snippet.rs
index d925935..97ccf32 100644
--- a/pw_diff_lib/src/snippet.rs
+++ b/pw_diff_lib/src/snippet.rs
@@ -18,6 +18,15 @@ impl<T> Len for Snippet<T> {
 }
 
 impl<T> Snippet<T> {
+    /// Could this come from a sequence and have the given lengths of context?
+    pub fn is_plausible(&self, context_lengths: (u8, u8)) -> bool {
+        let context_length = context_lengths.0 as usize + context_lengths.1 as usize;
+        // leave room for calculations with offsets
+        context_length <= self.items.len()
+            && self.start <= isize::MAX as usize / 4
+            && self.items.len() <= isize::MAX as usize / 4
+    }
+
     pub fn range(&self, reductions: Option<(u8, u8)>) -> Range {
         if let Some((start_reduction, end_reduction)) = reductions {
             Range(
diff --git a/pw_diff_lib/src/text_diff.rs b/pw_diff_lib/src/text_diff.rs
index b25d416..a1c0153 100644
--- a/pw_diff_lib/src/text_diff.rs
+++ b/pw_diff_lib/src/text_diff.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 use std::io;
 use std::path::{Path, PathBuf};
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::apply_text::*;
 use crate::changes::*;
@@ -82,10 +82,26 @@ impl TextChangeClump {
 
 impl ApplyClumpFuzzy for TextChangeClump {}
 
+/// Deserialize clumps refusing those that no pair of files could give rise to
+fn plausible_clumps<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Vec<TextChangeClump>, D::Error> {
+    let clumps = <Vec<TextChangeClump>>::deserialize(deserializer)?;
+    for clump in clumps.iter() {
+        if !clump.before.is_plausible(clump.context_lengths)
+            || !clump.after.is_plausible(clump.context_lengths)
+        {
+            return Err(serde::de::Error::custom("malformed clump"));
+        }
+    }
+    Ok(clumps)
+}
+
 #[derive(Debug, Default, Serialize, Deserialize)]
 pub struct TextChangeDiff {
     before_path: PathBuf,
     after_path: PathBuf,
+    #[serde(deserialize_with = "plausible_clumps")]
     clumps: Vec<TextChangeClump>,
 }
 
-- 
2.43.0


From 78db36746657a72a2d1cb4f57bd9eacdc77e16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 25/25] fix: do not search for a place before or after the data

The time that applying a clump took depended on the positions stated in
the diff, so that a diff with a large position kept it busy for hours.
---
 pw_diff_lib/src/apply_text.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 5115e8e..e0938d0 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -175,9 +175,18 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             pd.data().len() as isize
                 - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
+        // there is nothing to be found before or after the data
+        let data_len = pd.data().len() as isize;
+        let not_after = not_after.min(data_len);
+        let start = self.before_adjusted_start(offset, None, reverse);
+        let skip = (start - data_len)
+            .max(-start - self.context_lengths().0 as isize)
+            .max(1)
+            - 1;
         let mut backward_done = false;
         let mut forward_done = false;
         for i in 1isize.. {
+            let i = i + skip;
             if !backward_done {
                 let adjusted_offset = offset - i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse)
-- 
2.43.0

