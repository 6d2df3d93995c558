From 43e39a617b49c82fbb41a233414c24bfd181d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 01/30] fix: bidi weak types: apply W1-W6 in separate passes

A single pass let a later rule change what an earlier one saw: AL EN CS EN,
EN ET CS EN, ET NSM EN, multi-byte separators between numbers, and trailing
terminators resolved to wrong levels.
---
 unic/bidi/src/bidi_info.rs |   2 +-
 unic/bidi/src/implicit.rs  | 154 +++++++++++++++++++------------------
 2 files changed, 79 insertions(+), 77 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..9d195c6 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -203,7 +203,7 @@ impl<'text> BidiInfo<'text> {
 
             let sequences = prepare::isolating_run_sequences(para.level, original_classes, levels);
             for sequence in &sequences {
-                implicit::resolve_weak(sequence, processing_classes);
+                implicit::resolve_weak(text, sequence, processing_classes);
                 implicit::resolve_neutral(sequence, levels, processing_classes);
             }
             implicit::resolve_levels(processing_classes, levels);
diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 0627f16..1fe1653 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -17,103 +17,105 @@ use unic_ucd_bidi::bidi_class::abbr_names::*;
 use unic_ucd_bidi::BidiClass;
 
 use super::level::Level;
-use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence, LevelRun};
+use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence};
 
 /// 3.3.4 Resolving Weak Types
 ///
 /// <https://www.unicode.org/reports/tr9/#Resolving_Weak_Types>
-pub fn resolve_weak(sequence: &IsolatingRunSequence, processing_classes: &mut [BidiClass]) {
-    // FIXME (#8): This function applies steps W1-W6 in a single pass.  This can produce
-    // incorrect results in cases where a "later" rule changes the value of `prev_class` seen
-    // by an "earlier" rule.  We should either split this into separate passes, or preserve
-    // extra state so each rule can see the correct previous class.
-
-    // FIXME: Also, this could be the cause of increased failure for using longer-UTF-8 chars in
-    // conformance tests, like BidiTest:69635 (AL ET EN)
+pub fn resolve_weak(
+    text: &str,
+    sequence: &IsolatingRunSequence,
+    processing_classes: &mut [BidiClass],
+) {
+    // Each pass below must see the final result of the passes before it, for every character of
+    // the sequence. Characters removed by rule X9 are ignored in all of them.
+    let indices: Vec<usize> = sequence
+        .runs
+        .iter()
+        .flat_map(Clone::clone)
+        .filter(|&i| not_removed_by_x9(&processing_classes[i]))
+        .collect();
 
     let mut prev_class = sequence.sos;
     let mut last_strong_is_al = false;
-    let mut et_run_indices = Vec::new(); // for W5
+    for &i in &indices {
+        // <https://www.unicode.org/reports/tr9/#W1>
+        if processing_classes[i] == NSM {
+            processing_classes[i] = match prev_class {
+                RLI | LRI | FSI | PDI => ON,
+                _ => prev_class,
+            };
+        }
+        prev_class = processing_classes[i];
+        match prev_class {
+            // W2. If previous strong char was AL, change EN to AN.
+            EN if last_strong_is_al => processing_classes[i] = AN,
+            L | R => last_strong_is_al = false,
+            AL => last_strong_is_al = true,
+            _ => {}
+        }
+    }
 
-    // Like sequence.runs.iter().flat_map(Clone::clone), but make indices itself clonable.
-    fn id(x: LevelRun) -> LevelRun {
-        x
+    // <https://www.unicode.org/reports/tr9/#W3>
+    for &i in &indices {
+        if processing_classes[i] == AL {
+            processing_classes[i] = R;
+        }
     }
-    let mut indices = sequence
-        .runs
-        .iter()
-        .cloned()
-        .flat_map(id as fn(LevelRun) -> LevelRun);
 
-    while let Some(i) = indices.next() {
-        match processing_classes[i] {
-            // https://www.unicode.org/reports/tr9/#W1
-            NSM => {
-                processing_classes[i] = match prev_class {
-                    RLI | LRI | FSI | PDI => ON,
-                    _ => prev_class,
-                };
-            }
-            EN => {
-                if last_strong_is_al {
-                    // W2. If previous strong char was AL, change EN to AN.
-                    processing_classes[i] = AN;
-                } else {
-                    // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
-                    for j in &et_run_indices {
-                        processing_classes[*j] = EN;
-                    }
-                    et_run_indices.clear();
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W3>
-            AL => processing_classes[i] = R,
-
-            // <https://www.unicode.org/reports/tr9/#W4>
-            ES | CS => {
-                let next_class = indices
-                    .clone()
-                    .map(|j| processing_classes[j])
-                    .find(not_removed_by_x9)
-                    .unwrap_or(sequence.eos);
-                processing_classes[i] = match (prev_class, processing_classes[i], next_class) {
-                    (EN, ES, EN) | (EN, CS, EN) => EN,
-                    (AN, CS, AN) => AN,
-                    (_, _, _) => ON,
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W5>
-            ET => {
-                match prev_class {
-                    EN => processing_classes[i] = EN,
-                    _ => et_run_indices.push(i), // In case this is followed by an EN.
-                }
-            }
-            class => {
-                if removed_by_x9(class) {
-                    continue;
-                }
+    // W4. A single separator between two numbers of the same type changes to that type. The
+    // bytes of a multi-byte separator are one character.
+    let mut prev_class = sequence.sos;
+    let mut rest = indices.iter();
+    while let Some(&i) = rest.next() {
+        if !text.is_char_boundary(i) {
+            processing_classes[i] = prev_class;
+            continue;
+        }
+        if matches!(processing_classes[i], ES | CS) {
+            let next_class = rest
+                .clone()
+                .find(|&&j| text.is_char_boundary(j))
+                .map_or(sequence.eos, |&j| processing_classes[j]);
+            match (prev_class, processing_classes[i], next_class) {
+                (EN, ES, EN) | (EN, CS, EN) => processing_classes[i] = EN,
+                (AN, CS, AN) => processing_classes[i] = AN,
+                (_, _, _) => {}
             }
         }
-
         prev_class = processing_classes[i];
-        match prev_class {
-            L | R => {
-                last_strong_is_al = false;
-            }
-            AL => {
-                last_strong_is_al = true;
+    }
+
+    let mut prev_class = sequence.sos;
+    let mut et_run_indices = Vec::new(); // for W5
+    for &i in &indices {
+        match processing_classes[i] {
+            // <https://www.unicode.org/reports/tr9/#W5>
+            ET => match prev_class {
+                EN => processing_classes[i] = EN,
+                _ => et_run_indices.push(i), // In case this is followed by an EN.
+            },
+            EN => {
+                // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
+                for j in et_run_indices.drain(..) {
+                    processing_classes[j] = EN;
+                }
             }
+            // W6. Otherwise, separators and terminators change to ON.
+            ES | CS => processing_classes[i] = ON,
             _ => {}
         }
+        prev_class = processing_classes[i];
         if prev_class != ET {
             // W6. If we didn't find an adjacent EN, turn any ETs into ON instead.
-            for j in &et_run_indices {
-                processing_classes[*j] = ON;
+            for j in et_run_indices.drain(..) {
+                processing_classes[j] = ON;
             }
-            et_run_indices.clear();
         }
     }
+    for j in et_run_indices {
+        processing_classes[j] = ON;
+    }
 
     // W7. If the previous strong char was L, change EN to L.
     let mut last_strong_is_l = sequence.sos == L;
-- 
2.43.0


From 74165d249763989a9cb991f3d378279e1b2dd0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 02/30] fix: bidi neutrals: ignore characters removed by X9 as
 context

A removed character before a neutral run was taken as the preceding type, so
R BN ON R resolved to the embedding direction.
---
 unic/bidi/src/implicit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 1fe1653..6355c7a 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -150,6 +150,11 @@ pub fn resolve_neutral(
     let mut prev_class = sequence.sos;
 
     while let Some(mut i) = indices.next() {
+        // Characters removed by rule X9 are not context for other characters.
+        if removed_by_x9(processing_classes[i]) {
+            continue;
+        }
+
         // N0. Process bracket pairs.
         // TODO
 
-- 
2.43.0


From 436053befeb370b33d785df9f368a02ea0206823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 03/30] fix: bidi isolating runs: ignore trailing removed
 characters of a run

A level run whose isolate initiator is followed by characters removed by X9
was not continued after the matching PDI, and an unmatched one took the level
of the following text instead of the paragraph level.
---
 unic/bidi/src/prepare.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/prepare.rs b/unic/bidi/src/prepare.rs
index e75ac19..4bbe6ba 100644
--- a/unic/bidi/src/prepare.rs
+++ b/unic/bidi/src/prepare.rs
@@ -62,7 +62,7 @@ pub fn isolating_run_sequences(
         assert!(!stack.is_empty());
 
         let start_class = original_classes[run.start];
-        let end_class = original_classes[run.end - 1];
+        let end_class = last_class(original_classes, &run);
 
         let mut sequence = if start_class == PDI && stack.len() > 1 {
             // Continue a previous sequence interrupted by an isolate.
@@ -115,7 +115,8 @@ pub fn isolating_run_sequences(
             };
 
             // Get the level of the next non-removed char after the runs.
-            let succ_level = if matches!(original_classes[end_of_seq - 1], RLI | LRI | FSI) {
+            let last_run = &sequence[sequence.len() - 1];
+            let succ_level = if matches!(last_class(original_classes, last_run), RLI | LRI | FSI) {
                 para_level
             } else {
                 match original_classes[end_of_seq..]
@@ -136,6 +137,16 @@ pub fn isolating_run_sequences(
         .collect()
 }
 
+/// The class of the last character of a level run, ignoring those removed by rule X9.
+fn last_class(original_classes: &[BidiClass], run: &LevelRun) -> BidiClass {
+    original_classes[run.clone()]
+        .iter()
+        .rev()
+        .cloned()
+        .find(not_removed_by_x9)
+        .unwrap_or(BN)
+}
+
 /// Finds the level runs in a paragraph.
 ///
 /// <https://www.unicode.org/reports/tr9/#BD7>
-- 
2.43.0


From 59a9cafd4f77d4d1a7dd527cb06dcebbd099f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 04/30] fix: bidi lines: reset whitespace levels (L1) relative
 to the line start

Classes and levels were indexed from the start of the text, so any line not
starting at offset zero (a second line or paragraph) reset the wrong levels.
---
 unic/bidi/src/bidi_info.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 9d195c6..9af6e4e 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -295,7 +295,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match self.original_classes[line.start + i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +318,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    levels[line.start + j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +326,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                levels[line.start + j] = para.level;
             }
         }
 
-- 
2.43.0


From 5e3663e14b0a4cb365f1afc70ad1c5db5e4cc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 05/30] fix: bidi lines: order runs (L2) by the levels L1 left

Trailing whitespace that L1 reset was still reversed with the runs of its old
level.
---
 unic/bidi/src/bidi_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 9af6e4e..6e9293c 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -363,7 +363,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +371,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 56eb376d771169ced985fa0e4fef6c7fd7980f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 06/30] fix: bidi lines: do not index past the text for an
 empty line at its end

---
 unic/bidi/src/bidi_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 6e9293c..e64fb10 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -332,6 +332,9 @@ impl<'text> BidiInfo<'text> {
 
         // Find consecutive level runs.
         let mut runs = Vec::new();
+        if line.start == line.end {
+            return (levels, runs);
+        }
         let mut start = line.start;
         let mut level = levels[start];
         let mut min_level = level;
-- 
2.43.0


From e9af3216949a9cd127f39a456171121cc87bb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 07/30] fix: bidi lines: do not panic on a line entirely at the
 maximum level 126

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index e64fb10..c7e99a1 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -360,7 +360,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // The whole line is at the maximum (even) level: there is no odd level to reverse.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From ba17caa13831cbef2ba8056d3f313cdd6e75869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 08/30] fix: words: stop an emoji ZWJ sequence from joining
 what follows it (WB3c)
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

After ZWJ × GAZ/EBG the state stayed that of the text before the ZWJ, so
"a\u{200d}\u{2764}b" was one word.
---
 unic/segment/src/word.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..65e38dc 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -229,15 +229,21 @@ impl<'a> Iterator for WordBounds<'a> {
             // state enum; the state enum represents the last non-zwj state encountered.
             // When prev_zwj is true, for the purposes of WB3c, we are in the Zwj state,
             // however we are in the previous state for the purposes of all other rules.
-            if prev_zwj {
-                match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
-                        continue;
-                    }
+            if prev_zwj && (cat == WB::GlueAfterZwj || cat == WB::EBaseGAZ) {
+                match state {
+                    // the required letter or digit is not here: rewind (in if statement below)
+                    FormatExtend(RequireLetter)
+                    | FormatExtend(RequireHLetter)
+                    | FormatExtend(RequireNumeric) => break,
                     _ => (),
                 }
+                state = if cat == WB::EBaseGAZ {
+                    Emoji
+                } else {
+                    // only Format | Extend characters can follow in this word
+                    FormatExtend(AcceptNone)
+                };
+                continue;
             }
             // Don't use `continue` in this match without updating `cat`
             state = match state {
-- 
2.43.0


From 43208a2da6f9bd2ec50a6835541600cfd6553cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 09/30] fix: words: one emoji modifier per base, and nothing
 joins an emoji base from before it (WB14)

---
 unic/segment/src/word.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 65e38dc..ec66568 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -358,8 +358,8 @@ impl<'a> Iterator for WordBounds<'a> {
                     unreachable!("RegionalState::Unknown should not occur on forward iteration")
                 }
                 Emoji => match cat {
-                    // rule WB14
-                    WB::EModifier => state,
+                    // rule WB14: only one modifier, then Format | Extend characters can follow
+                    WB::EModifier => FormatExtend(AcceptNone),
                     _ => {
                         take_curr = false;
                         break;
@@ -586,7 +586,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBase => break,
+                    WB::EBaseGAZ => Zwj,
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 4527ba07904e828a2f32f9bc6a1276e95e908928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 10/30] fix: grapheme cursor: accept the context it asked for

provide_context panicked when the character after the cursor was not a
regional indicator or an emoji modifier and the one before not Prepend.
---
 unic/segment/src/grapheme.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..6bc7b9c 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,17 +452,26 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
+        if chunk_start + chunk.len() == self.offset {
+            // the character immediately before the cursor may be all that is needed
             let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
-                return;
+            self.cat_before = Some(GCB::of(ch));
+        }
+        if self.is_extended && self.cat_before == Some(GCB::Prepend) {
+            match self.state {
+                // the character after the cursor is not a control
+                GraphemeState::Regional | GraphemeState::Emoji => {
+                    self.decide(false); // GB9b
+                    return;
+                }
+                _ => (),
             }
         }
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            // the retried query decides from `cat_before`
+            _ => debug_assert!(self.cat_before.is_some()),
         }
     }
 
-- 
2.43.0


From 700748bac40d6ce39460e96220790bf33d6f1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 11/30] fix: grapheme cursor: prev_boundary at the start of a
 chunk asks for the chunk before instead of panicking

---
 unic/segment/src/grapheme.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 6bc7b9c..0e8fc00 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -747,12 +747,12 @@ impl GraphemeCursor {
             return Ok(None);
         }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            // the character before the cursor is in the chunk before this one
+            None => return Err(GraphemeIncomplete::PrevChunk),
+        };
         loop {
-            if self.offset == chunk_start {
-                self.resuming = true;
-                return Err(GraphemeIncomplete::PrevChunk);
-            }
             if self.resuming {
                 self.cat_before = Some(GCB::of(ch));
             } else {
-- 
2.43.0


From 94519b3a12da9726e8aac6c781c39f8ecf9bd21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 12/30] fix: grapheme cursor: prev_boundary keeps the category
 after the cursor when it asks for the previous chunk

---
 unic/segment/src/grapheme.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 0e8fc00..dd33dd7 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -773,6 +773,7 @@ impl GraphemeCursor {
                     self.decide(true);
                 } else {
                     self.resuming = true;
+                    self.cat_after = Some(GCB::of(ch));
                     return Err(GraphemeIncomplete::PrevChunk);
                 }
             }
-- 
2.43.0


From 330c1d6a6770f10a3e8af34d39992a95b256fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 13/30] fix: grapheme cursor: set_cursor abandons a suspended
 query

---
 unic/segment/src/grapheme.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index dd33dd7..582d7c0 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,7 +394,7 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
+        if offset != self.offset || self.resuming || self.pre_context_offset.is_some() {
             self.offset = offset;
             self.state = if offset == 0 || offset == self.len {
                 GraphemeState::Break
@@ -405,6 +405,9 @@ impl GraphemeCursor {
             self.cat_before = None;
             self.cat_after = None;
             self.ris_count = None;
+            // abandon a suspended query
+            self.pre_context_offset = None;
+            self.resuming = false;
         }
     }
 
-- 
2.43.0


From fe58d8e4e43c922f30a2ef982c554f5cc8cd4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 14/30] fix: grapheme cursor: keep asking for context when the
 run of regional indicators or Extend starts before the chunk

---
 unic/segment/src/grapheme.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 582d7c0..cfe3b85 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -620,10 +620,12 @@ impl GraphemeCursor {
                 if let Some(ris_count) = self.ris_count {
                     return self.decision((ris_count % 2) == 0);
                 }
+                self.state = GraphemeState::Regional;
                 self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
             PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
                 self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
-- 
2.43.0


From 42bd2e0d5d6273de86eead2ff793d3cd28fecb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 15/30] fix: grapheme cursor: do not count regional indicators
 again at the start of the next chunk

---
 unic/segment/src/grapheme.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index cfe3b85..4cc15d4 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -596,6 +596,10 @@ impl GraphemeCursor {
         if self.offset == chunk_start {
             let mut need_pre_context = true;
             match self.cat_after.unwrap() {
+                // already counted from the text before
+                GCB::RegionalIndicator if self.ris_count.is_some() && self.cat_before.is_some() => {
+                    need_pre_context = false
+                }
                 GCB::RegionalIndicator => self.state = GraphemeState::Regional,
                 GCB::EModifier => self.state = GraphemeState::Emoji,
                 _ => need_pre_context = self.cat_before.is_none(),
-- 
2.43.0


From afc42390ba7ee67ab99e95000e9d3c1966539ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 16/30] fix: bidi class: has_ltr looks for left-to-right
 characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 7f64986bad8b2e9f9e02f3fddf96ed8491f573ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 17/30] fix: age: comparison and total order agree

---
 unic/ucd/age/src/age.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..8e14cf0 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -83,13 +83,15 @@ impl Age {
     }
 }
 
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        other.0.cmp(&self.0)
+    }
+}
+
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 1fa8b9519570695ba7fe7add218c329109e8667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 18/30] fix: hangul: U+11A7 is not a trailing consonant

---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From d4ab583af893493498fbc626da9e839296034631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 19/30] fix: name: order names as their text

---
 unic/ucd/name/src/name.rs | 66 ++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/unic/ucd/name/src/name.rs b/unic/ucd/name/src/name.rs
index 8256764..8756253 100644
--- a/unic/ucd/name/src/name.rs
+++ b/unic/ucd/name/src/name.rs
@@ -107,6 +107,34 @@ impl Name {
         (32 - u32::leading_zeros(ch as u32) as usize + 3) / 4
     }
 
+    /// Bytes of the text of the name, as displayed.
+    fn text_bytes(self) -> impl Iterator<Item = u8> {
+        let (prefix, jamos, hex, pieces): (&str, _, Option<char>, &[&str]) = match self {
+            Name::NR1(ch) => (
+                PREFIX_HANGUL_SYLLABLE,
+                Name::collect_jamo_short_names(ch),
+                None,
+                &[],
+            ),
+            Name::NR2(prefix, ch) => (prefix, [None; JAMO_BUFFER_SIZE], Some(ch), &[]),
+            Name::NR3(pieces) => ("", [None; JAMO_BUFFER_SIZE], None, pieces),
+        };
+        let codepoint = hex.map_or(0, |ch| ch as u32);
+        let digits = hex.map_or(0, Name::number_of_hex_digits);
+        prefix
+            .bytes()
+            .chain((0..JAMO_BUFFER_SIZE).flat_map(move |index| jamos[index].unwrap_or("").bytes()))
+            .chain(
+                (0..digits)
+                    .rev()
+                    .map(move |index| b"0123456789ABCDEF"[(codepoint >> (4 * index)) as usize & 0xF]),
+            )
+            .chain(pieces.iter().enumerate().flat_map(|(index, piece)| {
+                let space = if index == 0 { "" } else { " " };
+                space.bytes().chain(piece.bytes())
+            }))
+    }
+
     fn jamo_short_name(ch: char) -> &'static str {
         data::JAMO_SHORT_NAMES
             .find(ch)
@@ -167,41 +195,9 @@ impl fmt::Display for Name {
 
 impl Ord for Name {
     fn cmp(&self, other: &Name) -> Ordering {
-        match *self {
-            Name::NR1(ch) => match *other {
-                Name::NR1(other_ch) => {
-                    let jamos = Name::collect_jamo_short_names(ch);
-                    let other_jamos = Name::collect_jamo_short_names(other_ch);
-                    jamos.cmp(&other_jamos)
-                }
-                Name::NR2(other_prefix, _) => PREFIX_HANGUL_SYLLABLE.cmp(other_prefix),
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    PREFIX_HANGUL_SYLLABLE.cmp(first)
-                }
-            },
-            Name::NR2(prefix, ch) => match *other {
-                Name::NR1(_) => prefix.cmp(PREFIX_HANGUL_SYLLABLE),
-                Name::NR2(other_prefix, other_ch) => {
-                    if prefix == other_prefix {
-                        ch.cmp(&other_ch)
-                    } else {
-                        prefix.cmp(other_prefix)
-                    }
-                }
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    prefix.cmp(first)
-                }
-            },
-            Name::NR3(pieces) => {
-                let (first, _) = pieces.split_first().unwrap();
-                match *other {
-                    Name::NR1(_) => first.cmp(&PREFIX_HANGUL_SYLLABLE),
-                    Name::NR2(other_prefix, _) => first.cmp(&other_prefix),
-                    Name::NR3(other_pieces) => pieces.cmp(other_pieces),
-                }
-            }
+        match (self, other) {
+            (Name::NR3(pieces), Name::NR3(other_pieces)) => pieces.cmp(other_pieces),
+            _ => self.text_bytes().cmp(other.text_bytes()),
         }
     }
 }
-- 
2.43.0


From b478c30830649e2ce7c385b2c77c2d84511b8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 20/30] fix: char range: parallel iteration of ranges above the
 surrogates

---
 unic/char/range/src/par_iter.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..a30fbeb 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,14 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        let compact = |ch: char| {
+            if ch >= AFTER_SURROGATE {
+                ch as u32 - SKIP_LENGTH
+            } else {
+                ch as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From 5754874ba0b62ad20a36c6cdae545d15dd4b8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 21/30] fix: punycode: reject non-ASCII characters before the
 delimiter

---
 unic/idna/punycode/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..d0b838b 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -75,6 +75,7 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
+        Some(position) if !input[..position].is_ascii() => return None,
         Some(position) => (
             input[..position].chars().collect(),
             if position > 0 {
-- 
2.43.0


From d4f4db55047e8e21984ee57f062dd3bd590010a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 22/30] fix: punycode: report overflow of delta instead of
 panicking

---
 unic/idna/punycode/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index d0b838b..12eb95a 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -174,7 +174,7 @@ pub fn encode(input: &[char]) -> Option<String> {
         output.push_str("-")
     }
     let mut code_point = INITIAL_N;
-    let mut delta = 0;
+    let mut delta: u32 = 0;
     let mut bias = INITIAL_BIAS;
     let mut processed = basic_length;
     let input_length = input.len() as u32;
@@ -196,10 +196,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 09db41c61133177d788fac88467f200c48edaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 23/30] fix: idna: decide whether a domain is a Bidi domain
 from the mapped text

---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From d2df2688d4b0125a65df35bc36c25e307638d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 24/30] fix: idna: keep a label whose Punycode decoding fails

---
 unic/idna/src/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 709638d..c98583f 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,7 +265,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    errors.push(Error::PunycodeError);
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From 3b5a7a19fe868cc3f261b73a29d70fb527abdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 25/30] fix: idna: leave a character disallowed by STD3 rules
 unmapped

---
 unic/idna/src/process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index c98583f..96d4e21 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -44,8 +44,10 @@ fn map_char(codepoint: char, flags: Flags, output: &mut String, errors: &mut Vec
         Mapping::DisallowedStd3Mapped(slice) => {
             if flags.use_std3_ascii_rules {
                 errors.push(Error::DissallowedMappedInStd3);
+                output.push(codepoint)
+            } else {
+                output.push_str(slice)
             }
-            output.push_str(slice)
         }
     }
 }
-- 
2.43.0


From 0283b154c053d6995aee7f0b76cc9887729bb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 26/30] fix: cli: parse an empty list of code points or code
 units

---
 apps/cli/src/parsers.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/apps/cli/src/parsers.rs b/apps/cli/src/parsers.rs
index b738810..0ac7f0e 100644
--- a/apps/cli/src/parsers.rs
+++ b/apps/cli/src/parsers.rs
@@ -30,6 +30,7 @@ lazy_static! {
 pub fn codepoints(string: &str) -> String {
     CODEPOINT_SEPARATORS
         .split(&string)
+        .filter(|token| !token.is_empty())
         .map(|token| {
             let mut token = token;
             if CODEPOINT_PREFIX.is_match(token) {
@@ -44,27 +45,33 @@ pub fn codepoints(string: &str) -> String {
 }
 
 pub fn utf8_hex(string: &str) -> String {
-    let utf8 = HEX_SEPARATORS.split(&string).map(|token| {
-        let mut token = token;
-        if HEX_PREFIX.is_match(token) {
-            token = &token[2..];
-        }
-        u8::from_str_radix(token, 16)
-            .unwrap_or_else(|_| panic!("Cannot parse token as hex byte value: {}", token))
-    });
+    let utf8 = HEX_SEPARATORS
+        .split(&string)
+        .filter(|token| !token.is_empty())
+        .map(|token| {
+            let mut token = token;
+            if HEX_PREFIX.is_match(token) {
+                token = &token[2..];
+            }
+            u8::from_str_radix(token, 16)
+                .unwrap_or_else(|_| panic!("Cannot parse token as hex byte value: {}", token))
+        });
 
     String::from_utf8(utf8.collect()).expect("Invalid UTF-8 sequence")
 }
 
 pub fn utf16_hex(string: &str) -> String {
-    let utf16 = HEX_SEPARATORS.split(&string).map(|token| {
-        let mut token = token;
-        if HEX_PREFIX.is_match(token) {
-            token = &token[2..];
-        }
-        u16::from_str_radix(token, 16)
-            .unwrap_or_else(|_| panic!("Cannot parse token as hex byte value: {}", token))
-    });
+    let utf16 = HEX_SEPARATORS
+        .split(&string)
+        .filter(|token| !token.is_empty())
+        .map(|token| {
+            let mut token = token;
+            if HEX_PREFIX.is_match(token) {
+                token = &token[2..];
+            }
+            u16::from_str_radix(token, 16)
+                .unwrap_or_else(|_| panic!("Cannot parse token as hex byte value: {}", token))
+        });
 
     char::decode_utf16(utf16)
         .map(|r| r.expect("Invalid UTF-16 sequence"))
-- 
2.43.0


From 93c1b52bd939a3ec7a2c5faf2b5591d148db04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 27/30] fix: gen: read property lines with no blank before the
 semicolon

---
 gen/src/source/ucd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/source/ucd/mod.rs b/gen/src/source/ucd/mod.rs
index e130e88..42a6279 100644
--- a/gen/src/source/ucd/mod.rs
+++ b/gen/src/source/ucd/mod.rs
@@ -30,7 +30,7 @@ lazy_static! {
         r"(?xm)^
           ([[:xdigit:]]{4,6})        # low
           (?:..([[:xdigit:]]{4,6}))? # high
-          \s+;\s+
+          \s*;\s*
           (\w+)                      # property
          ",
     )
-- 
2.43.0


From c80e82cf81cfdbd5ea963dbbea8379a2293f0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 28/30] fix: cli: unic-inspector crashed on every input

---
 apps/cli/src/bin/unic-inspector.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/cli/src/bin/unic-inspector.rs b/apps/cli/src/bin/unic-inspector.rs
index a75eb58..9dbbf57 100644
--- a/apps/cli/src/bin/unic-inspector.rs
+++ b/apps/cli/src/bin/unic-inspector.rs
@@ -74,5 +74,17 @@ fn main() {
         ]);
     });
 
-    table.printstd();
+    // `Table::printstd()` of this prettytable version relies on the memory layout of its own types
+    // and crashes when built with newer compilers, so print the rows one by one.
+    let widths: Vec<usize> = (0..4)
+        .map(|column| {
+            let cell_widths = table.row_iter().map(|row| row.get_cell_width(column));
+            cell_widths.max().unwrap_or(0)
+        })
+        .collect();
+    let mut out = std::io::stdout();
+    for row in table.row_iter() {
+        row.print(&mut out, &table_format, &widths)
+            .expect("Cannot print table to standard output");
+    }
 }
-- 
2.43.0


From 466b6928c503f30da85cf64d8d11066808b548f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 29/30] fix: grapheme cursor: reject a chunk after the cursor
 instead of panicking

---
 unic/segment/src/grapheme.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 4cc15d4..bf8b4c2 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -580,8 +580,10 @@ impl GraphemeCursor {
         if self.state == GraphemeState::NotBreak {
             return Ok(false);
         }
-        if (self.offset < chunk_start || self.offset >= chunk_start + chunk.len())
-            && (self.offset > chunk_start + chunk.len() || self.cat_after.is_none())
+        let chunk_end = chunk_start + chunk.len();
+        if self.offset < chunk_start
+            || self.offset > chunk_end
+            || (self.offset == chunk_end && self.cat_after.is_none())
         {
             return Err(GraphemeIncomplete::InvalidOffset);
         }
-- 
2.43.0


From ab7947621defab5c0f553fe8a73b2aecf21d3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 30/30] fix: reading a serialized embedding level checks its
 range

With the serde feature, deserializing a level accepted any number up to
255, giving a level above the implicit maximum.
---
 unic/bidi/src/level.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..248493d 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -31,7 +31,7 @@ use unic_ucd_bidi::BidiClass;
 ///
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 pub struct Level(u8);
 
 /// LTR level with smallest number value (0).
@@ -201,6 +201,19 @@ impl Level {
     }
 }
 
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for Level {
+    /// Read a level, fail if number is larger than `max_depth + 1`.
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Level")]
+        struct Number(u8);
+
+        let Number(number) = Number::deserialize(deserializer)?;
+        Level::new(number).map_err(|_| serde::de::Error::custom("out-of-range embedding level"))
+    }
+}
+
 impl fmt::Display for Level {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0

