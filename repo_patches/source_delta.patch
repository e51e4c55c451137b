From d36348900ba7f6a88c0b522759b075c7f1eaf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:14 +0000
Subject: [PATCH 01/18] fix: keep the existing frames when inserting a frame
 before the end

vec_insert_slice moved the item at index i to old_len + i rather than to
i + slice.len(), which is only right when the slice is exactly as long as
the vec: any other insertion before the end dropped or reordered motion
values.
---
 src/frame_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..5eb42fb 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -566,8 +566,8 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
     let new_len = vec.len() + slice.len();
     vec.resize_with(new_len, T::default);
 
-    // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
+    // Move the existing items to the end, starting with the last one
+    for (to_move, end_index) in (index..old_len).zip(index + slice.len()..new_len).rev() {
         vec.swap(to_move, end_index);
     }
 
-- 
2.43.0


From 7cd9a04d766bcfaacd1f7c9529b4215c2e3c9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 02/18] fix: report an error when there is no frame to remove
 at the cursor

remove_frame returned Ok without removing anything when the cursor was
past the last frame of a non-empty animation.
---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 5eb42fb..e211796 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From 5d4c837e763d2e446d0522e7b2ae3854c2299f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 03/18] fix: reset the cursor when removing all frames

The index was left past the end of the now empty animation, so that the
next try_insert_frame panicked.
---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index e211796..1ab6a8e 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From c8c0f772da1824b8b196c2ae64b9c79826d7cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 04/18] fix: do not panic on a large size hint in
 try_insert_frames

The upper bound of the iterator's size hint was used to reserve space, so
an iterator such as a filtered range, whose upper bound may be anything,
overflowed the multiplication or the capacity of the vec.
---
 src/frame_cursor.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 1ab6a8e..897fa2d 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,13 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
-
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The size hint is only a hint: failing to reserve space here must not
+        // prevent the frames from being inserted one by one.
+        let (num_frames, _) = frames.size_hint();
+        let _ = self
+            .bvh
+            .motion_values
+            .try_reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From cdfa454b43cca9e84593b69132180f7dbd1f6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 05/18] fix: return an error for a frame time which is not a
 valid duration

A negative, infinite, NaN or huge frame time panicked while loading.
---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..2464766 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -575,7 +575,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From 6d34144f3ffdf711fb3e3407f1204854724bdef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 06/18] fix: report a missing frame time value as such

A "Frame Time:" line without a value was reported as a missing number of
frames.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2464766..10d4b59 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -592,7 +592,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From a22cb597e471f3d1cf6cf6381fd84623e5ac9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 07/18] fix: do not trust the number of frames declared by the
 file

The product with the number of channels could overflow, and was reserved
up front, so that a tiny file could panic or exhaust the memory.
---
 src/parse.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 10d4b59..c095695 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -599,9 +599,13 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
-        self.motion_values.reserve(expected_total_motion_values);
+        // The number of frames comes from the file, so do not trust it with
+        // more than a reasonable amount of memory.
+        const MAX_RESERVED_VALUES: usize = 1 << 16;
+        self.motion_values
+            .reserve(expected_total_motion_values.min(MAX_RESERVED_VALUES));
 
         for (line_num, line) in lines {
             let line = line?;
@@ -617,7 +621,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From f037a07109c800f97a4855e47f502bba19ff4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 08/18] fix: do not trust the number of channels declared by
 the file

It was only used to reserve space, which panicked or exhausted the memory
for a large number.
---
 src/parse.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c095695..eec8e45 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -415,7 +415,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-                    let num_channels: usize = tokens
+                    let _num_channels: usize = tokens
                         .next()
                         .ok_or(LoadJointsError::ParseNumChannelsError {
                             error: None,
@@ -430,8 +430,6 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
-
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
                             LoadJointsError::ParseChannelError {
-- 
2.43.0


From 024d595155e663e853c35f0f3c1f40ec6d80b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:15 +0000
Subject: [PATCH 09/18] fix: return an error for a misplaced line of the
 hierarchy

Parsing must return an error on failure and never panic. A misplaced
HIERARCHY, ROOT, JOINT or End Site line, a missing name and an unbalanced
brace panicked, and sections outside of the braces of a joint were applied
to another joint, so that the loaded skeleton was inconsistent.
---
 src/errors.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/parse.rs  | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 81 insertions(+), 11 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..6be908e 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -101,6 +101,31 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A `HIERARCHY` section was encountered in the wrong location.
+    UnexpectedHierarchySection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// A `ROOT` section was encountered in the wrong location.
+    UnexpectedRootSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// A `JOINT` section was encountered in the wrong location.
+    UnexpectedJointSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// An `End Site` section was malformed or encountered in the wrong location.
+    UnexpectedEndSiteSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// A brace was encountered in the wrong location.
+    UnexpectedBrace {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A `CHANNELS` section was encountered in the wrong location.
     UnexpectedChannelsSection {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +175,11 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedHierarchySection { line }
+            | LoadJointsError::UnexpectedRootSection { line }
+            | LoadJointsError::UnexpectedJointSection { line }
+            | LoadJointsError::UnexpectedEndSiteSection { line }
+            | LoadJointsError::UnexpectedBrace { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -177,6 +207,25 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
+            LoadJointsError::UnexpectedHierarchySection { line } => write!(
+                f,
+                "{}: unexpectedly encountered a \"HIERARCHY\" section",
+                line
+            ),
+            LoadJointsError::UnexpectedRootSection { line } => {
+                write!(f, "{}: unexpectedly encountered a \"ROOT\" section", line)
+            }
+            LoadJointsError::UnexpectedJointSection { line } => {
+                write!(f, "{}: unexpectedly encountered a \"JOINT\" section", line)
+            }
+            LoadJointsError::UnexpectedEndSiteSection { line } => write!(
+                f,
+                "{}: unexpectedly encountered an \"End Site\" section",
+                line
+            ),
+            LoadJointsError::UnexpectedBrace { line } => {
+                write!(f, "{}: unexpectedly encountered a brace", line)
+            }
             LoadJointsError::UnexpectedChannelsSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered a \"CHANNELS\" section",
diff --git a/src/parse.rs b/src/parse.rs
index eec8e45..e254878 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -298,7 +297,9 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedHierarchySection {
+                            line: line_num,
+                        });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,19 +308,27 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedRootSection { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedBrace { line: line_num });
+                    }
+                    next_expected_line = NextExpectedLine::ClosingBrace;
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                        return Err(LoadJointsError::UnexpectedBrace { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -344,15 +353,20 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-                    if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
+                    if tokens.next() == Some(ENDSITE_KEYWORDS[1])
+                        && next_expected_line == NextExpectedLine::ClosingBrace
+                        && !in_end_site
+                        && !pushed_end_site_joint
+                    {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedEndSiteSection { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
+                        return Err(LoadJointsError::UnexpectedJointSection { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,11 +390,14 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || pushed_end_site_joint
+                    {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -411,7 +428,11 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || !curr_joint.channels().is_empty()
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From 7f7aea0a5add66c1d52eb5c6f80e14147c5961e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 10/18] fix: load joints without an end site and without
 children

The end site is optional, but the last such joint was dropped although its
channels were counted, and the other ones were attached to the wrong depth.
---
 src/parse.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e254878..e1f0459 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,7 @@ impl Bvh {
 
         let mut curr_joint = JointData::empty_root();
         let mut in_end_site = false;
-        let mut pushed_end_site_joint = false;
+        let mut pushed_curr_joint = false;
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
@@ -335,28 +335,35 @@ impl Bvh {
                         curr_mode = ParseMode::Finished;
                     }
 
-                    if in_end_site {
+                    // A joint is complete once either its end site or itself is closed.
+                    if in_end_site || !pushed_curr_joint {
+                        let joint_depth = if in_end_site {
+                            curr_depth - 1
+                        } else {
+                            curr_depth
+                        };
+
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
                         {
                             private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            private.parent_index = get_parent_index(&joints, joint_depth + 1);
+                            private.depth = joint_depth;
                         }
 
                         let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
                         joints.push(new_joint);
                         curr_index += 1;
                         in_end_site = false;
-                        pushed_end_site_joint = true;
+                        pushed_curr_joint = true;
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1])
                         && next_expected_line == NextExpectedLine::ClosingBrace
                         && !in_end_site
-                        && !pushed_end_site_joint
+                        && !pushed_curr_joint
                     {
                         in_end_site = true;
                     } else {
@@ -369,7 +376,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedJointSection { line: line_num });
                     }
 
-                    if !pushed_end_site_joint {
+                    if !pushed_curr_joint {
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
@@ -384,7 +391,7 @@ impl Bvh {
 
                         curr_index += 1;
                     } else {
-                        pushed_end_site_joint = false;
+                        pushed_curr_joint = false;
                     }
 
                     if let Some(mut name) = tokens.next() {
@@ -396,7 +403,7 @@ impl Bvh {
                 }
                 OFFSET_KEYWORD => {
                     if next_expected_line != NextExpectedLine::ClosingBrace
-                        || pushed_end_site_joint
+                        || pushed_curr_joint
                     {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
@@ -430,7 +437,7 @@ impl Bvh {
                 CHANNELS_KEYWORD => {
                     if next_expected_line != NextExpectedLine::ClosingBrace
                         || in_end_site
-                        || pushed_end_site_joint
+                        || pushed_curr_joint
                         || !curr_joint.channels().is_empty()
                     {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
-- 
2.43.0


From f928daf7ecfcfa0eb1a6c5f2bfac6eb91b65fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 11/18] fix: keep the end site of the root joint apart from its
 offset

The offset of an end site directly below the root replaced the offset of
the root joint.
---
 src/joint.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..4424189 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// End site offset.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -81,8 +83,11 @@ impl JointData {
             JointData::Child {
                 ref end_site_offset,
                 ..
+            }
+            | JointData::Root {
+                ref end_site_offset,
+                ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 2f2b6943c82e3e3fde13741e1a143c6503e4e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:16 +0000
Subject: [PATCH 12/18] fix: keep a ':' in the name of a joint

Exporters write namespaced names such as "mixamorig:Hips", of which only
the namespace was kept, so that all of the joints had the same name.
---
 src/parse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e1f0459..842a2ec 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -283,6 +283,16 @@ impl Bvh {
                 .unwrap_or(0)
         }
 
+        // Unlike the other tokens, a joint name may contain a ':'.
+        #[inline]
+        fn get_joint_name<'a>(line: &'a [u8], keyword: &[u8]) -> Option<&'a [u8]> {
+            let is_separator = |c: char| c.is_ascii_whitespace() || c == ':';
+            line.trim_start_with(is_separator)[keyword.len()..]
+                .trim_start_with(is_separator)
+                .fields_with(|c: char| c.is_ascii_whitespace())
+                .next()
+        }
+
         for (line_num, line) in lines {
             let line = line?;
             let line = line.trim();
@@ -311,7 +321,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedRootSection { line: line_num });
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = get_joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
@@ -394,7 +404,7 @@ impl Bvh {
                         pushed_curr_joint = false;
                     }
 
-                    if let Some(mut name) = tokens.next() {
+                    if let Some(name) = get_joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
-- 
2.43.0


From dc833571633586ed4d24d2307aed9c784a8e0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 13/18] fix: close the braces of every joint which is written

Braces were only closed after an end site, so that a skeleton with a leaf
without an end site was written as an unbalanced file, and a joint with
both an end site and children panicked.
---
 src/write.rs | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..cce580c 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -268,26 +268,29 @@ impl WriteOptions {
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            }
+
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            // Close every joint which the next joint is not a child of.
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (
+                                        curr_depth,
+                                        prev_joint.data().depth().checked_sub(curr_depth),
+                                    )
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference =
+                                    depth_difference.and_then(|d| d.checked_sub(1));
                             }
                             *wrote_name = false;
                             *wrote_offset = false;
-- 
2.43.0


From 9c26d1821a469767a9d87a5263928c96ebf02057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 14/18] fix: write the whole bvh to writers which accept a few
 bytes at a time

A short or interrupted write, which any writer may make, failed the whole
operation after having written a part of it.
---
 src/write.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index cce580c..9e3ff0f 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,10 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
-            let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(&curr_chunk)?;
         }
         writer.flush()
     }
-- 
2.43.0


From c3be29def64d0b5d0a7320f12282ea898bc82298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 15/18] fix: iterate over the children of a joint instead of
 panicking

Joint::children panicked for every joint: iterating over the children was
not implemented, and a leaf joint has no first child to unwrap.
---
 src/joint.rs | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 4424189..714e6ca 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -402,7 +402,9 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
-    pub(crate) from_child: Option<usize>,
+    /// The index of the joint whose children are iterated over, or `None` if
+    /// all of the joints are.
+    pub(crate) parent_joint: Option<usize>,
 }
 
 impl fmt::Debug for Joints<'_> {
@@ -419,7 +421,7 @@ impl<'a> Joints<'a> {
             joints,
             // clips,
             current_joint: 0,
-            from_child: None,
+            parent_joint: None,
         }
     }
 
@@ -431,24 +433,11 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: joint.index,
+            parent_joint: Some(joint.index),
         }
     }
 
@@ -472,6 +461,15 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(parent_index) = self.parent_joint {
+            // Skip to the next child of the parent.
+            while self.current_joint < self.joints.len()
+                && self.joints[self.current_joint].parent_index() != Some(parent_index)
+            {
+                self.current_joint += 1;
+            }
+        }
+
         if self.current_joint >= self.joints.len() {
             return None;
         }
@@ -481,11 +479,7 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
-        }
+        self.current_joint += 1;
 
         joint
     }
-- 
2.43.0


From f2c820130e6b41f8d081d00873336e69ac6b7511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 16/18] fix: yield the joints of the mutable joints iterator

Bvh::joints_mut never yielded any joint.
---
 src/joint.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 714e6ca..f13c025 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -490,7 +490,6 @@ impl<'a> Iterator for Joints<'a> {
 pub struct JointsMut<'a> {
     pub(crate) joints: &'a mut [JointData],
     pub(crate) current_joint: usize,
-    pub(crate) from_child: Option<usize>,
 }
 
 impl<'a> JointsMut<'a> {
@@ -499,7 +498,6 @@ impl<'a> JointsMut<'a> {
             joints,
             // clips,
             current_joint: 0,
-            from_child: None,
         }
     }
 }
@@ -508,7 +506,11 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let (joint, rest) = mem::take(&mut self.joints).split_first_mut()?;
+        self.joints = rest;
+        let index = self.current_joint;
+        self.current_joint += 1;
+        Some(JointMut { index, joint })
     }
 }
 
@@ -818,8 +820,8 @@ impl fmt::Debug for Joint<'_> {
 pub struct JointMut<'a> {
     /// Index of the `Joint` in the skeleton.
     pub(crate) index: usize,
-    /// `Joints` array which the joint is part of.
-    pub(crate) joints: &'a mut [JointData],
+    /// Internal data of the joint.
+    pub(crate) joint: &'a mut JointData,
 }
 
 impl<'a> JointMut<'a> {
@@ -851,6 +853,6 @@ impl<'a> JointMut<'a> {
     /// Mutable access to the internal data of the `JointMut`.
     #[inline]
     pub(crate) fn data_mut(&mut self) -> &mut JointData {
-        &mut self.joints[self.index]
+        self.joint
     }
 }
-- 
2.43.0


From 7c9eddcbfcf2e6966121a33155eeed3f387332c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 17/18] fix: accept joints with 4, 5 or 7 channels in the bvh
 macro

The arm for 4 channels did not expand to a path, the one for 5 depended on
the name of the crate, and the one for 7 did not match any joint.
---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From c3a8a3c17bc4af715178164246959d722e98b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 18/18] fix: read numbers with very many digits exactly

lexical rounds some numerals of more than about a hundred digits wrongly, and
panics on some of several thousand digits. Leave long numerals to the standard
library.
---
 src/parse.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 842a2ec..1f87430 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -6,7 +6,7 @@ use crate::{
     Axis, Bvh, Channel, ChannelType, EnumeratedLines,
 };
 use bstr::ByteSlice;
-use lexical::parse;
+use lexical::{parse, ErrorCode, FromLexical};
 use std::time::Duration;
 
 /*
@@ -226,6 +226,29 @@ Ok((data, (frame_time, num_frames, motion_data)))
 }
 */
 
+/// Parses a floating point number.
+///
+/// `lexical` is only exact as long as it looks at all of the digits: given more of them than its
+/// buffers are made for, it rounds some numbers wrongly, and panics on others. Long tokens are
+/// therefore left to the standard library, which is exact for any number of digits.
+fn parse_float<F: FromLexical + str::FromStr>(token: &[u8]) -> lexical::Result<F> {
+    const MAX_LEXICAL_LEN: usize = 64;
+
+    if token.len() <= MAX_LEXICAL_LEN {
+        return parse(token);
+    }
+
+    str::from_utf8(token)
+        .ok()
+        .and_then(|s| s.parse().ok())
+        .ok_or_else(|| {
+            let index = token
+                .iter()
+                .position(|b| !b.is_ascii_digit() && !b"+-.eE".contains(b));
+            (ErrorCode::InvalidDigit, index.unwrap_or(0)).into()
+        })
+}
+
 impl Bvh {
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
@@ -424,7 +447,7 @@ impl Bvh {
                         ($axis_field:literal, $axis_enum:ident) => {
                             if let Some(tok) = tokens.next() {
                                 offset[$axis_field] =
-                                    parse(tok).map_err(|e| LoadJointsError::ParseOffsetError {
+                                    parse_float(tok).map_err(|e| LoadJointsError::ParseOffsetError {
                                         parse_float_error: e,
                                         axis: Axis::$axis_enum,
                                         line: line_num,
@@ -605,7 +628,7 @@ impl Bvh {
 
                 let parse_frame_time = |token: Option<&[u8]>| {
                     if let Some(frame_time) = token {
-                        let frame_time_secs = parse::<f64, _>(frame_time).map_err(|e| {
+                        let frame_time_secs = parse_float::<f64>(frame_time).map_err(|e| {
                             LoadMotionError::MissingFrameTime {
                                 parse_error: Some(e),
                                 line: line_num,
@@ -648,7 +671,7 @@ impl Bvh {
             let tokens = line.fields();
             for (channel_index, token) in tokens.enumerate() {
                 let motion =
-                    parse::<f32, _>(token).map_err(|e| LoadMotionError::ParseMotionSection {
+                    parse_float::<f32>(token).map_err(|e| LoadMotionError::ParseMotionSection {
                         parse_error: e,
                         channel_index,
                         line: line_num,
-- 
2.43.0

