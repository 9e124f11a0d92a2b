From 1b56b9a6b766741a631b71e4aab85e98f6454c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 01/11] fix: repetitions keep the errors they recovered from

Stopping at a failed separator or item after the minimum was reached returned
Success and dropped the errors of items or separators that had recovered.
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 6a6ecdfd29fce2059ac216f1f7fe05431a2ad29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 02/11] fix: Result::try_map keeps the errors of a recovered
 result

A recovered result whose output was mapped successfully turned into Success.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From 2d40cbf0b455a394b58c07f058ca41b5a27e5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 03/11] fix: try_map gives its tokens back when it may not
 recover

A mapping function that recovers, called with recovery disabled, failed
without restoring the stream.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 8407e57e559b7224622a3d97c23c20de91dfcbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 04/11] fix: alternatives report the failure that got furthest

When the errors of the furthest alternative cannot be merged into, the next
failure in line was returned instead of it.
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 2adf7bbebd5f27a024336cf3b38c6a91b25846f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 05/11] fix: advance_to() does not move past a buffered end of
 input

The EOF sentinel in the buffer was counted as a token.
---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..08a5e5c 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -343,8 +343,10 @@ where
         let mut amount = index - self.index;
 
         // Determine how many tokens we can advance by without refilling the
-        // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // buffer, and do that. The EOF sentinel at the back of the buffer is
+        // not a token we can advance past.
+        let buffered_tokens = self.buffer.len() - usize::from(self.source_at_eof);
+        let already_buffered = usize::min(buffered_tokens - self.index_in_buffer, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 0d712fe048a46744b75fa3c6f696d128510b83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 06/11] fix: save_at() keeps the current position in the buffer

Reading ahead could drop the tokens up to the saved position, after which the
old cursor was put back verbatim.
---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 08a5e5c..89c3dda 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,12 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        // The current position must be saved as well: advancing may otherwise
+        // drop the tokens in between from the buffer.
+        let current = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&current);
         state
     }
 
-- 
2.43.0


From 76e2134fd03bf907f788b07b59a18e47a41446ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 07/11] fix: location_tracker_at() works for the position after
 the buffered tokens

A position saved there panicked when asked for after moving back.
---
 src/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 89c3dda..a10fed4 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -276,7 +276,10 @@ where
 
         // Return the requested token from the buffer.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From f3bbf0ead8f2c21bc52eaa3eb14a49c2438d115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 08/11] fix: a leading separator is accepted even if no items
 are parsed

Documented on SeparatedBy::allow_leading(), but only done in combination with
allow_trailing().
---
 src/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..f32e891 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -256,8 +256,9 @@ where
                         // We've already matched enough, we're done. We may
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
+                        // A leading separator is allowed without items.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 241d5aaea6c910d6c985eb95a74b4d1b7cbb59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 09/11] fix: recovery accepts failures that report token index
 0

Parser::parse_internal() documents 0 as the index if nothing matched; at any
later position this made save_at() panic.
---
 src/combinator.rs | 2 +-
 src/recovery.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index d3c2e11..c2f0726 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -697,7 +697,7 @@ where
                     parser::Result::Failed(last_token_matched, errors)
                 } else {
                     let started_at = stream.save();
-                    let mut failed_at = stream.save_at(last_token_matched);
+                    let mut failed_at = stream.save_at(last_token_matched.max(stream.index()));
                     let recovery = recovery::Recover::recover(
                         &self.strategy,
                         &self.parser,
diff --git a/src/recovery.rs b/src/recovery.rs
index b83d034..edc420e 100644
--- a/src/recovery.rs
+++ b/src/recovery.rs
@@ -957,7 +957,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(i.max(stream.index()));
                     None
                 }
             })
@@ -1041,7 +1041,7 @@ where
                     if !self.silent {
                         errors.extend(es);
                     }
-                    *failed_at = stream.save_at(i);
+                    *failed_at = stream.save_at(i.max(stream.index()));
                     None
                 }
             })
-- 
2.43.0


From 92bdfa22d6475d1e2421dc9a078818af170957d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 10/11] fix: just() returns the incoming token

As documented; it returned a clone of the expected token, which may differ in
what PartialEq ignores.
---
 src/primitive.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 51cc36c..fff9ec5 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -169,22 +169,23 @@ where
         _enable_recovery: bool,
     ) -> parser::Result<Self::Output, E> {
         // Match the incoming token.
-        let found = stream.token();
-        if found == Some(&self.expected) {
-            // Matched successfully, skip past it and return success.
-            stream.advance();
-            parser::Result::Success(self.expected.clone())
-        } else {
-            // Construct error message.
-            let found = found.cloned();
-            parser::Result::Failed(
-                stream.index(),
-                vec![E::expected_found(
-                    [Some(self.expected.clone())],
-                    found,
-                    error::At::Span(stream.span()),
-                )],
-            )
+        match stream.token().cloned() {
+            Some(found) if found == self.expected => {
+                // Matched successfully, skip past it and return success.
+                stream.advance();
+                parser::Result::Success(found)
+            }
+            found => {
+                // Construct error message.
+                parser::Result::Failed(
+                    stream.index(),
+                    vec![E::expected_found(
+                        [Some(self.expected.clone())],
+                        found,
+                        error::At::Span(stream.span()),
+                    )],
+                )
+            }
         }
     }
 }
-- 
2.43.0


From 47635b96d79df6a7059227c017229658cc9a29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 11/11] fix: repetitions do not allocate for items not yet
 parsed

at_least(usize::MAX) panicked with a capacity overflow, and other large
minimums allocated memory before anything was parsed.
---
 src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index f32e891..b133b81 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -178,7 +178,7 @@ where
     let mut recovery: Option<Vec<C::Error>> = None;
 
     // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    let mut output = Vec::new();
 
     // Parse items.
     loop {
-- 
2.43.0

