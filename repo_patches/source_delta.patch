From a85ed3322c9413a21b0b6625b119f12339d9c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:37 +0000
Subject: [PATCH] fix: squeeze keys longer than one 96-byte block instead of
 panicking

The derived key was copied out of the squeeze buffer inside the block loop,
before the later blocks had been produced, so any key length above 96 bytes
sliced past the end of the buffer and panicked. Copy once all blocks are there.
---
 src/lyra2.rs        | 4 ++--
 src/lyra2mod/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
diff --git a/src/lyra2mod/mod.rs b/src/lyra2mod/mod.rs
index cc7d36c..e52dd4a 100644
--- a/src/lyra2mod/mod.rs
+++ b/src/lyra2mod/mod.rs
@@ -151,10 +151,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0

