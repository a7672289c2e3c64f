From 5bc715de2f0034a075ef07b66e83aeeccb313554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:37 +0000
Subject: [PATCH 01/25] fix: ignore flags of commands that were not selected

The flag lookup started at the element the parser cursor points to, even
if the path of that element was not entered entirely. Flags of a command
were thus accepted although the command was never selected.
---
 lib/osi/src/args/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..7d48457 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,9 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        // If the path of the pointed element was not entered entirely, the
+        // element is a mere anchor and its flags are not in scope.
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From 648f5af185405f1bb56bfb72d0db3f7f99ee643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:37 +0000
Subject: [PATCH 02/25] fix: report unknown short flags without the leading
 dash

The documentation of the error promises the flags without their leading
dash, but the whole argument was reported.
---
 lib/osi/src/args/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 7d48457..184cc9f 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -480,7 +480,14 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off a well-defined UTF-8 sequence,
+                        //         which is allowed for `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0


From b6feaae465ee45eefd279fe0df81a83522594a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:10 +0000
Subject: [PATCH 03/25] fix: finalize SHA-256 messages that leave one byte in
 the chunk

A message with a length of 63 modulo 64 fills the chunk with the
terminating 1-bit. The chunk was not committed in that case, and the
padding computation then failed.
---
 lib/osi/src/hash/sha256.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..f91c811 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -228,12 +228,9 @@ impl crate::hash::Engine for Engine {
         // implemented algorithm.
         let total: u64 = self.total.checked_mul(8).unwrap();
 
-        // Stream buffer is immediately committed when full, so there
-        // must always be remaining space. Push a final 1-bit and pad with
-        // 0-bits until the next byte boundary.
-        assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        // Push a final 1-bit and pad with 0-bits until the next byte boundary.
+        // This commits the chunk if it takes up its last byte.
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From 28ff918022e5c7f9ddbd41ff531a5748043985bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:12 +0000
Subject: [PATCH 04/25] fix: seed Xoshiro256++ with distinct values

The array repetition evaluated the generator once, and thus filled all
four words of the state with the same value.
---
 lib/osi/src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..29da626 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,7 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([mix.next64(), mix.next64(), mix.next64(), mix.next64()])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From d5809f0bb5c010da3d23f05ffa371c85176fc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:04 +0000
Subject: [PATCH 05/25] fix: make the natural sort order transitive

Digit runs were compared by value only if both fit into 64 bits and
consist of ASCII digits, and as text otherwise. Mixing the two orders
yields cycles, for instance 9 < 10 < 100000000000000000000 < 9. Compare
runs of ASCII digits by value regardless of their length, and treat
other numeric characters as text.
---
 lib/osi/src/str.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..d73ba77 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -31,13 +31,13 @@ pub fn cmp_natural(
 
         // Split off non-digit prefix.
         let (name, rem) = rem.split_at(
-            rem.find(|v: char| v.is_numeric())
+            rem.find(|v: char| v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
         // Split off digit-only prefix.
         let (number, rem) = rem.split_at(
-            rem.find(|v: char| !v.is_numeric())
+            rem.find(|v: char| !v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
@@ -50,8 +50,8 @@ pub fn cmp_natural(
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
+        let l_val = l_num.trim_start_matches('0');
+        let r_val = r_num.trim_start_matches('0');
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +60,15 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
+        // Compare the digit-only prefix by its numeric value. Without leading
+        // zeros, this is the order by length, then by digits. Note that
+        // different strings can have the same value, so even if both values
         // are equal, we have to continue comparing their original string
         // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        match l_val.len().cmp(&r_val.len()).then_with(|| l_val.cmp(r_val)) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From 2c7a3b1418171b1e8e498e05856c615e3e7d5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 06/25] fix: map uncommitted data of vectors behind the
 committed data

Mapped writes addressed the vector from its start, while commits extend it at
its end. Writing to a vector with content overwrote that content and then
exposed uninitialized memory. Sizes that cannot be allocated now yield the
documented error instead of a panic.
---
 lib/tmp/src/io/map.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..18dcaf1 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -181,15 +181,10 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
+        if self.try_reserve(end).is_err() {
+            return Flow::Break(Some(Error::Exceeded));
         }
 
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
-
-        Flow::Continue(&mut slice[idx..end])
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From 35ccec9dad7cc59e77dadffbb64f68f18a46f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 07/25] fix: write iterators to the start of the mapping

A mapping can be longer than requested. In that case the data was written to
the end of the mapping, rather than to the requested position.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 18dcaf1..f9dd825 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for v in &mut map[..n] {
+                v.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From 1d92744b650b646e288c5c20915b47d4cf0113d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 08/25] fix: support all alignment exponents in mapped writes

The alignment was calculated as 32-bit signed integer. Exponents of 31 and
above produced wrong alignments or a panic.
---
 lib/tmp/src/io/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index f9dd825..d5041a7 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -144,7 +144,8 @@ pub trait Write {
     }
 
     fn align_exp2(&mut self, idx: &mut usize, exp: u8) -> Flow<Option<Error>> {
-        match idx.checked_next_multiple_of((1 << exp) as usize) {
+        let alignment = 1usize.checked_shl(exp.into());
+        match alignment.and_then(|v| idx.checked_next_multiple_of(v)) {
             None => Flow::Break(Some(Error::Overflow)),
             Some(v) => self.zero(idx, v.strict_sub(*idx)),
         }
-- 
2.43.0


From a26cc75fe44c02e2b6172560f841daf00a1606bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:35 +0000
Subject: [PATCH 09/25] fix: treat the maximum as hint when mapping vectors for
 writing

The vector reserved the maximum, which is documented to be a mere hint with
`usize::MAX` as valid value. Such calls panicked.
---
 lib/tmp/src/io/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..8170e76 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -258,7 +258,9 @@ impl Write for alloc::vec::Vec<u8> {
     }
 
     fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+        if self.try_reserve(min).is_err() {
+            return Flow::Break(More { min: min, max: max });
+        }
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 0be623f96721462bc5c9a7edc2e1ce86701d818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:42 +0000
Subject: [PATCH 10/25] fix: reject unescaped U+001f in JSON strings

Strings have to escape U+0000 through U+001f, but the last of them was
accepted without notice.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..831c0dd 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From 0948560869255da152f308813831c18fc0967a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:42 +0000
Subject: [PATCH 11/25] fix: do not repeat string data in front of unescaped
 characters

If an unescaped control character followed an escape sequence, the data
between them was added to the decoded string twice.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 831c0dd..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From 5d10a32715561011081ea017549a8b39640cba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:05 +0000
Subject: [PATCH 12/25] fix: finish open JSON tokens when the stream is
 completed

Completing the tokenizer returned the same token again and again, cut
off the last digits of numbers, and panicked if a number had to be
reported behind its error. Hence, the documented loop until `None` did
not end. Consume the token on completion, close the last range of a
number, and report the number that was diagnosed.
---
 lib/tmp/src/fmt/json/token.rs | 46 +++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..a5ec94c 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -769,21 +769,53 @@ impl<'read> Dec<'read> {
 
             None
         } else {
-            let Flow::Continue(map) = self.read.map(self.inner.idx, None) else {
-                self.inner.done = Some(self.inner.idx);
+            let idx = self.inner.idx;
+            let Flow::Continue(map) = self.read.map(idx, None) else {
+                self.inner.done = Some(idx);
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
+            let map = &map[..idx];
 
-            match self.inner.state {
+            match &mut self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number { integer, fraction, exponent, .. } => {
+                    // The data ended in the last range.
+                    if exponent.start != 0 {
+                        exponent.end = idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = idx;
+                    } else {
+                        integer.end = idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
+                &mut State::NumberDone {
+                    sign,
+                    ref integer,
+                    ref fraction,
+                    exponent_sign,
+                    ref exponent,
+                } => {
+                    let (integer, fraction, exponent) =
+                        (integer.clone(), fraction.clone(), exponent.clone());
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer, fraction, exponent_sign, exponent,
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 4240dc86f2c4f417dbec1a477f89762d2591db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:05 +0000
Subject: [PATCH 13/25] fix: expect a separator behind primitive JSON values

The position in the grammar did not change with primitive values. Hence,
commas behind them were refused, but values without comma accepted.
---
 lib/tmp/src/fmt/json/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..9351b60 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -97,6 +97,12 @@ impl DecInner {
         _token: Token<'token>,
     ) -> Item<'token> {
         // XXX:
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         Item::Prim
     }
 
-- 
2.43.0


From 18e96c1434c535e70367b41c9537fcd853022a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:05 +0000
Subject: [PATCH 14/25] fix: accept empty JSON objects

---
 lib/tmp/src/fmt/json/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 9351b60..404b078 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -208,7 +208,7 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
-- 
2.43.0


From ef671e73384ced43d47ac9a2945ce6ac1ba3fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:05 +0000
Subject: [PATCH 15/25] fix: report keys of JSON objects as keys

---
 lib/tmp/src/fmt/json/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 404b078..6a30516 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -213,7 +213,7 @@ impl DecInner {
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(Item::Key) },
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -269,7 +269,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(Item::Key) },
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From e1228cc51a00f3720f847516e49716d6c2ef5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 16/25] fix: report the length of long D-Bus signatures
 correctly

Signatures of more than 31 elements were reported with six times their
length, and cursors went beyond the last element.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..04bcd94 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From 2b53d7f88101be48710cbc338c4eedba849e33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 17/25] fix: do not loop forever on padding of D-Bus signatures

The index was never advanced when clearing trailing padding of the data
buffer.
---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 04bcd94..13027ee 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -743,9 +743,10 @@ impl Sig {
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From 08c2f6772cde0538d418995d2f21ab0dc2a17477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 18/25] fix: refuse data buffers that do not fit the D-Bus
 signature

Buffers that are too small caused a panic rather than the documented
error. With buffers that are too big, surplus nodes were left
uninitialized, yet considered part of the signature.
---
 lib/tmp/src/fmt/dbus/signature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 13027ee..e52814b 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -459,6 +459,10 @@ macro_rules!
             if signature.len() < 1 {
                 return Err(Error::SignatureEmpty);
             }
+            // Ensure all nodes will be initialized.
+            if signature.len() != nodes.len() {
+                return Err(Error::DataExceeded);
+            }
 
             while signature_idx < signature.len() {
                 let mut this_idx: $int;
-- 
2.43.0


From 2151d8d52ca13d52121fe8a98d4dbf2e4cb259e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 19/25] fix: report the container of mispaired D-Bus elements

The index was calculated from the offset of the container, rather than
the offset of the closing element, and thus pointed at unrelated
elements.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index e52814b..4c8e497 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -546,7 +546,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From 1b00fb855642ffda1db6f112b7dc24d55d3dac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 20/25] fix: clamp explicit moves of D-Bus signature cursors

The index of a cursor is documented to never exceed the length of the
signature. Moving it further broke the iterator.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 4c8e497..7076a96 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1110,7 +1110,7 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        self.idx = core::cmp::min(idx, self.sig.len());
         self
     }
 
-- 
2.43.0


From e72a53971abdaeaa048bb95579c9e730769ccc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:54 +0000
Subject: [PATCH 21/25] fix: remember the end of arrays when decoding D-Bus
 data

The length of an array was compared with the position in the data, so
the presence of further elements was reported wrongly.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..bee61c0 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,8 +687,11 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        let Some(end) = level.idx.checked_add(self.format.de_u32(len_u) as usize) else {
+            return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow)));
+        };
+        level.meta = end;
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From ae4da99f4bc6d6b9f1d203419c1ebfafd7645845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:11 +0000
Subject: [PATCH 22/25] fix: limit allocations when decoding D-Bus strings

The announced length of a string was used to allocate the buffer before
checking whether the data is present. A message of a few bytes could
thus request up to 4 GiB of memory.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index bee61c0..b7aa79b 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -639,12 +639,18 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         Self::read(self.read, &mut idx, &mut len_u)?;
         let len = self.format.de_u32(len_u) as usize;
 
-        // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        // Read the string. Do not trust the length for allocations, but grow
+        // the buffer with the data that is actually available.
+        let mut buffer = alloc::vec::Vec::new();
+        while buffer.len() < len {
+            let rem = len - buffer.len();
+            let map = self.read.map(idx, rem)
+                .map_break(|v| v.map(dbus::Error::from))?;
+            let n = core::cmp::min(map.len(), rem);
+            assert!(n > 0);
+            buffer.extend_from_slice(&map[..n]);
+            idx += n;
+        }
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From 70f303f17b716b83b6f63260acd21dc9db3ef103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:31 +0000
Subject: [PATCH 23/25] fix: use the right magic for PE32+ optional headers

The magic of the PE32+ format is 0x020b. The value of PE32 was used, so
the two formats could not be told apart.
---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..780d89d 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From da434ede48423c480a2d481d2c7f1c7f84f76dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:31 +0000
Subject: [PATCH 24/25] fix: correct the PE subsystem numbers

The numbers from 10 on were taken from the decimal numbers of the PE
specification, but written as hexadecimal numbers.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 780d89d..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From c99db9ee716b62fb411fc3d8ae3456fadb65be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:59 +0000
Subject: [PATCH 25/25] fix: correct the ELF machine numbers from 163 to 168

EM_TRIMEDIA repeated the number of EM_R32C, and all machines up to
EM_ECOG1 were thus off by one.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0

