From ec82964bdb6f7007c6b9fda946bb8e216b8e7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/62] fix: encode fixed-length optional fields of composite
 keys at their full length

Option<T> of a fixed-length type reports LENGTH = 1 + T::LENGTH but encodes
None as a single byte, so a composite key containing None could not be decoded
(or decoded the following fields from the wrong offset).
---
 crates/bonsaidb-core/src/key.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index e16d0c1..95bfd22 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1366,7 +1366,13 @@ where
             self.encoded_lengths.push(encoded_length);
         }
         self.bytes.extend_from_slice(&encoded);
-        if T::LENGTH.is_none() {
+        if let Some(length) = T::LENGTH {
+            // Some fixed-length types use a shorter encoding for certain values
+            // when encoded on their own (e.g., `Option::None`). Within a
+            // composite key, every value must occupy its full length.
+            let padding = length.saturating_sub(encoded.len());
+            self.bytes.resize(self.bytes.len() + padding, 0);
+        } else {
             // With variable length data, we need the key to have a delimiter to
             // ensure that "a" sorts before "aa".
             self.bytes.push(0);
-- 
2.43.0


From 048443a1b1a7a05d5116fadf799a2219ff1ec71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 02/62] fix: the next value of a None key is the first Some
 value

Option::next_value returned None for None, which is not a larger key.
---
 crates/bonsaidb-core/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index 95bfd22..fed668f 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -2169,7 +2169,11 @@ where
     }
 
     fn next_value(&self) -> Result<Self, NextValueError> {
-        self.as_ref().map(T::next_value).transpose()
+        match self {
+            Some(value) => value.next_value().map(Some),
+            // `None` sorts before every other value.
+            None => Self::first_value(),
+        }
     }
 }
 
-- 
2.43.0


From 96f4ff7bf769ca2f234ef0dd17b422b88ad6d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 03/62] fix: convert the minimum value of i64-based limited
 resolution durations exactly

---
 crates/bonsaidb-core/src/key/time.rs | 30 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c3f78ea..4fb56fe 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -531,6 +531,18 @@ pub mod limited {
 
     const I64_MIN_ABS_AS_U64: u64 = 9_223_372_036_854_775_808;
 
+    /// Returns `-magnitude` if it can be represented, including the
+    /// representation's minimum value.
+    fn negative_repr<Representation>(magnitude: u128) -> Result<Representation, TimeError>
+    where
+        Representation: TryFrom<i128>,
+    {
+        i128::try_from(magnitude)
+            .ok()
+            .and_then(|magnitude| Representation::try_from(-magnitude).ok())
+            .ok_or(TimeError::DeltaNotRepresentable)
+    }
+
     impl TimeResolution for Nanoseconds {
         type Representation = i64;
 
@@ -585,7 +597,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_micros(positive)))
             }
         }
@@ -598,9 +610,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_micros())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(rounded_up.as_micros())
                 }
             }
         }
@@ -624,7 +634,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_millis(positive)))
             }
         }
@@ -637,9 +647,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999_999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_millis())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(rounded_up.as_millis())
                 }
             }
         }
@@ -663,7 +671,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_secs(positive)))
             }
         }
@@ -677,9 +685,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999_999_999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_secs())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(u128::from(rounded_up.as_secs()))
                 }
             }
         }
-- 
2.43.0


From 3837ea76030e6ccd1751f170acf623258053d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 04/62] fix: truncate negative durations to minutes through
 weeks without losing subseconds, overflowing or saturating

---
 crates/bonsaidb-core/src/key/time.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 4fb56fe..8800076 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -543,6 +543,17 @@ pub mod limited {
             .ok_or(TimeError::DeltaNotRepresentable)
     }
 
+    /// Returns the number of units needed to cover `duration`, including any
+    /// fraction of a second.
+    fn units_rounded_up(duration: Duration, seconds_per_unit: u64) -> u128 {
+        let whole = u128::from(duration.as_secs() / seconds_per_unit);
+        if duration.as_secs() % seconds_per_unit > 0 || duration.subsec_nanos() > 0 {
+            whole + 1
+        } else {
+            whole
+        }
+    }
+
     impl TimeResolution for Nanoseconds {
         type Representation = i64;
 
@@ -715,9 +726,9 @@ pub mod limited {
             match duration {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / 60)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
-                SignedDuration::Negative(duration) => i32::try_from((duration.as_secs() + 59) / 60)
-                    .map(|repr| -repr)
-                    .map_err(|_| TimeError::DeltaNotRepresentable),
+                SignedDuration::Negative(duration) => {
+                    negative_repr(units_rounded_up(duration, 60))
+                }
             }
         }
     }
@@ -752,9 +763,7 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(units_rounded_up(duration, FACTOR))
                 }
             }
         }
@@ -790,8 +799,7 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    Ok(i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map_or(i32::MIN, |repr| -repr))
+                    negative_repr(units_rounded_up(duration, FACTOR))
                 }
             }
         }
@@ -827,9 +835,7 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(units_rounded_up(duration, FACTOR))
                 }
             }
         }
-- 
2.43.0


From 763b35389cb983a9c83ab779797367a3701210f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 05/62] fix: the sum of no durations is zero

---
 crates/bonsaidb-core/src/key/time.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 8800076..d49c4c5 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -284,8 +284,10 @@ pub mod limited {
 
     impl iter::Sum<SignedDuration> for Option<SignedDuration> {
         fn sum<I: Iterator<Item = SignedDuration>>(mut iter: I) -> Self {
-            let first = iter.next();
-            iter.fold(first, |sum, duration| {
+            let first = iter
+                .next()
+                .unwrap_or(SignedDuration::Positive(Duration::ZERO));
+            iter.fold(Some(first), |sum, duration| {
                 sum.and_then(|sum| sum.checked_add(duration))
             })
         }
@@ -439,7 +441,10 @@ pub mod limited {
         fn sum<I: Iterator<Item = LimitedResolutionDuration<Resolution>>>(mut iter: I) -> Self {
             let first = iter
                 .next()
-                .and_then(|dur| Resolution::repr_to_duration(dur.representation).ok());
+                .map_or(Ok(SignedDuration::Positive(Duration::ZERO)), |dur| {
+                    Resolution::repr_to_duration(dur.representation)
+                })
+                .ok();
             let duration = iter.fold(first, |sum, dur| {
                 sum.and_then(|sum| {
                     Resolution::repr_to_duration(dur.representation)
-- 
2.43.0


From afc9a92ac6fd15fd0ac2c6148b970f70be9b872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 06/62] fix: report system times before the unix epoch as
 errors

---
 crates/bonsaidb-core/src/key/time.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index d49c4c5..c20a87a 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -88,7 +88,9 @@ impl KeyEncoding<Self> for SystemTime {
     }
 
     fn as_ord_bytes(&self) -> Result<Cow<'_, [u8]>, Self::Error> {
-        let since_epoch = self.duration_since(UNIX_EPOCH).unwrap();
+        let since_epoch = self
+            .duration_since(UNIX_EPOCH)
+            .map_err(|_| TimeError::DeltaNotRepresentable)?;
         match since_epoch.as_ord_bytes()? {
             Cow::Owned(bytes) => Ok(Cow::Owned(bytes)),
             Cow::Borrowed(_) => unreachable!(),
@@ -1074,7 +1076,8 @@ pub mod limited {
 
     impl AnyTimestamp for SystemTime {
         fn duration_since_unix_epoch(&self) -> Result<Duration, TimeError> {
-            Ok(self.duration_since(UNIX_EPOCH).unwrap())
+            self.duration_since(UNIX_EPOCH)
+                .map_err(|_| TimeError::DeltaNotRepresentable)
         }
     }
 
-- 
2.43.0


From db9ee6101db95c7b14c253391e9e332e7a9c5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 07/62] fix: keep timestamps normalised when adding a duration,
 and saturate at the maximum

---
 crates/bonsaidb-core/src/keyvalue/timestamp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue/timestamp.rs b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
index 82dc9b9..27cf2f6 100644
--- a/crates/bonsaidb-core/src/keyvalue/timestamp.rs
+++ b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
@@ -66,12 +66,12 @@ impl std::ops::Add<Duration> for Timestamp {
 
     fn add(self, rhs: Duration) -> Self::Output {
         let mut nanos = self.nanos + rhs.subsec_nanos();
-        let mut seconds = self.seconds.saturating_add(rhs.as_secs());
-        while nanos > 1_000_000_000 {
+        let mut seconds = self.seconds.checked_add(rhs.as_secs());
+        while nanos >= 1_000_000_000 {
             nanos -= 1_000_000_000;
-            seconds = seconds.saturating_add(1);
+            seconds = seconds.and_then(|seconds| seconds.checked_add(1));
         }
-        Self { seconds, nanos }
+        seconds.map_or(Self::MAX, |seconds| Self { seconds, nanos })
     }
 }
 
-- 
2.43.0


From dfaefe76d80bf6fefbae5c8a4f4b4f7683218a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 08/62] fix: report unescaped null bytes in composite keys as
 an error

---
 crates/bonsaidb-core/src/key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index fed668f..fc08865 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1569,8 +1569,10 @@ impl CompositeKeyNullHandler for EscapeNullBytes {
                     bytes.remove(index);
                     index = next_index;
                 } else {
-                    todo!("error: unescaped null byte")
-                    // return Err(CompositeKeyError::new("unescaped null byte encountered"));
+                    return Err(CompositeKeyError::new(io::Error::new(
+                        ErrorKind::InvalidData,
+                        "unescaped null byte encountered",
+                    )));
                 }
 
                 // Find the next null byte, if one exists.
-- 
2.43.0


From f088cce39c918bfc4d7d7c5881c55a8ddd208661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 09/62] fix: check the field lengths of malformed composite
 keys

---
 crates/bonsaidb-core/src/key.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index fc08865..43860bc 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1703,13 +1703,21 @@ where
 
             let bytes = self.bytes.as_ref();
 
-            let iterator = bytes[self.offset..self.end]
+            let iterator = bytes
+                .get(self.offset..self.end)
+                .unwrap_or_default()
                 .iter()
                 .copied()
                 .rev()
                 .enumerate();
 
             for (index, byte) in iterator {
+                // The encoder never writes lengths larger than a u16.
+                if index > 2 {
+                    return Err(CompositeKeyError::new(io::Error::from(
+                        ErrorKind::InvalidData,
+                    )));
+                }
                 length |= usize::from(byte & 0x7f) << (index * 7);
 
                 if byte & 0x80 == 0 {
-- 
2.43.0


From d311392a104ab9e54397c5c4b1ba06bca5b1a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 10/62] fix: report truncated fields in deprecated composite
 keys as an error

---
 crates/bonsaidb-core/src/key/deprecated.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bonsaidb-core/src/key/deprecated.rs b/crates/bonsaidb-core/src/key/deprecated.rs
index e602a29..ec77a7c 100644
--- a/crates/bonsaidb-core/src/key/deprecated.rs
+++ b/crates/bonsaidb-core/src/key/deprecated.rs
@@ -71,6 +71,11 @@ pub fn decode_composite_field<'a, 'k, T: Key<'k>>(
         usize::try_from(u64::decode_variable(&mut bytes)?)?
     };
 
+    if length > bytes.len() {
+        return Err(CompositeKeyError::new(std::io::Error::from(
+            ErrorKind::UnexpectedEof,
+        )));
+    }
     let (t2, remaining) = bytes.split_at(length);
     Ok((
         T::from_ord_bytes(ByteSource::Ephemeral(t2)).map_err(CompositeKeyError::new)?,
-- 
2.43.0


From 37f684952422c52bf2ce5917eacab4e86545fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 11/62] fix: refuse durations encoded with more than a second
 of nanoseconds

---
 crates/bonsaidb-core/src/key/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c20a87a..18d48ab 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -15,6 +15,9 @@ impl<'k> Key<'k> for Duration {
         let merged = u128::decode_variable(bytes.as_ref()).map_err(|_| TimeError::InvalidValue)?;
         let seconds = u64::try_from(merged >> 30).map_err(|_| TimeError::DeltaNotRepresentable)?;
         let nanos = u32::try_from(merged & (2_u128.pow(30) - 1)).unwrap();
+        if nanos >= 1_000_000_000 {
+            return Err(TimeError::InvalidValue);
+        }
         Ok(Self::new(seconds, nanos))
     }
 }
-- 
2.43.0


From ed57e292a47c4805471076a2c4ec0dff2c9edd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 12/62] fix: deserialize the end of a range from its end

---
 crates/bonsaidb-core/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/connection.rs b/crates/bonsaidb-core/src/connection.rs
index c4e34e8..3c45bd8 100644
--- a/crates/bonsaidb-core/src/connection.rs
+++ b/crates/bonsaidb-core/src/connection.rs
@@ -2507,7 +2507,7 @@ impl Range<Bytes> {
     ) -> Result<Range<T>, <T as KeyEncoding<T>>::Error> {
         Ok(Range {
             start: self.start.deserialize()?,
-            end: self.start.deserialize()?,
+            end: self.end.deserialize()?,
         })
     }
 }
-- 
2.43.0


From 96735d66e678b63fc9500b914c2be5653209f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 13/62] fix: print document ids containing a dollar sign so
 that they parse back

---
 crates/bonsaidb-core/src/document/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..551ca33 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,11 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // `$` introduces the hexadecimal format when parsing.
+            if string
+                .bytes()
+                .all(|b| (32..=127).contains(&b) && b != b'$')
+            {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From 341f7bb5fd6790e3e90aa0b66ec3137e0f96a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 14/62] fix: enforce the maximum document id length when
 parsing and deserializing

---
 crates/bonsaidb-core/src/document/id.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 551ca33..e340013 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -137,11 +137,10 @@ impl FromStr for DocumentId {
 
             let mut id = TinyVec::new();
             decode_big_endian_hex(&bytes[pound_offset + 1..], &mut id)?;
+            if preceding_zeroes + id.len() > Self::MAX_LENGTH {
+                return Err(crate::Error::DocumentIdTooLong);
+            }
             if preceding_zeroes > 0 {
-                let total_length = preceding_zeroes + id.len();
-                if total_length > Self::MAX_LENGTH {
-                    return Err(crate::Error::DocumentIdTooLong);
-                }
                 // The full length indicated a longer ID, so we need to prefix some null bytes.
                 id.splice(0..0, std::iter::repeat(0).take(preceding_zeroes));
             }
@@ -300,7 +299,7 @@ impl<'de> Visitor<'de> for DocumentIdVisitor {
     where
         E: serde::de::Error,
     {
-        Ok(DocumentId(TinyVec::from(v)))
+        DocumentId::try_from(v).map_err(E::custom)
     }
 }
 
-- 
2.43.0


From df7f80bc14a623b2d45f30219e24fe1c6ae07e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 15/62] fix: deserialize document ids from formats that
 represent bytes as sequences

---
 crates/bonsaidb-core/src/document/id.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index e340013..62427fa 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -301,6 +301,17 @@ impl<'de> Visitor<'de> for DocumentIdVisitor {
     {
         DocumentId::try_from(v).map_err(E::custom)
     }
+
+    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+    where
+        A: serde::de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::new();
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        self.visit_bytes(&bytes)
+    }
 }
 
 impl<'k> Key<'k> for DocumentId {
-- 
2.43.0


From b3c2a54e589980a33c1d98df04fbe95293570b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 16/62] fix: count only the documents inside the requested id
 range

Reducing a range with an end bound and no start bound counted keys outside
of the range. Bounded ranges are now counted key by key.
---
 crates/bonsaidb-local/src/database.rs | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..908157b 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1373,10 +1373,34 @@ impl LowLevelConnection for Database {
             .roots
             .tree(self.collection_tree::<Versioned, _>(collection, document_tree_name(collection))?)
             .map_err(Error::from)?;
+        if matches!(
+            (&ids.start, &ids.end),
+            (connection::Bound::Unbounded, connection::Bound::Unbounded)
+        ) {
+            let stats = tree.reduce(&(..)).map_err(Error::from)?;
+            return Ok(stats.alive_keys);
+        }
+
+        // Reducing a bounded range can include keys outside of the range, so
+        // the keys must be counted individually.
         let ids = DocumentIdRange(ids);
-        let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+        let mut alive_keys = 0;
+        tree.scan::<Infallible, _, _, _, _>(
+            &ids.borrow_as_bytes(),
+            true,
+            |_, _, _| ScanEvaluation::ReadData,
+            |_, index| {
+                // Deleted documents keep their key, but have no data.
+                if index.position > 0 {
+                    alive_keys += 1;
+                }
+                ScanEvaluation::Skip
+            },
+            |_, _, _| Ok(()),
+        )
+        .map_err(Error::from)?;
 
-        Ok(stats.alive_keys)
+        Ok(alive_keys)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
-- 
2.43.0


From 24f048ee8957fb4f2ca2c6ff4dab4928ea6cfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 17/62] fix: don't count deleted documents towards a listing's
 limit

---
 crates/bonsaidb-local/src/database.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 908157b..3182e76 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1259,7 +1259,13 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                // Deleted documents keep their key, but have no data. They
+                // must not count towards the limit.
+                if index.position == 0 {
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1322,7 +1328,13 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                // Deleted documents keep their key, but have no data. They
+                // must not count towards the limit.
+                if index.position == 0 {
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From 7491ed72df8dc39ad744622884a87c707caa1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 18/62] fix: wait for key-value changes to be persisted when
 closing

If a commit was already in progress when the last handle was dropped, the
keys changed since it began were never written.
---
 .../bonsaidb-local/src/database/keyvalue.rs   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..62e1533 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,14 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // If keys are already being persisted, the persisting thread will also
+        // persist the remaining dirty keys before notifying us. A thread that
+        // failed has released its reference to the keys.
+        let persisting = self
+            .keys_being_persisted
+            .as_ref()
+            .map_or(false, |keys| Arc::strong_count(keys) > 1);
+        if persisting || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
@@ -666,7 +673,17 @@ impl KeyValueState {
             let state = state.clone();
             std::thread::Builder::new()
                 .name(String::from("keyvalue-persist"))
-                .spawn(move || Self::persist_keys(&state, &roots, &keys))
+                .spawn(move || {
+                    let result = Self::persist_keys(&state, &roots, &keys);
+                    if result.is_err() {
+                        // Nothing further will be persisted, so don't leave a
+                        // shutdown waiting for this thread.
+                        let mut state = state.lock();
+                        state.shutdown = None;
+                        drop(keys);
+                    }
+                    result
+                })
                 .unwrap();
             self.last_commit = Timestamp::now();
             true
@@ -733,6 +750,9 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
+        } else {
+            // Release the tree's lock, which persisting the final keys needs.
+            drop(transaction);
         }
 
         // If we are shutting down, check if we still have dirty keys.
-- 
2.43.0


From 89ba22347a222ea45d6485404113fc04f34341f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 19/62] fix: don't apply a loaded expiration to a key that was
 changed meanwhile

A key set right after the database was opened could receive the expiration
its previous value had on disk.
---
 crates/bonsaidb-local/src/database.rs          | 15 ++++++++-------
 crates/bonsaidb-local/src/database/keyvalue.rs | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 3182e76..df3f6bf 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -896,14 +896,14 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
+    pub(crate) fn load_key_expiration(
         &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
+        full_key: String,
+        entry: &keyvalue::Entry,
+    ) -> Result<(), Error> {
+        let mut state = self.data.context.key_value_state.lock();
+        state.load_key_expiration(full_key, entry)?;
+        Ok(())
     }
 
     /// Converts this instance into its blocking version, which is able to be
@@ -1751,6 +1751,7 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 62e1533..94093c0 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -426,6 +426,22 @@ impl KeyValueState {
         }
     }
 
+    /// Begins tracking the expiration of an entry read from disk, unless the
+    /// key has been changed since `entry` was read.
+    pub fn load_key_expiration(
+        &mut self,
+        full_key: String,
+        entry: &Entry,
+    ) -> Result<(), nebari::Error> {
+        let unchanged = self.get(&full_key)?.map_or(false, |current| {
+            current.last_updated == entry.last_updated && current.expiration == entry.expiration
+        });
+        if unchanged {
+            self.update_key_expiration(full_key, entry.expiration);
+        }
+        Ok(())
+    }
+
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn execute_get_operation(
         &mut self,
@@ -875,7 +891,7 @@ impl Job for ExpirationLoader {
         for ((namespace, key), entry) in database.all_key_value_entries()? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
                 self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
+                    .load_key_expiration(full_key(namespace.as_deref(), &key), &entry)?;
             }
         }
 
-- 
2.43.0


From e04a63bb972d9edbaa62b92a4f9641208f0125df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 20/62] fix: only convert floats to integers when the value is
 preserved

Numeric::as_i64 and Numeric::as_u64 returned a value for NaN, infinities and
floats outside of the integer's range, and as_u64 for fractions smaller than
f64::EPSILON.
---
 crates/bonsaidb-core/src/keyvalue.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue.rs b/crates/bonsaidb-core/src/keyvalue.rs
index 1df1b21..a80ef2f 100644
--- a/crates/bonsaidb-core/src/keyvalue.rs
+++ b/crates/bonsaidb-core/src/keyvalue.rs
@@ -548,16 +548,17 @@ impl Numeric {
     /// Returns this numeric as an `i64`. If this conversion cannot be done
     /// without losing precision or overflowing, None will be returned.
     #[must_use]
-    #[allow(clippy::cast_possible_truncation)]
+    #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
     pub fn as_i64(&self) -> Option<i64> {
         match self {
             Self::Integer(value) => Some(*value),
             Self::UnsignedInteger(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract().abs() > 0. {
-                    None
-                } else {
+                // The upper limit is 2^63, the first value that doesn't fit.
+                if value.fract() == 0. && *value >= i64::MIN as f64 && *value < -(i64::MIN as f64) {
                     Some(*value as i64)
+                } else {
+                    None
                 }
             }
         }
@@ -585,13 +586,18 @@ impl Numeric {
     /// Returns this numeric as an `u64`. If this conversion cannot be done
     /// without losing precision or overflowing, None will be returned.
     #[must_use]
-    #[allow(clippy::cast_sign_loss, clippy::cast_possible_truncation)]
+    #[allow(
+        clippy::cast_sign_loss,
+        clippy::cast_possible_truncation,
+        clippy::cast_precision_loss
+    )]
     pub fn as_u64(&self) -> Option<u64> {
         match self {
             Self::UnsignedInteger(value) => Some(*value),
             Self::Integer(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract() < f64::EPSILON && value.is_sign_positive() {
+                // `u64::MAX as f64` is 2^64, the first value that doesn't fit.
+                if value.fract() == 0. && value.is_sign_positive() && *value < u64::MAX as f64 {
                     Some(*value as u64)
                 } else {
                     None
-- 
2.43.0


From 9a8f5eb7a882f44fdc0d05bcbf4647bb30a3e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 21/62] fix: apply a view query's limit and order to every kind
 of key

The limit counted view keys instead of mappings and was ignored when
querying specific keys, and the order was ignored when querying multiple
keys.
---
 crates/bonsaidb-local/src/database.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index df3f6bf..6ec5453 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -796,12 +796,14 @@ impl Database {
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    // The entries are not returned in the order of their keys.
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+                    if !forwards {
+                        entries.reverse();
+                    }
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                 }
             }
         } else {
@@ -1506,7 +1508,13 @@ impl LowLevelConnection for Database {
         )?;
         let mut results = Vec::new();
         self.for_each_in_view(view, key, order, limit, access_policy, |entry| {
-            for mapping in entry.mappings {
+            // An entry contains every mapping that was emitted for its key.
+            let remaining = limit.map_or(usize::MAX, |limit| {
+                usize::try_from(limit)
+                    .unwrap_or(usize::MAX)
+                    .saturating_sub(results.len())
+            });
+            for mapping in entry.mappings.into_iter().take(remaining) {
                 results.push(bonsaidb_core::schema::view::map::Serialized {
                     source: mapping.source,
                     key: entry.key.clone(),
-- 
2.43.0


From 01e8c5bd64e0f94af546577f4816f870128f54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 22/62] fix: delete a document mapped to several keys only once

delete_docs_by_name added one delete for each mapping, and failed when a
document had emitted more than one of the requested keys.
---
 crates/bonsaidb-local/src/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 6ec5453..3d6f461 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1655,9 +1655,13 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        let mut deleted_ids = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                // A document may be mapped to more than one of the keys.
+                if deleted_ids.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From b58b80b7dc8ba105a4d840a1f46b0588f815acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 23/62] fix: compact collections with the encryption key they
 are stored with

---
 crates/bonsaidb-local/src/tasks/compactor.rs | 59 +++++++++++++-------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..1a82e52 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,8 +1,7 @@
-use std::borrow::Cow;
-
 use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
-use nebari::tree::{Root, Unversioned, Versioned};
+use nebari::io::any::AnyFile;
+use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
 use crate::database::{document_tree_name, DatabaseNonBlocking};
@@ -51,8 +50,8 @@ pub struct Compaction {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub enum Target {
-    VersionedTree(String),
-    UnversionedTree(String),
+    VersionedTree(CollectionName, String),
+    UnversionedTree(CollectionName, String),
     Collection(CollectionName),
     KeyValue,
     Database,
@@ -61,14 +60,24 @@ pub enum Target {
 impl Target {
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
-            Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
+            Target::UnversionedTree(collection, name) => {
+                compact_tree(
+                    database,
+                    database.collection_tree::<Unversioned, _>(&collection, name)?,
+                )
+            }
+            Target::VersionedTree(collection, name) => {
+                compact_tree(
+                    database,
+                    database.collection_tree::<Versioned, _>(&collection, name)?,
+                )
+            }
             Target::Collection(collection) => {
                 let mut trees = Vec::new();
                 gather_collection_trees(database, &collection, &mut trees);
                 compact_trees(database, trees)
             }
-            Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
+            Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
             Target::Database => {
                 let mut trees = Vec::new();
                 for collection in database.schematic().collections() {
@@ -102,16 +111,29 @@ fn gather_collection_trees(
     collection: &CollectionName,
     trees: &mut Vec<Target>,
 ) {
-    trees.push(Target::VersionedTree(document_tree_name(collection)));
-    trees.push(Target::UnversionedTree(view_versions_tree_name(collection)));
+    trees.push(Target::VersionedTree(
+        collection.clone(),
+        document_tree_name(collection),
+    ));
+    trees.push(Target::UnversionedTree(
+        collection.clone(),
+        view_versions_tree_name(collection),
+    ));
 
     for view in database.data.schema.views_in_collection(collection) {
         let name = view.view_name();
-        trees.push(Target::UnversionedTree(view_entries_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_document_map_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_invalidated_docs_tree_name(
-            &name,
-        )));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_entries_tree_name(&name),
+        ));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_document_map_tree_name(&name),
+        ));
+        trees.push(Target::UnversionedTree(
+            collection.clone(),
+            view_invalidated_docs_tree_name(&name),
+        ));
     }
 }
 
@@ -134,11 +156,8 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
     Ok(())
 }
 
-fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
-    database: &Database,
-    name: S,
-) -> Result<(), Error> {
-    let documents = database.roots().tree(R::tree(name))?;
+fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let documents = database.roots().tree(tree)?;
     documents.compact()?;
     Ok(())
 }
-- 
2.43.0


From 3263e539193fb41bb905f7c2292de1c0e7814e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 24/62] fix: don't wait for compaction jobs from within a job

---
 crates/bonsaidb-local/src/database.rs        |  6 +-
 crates/bonsaidb-local/src/tasks.rs           | 58 ++++++++------
 crates/bonsaidb-local/src/tasks/compactor.rs | 84 ++++++--------------
 3 files changed, 61 insertions(+), 87 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 3d6f461..db971c6 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1095,7 +1095,7 @@ impl Connection for Database {
         self.storage()
             .instance
             .tasks()
-            .compact_database(self.clone())?;
+            .compact_database(self)?;
         Ok(())
     }
 
@@ -1114,7 +1114,7 @@ impl Connection for Database {
         self.storage()
             .instance
             .tasks()
-            .compact_key_value_store(self.clone())?;
+            .compact_key_value_store(self)?;
         Ok(())
     }
 }
@@ -1479,7 +1479,7 @@ impl LowLevelConnection for Database {
         self.storage()
             .instance
             .tasks()
-            .compact_collection(self.clone(), collection)?;
+            .compact_collection(self, &collection)?;
         Ok(())
     }
 
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..d6c343b 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -195,37 +195,45 @@ impl TaskManager {
         }
     }
 
-    pub fn spawn_compact_target(
-        &self,
-        database: Database,
-        target: compactor::Target,
-    ) -> Handle<(), Error> {
-        self.jobs
-            .lookup_or_enqueue(Compactor::target(database, target))
-    }
-
     pub fn compact_collection(
         &self,
-        database: Database,
-        collection_name: CollectionName,
+        database: &Database,
+        collection_name: &CollectionName,
     ) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::collection(database, collection_name))
-            .receive()??)
+        self.compact_targets(
+            database,
+            compactor::Target::collection(database, collection_name),
+        )
+    }
+
+    pub fn compact_key_value_store(&self, database: &Database) -> Result<(), Error> {
+        self.compact_targets(database, vec![compactor::Target::KeyValue])
     }
 
-    pub fn compact_key_value_store(&self, database: Database) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::keyvalue(database))
-            .receive()??)
+    pub fn compact_database(&self, database: &Database) -> Result<(), Error> {
+        self.compact_targets(database, compactor::Target::database(database))
     }
 
-    pub fn compact_database(&self, database: Database) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::database(database))
-            .receive()??)
+    /// Compacts each target in its own job. This must not be called from within
+    /// a job: if every worker waited for jobs that no worker is left to
+    /// execute, they would wait forever.
+    fn compact_targets(
+        &self,
+        database: &Database,
+        targets: Vec<compactor::Target>,
+    ) -> Result<(), Error> {
+        // Enqueue all the jobs
+        let handles = targets
+            .into_iter()
+            .map(|target| {
+                self.jobs
+                    .lookup_or_enqueue(Compactor::target(database.clone(), target))
+            })
+            .collect::<Vec<_>>();
+        // Wait for them to finish.
+        for handle in handles {
+            handle.receive()??;
+        }
+        Ok(())
     }
 }
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 1a82e52..1392e67 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,4 +1,3 @@
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
 use nebari::io::any::AnyFile;
 use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
@@ -28,18 +27,6 @@ impl Compactor {
             database,
         }
     }
-
-    pub fn collection(database: Database, collection: CollectionName) -> Self {
-        Self::target(database, Target::Collection(collection))
-    }
-
-    pub fn database(database: Database) -> Self {
-        Self::target(database, Target::Database)
-    }
-
-    pub fn keyvalue(database: Database) -> Self {
-        Self::target(database, Target::KeyValue)
-    }
 }
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
@@ -52,40 +39,38 @@ pub struct Compaction {
 pub enum Target {
     VersionedTree(CollectionName, String),
     UnversionedTree(CollectionName, String),
-    Collection(CollectionName),
     KeyValue,
-    Database,
 }
 
 impl Target {
+    /// Returns the targets that make up `collection`.
+    pub fn collection(database: &Database, collection: &CollectionName) -> Vec<Self> {
+        let mut trees = Vec::new();
+        gather_collection_trees(database, collection, &mut trees);
+        trees
+    }
+
+    /// Returns the targets that make up all of `database`.
+    pub fn database(database: &Database) -> Vec<Self> {
+        let mut trees = Vec::new();
+        for collection in database.schematic().collections() {
+            gather_collection_trees(database, collection, &mut trees);
+        }
+        trees.push(Self::KeyValue);
+        trees
+    }
+
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(collection, name) => {
-                compact_tree(
-                    database,
-                    database.collection_tree::<Unversioned, _>(&collection, name)?,
-                )
-            }
-            Target::VersionedTree(collection, name) => {
-                compact_tree(
-                    database,
-                    database.collection_tree::<Versioned, _>(&collection, name)?,
-                )
-            }
-            Target::Collection(collection) => {
-                let mut trees = Vec::new();
-                gather_collection_trees(database, &collection, &mut trees);
-                compact_trees(database, trees)
-            }
+            Target::UnversionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Unversioned, _>(&collection, name)?,
+            ),
+            Target::VersionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Versioned, _>(&collection, name)?,
+            ),
             Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
-            Target::Database => {
-                let mut trees = Vec::new();
-                for collection in database.schematic().collections() {
-                    gather_collection_trees(database, collection, &mut trees);
-                }
-                trees.push(Target::KeyValue);
-                compact_trees(database, trees)
-            }
         }
     }
 }
@@ -137,25 +122,6 @@ fn gather_collection_trees(
     }
 }
 
-fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error> {
-    // Enqueue all the jobs
-    let handles = targets
-        .into_iter()
-        .map(|target| {
-            database
-                .storage()
-                .instance
-                .tasks()
-                .spawn_compact_target(database.clone(), target)
-        })
-        .collect::<Vec<_>>();
-    // Wait for them to finish.
-    for handle in handles {
-        handle.receive()??;
-    }
-    Ok(())
-}
-
 fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
     let documents = database.roots().tree(tree)?;
     documents.compact()?;
-- 
2.43.0


From d3400b9af82fd830e0b119564964b1cef1d91f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 25/62] fix: report altered encrypted data as an error

---
 crates/bonsaidb-local/src/storage.rs |  2 +-
 crates/bonsaidb-local/src/vault.rs   | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..7ca2459 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1606,7 +1606,7 @@ impl nebari::Vault for TreeVault {
             let encrypted = (header & 0b1000_0000) != 0;
             let compression = header & 0b0111_1111;
             let decrypted = if encrypted {
-                Cow::Owned(self.vault.decrypt_payload(payload, None)?)
+                Cow::Owned(self.vault.decrypt_encrypted_payload(payload, None)?)
             } else {
                 Cow::Borrowed(payload)
             };
diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index fa3dc2d..e796184 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -365,6 +365,16 @@ impl Vault {
         }
     }
 
+    /// Decrypts a payload that is known to have been encrypted.
+    #[cfg(feature = "compression")]
+    pub fn decrypt_encrypted_payload(
+        &self,
+        payload: &[u8],
+        permissions: Option<&Permissions>,
+    ) -> Result<Vec<u8>, crate::Error> {
+        self.decrypt(&VaultPayload::from_slice(payload)?, permissions)
+    }
+
     fn decrypt(
         &self,
         payload: &VaultPayload<'_>,
@@ -380,8 +390,11 @@ impl Vault {
         // TODO handle key version
         let key = match &payload.key_id {
             KeyId::Master => self.current_master_key(),
-            KeyId::Id(_) => todo!(),
-            KeyId::None => unreachable!(),
+            KeyId::Id(_) | KeyId::None => {
+                return Err(crate::Error::from(Error::Encryption(String::from(
+                    "encrypted with an unknown key",
+                ))))
+            }
         };
         Ok(key.decrypt_payload(payload)?)
     }
@@ -450,6 +463,9 @@ impl EncryptionKey {
     }
 
     pub fn decrypt_payload(&self, payload: &VaultPayload<'_>) -> Result<Vec<u8>, Error> {
+        if payload.nonce.len() != 24 {
+            return Err(Error::Encryption(String::from("invalid nonce")));
+        }
         // This is a no-op, but it will cause a compiler error if we introduce additional encryption methods
         let encrypted = match payload.encryption {
             Encryption::XChaCha20Poly1305 => {
-- 
2.43.0


From 628fee3bb59ef235b24df3d4fd0562a1afda4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 26/62] fix: don't mistake stored data for a vault header or an
 encrypted payload

---
 crates/bonsaidb-local/src/storage.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 7ca2459..e3bceec 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1590,11 +1590,11 @@ impl nebari::Vault for TreeVault {
             compressed.into_owned()
         };
 
-        let header = self.header(includes_compression);
-        if header != 0 {
-            let header = [b't', b'r', b'v', header];
-            complete.splice(0..0, header);
-        }
+        // The header is always written. Without it, data that begins with the
+        // same bytes as the header or that looks like an encrypted payload
+        // couldn't be distinguished when reading it.
+        let header = [b't', b'r', b'v', self.header(includes_compression)];
+        complete.splice(0..0, header);
 
         Ok(complete)
     }
@@ -1707,6 +1707,8 @@ impl nebari::Vault for TreeVault {
                 destination[4..8].copy_from_slice(&uncompressed_length.to_le_bytes());
                 destination
             }
+            // Data that begins like the header needs one of its own.
+            _ if payload.starts_with(b"trv") => [b"trv\0", payload].concat(),
             // TODO this shouldn't copy
             _ => payload.to_vec(),
         })
-- 
2.43.0


From b6f37a4c48b290b2a0f5ae0f9636be61586098ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 27/62] fix: report being unable to decrypt a storage as an
 error

---
 crates/bonsaidb-local/src/storage.rs |  3 +++
 crates/bonsaidb-local/src/vault.rs   | 20 +++++++++-----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index e3bceec..d784770 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -354,6 +354,9 @@ impl Storage {
             effective_session: None,
         };
 
+        // Report an error if the admin database can't be opened, for example
+        // because it is encrypted with another key.
+        storage.instance.open_roots(ADMIN_DATABASE_NAME)?;
         storage.cache_available_databases()?;
 
         storage.create_admin_database_if_needed()?;
diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index e796184..3b1fca8 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -293,17 +293,13 @@ impl Vault {
                             private,
                             &encrypted_master_keys.encapsulated_key,
                             b"",
-                        )
-                        .unwrap();
+                        )?;
 
-                    decryption_context
-                        .open_in_place_detached(
-                            &mut encrypted_master_keys.payload.0,
-                            b"",
-                            &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)
-                                .unwrap(),
-                        )
-                        .unwrap();
+                    decryption_context.open_in_place_detached(
+                        &mut encrypted_master_keys.payload.0,
+                        b"",
+                        &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)?,
+                    )?;
 
                     bincode::deserialize::<HashMap<u32, EncryptionKey>>(
                         &encrypted_master_keys.payload,
@@ -311,7 +307,9 @@ impl Vault {
                 }
             };
 
-            let current_master_key_id = *master_keys.keys().max().unwrap();
+            let current_master_key_id = *master_keys.keys().max().ok_or_else(|| {
+                Error::Initializing(String::from("no master keys were found"))
+            })?;
             Ok(Self {
                 _vault_public_key: PublicKey::from(&vault_key),
                 master_keys,
-- 
2.43.0


From 0fffe5cd1929617af5dcbef4fbc5ffcff193e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 28/62] fix: reset outdated views without racing against
 changes and compactions

---
 .../src/views/integrity_scanner.rs            | 86 ++++++++++++-------
 1 file changed, 54 insertions(+), 32 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..a59d190 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -1,13 +1,11 @@
 use std::borrow::Cow;
-use std::collections::HashSet;
 use std::convert::Infallible;
 use std::hash::Hash;
 use std::sync::Arc;
 
-use bonsaidb_core::document::DocumentId;
 use bonsaidb_core::schema::{CollectionName, ViewName};
 use nebari::io::any::AnyFile;
-use nebari::tree::{Operation, ScanEvaluation, Unversioned, Versioned};
+use nebari::tree::{AnyTreeRoot, Operation, ScanEvaluation, Unversioned, Versioned};
 use nebari::{ArcBytes, Roots, Tree};
 use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
@@ -51,11 +49,13 @@ impl Job for IntegrityScanner {
                     document_tree_name(&self.scan.collection),
                 )?)?;
 
-        let view_versions_tree = self.database.collection_tree::<Unversioned, _>(
-            &self.scan.collection,
-            view_versions_tree_name(&self.scan.collection),
-        )?;
-        let view_versions = self.database.roots().tree(view_versions_tree.clone())?;
+        let view_versions =
+            self.database
+                .roots()
+                .tree(self.database.collection_tree::<Unversioned, _>(
+                    &self.scan.collection,
+                    view_versions_tree_name(&self.scan.collection),
+                )?)?;
 
         let view_name = self.scan.view_name.clone();
         let view_version = self.scan.view_version;
@@ -71,34 +71,59 @@ impl Job for IntegrityScanner {
         let task = if version.is_current(view_version) {
             None
         } else {
-            // The view isn't the current version, queue up all documents.
-            let missing_entries = tree_keys::<Versioned>(&documents)?;
-            // When a version is updated, we can make no guarantees about
-            // existing keys. The best we can do is delete the existing files so
-            // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
-            // Add all missing entries to the invalidated list. The view
-            // mapping job will update them on the next pass.
+            // The view isn't the current version, queue up all documents. The
+            // documents are part of the transaction to ensure that none are
+            // changed while the view is being reset.
             let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
                 &self.scan.collection,
                 view_invalidated_docs_tree_name(&self.scan.view_name),
             )?;
-
-            let transaction = roots.transaction(&[invalidated_entries_tree, view_versions_tree])?;
+            let document_map_tree = self.database.collection_tree::<Unversioned, _>(
+                &self.scan.collection,
+                view_document_map_tree_name(&self.scan.view_name),
+            )?;
+            let view_entries_tree = self.database.collection_tree::<Unversioned, _>(
+                &self.scan.collection,
+                view_entries_tree_name(&self.scan.view_name),
+            )?;
+            // Opening the trees ensures that their files exist.
+            let invalidated_entries = roots.tree(invalidated_entries_tree)?;
+            let document_map = roots.tree(document_map_tree)?;
+            let view_entries = roots.tree(view_entries_tree)?;
+
+            let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
+                Box::new(view_versions),
+                Box::new(document_map.clone()),
+                Box::new(view_entries.clone()),
+                Box::new(documents.clone()),
+            ])?;
             {
                 let mut view_versions = transaction.tree::<Unversioned>(1).unwrap();
                 view_versions.set(
                     view_name.to_string().as_bytes().to_vec(),
                     ViewVersion::current_for(view_version).to_vec()?,
                 )?;
+                // When a version is updated, we can make no guarantees about
+                // existing keys. The best we can do is remove all of them so
+                // that the view starts fresh.
+                for (index, tree) in [
+                    (0, &invalidated_entries),
+                    (2, &document_map),
+                    (3, &view_entries),
+                ] {
+                    let keys = tree_keys(tree)?;
+                    if !keys.is_empty() {
+                        transaction
+                            .tree::<Unversioned>(index)
+                            .unwrap()
+                            .modify(keys, Operation::Remove)?;
+                    }
+                }
+                // Add all missing entries to the invalidated list. The view
+                // mapping job will update them on the next pass.
+                let missing_entries = tree_keys(&documents)?;
                 let mut invalidated_entries = transaction.tree::<Unversioned>(0).unwrap();
-                let mut missing_entries = missing_entries
-                    .into_iter()
-                    .map(|id| ArcBytes::from(id.to_vec()))
-                    .collect::<Vec<_>>();
-                missing_entries.sort();
                 invalidated_entries.modify(missing_entries, Operation::Set(ArcBytes::default()))?;
             }
             transaction.commit()?;
@@ -185,23 +210,20 @@ impl ViewVersion {
 
 fn tree_keys<R: nebari::tree::Root>(
     tree: &Tree<R, AnyFile>,
-) -> Result<HashSet<DocumentId>, crate::Error> {
-    let mut ids = Vec::new();
+) -> Result<Vec<ArcBytes<'static>>, crate::Error> {
+    let mut keys = Vec::new();
     tree.scan::<Infallible, _, _, _, _>(
         &(..),
         true,
         |_, _, _| ScanEvaluation::ReadData,
         |key, _| {
-            ids.push(key.clone());
+            keys.push(key.clone());
             ScanEvaluation::Skip
         },
         |_, _, _| unreachable!(),
     )?;
 
-    Ok(ids
-        .into_iter()
-        .map(|key| DocumentId::try_from(key.as_slice()))
-        .collect::<Result<HashSet<_>, bonsaidb_core::Error>>()?)
+    Ok(keys)
 }
 
 impl Keyed<Task> for IntegrityScanner {
-- 
2.43.0


From 522c06de93484a5aff30c01ea57eb5e3ab912ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 29/62] fix: back up the key-value entries of databases without
 collections

The entries were stored while iterating over the collections, which stored
them once for each collection and never for a schema without collections.
---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From 3b174b38e23f4c42fd2bfeac59a536f25b0c8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 30/62] fix: restore a database named _kv from a backup
 directory

Databases are listed from the schema's directory, in which there are no
key-value containers to skip.
---
 crates/bonsaidb-local/src/storage/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..b7a2c1d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -294,7 +294,7 @@ impl BackupLocation for Path {
 
     fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Self::Error> {
         iterate_directory(&schema_folder(self, schema), |entry, file_name| {
-            if entry.file_type()?.is_dir() && file_name != "_kv" {
+            if entry.file_type()?.is_dir() {
                 return Ok(Some(file_name));
             }
             Ok(None)
-- 
2.43.0


From cf060b5021997b661a37f9af0b4aca9031811dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 31/62] fix: encode the names of objects in backup directories

Names contain keys, namespaces and document ids. Those with a slash, or which
don't name a file, failed the backup or were written outside of the directory.
---
 crates/bonsaidb-local/src/storage/backup.rs | 58 +++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index b7a2c1d..7a7c873 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -1,3 +1,4 @@
+use std::ffi::OsStr;
 use std::fs::DirEntry;
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
@@ -276,7 +277,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(encode_file_name(name)), object)?;
 
         Ok(())
     }
@@ -311,7 +312,7 @@ impl BackupLocation for Path {
             &container_folder(self, schema, database_name, container),
             |entry, file_name| {
                 if entry.file_type()?.is_file() {
-                    return Ok(Some(file_name));
+                    return Ok(Some(decode_file_name(file_name)));
                 }
                 Ok(None)
             },
@@ -325,7 +326,18 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        let container_folder = container_folder(self, schema, database_name, container);
+        match std::fs::read(container_folder.join(encode_file_name(name))) {
+            // Names weren't always encoded, but only names that are a single
+            // path component could be stored and listed.
+            Err(err)
+                if err.kind() == ErrorKind::NotFound
+                    && Path::new(name).file_name() == Some(OsStr::new(name)) =>
+            {
+                std::fs::read(container_folder.join(name))
+            }
+            result => result,
+        }
     }
 }
 
@@ -422,6 +434,46 @@ impl<T> IoResultExt<T> for Result<T, std::io::Error> {
     }
 }
 
+/// Returns `name` as the name of a file: characters that have a meaning in
+/// paths are percent-encoded, as are names that don't name a file. Names of
+/// stored objects contain user-provided keys and ids.
+fn encode_file_name(name: &str) -> String {
+    if name.is_empty() {
+        return String::from("%");
+    }
+    let only_periods = name.chars().all(|c| c == '.');
+    let mut encoded = String::with_capacity(name.len());
+    for c in name.chars() {
+        if only_periods || c.is_ascii_control() || matches!(c, '/' | '\\' | '%') {
+            encoded.push_str(&format!("%{:02X}", u32::from(c)));
+        } else {
+            encoded.push(c);
+        }
+    }
+    encoded
+}
+
+/// Reverses [`encode_file_name()`]. Names that it doesn't return are returned
+/// unchanged, because names weren't always encoded.
+fn decode_file_name(file_name: String) -> String {
+    let mut parts = file_name.split('%');
+    let mut name = parts.next().unwrap_or_default().to_string();
+    for part in parts {
+        let decoded = part
+            .get(..2)
+            .and_then(|code| u8::from_str_radix(code, 16).ok());
+        if let Some(decoded) = decoded {
+            name.push(char::from(decoded));
+            name.push_str(&part[2..]);
+        }
+    }
+    if encode_file_name(&name) == file_name {
+        name
+    } else {
+        file_name
+    }
+}
+
 fn schema_folder(base: &Path, schema: &SchemaName) -> PathBuf {
     base.join(schema.encoded())
 }
-- 
2.43.0


From 7ccbbd95ec49a0a7e3073d120d7a3e8d97ba5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 32/62] fix: restore databases without contents

Restoring created the databases for which objects were stored. Databases
without documents and keys are only recorded in the admin database.
---
 crates/bonsaidb-local/src/storage/backup.rs | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 7a7c873..8515398 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -3,9 +3,10 @@ use std::fs::DirEntry;
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
+use bonsaidb_core::admin::{Admin, ADMIN_DATABASE_NAME};
 use bonsaidb_core::connection::{LowLevelConnection, Range, Sort, StorageConnection};
 use bonsaidb_core::document::DocumentId;
-use bonsaidb_core::schema::{Collection, Qualified, SchemaName};
+use bonsaidb_core::schema::{Collection, Qualified, Schema, SchemaName, SerializedCollection};
 use bonsaidb_core::transaction::{Operation, Transaction};
 use bonsaidb_core::{admin, AnyError};
 
@@ -95,6 +96,26 @@ impl Storage {
             }
         }
 
+        // Databases without any contents are only known to the admin database.
+        let admin_schema = Admin::schema_name();
+        let container = admin::Database::collection_name().encoded();
+        for id in AnyBackupLocation::list_stored(
+            location,
+            &admin_schema,
+            ADMIN_DATABASE_NAME,
+            &container,
+        )? {
+            let record = AnyBackupLocation::load(
+                location,
+                &admin_schema,
+                ADMIN_DATABASE_NAME,
+                &container,
+                &id,
+            )?;
+            let record = admin::Database::deserialize(&record)?;
+            self.create_database_with_schema(&record.name, record.schema, true)?;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 165f86cea802197874e5c1ca591120d94ee6d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 33/62] fix: refuse database names of the storage's own files

An empty name, and those of the files and directories the storage keeps next to
its databases, were accepted. A database named server-id, for example, makes
the storage impossible to open.
---
 crates/bonsaidb-local/src/storage.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index d784770..f2b51e9 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -516,11 +516,17 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
-        if name.chars().enumerate().all(|(index, c)| {
-            c.is_ascii_alphanumeric()
-                || (index == 0 && c == '_')
-                || (index > 0 && (c == '.' || c == '-'))
-        }) {
+        // The database is stored in a directory of its name, next to the
+        // storage's own files.
+        let reserved = ["storage-id", "server-id", "master-keys", "vault-keys"];
+        if !name.is_empty()
+            && !reserved.contains(&name)
+            && name.chars().enumerate().all(|(index, c)| {
+                c.is_ascii_alphanumeric()
+                    || (index == 0 && c == '_')
+                    || (index > 0 && (c == '.' || c == '-'))
+            })
+        {
             Ok(())
         } else {
             Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
-- 
2.43.0


From f4527396135a000b26f4857e6c225b045112c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 34/62] fix: only delete databases which exist

delete_database() removed the directory before looking the name up: a name such
as "../other" removed directories outside of the storage, and an empty one all
of it. Deleting the admin database lost the list of all databases.
---
 crates/bonsaidb-local/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index f2b51e9..e762f87 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1026,7 +1026,9 @@ impl StorageConnection for StorageInstance {
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
         let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
+        if name == ADMIN_DATABASE_NAME || available_databases.remove(name).is_none() {
+            return Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()));
+        }
 
         let mut open_roots = self.data.open_roots.lock();
         open_roots.remove(name);
-- 
2.43.0


From 10007f9e173f03d4d833bd29579405588c09406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 35/62] fix: forget a deleted database when it is deleted

The statuses of its views and keys were kept: the views of a database created
by the same name were not updated. Key-value changes of handles that still
exist were written into the new database.
---
 crates/bonsaidb-local/src/database.rs          | 12 ++++++++++++
 crates/bonsaidb-local/src/database/keyvalue.rs |  8 ++++++++
 crates/bonsaidb-local/src/storage.rs           |  6 +++++-
 crates/bonsaidb-local/src/tasks.rs             | 15 +++++++++++++++
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index db971c6..eeddced 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1763,6 +1763,18 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    /// Discards all changes to the key-value store that haven't been persisted.
+    pub(crate) fn discard_key_value_changes(&self) {
+        let persisting = {
+            let mut state = self.data.key_value_state.lock();
+            state.discard_changes();
+            state.shutdown(&self.data.key_value_state)
+        };
+        if let Some(persisting) = persisting {
+            let _: Result<_, _> = persisting.recv();
+        }
+    }
+
     #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 94093c0..f71da36 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -255,6 +255,14 @@ impl KeyValueState {
         }
     }
 
+    /// Forgets all changes that haven't been persisted and all expirations.
+    pub fn discard_changes(&mut self) {
+        self.dirty_keys.clear();
+        self.expiring_keys.clear();
+        self.expiration_order.clear();
+        self.update_background_worker_target();
+    }
+
     pub fn perform_kv_operation(
         &mut self,
         op: KeyOperation,
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index e762f87..7633401 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1031,7 +1031,11 @@ impl StorageConnection for StorageInstance {
         }
 
         let mut open_roots = self.data.open_roots.lock();
-        open_roots.remove(name);
+        if let Some(context) = open_roots.remove(name) {
+            // Handles that still exist must not write to a new database.
+            context.discard_key_value_changes();
+        }
+        self.data.tasks.database_deleted(name);
 
         let database_folder = self.data.path.join(name);
         if database_folder.exists() {
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index d6c343b..dac9fc2 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -151,6 +151,21 @@ impl TaskManager {
         }
     }
 
+    /// Forgets what is known about `database`. A new database by this name must
+    /// not be treated as being up-to-date.
+    pub fn database_deleted(&self, database: &str) {
+        let mut statuses = self.statuses.write();
+        statuses
+            .completed_integrity_checks
+            .retain(|(name, _, _)| name.as_ref().as_ref() != database);
+        statuses
+            .key_value_expiration_loads
+            .retain(|name| name.as_ref().as_ref() != database);
+        statuses
+            .view_update_last_status
+            .retain(|(name, _, _), _| name.as_ref().as_ref() != database);
+    }
+
     pub fn mark_integrity_check_complete(
         &self,
         database: Arc<Cow<'static, str>>,
-- 
2.43.0


From 9d9fa37529a3e0a30f06544da9cef8001008412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 36/62] fix: forget jobs that panic

The key of a job that panicked, for example in the map function of a view,
remained registered: every later query waited forever for the job, and the
worker executing it was lost.
---
 crates/bonsaidb-local/src/tasks/manager.rs           |  7 +++++++
 crates/bonsaidb-local/src/tasks/manager/jobs.rs      |  8 ++++++++
 .../bonsaidb-local/src/tasks/manager/managed_job.rs  | 12 ++++++++----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/manager.rs b/crates/bonsaidb-local/src/tasks/manager.rs
index d991534..0f3b3eb 100644
--- a/crates/bonsaidb-local/src/tasks/manager.rs
+++ b/crates/bonsaidb-local/src/tasks/manager.rs
@@ -57,6 +57,13 @@ where
         jobs.job_completed(id, key, result);
     }
 
+    /// Forgets a job that has no result. Receiving from its handles returns an
+    /// error.
+    fn job_failed(&self, id: Id, key: Option<&Key>) {
+        let mut jobs = self.jobs.write();
+        jobs.job_failed(id, key);
+    }
+
     /// Spawns a worker. In general, you shouldn't need to call this function
     /// directly.
     pub fn spawn_worker(&self) {
diff --git a/crates/bonsaidb-local/src/tasks/manager/jobs.rs b/crates/bonsaidb-local/src/tasks/manager/jobs.rs
index 078d77f..a2b14c4 100644
--- a/crates/bonsaidb-local/src/tasks/manager/jobs.rs
+++ b/crates/bonsaidb-local/src/tasks/manager/jobs.rs
@@ -122,6 +122,14 @@ where
             }
         }
     }
+
+    pub fn job_failed(&mut self, id: Id, key: Option<&Key>) {
+        if let Some(key) = key {
+            self.keyed.remove(key);
+        }
+
+        self.result_senders.remove(&id);
+    }
 }
 
 pub trait AnySender: Any + Send + Sync {
diff --git a/crates/bonsaidb-local/src/tasks/manager/managed_job.rs b/crates/bonsaidb-local/src/tasks/manager/managed_job.rs
index d60c66d..977e3e6 100644
--- a/crates/bonsaidb-local/src/tasks/manager/managed_job.rs
+++ b/crates/bonsaidb-local/src/tasks/manager/managed_job.rs
@@ -1,4 +1,5 @@
 use std::fmt::Debug;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 
 use crate::tasks::handle::Id;
 use crate::tasks::manager::Manager;
@@ -19,9 +20,12 @@ where
     Key: Clone + std::hash::Hash + Eq + Send + Sync + Debug + 'static,
 {
     fn execute(&mut self) {
-        let result = self.job.execute();
-
-        self.manager
-            .job_completed(self.id, self.key.as_ref(), result);
+        // A job that panics must not keep its key registered, nor end the worker.
+        if let Ok(result) = catch_unwind(AssertUnwindSafe(|| self.job.execute())) {
+            self.manager
+                .job_completed(self.id, self.key.as_ref(), result);
+        } else {
+            self.manager.job_failed(self.id, self.key.as_ref());
+        }
     }
 }
-- 
2.43.0


From 48121007cc272945a14fc36cc5fa396a9b159fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 37/62] fix: don't use the files of deleted databases

Operations of handles and jobs of a database that is deleted retried forever
once its files were gone, and kept the storage from being opened again.
Deleting a database now waits for its jobs, and refuses operations of the
handles which still exist.
---
 crates/bonsaidb-local/src/database.rs         | 33 +++++++++++++++++++
 crates/bonsaidb-local/src/storage.rs          |  1 +
 crates/bonsaidb-local/src/tasks.rs            |  2 ++
 crates/bonsaidb-local/src/tasks/compactor.rs  |  2 +-
 crates/bonsaidb-local/src/tasks/manager.rs    |  9 +++++
 .../bonsaidb-local/src/tasks/manager/jobs.rs  | 13 ++++++++
 crates/bonsaidb-local/src/tasks/task.rs       | 12 +++++++
 7 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index eeddced..ceefacd 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -2,9 +2,11 @@ use std::borrow::{Borrow, Cow};
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::convert::Infallible;
 use std::ops::{self, Deref};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::u8;
 
+use bonsaidb_core::actionable::{Action, Identifier};
 use bonsaidb_core::arc_bytes::serde::CowBytes;
 use bonsaidb_core::arc_bytes::ArcBytes;
 use bonsaidb_core::connection::{
@@ -197,6 +199,16 @@ impl Database {
         &self.data.context.roots
     }
 
+    fn check_not_deleted(&self) -> Result<(), bonsaidb_core::Error> {
+        if self.data.context.is_deleted() {
+            Err(bonsaidb_core::Error::DatabaseNotFound(
+                self.name().to_string(),
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
     fn for_each_in_view<F: FnMut(ViewEntry) -> Result<(), bonsaidb_core::Error> + Send + Sync>(
         &self,
         view: &dyn view::Serialized,
@@ -993,6 +1005,15 @@ impl HasSession for Database {
     fn session(&self) -> Option<&Session> {
         self.storage.session()
     }
+
+    fn check_permission<'a, R: AsRef<[Identifier<'a>]>, P: Action>(
+        &self,
+        resource_name: R,
+        action: &P,
+    ) -> Result<(), bonsaidb_core::Error> {
+        self.check_not_deleted()?;
+        self.storage.check_permission(resource_name, action)
+    }
 }
 
 impl Connection for Database {
@@ -1653,6 +1674,7 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_not_deleted()?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         let mut deleted_ids = HashSet::new();
@@ -1714,6 +1736,7 @@ impl Deref for Context {
 pub(crate) struct ContextData {
     pub(crate) roots: Roots<AnyFile>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
+    deleted: AtomicBool,
 }
 
 impl Borrow<Roots<AnyFile>> for Context {
@@ -1740,6 +1763,7 @@ impl Context {
             data: Arc::new(ContextData {
                 roots,
                 key_value_state,
+                deleted: AtomicBool::new(false),
             }),
         };
         std::thread::Builder::new()
@@ -1763,6 +1787,15 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    /// Refuses all further operations using this context.
+    pub(crate) fn mark_deleted(&self) {
+        self.data.deleted.store(true, Ordering::SeqCst);
+    }
+
+    fn is_deleted(&self) -> bool {
+        self.data.deleted.load(Ordering::SeqCst)
+    }
+
     /// Discards all changes to the key-value store that haven't been persisted.
     pub(crate) fn discard_key_value_changes(&self) {
         let persisting = {
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 7633401..b52cc07 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1033,6 +1033,7 @@ impl StorageConnection for StorageInstance {
         let mut open_roots = self.data.open_roots.lock();
         if let Some(context) = open_roots.remove(name) {
             // Handles that still exist must not write to a new database.
+            context.mark_deleted();
             context.discard_key_value_changes();
         }
         self.data.tasks.database_deleted(name);
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index dac9fc2..a162c0f 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -154,6 +154,8 @@ impl TaskManager {
     /// Forgets what is known about `database`. A new database by this name must
     /// not be treated as being up-to-date.
     pub fn database_deleted(&self, database: &str) {
+        // Jobs would never finish once the files they use are gone.
+        self.jobs.wait_for_jobs(|task| task.database() == database);
         let mut statuses = self.statuses.write();
         statuses
             .completed_integrity_checks
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 1392e67..a8a37cd 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -31,7 +31,7 @@ impl Compactor {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub struct Compaction {
-    database_name: String,
+    pub database_name: String,
     target: Target,
 }
 
diff --git a/crates/bonsaidb-local/src/tasks/manager.rs b/crates/bonsaidb-local/src/tasks/manager.rs
index 0f3b3eb..029ca0d 100644
--- a/crates/bonsaidb-local/src/tasks/manager.rs
+++ b/crates/bonsaidb-local/src/tasks/manager.rs
@@ -64,6 +64,15 @@ where
         jobs.job_failed(id, key);
     }
 
+    /// Waits until there are no jobs left whose keys are accepted by `filter`.
+    pub fn wait_for_jobs(&self, filter: impl Fn(&Key) -> bool) {
+        loop {
+            let completion = self.jobs.write().watch_completion(&filter);
+            let Some(completion) = completion else { break };
+            let _: Result<_, _> = completion.recv();
+        }
+    }
+
     /// Spawns a worker. In general, you shouldn't need to call this function
     /// directly.
     pub fn spawn_worker(&self) {
diff --git a/crates/bonsaidb-local/src/tasks/manager/jobs.rs b/crates/bonsaidb-local/src/tasks/manager/jobs.rs
index a2b14c4..cca029b 100644
--- a/crates/bonsaidb-local/src/tasks/manager/jobs.rs
+++ b/crates/bonsaidb-local/src/tasks/manager/jobs.rs
@@ -13,6 +13,7 @@ use crate::tasks::{Job, Keyed};
 pub struct Jobs<Key> {
     last_task_id: u64,
     result_senders: HashMap<Id, Vec<Box<dyn AnySender>>>,
+    completion_senders: HashMap<Id, Vec<Sender<()>>>,
     keyed: HashMap<Key, Id>,
     queuer: Sender<Box<dyn Executable>>,
     queue: Receiver<Box<dyn Executable>>,
@@ -40,6 +41,7 @@ impl<Key> Default for Jobs<Key> {
         Self {
             last_task_id: 0,
             result_senders: HashMap::new(),
+            completion_senders: HashMap::new(),
             keyed: HashMap::new(),
             queuer,
             queue,
@@ -110,6 +112,7 @@ where
         if let Some(key) = key {
             self.keyed.remove(key);
         }
+        self.completion_senders.remove(&id);
 
         if let Some(senders) = self.result_senders.remove(&id) {
             let result = result.map_err(Arc::new);
@@ -129,6 +132,16 @@ where
         }
 
         self.result_senders.remove(&id);
+        self.completion_senders.remove(&id);
+    }
+
+    /// Returns a receiver for a job whose key is accepted by `filter`. The
+    /// receiver is disconnected when the job is done.
+    pub fn watch_completion(&mut self, filter: impl Fn(&Key) -> bool) -> Option<Receiver<()>> {
+        let (_, &id) = self.keyed.iter().find(|(key, _)| filter(key))?;
+        let (sender, receiver) = flume::bounded(1);
+        self.completion_senders.entry(id).or_default().push(sender);
+        Some(receiver)
     }
 }
 
diff --git a/crates/bonsaidb-local/src/tasks/task.rs b/crates/bonsaidb-local/src/tasks/task.rs
index 77013c5..3ddc673 100644
--- a/crates/bonsaidb-local/src/tasks/task.rs
+++ b/crates/bonsaidb-local/src/tasks/task.rs
@@ -12,3 +12,15 @@ pub enum Task {
     Compaction(Compaction),
     ExpirationLoader(Arc<Cow<'static, str>>),
 }
+
+impl Task {
+    /// Returns the name of the database this task operates on.
+    pub fn database(&self) -> &str {
+        match self {
+            Self::IntegrityScan(scan) => &scan.database,
+            Self::ViewMap(map) => &map.database,
+            Self::Compaction(compaction) => &compaction.database_name,
+            Self::ExpirationLoader(database) => database,
+        }
+    }
+}
-- 
2.43.0


From 40e1bba74b5171da714136a0ff142ebdf26c2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 38/62] fix: grant users the permissions of their roles

The ids of the user's groups were used to look up its roles.
---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
-- 
2.43.0


From 2dd1cfe1254a6f10b3a10a6e443d96d5a67b5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 39/62] fix: look up the role added to a user among the roles

It was looked up by its name among the permission groups.
---
 crates/bonsaidb-local/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index b52cc07..56e8357 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1211,7 +1211,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1470,7 +1470,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From cef50736eebb9e72cd9d5af609a8851d35f7cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 40/62] fix: restrict the databases of a restricted storage

database() and admin() of a storage with a session returned handles without the
session, which were not subject to its permissions.
---
 crates/bonsaidb-local/src/storage.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 56e8357..558633b 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1244,7 +1244,9 @@ impl StorageConnection for Storage {
     type Database = Database;
 
     fn admin(&self) -> Self::Database {
-        self.instance.admin()
+        let mut admin = self.instance.admin();
+        admin.storage = self.clone();
+        admin
     }
 
     fn create_database_with_schema(
@@ -1262,7 +1264,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
@@ -1301,7 +1305,7 @@ impl StorageConnection for Storage {
         &self,
         user: U,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1319,7 +1323,7 @@ impl StorageConnection for Storage {
         user: U,
         password: bonsaidb_core::connection::SensitiveString,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1338,7 +1342,7 @@ impl StorageConnection for Storage {
         &self,
         authentication: bonsaidb_core::connection::Authentication,
     ) -> Result<Self, bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let mut loaded_user = None;
         match &authentication {
             #[cfg(feature = "token-authentication")]
@@ -1381,7 +1385,7 @@ impl StorageConnection for Storage {
     ) -> Result<Self::Authenticated, bonsaidb_core::Error> {
         match identity {
             IdentityReference::User(user) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let user =
                     User::load(user, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
@@ -1391,7 +1395,7 @@ impl StorageConnection for Storage {
                 self.instance.assume_user(user, &admin)
             }
             IdentityReference::Role(role) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let role =
                     Role::load(role, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
-- 
2.43.0


From a1f51dba9758cbd10c3d4401b754d9132c357bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 41/62] fix: update views without the permission to get the
 last transaction id

Querying a view, and writing to collections with eager views, required
TransactionAction::GetLastId of sessions.
---
 crates/bonsaidb-local/src/database.rs     | 7 ++++++-
 crates/bonsaidb-local/src/tasks.rs        | 3 +--
 crates/bonsaidb-local/src/views/mapper.rs | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index ceefacd..87996b5 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -199,6 +199,11 @@ impl Database {
         &self.data.context.roots
     }
 
+    /// Returns the id of the last transaction, without requiring a permission.
+    pub(crate) fn current_transaction_id(&self) -> Option<u64> {
+        self.roots().transactions().current_transaction_id()
+    }
+
     fn check_not_deleted(&self) -> Result<(), bonsaidb_core::Error> {
         if self.data.context.is_deleted() {
             Err(bonsaidb_core::Error::DatabaseNotFound(
@@ -1098,7 +1103,7 @@ impl Connection for Database {
             database_resource_name(self.name()),
             &BonsaiAction::Database(DatabaseAction::Transaction(TransactionAction::GetLastId)),
         )?;
-        Ok(self.roots().transactions().current_transaction_id())
+        Ok(self.current_transaction_id())
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index a162c0f..1cea12a 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -2,7 +2,6 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
@@ -64,7 +63,7 @@ impl TaskManager {
         }
 
         // If there is no transaction id, there is no data, so the view is "up-to-date"
-        if let Some(current_transaction_id) = database.last_transaction_id()? {
+        if let Some(current_transaction_id) = database.current_transaction_id() {
             let needs_reindex = {
                 // When views finish updating, they store the last transaction_id
                 // they mapped. If that value is current, we don't need to go
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..8d2b6ae 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -75,7 +75,7 @@ impl Job for Mapper {
 
         let transaction_id = self
             .database
-            .last_transaction_id()?
+            .current_transaction_id()
             .expect("no way to have documents without a transaction");
 
         let storage = self.database.clone();
-- 
2.43.0


From 765538dee66b2632b9b99d0b3d7d873964c017a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 42/62] fix: require the permission to delete documents by view

ViewAction::DeleteDocs was never checked: deleting by view revealed how many
documents a view maps to sessions which aren't permitted to.
---
 crates/bonsaidb-local/src/database.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 87996b5..c8a007b 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1679,7 +1679,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
-        self.check_not_deleted()?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::DeleteDocs)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         let mut deleted_ids = HashSet::new();
-- 
2.43.0


From 95317a7db763942859aa533a9e5abf837d61f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 43/62] fix: don't let a later statement of a group narrow an
 earlier one

---
 crates/bonsaidb-core/src/admin/role.rs | 5 ++++-
 crates/bonsaidb-core/src/admin/user.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/admin/role.rs b/crates/bonsaidb-core/src/admin/role.rs
index a7e0a2f..0499d12 100644
--- a/crates/bonsaidb-core/src/admin/role.rs
+++ b/crates/bonsaidb-core/src/admin/role.rs
@@ -61,7 +61,10 @@ impl Role {
         let merged_permissions = Permissions::merged(
             groups
                 .into_iter()
-                .map(|group| Permissions::from(group.contents.statements))
+                // Each statement is converted separately, because a later
+                // statement of a list can narrow what an earlier one allows.
+                .flat_map(|group| group.contents.statements)
+                .map(Permissions::from)
                 .collect::<Vec<_>>()
                 .iter()
                 .chain(std::iter::once(inherit_permissions)),
diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 1a7a3d3..fa733ca 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -88,7 +88,10 @@ impl User {
         let merged_permissions = Permissions::merged(
             groups
                 .into_iter()
-                .map(|group| Permissions::from(group.contents.statements))
+                // Each statement is converted separately, because a later
+                // statement of a list can narrow what an earlier one allows.
+                .flat_map(|group| group.contents.statements)
+                .map(Permissions::from)
                 .collect::<Vec<_>>()
                 .iter()
                 .chain(std::iter::once(inherit_permissions)),
-- 
2.43.0


From 556846d6f6a9d4655f60bcca0aff496bc58207ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 44/62] fix: check the permission to get the last transaction
 id

---
 crates/bonsaidb-local/src/async.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/async.rs b/crates/bonsaidb-local/src/async.rs
index 9936d52..8e0f8eb 100644
--- a/crates/bonsaidb-local/src/async.rs
+++ b/crates/bonsaidb-local/src/async.rs
@@ -609,11 +609,7 @@ impl AsyncConnection for AsyncDatabase {
     }
 
     async fn last_transaction_id(&self) -> Result<Option<u64>, bonsaidb_core::Error> {
-        Ok(self
-            .database
-            .roots()
-            .transactions()
-            .current_transaction_id())
+        Connection::last_transaction_id(&self.database)
     }
 
     async fn compact(&self) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From b6df995eb85538773ca096b8be18101aa2ac1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 45/62] fix: drop a client's subscribers when it disconnects

The task forwarding messages to a client keeps the client, and therefore
its subscribers, alive. Without a message that failed to be sent, a
subscriber of a disconnected client was never dropped, nor was the storage
it belongs to.
---
 crates/bonsaidb-server/src/server/connected_client.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/bonsaidb-server/src/server/connected_client.rs b/crates/bonsaidb-server/src/server/connected_client.rs
index 9b18014..809c1df 100644
--- a/crates/bonsaidb-server/src/server/connected_client.rs
+++ b/crates/bonsaidb-server/src/server/connected_client.rs
@@ -73,7 +73,13 @@ impl<B: Backend> ConnectedClient<B> {
     }
 
     pub(crate) fn set_disconnected(&self) {
+        let mut sessions = self.data.sessions.write();
         self.data.connected.store(false, Ordering::Relaxed);
+        // The tasks forwarding messages to this client keep it alive until their
+        // subscribers are dropped.
+        for session in sessions.values_mut() {
+            session.subscribers.clear();
+        }
     }
 
     pub(crate) fn logged_in_as(&self, session: Session) {
@@ -137,6 +143,9 @@ impl<B: Backend> ConnectedClient<B> {
         let receiver = subscriber.receiver().clone();
         {
             let mut sessions = self.data.sessions.write();
+            if !self.connected() {
+                return;
+            }
             if let Some(client_session) = sessions.get_mut(&session_id) {
                 client_session
                     .subscribers
-- 
2.43.0


From 4df3575d30a561a186314a33a93993c65b77a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 46/62] fix: keep request workers alive

A request holding an error instead of a value, or one whose handler
panics, ended the worker processing it. After as many of these as there
are workers, no client was answered anymore.
---
 crates/bonsaidb-server/src/server.rs | 33 +++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 5e7de76..76416ea 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -2,6 +2,7 @@ use std::collections::{hash_map, HashMap};
 use std::fmt::Debug;
 use std::net::SocketAddr;
 use std::ops::Deref;
+use std::panic::AssertUnwindSafe;
 use std::path::PathBuf;
 use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
 use std::sync::Arc;
@@ -26,7 +27,7 @@ use bonsaidb_utils::fast_async_lock;
 use derive_where::derive_where;
 use fabruic::{self, CertificateChain, Endpoint, KeyPair, PrivateKey};
 use flume::Sender;
-use futures::{Future, StreamExt};
+use futures::{Future, FutureExt, StreamExt};
 use parking_lot::{Mutex, RwLock};
 use rustls::sign::CertifiedKey;
 use schema::SchemaName;
@@ -144,13 +145,29 @@ impl<B: Backend> CustomServer<B> {
                                     storage,
                                 },
                             };
-                            ServerDispatcher::dispatch_api_request(
-                                client,
-                                &request.name,
-                                request.value.unwrap(),
-                            )
-                            .await
-                            .map_err(bonsaidb_core::Error::from)
+                            match request.value {
+                                // A panicking handler must not take the worker with it.
+                                Ok(value) => AssertUnwindSafe(
+                                    ServerDispatcher::dispatch_api_request(
+                                        client,
+                                        &request.name,
+                                        value,
+                                    ),
+                                )
+                                .catch_unwind()
+                                .await
+                                .map_or_else(
+                                    |_| {
+                                        Err(bonsaidb_core::Error::other(
+                                            "bonsaidb-server",
+                                            "request handler panicked",
+                                        ))
+                                    },
+                                    |result| result.map_err(bonsaidb_core::Error::from),
+                                ),
+                                // Requests have no reason to contain an error.
+                                Err(err) => Err(err),
+                            }
                         }
                         Err(err) => Err(err),
                     };
-- 
2.43.0


From 8f042d30660f6eec60f7aef7934e9598ed324a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 47/62] fix: don't let an unfinished QUIC handshake block other
 clients

Handshakes were awaited one after another, without a timeout and without
noticing that the server shuts down.
---
 crates/bonsaidb-server/src/server.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 76416ea..5b2a627 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -425,17 +425,27 @@ impl<B: Backend> CustomServer<B> {
             msg = server.next() => msg
         } {
             let address = incoming.remote_address();
-            let connection = match incoming.accept::<()>().await {
-                Ok(connection) => connection,
-                Err(err) => {
-                    log::error!("[server] error on incoming connection from {address}: {err:?}");
-                    continue;
-                }
-            };
             let task_self = self.clone();
+            let mut shutdown_watcher = shutdown_watcher.clone();
+            // A client that never finishes connecting must not delay others.
             tokio::spawn(async move {
-                if let Err(err) = task_self.handle_bonsai_connection(connection).await {
-                    log::error!("[server] closing connection {address}: {err:?}");
+                let connecting = async move {
+                    match incoming.accept::<()>().await {
+                        Ok(connection) => {
+                            if let Err(err) = task_self.handle_bonsai_connection(connection).await {
+                                log::error!("[server] closing connection {address}: {err:?}");
+                            }
+                        }
+                        Err(err) => {
+                            log::error!(
+                                "[server] error on incoming connection from {address}: {err:?}"
+                            );
+                        }
+                    }
+                };
+                tokio::select! {
+                    () = connecting => {}
+                    _ = shutdown_watcher.wait_for_shutdown() => {}
                 }
             });
         }
-- 
2.43.0


From 5cdbce1487050b04cde354b56aa942dedbc799c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 48/62] fix: don't panic when seeking relative to the end of a
 file or before its start

---
 crates/bonsaidb-files/src/direct.rs | 46 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..29fc3e0 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -941,6 +941,14 @@ impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
         self.blocks.last().map(|b| b.timestamp)
     }
 
+    /// Returns the current position within the file.
+    fn position(&self) -> u64 {
+        match self.blocks.get(self.current_block) {
+            Some(block) => block.offset + u64::try_from(self.offset).unwrap(),
+            None => self.len(),
+        }
+    }
+
     fn non_blocking_read_block(&mut self) -> NonBlockingBlockReadResult {
         let block = self.loaded.pop_front();
 
@@ -1028,13 +1036,22 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     }
 }
 
+fn negative_position() -> std::io::Error {
+    std::io::Error::new(
+        ErrorKind::InvalidInput,
+        "invalid seek to a position before the start of the file",
+    )
+}
+
 impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
         let seek_to = match pos {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(from_end) => {
                 if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
+                    self.len()
+                        .checked_sub(from_end.unsigned_abs())
+                        .ok_or_else(negative_position)?
                 } else {
                     // Seek to the end
                     self.len()
@@ -1045,15 +1062,14 @@ impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
                     return Ok(0);
                 }
 
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
+                let current = self.position();
+                if from_current < 0 {
+                    current
+                        .checked_sub(from_current.unsigned_abs())
+                        .ok_or_else(negative_position)?
+                } else {
+                    current.saturating_add(from_current.unsigned_abs())
+                }
             }
         };
         if let Some((index, block)) = self
@@ -1093,15 +1109,7 @@ impl<
         self: std::pin::Pin<&mut Self>,
         _cx: &mut std::task::Context<'_>,
     ) -> Poll<std::io::Result<u64>> {
-        if self.blocks.is_empty() {
-            Poll::Ready(Ok(0))
-        } else if self.current_block < self.blocks.len() {
-            Poll::Ready(Ok(
-                self.blocks[self.current_block].offset + u64::try_from(self.offset).unwrap()
-            ))
-        } else {
-            Poll::Ready(Ok(self.len()))
-        }
+        Poll::Ready(Ok(self.position()))
     }
 }
 
-- 
2.43.0


From 3c9b9dbe0a0d04a8ac5003023556e8591ceba64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 49/62] fix: reading a file into an empty buffer doesn't skip
 data

---
 crates/bonsaidb-files/src/direct.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 29fc3e0..1c2b17f 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1022,6 +1022,10 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     for Contents<Blocking<Database>, Config>
 {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.len().min(block.len());
@@ -1124,6 +1128,10 @@ impl<
         cx: &mut std::task::Context<'_>,
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
+
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
-- 
2.43.0


From 5324319af27517fb305cc9a3462523f33afd7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 50/62] fix: asynchronous reads lost the bytes read before
 waiting for more

---
 crates/bonsaidb-files/src/direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 1c2b17f..07de52a 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1133,12 +1133,18 @@ impl<
         }
 
         self.spawn_block_fetching_task();
+        let already_filled = buf.filled().len();
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.remaining().min(block.len());
                 buf.put_slice(&block[..bytes_to_read]);
                 bytes_to_read
             }) {
+                // Bytes that have been read must be returned before waiting for
+                // more data.
+                NonBlockingReadResult::NeedBlocks if buf.filled().len() > already_filled => {
+                    return Poll::Ready(Ok(()))
+                }
                 NonBlockingReadResult::NeedBlocks => match self.fetch_blocks(cx) {
                     Poll::Ready(Ok(true)) => continue,
                     Poll::Pending => return Poll::Pending,
-- 
2.43.0


From 438ad4646e02d7971c8e2492c98902c57ed82ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 51/62] fix: asynchronously reading the remaining contents of a
 partially read file

---
 crates/bonsaidb-files/src/direct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 07de52a..9dc160d 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -794,7 +794,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
+        let remaining = self.len() - self.position();
+        let mut contents = vec![0; usize::try_from(remaining).unwrap()];
         <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
         Ok(contents)
     }
-- 
2.43.0


From 4b0853db757f27fe42e11a7ee4f4de7800c17b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 52/62] fix: seeking while blocks were being loaded mixed up
 blocks

---
 crates/bonsaidb-files/src/direct.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 9dc160d..f6d4e04 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -704,7 +704,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    /// The index of the first block requested, if a request is outstanding.
+    requested: Option<usize>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -836,7 +837,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -845,7 +846,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
+        if let Some(first_block) = self.async_blocks.as_mut().unwrap().requested {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -854,10 +855,12 @@ impl<
                 .poll_unpin(cx))
             {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    self.async_blocks.as_mut().unwrap().requested = None;
+                    // The blocks replace any blocks still loaded.
+                    self.loaded.clear();
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
                         let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
+                            index: first_block + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -875,7 +878,7 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            self.async_blocks.as_mut().unwrap().requested = Some(self.current_block);
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
-- 
2.43.0


From 382c604253141d6e0df5a80cd5cdac7d5aa4e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 53/62] fix: reading a file whose blocks were removed never
 ended

---
 crates/bonsaidb-files/src/direct.rs | 36 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index f6d4e04..2bc54ae 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -4,6 +4,8 @@ use std::collections::VecDeque;
 use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 #[cfg(feature = "async")]
+use std::ops::Range;
+#[cfg(feature = "async")]
 use std::task::Poll;
 
 use bonsaidb_core::connection::Connection;
@@ -704,8 +706,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    /// The index of the first block requested, if a request is outstanding.
-    requested: Option<usize>,
+    /// The range of block indexes requested, if a request is outstanding.
+    requested: Option<Range<usize>>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -763,12 +765,13 @@ impl<Database: Connection + Clone, Config: FileConfig> Contents<Blocking<Databas
 
     fn load_blocks(&mut self) -> std::io::Result<()> {
         self.loaded.clear();
-        for (index, (_, contents)) in
-            schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
-                .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?
-                .into_iter()
-                .enumerate()
-        {
+        let block_ids = self.next_blocks();
+        let blocks = schema::block::Block::<Config>::load(&block_ids, &self.database.0)
+            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?;
+        if blocks.len() != block_ids.len() {
+            return Err(missing_blocks());
+        }
+        for (index, (_, contents)) in blocks.into_iter().enumerate() {
             self.loaded.push_back(LoadedBlock {
                 index: self.current_block + index,
                 contents,
@@ -846,7 +849,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if let Some(first_block) = self.async_blocks.as_mut().unwrap().requested {
+        if let Some(requested) = self.async_blocks.as_ref().unwrap().requested.clone() {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -858,9 +861,12 @@ impl<
                     self.async_blocks.as_mut().unwrap().requested = None;
                     // The blocks replace any blocks still loaded.
                     self.loaded.clear();
+                    if blocks.len() != requested.len() {
+                        return Poll::Ready(Err(missing_blocks()));
+                    }
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
                         let loaded_block = LoadedBlock {
-                            index: first_block + index,
+                            index: requested.start + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -878,7 +884,8 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = Some(self.current_block);
+            self.async_blocks.as_mut().unwrap().requested =
+                Some(self.current_block..self.current_block + blocks.len());
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
@@ -1044,6 +1051,13 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     }
 }
 
+fn missing_blocks() -> std::io::Error {
+    std::io::Error::new(
+        ErrorKind::NotFound,
+        "data was removed from the file while it was being read",
+    )
+}
+
 fn negative_position() -> std::io::Error {
     std::io::Error::new(
         ErrorKind::InvalidInput,
-- 
2.43.0


From 9f36cbdc3a7268fce88a9b43d5773dbcb6ecc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 54/62] fix: a failing or concurrent deletion of a file lost or
 orphaned data

---
 crates/bonsaidb-files/src/direct.rs      |  7 +---
 crates/bonsaidb-files/src/schema/file.rs | 50 ++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 2bc54ae..8f92d10 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -175,8 +175,7 @@ where
 
     /// Deletes the file.
     pub fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
-        self.doc.delete(&self.database.0)?;
+        schema::file::File::delete_with_blocks(&self.doc, &self.database.0)?;
         Ok(())
     }
 
@@ -406,9 +405,7 @@ where
 
     /// Deletes the file.
     pub async fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file_async(self.doc.header.id, &self.database.0)
-            .await?;
-        self.doc.delete_async(&self.database.0).await?;
+        schema::file::File::delete_with_blocks_async(&self.doc, &self.database.0).await?;
         Ok(())
     }
 
diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 9442ed2..95ac499 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -308,6 +308,56 @@ where
         Ok(())
     }
 
+    pub fn delete_with_blocks<Database: Connection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let tx = Self::create_delete_transaction(
+            file,
+            &Block::<Config>::for_file(file.header.id, database)?,
+        )?;
+        tx.apply(database)?;
+        // Remove the blocks of any appends that finished after the blocks were
+        // listed. No more can follow, because the file no longer exists.
+        Block::<Config>::delete_for_file(file.header.id, database)
+    }
+
+    #[cfg(feature = "async")]
+    pub async fn delete_with_blocks_async<Database: AsyncConnection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let tx = Self::create_delete_transaction(
+            file,
+            &Block::<Config>::for_file_async(file.header.id, database).await?,
+        )?;
+        tx.apply_async(database).await?;
+        // Remove the blocks of any appends that finished after the blocks were
+        // listed. No more can follow, because the file no longer exists.
+        Block::<Config>::delete_for_file_async(file.header.id, database).await
+    }
+
+    /// Deletes the file and its blocks at once: if the file was changed since
+    /// `file` was loaded, nothing is removed.
+    fn create_delete_transaction(
+        file: &CollectionDocument<Self>,
+        blocks: &[BlockInfo],
+    ) -> Result<Transaction, bonsaidb_core::Error> {
+        let mut tx = Transaction::new();
+        tx.push(Operation::delete(
+            Self::collection_name(),
+            Header::try_from(file.header.clone())?,
+        ));
+        let block_collection = Config::blocks_name();
+        for block in blocks {
+            tx.push(Operation::delete(
+                block_collection.clone(),
+                Header::try_from(block.header)?,
+            ));
+        }
+        Ok(tx)
+    }
+
     fn create_truncate_transaction(
         mut blocks: Vec<BlockInfo>,
         new_length: u64,
-- 
2.43.0


From 8bec78d2fbf7c4a94a7d3aa5473727acc0094e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 55/62] fix: files couldn't be created without, but be renamed
 to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 8f92d10..7aeb41d 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -161,7 +161,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.contains('/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
@@ -391,7 +391,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.contains('/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From fdaca1e135c62d88be5d2a656c08a8dd66f7b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 56/62] fix: files created at relative paths were missing in
 listings and statistics

---
 crates/bonsaidb-files/src/schema/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 95ac499..057c9a8 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -58,6 +58,9 @@ where
 
         // Force path to end with a /
         if let Some(path) = path.as_mut() {
+            if !path.starts_with('/') {
+                return Err(Error::InvalidPath);
+            }
             if path.bytes().last() != Some(b'/') {
                 path.push('/');
             }
@@ -90,6 +93,9 @@ where
 
         // Force path to end with a /
         if let Some(path) = path.as_mut() {
+            if !path.starts_with('/') {
+                return Err(Error::InvalidPath);
+            }
             if path.bytes().last() != Some(b'/') {
                 path.push('/');
             }
-- 
2.43.0


From 337a1795360bf75c0eae4c6e791c1a80d035ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 57/62] fix: buffered appends of files with blocks of more than
 a megabyte

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 7aeb41d..966fd2f 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1265,7 +1265,7 @@ impl<'a, Config: FileConfig, Database: Connection + Clone> Write
             // By default, reserve the largest multiple of BLOCK_SIZE that is
             // less than or equal to 1 megabyte.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         } else if self.buffer.capacity() == self.buffer.len() {
             self.flush()?;
         }
@@ -1339,7 +1339,7 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             // By default, reserve the largest multiple of BLOCK_SIZE that is
             // less than or equal to 1 megabyte.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         }
 
         if self.flush_future.is_some() {
-- 
2.43.0


From 35a5df36a14718228b7c048db88c8d9ece7db8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 58/62] fix: flushing a file whose append finished at once
 panicked at the next write

---
 crates/bonsaidb-files/src/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 966fd2f..d6268ca 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1387,7 +1387,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From de58c80e408fe4d6ae3c08b224b6f0a6453449c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 59/62] fix: a view lost changes which were committed while it
 was being updated

---
 crates/bonsaidb-local/src/views/mapper.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 8d2b6ae..e89aa36 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,10 +73,21 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
+        // A transaction's id becomes the current one before its changes become
+        // visible. Its trees stay locked until they are. By briefly locking the
+        // documents, all documents changed up to `transaction_id` are ensured
+        // to be found in `invalidated_entries`.
+        let locked_documents = self
+            .database
+            .roots()
+            .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(documents.clone()) as Box<dyn AnyTreeRoot<AnyFile>>
+            ])?;
         let transaction_id = self
             .database
             .current_transaction_id()
             .expect("no way to have documents without a transaction");
+        locked_documents.rollback();
 
         let storage = self.database.clone();
         let map_request = self.map.clone();
-- 
2.43.0


From 5acc14a22352c2052370f85a5f5ea0b2f166d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:27 +0000
Subject: [PATCH 60/62] fix: an interrupted creation of a storage left it
 without an id, and it could not be opened

---
 crates/bonsaidb-local/src/storage.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 558633b..3b96f24 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -396,6 +396,7 @@ impl Storage {
                 let mut file = File::create(id_path)?;
                 let id = id.to_string();
                 file.write_all(id.as_bytes())?;
+                file.sync_all()?;
                 file
             };
             file.lock_exclusive()?;
@@ -405,13 +406,21 @@ impl Storage {
             // is numerical, the file contents are the ascii decimal, making it
             // easier for a human to view, and if needed, edit.
 
-            if id_path.exists() {
-                // This value is important enought to not allow launching the
-                // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
+            let existing = if id_path.exists() {
+                let mut file = File::open(&id_path)?;
                 file.lock_exclusive()?;
                 let mut bytes = Vec::new();
                 file.read_to_end(&mut bytes)?;
+                // If creating the storage was interrupted before the id was
+                // written, nothing can depend on the id yet.
+                bytes.iter().any(|b| *b != 0).then_some((bytes, file))
+            } else {
+                None
+            };
+
+            if let Some((bytes, file)) = existing {
+                // This value is important enought to not allow launching the
+                // server if the file can't be read or contains unexpected data.
                 let existing_id =
                     String::from_utf8(bytes).expect("server-id contains invalid data");
 
@@ -422,6 +431,7 @@ impl Storage {
                 file.lock_exclusive()?;
 
                 file.write_all(id.to_string().as_bytes())?;
+                file.sync_all()?;
 
                 (id, file)
             }
-- 
2.43.0


From e20cc65fdfe808d3e411bccc33d26d4ce718ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:55 +0000
Subject: [PATCH 61/62] fix: the keys of a vault could be lost, or half
 written, by a crash

---
 crates/bonsaidb-local/src/vault.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index 3b1fca8..f4c6566 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -253,8 +253,7 @@ impl Vault {
                 tag,
             })?;
 
-            File::create(master_keys_path)
-                .and_then(move |mut file| file.write_all(&encrypted_master_keys_payload))
+            write_file(master_keys_path, &encrypted_master_keys_payload)
                 .map_err(|err| Error::Initializing(format!("error saving vault key: {err:?}")))?;
 
             Ok(Self {
@@ -607,11 +606,22 @@ impl VaultKeyStorage for LocalVaultKeyStorage {
     fn set_vault_key_for(&self, server_id: StorageId, key: KeyPair) -> Result<(), Self::Error> {
         let server_file = self.directory.join(server_id.to_string());
         let bytes = bincode::serialize(&key)?;
-        File::create(server_file).and_then(|mut file| file.write_all(&bytes))?;
+        write_file(&server_file, &bytes)?;
         Ok(())
     }
 }
 
+/// Writes a file such that it is either completely written or not at all, even
+/// if the process or the system stops at any point.
+fn write_file(path: &Path, contents: &[u8]) -> std::io::Result<()> {
+    let temporary_path = path.with_extension("new");
+    let mut file = File::create(&temporary_path)?;
+    file.write_all(contents)?;
+    file.sync_all()?;
+    drop(file);
+    fs::rename(temporary_path, path)
+}
+
 #[derive(Serialize, Deserialize)]
 struct VaultPayload<'a> {
     // TODO make key_id be the additional data
-- 
2.43.0


From 6c28e5f4c8696a944bd820ff76403eccee73f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:30 +0000
Subject: [PATCH 62/62] fix: transaction log entries written before the use of
 Pot could not be read

---
 crates/bonsaidb-local/src/database/compat.rs | 29 +++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/compat.rs b/crates/bonsaidb-local/src/database/compat.rs
index 3b013db..504e85a 100644
--- a/crates/bonsaidb-local/src/database/compat.rs
+++ b/crates/bonsaidb-local/src/database/compat.rs
@@ -62,7 +62,15 @@ pub fn deserialize_executed_transaction_changes(data: &[u8]) -> Result<Changes,
         ChangesVersions::Legacy => {
             let legacy: ChangesV0 = match pot::from_slice(data) {
                 Ok(changes) => changes,
-                Err(pot::Error::NotAPot) => ChangesV0::Documents(bincode::deserialize(data)?),
+                // Data without Pot's header predates the use of Pot.
+                Err(pot::Error::NotAPot | pot::Error::IncompatibleVersion) => {
+                    ChangesV0::Documents(
+                        bincode::deserialize::<Vec<BincodeChangedDocument>>(data)?
+                            .into_iter()
+                            .map(ChangedDocumentV0::from)
+                            .collect(),
+                    )
+                }
                 other => other?,
             };
             Changes::try_from(legacy).map_err(crate::Error::from)
@@ -134,6 +142,25 @@ pub struct ChangedDocumentV0 {
     pub deleted: bool,
 }
 
+/// A record of a changed document, as it was stored using bincode. Bincode isn't
+/// self-describing, which means it can't deserialize [`LegacyDocumentId`].
+#[derive(Debug, Clone, Serialize, Deserialize)]
+struct BincodeChangedDocument {
+    collection: CollectionName,
+    id: u64,
+    deleted: bool,
+}
+
+impl From<BincodeChangedDocument> for ChangedDocumentV0 {
+    fn from(changed: BincodeChangedDocument) -> Self {
+        Self {
+            collection: changed.collection,
+            id: LegacyDocumentId::U64(changed.id),
+            deleted: changed.deleted,
+        }
+    }
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum LegacyDocumentId {
-- 
2.43.0

