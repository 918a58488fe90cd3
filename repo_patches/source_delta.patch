From cf221d1f33c5c4409a78a94b615e90b45e741d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 01/15] fix: reading zero bytes or items at the end of the
 input is not an error

A record whose last part is an empty callchain, branch stack, stack dump, aux
area, namespace list or byte array was refused with Eof.
---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..94a1096 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // No data is needed so it is fine if there is none left.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
@@ -293,6 +298,10 @@ where
     }
 
     pub(crate) fn parse_array<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
+        if N == 0 {
+            return Ok([0u8; N]);
+        }
+
         let chunk = self.data.chunk()?;
 
         if chunk.len() < N {
-- 
2.43.0


From f5af4d6cc52f2e26522d0706db56576689c9f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 02/15] fix: parse_rest of an exhausted buffer is an empty
 slice

Records whose name, path or payload is empty were refused with Eof.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 94a1096..88bd180 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -398,7 +398,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From f6505a60618f9395bcc2786967e5c20e48121c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 03/15] fix: dispatch PERF_RECORD_SWITCH records to
 visit_switch

They were delivered to visit_unknown.
---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 88bd180..fdcb9af 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -593,6 +593,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From 776779af78050178e6168cabcc6d302a5d13685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 04/15] fix: Namespaces::uts returned the user namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From a73eb02a30093c89206c4fe91b1b41ef039d9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 05/15] fix: swapped halves in CowSliceExt::split_at for owned
 data

Splitting an owned cow at 0 or at its end returned the halves in the wrong
order, which exchanged old_bytes and new_bytes of TextPoke records.
---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From c412c09c3f9fa4b03552bb1b3756cd85608b8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 06/15] fix: perf_event_attr consumed 4 bytes more than its
 declared size

---
 src/impls/perf_event_attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..278c436 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,9 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        // attr.size counts the type and size fields which have already been parsed.
+        let header_len = mem::size_of_val(&attr.type_) + mem::size_of_val(&attr.size);
+        let mut p = p.split_at(attr.size as usize - header_len)?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From 046c0f29f7545c4a8a0505db208f69dd0417af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 07/15] fix: samples with WEIGHT_STRUCT also carry a weight
 word

It was not read, which shifted every field after it.
---
 src/records/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..34e3704 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,8 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight =
+            p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From ed09b002ef445c0ab1c0e75fe60d30d4ae68e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 08/15] fix: no registers follow when the register abi of a
 sample is NONE

---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 34e3704..15dca44 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -356,10 +356,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // The kernel does not emit any registers if there is no abi.
+        let count = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(count)? },
         })
     }
 }
-- 
2.43.0


From 47b26afe7b995f1213e2d4796b7688971da001f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 09/15] fix: build ids were rendered with swapped nibbles and
 wrong letters

---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From 314c974fd083581511383c0909a6afa5f5edbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 10/15] fix: separator in the Display of ParseError

It was written before the message of external errors, which have no category,
and left out for all the others.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 91e5682efc7b34b819b64c06ce8e2aa6adec03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 11/15] fix: the parser returned by parse_metadata did not know
 the misc flags of its record

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index fdcb9af..53606a1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -552,6 +552,11 @@ where
             }
         };
 
+        // Some records need header.misc in order to be parsed.
+        let p = Parser {
+            config: p.config.with_misc(header.misc),
+            data: p.data,
+        };
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0


From 0688f0c2f30ee420458599f942b4dcd9b30bba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:46 +0000
Subject: [PATCH 12/15] fix: lengths above usize::MAX were truncated on 32-bit
 hosts

---
 src/parse.rs              | 13 +++++++++++++
 src/records/namespaces.rs |  2 +-
 src/records/read.rs       |  2 +-
 src/records/sample.rs     | 10 +++++-----
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 53606a1..1632fed 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -396,6 +396,19 @@ where
         Ok(self.endian().convert_u64(array))
     }
 
+    /// Parse a `u64` length or element count.
+    ///
+    /// A length that does not fit within a `usize` cannot be satisfied by any
+    /// buffer, so it is an error instead of being truncated.
+    pub(crate) fn parse_len(&mut self) -> ParseResult<usize> {
+        self.parse_u64()?.try_into().map_err(|_| {
+            ParseError::custom(
+                ErrorKind::InvalidRecord,
+                "length was too large for data type",
+            )
+        })
+    }
+
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
         let mut bytes = match self.data.chunk() {
diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 46a243b..b360c39 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -92,7 +92,7 @@ impl<'p> Parse<'p> for Namespaces<'p> {
     {
         let pid = p.parse()?;
         let tid = p.parse()?;
-        let len = p.parse_u64()? as usize;
+        let len = p.parse_len()?;
         let namespaces = unsafe { p.parse_slice(len)? };
 
         Ok(Self {
diff --git a/src/records/read.rs b/src/records/read.rs
index f8e7aac..0519163 100644
--- a/src/records/read.rs
+++ b/src/records/read.rs
@@ -418,7 +418,7 @@ impl<'p> Parse<'p> for ReadGroup<'p> {
             ));
         }
 
-        let nr = p.parse_u64()? as usize;
+        let nr = p.parse_len()?;
         let time_enabled = p
             .parse_if(read_format.contains(ReadFormat::TOTAL_TIME_ENABLED))?
             .unwrap_or(0);
diff --git a/src/records/sample.rs b/src/records/sample.rs
index 15dca44..7cb96e6 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -196,7 +196,7 @@ impl<'p> Parse<'p> for Sample<'p> {
             }
         })?;
         let callchain = p.parse_if_with(sty.contains(SampleFlags::CALLCHAIN), |p| {
-            let nr = p.parse_u64()? as _;
+            let nr = p.parse_len()?;
             unsafe { p.parse_slice(nr) }
         })?;
         let raw = p.parse_if_with(sty.contains(SampleFlags::RAW), |p| {
@@ -206,7 +206,7 @@ impl<'p> Parse<'p> for Sample<'p> {
             })
         })?;
         let lbr = p.parse_if_with(sty.contains(SampleFlags::BRANCH_STACK), |p| {
-            let nr = p.parse_u64()? as usize;
+            let nr = p.parse_len()?;
             let hw_index = p.parse_if(branch_hw_index)?;
             let lbr = unsafe { p.parse_slice(nr)? };
 
@@ -220,14 +220,14 @@ impl<'p> Parse<'p> for Sample<'p> {
             Registers::parse_user(p)
         })?;
         let stack_user = p.parse_if_with(sty.contains(SampleFlags::STACK_USER), |p| {
-            let size = p.parse_u64()? as usize;
+            let size = p.parse_len()?;
 
             let mut data = p.parse_bytes(size)?;
 
             // from the manpage: dyn_size is omitted if size is 0.
             let dyn_size = match size {
                 0 => 0,
-                _ => p.parse_u64()? as usize,
+                _ => p.parse_len()?,
             };
 
             if dyn_size > data.len() {
@@ -256,7 +256,7 @@ impl<'p> Parse<'p> for Sample<'p> {
         let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
         let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
         let aux = p.parse_if_with(sty.contains(SampleFlags::AUX), |p| {
-            let size = p.parse_u64()? as usize;
+            let size = p.parse_len()?;
             p.parse_bytes(size)
         })?;
 
-- 
2.43.0


From 0ce31cec9ab10004cef9421014a978130e05734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 13/15] fix: let the stream offset wrap

TrackingParseBuf counts the bytes it was advanced by in a usize. Reading more
than 4GiB through one parser on a 32-bit host made that addition overflow,
which panics when overflow checks are enabled.
---
 src/parse.rs    | 2 +-
 src/parsebuf.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1632fed..6083cb0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -361,7 +361,7 @@ where
 
         let offset = self.data.offset();
         let value = func(self)?;
-        let parsed = self.data.offset() - offset;
+        let parsed = self.data.offset().wrapping_sub(offset);
 
         match parsed % padding {
             // do nothing, we are already aligned
diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..0eb575a 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -282,7 +282,9 @@ where
     }
 
     fn advance(&mut self, count: usize) {
-        self.offset += count;
+        // A stream may well be longer than usize::MAX bytes on 32-bit hosts. Only
+        // differences between offsets are ever used so it is fine for this to wrap.
+        self.offset = self.offset.wrapping_add(count);
         self.buf.advance(count);
     }
 
-- 
2.43.0


From 0f6a979183177ab2106951b1b41436750c21f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 14/15] fix: Txn::ABORT_MASK was 0 on 32-bit hosts

The constant in the bindings has the type c_ulong, so that its value was
truncated to 0 on targets where that type has 32 bits.
---
 src/records/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 7cb96e6..d1605ac 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -704,7 +704,8 @@ bitflags! {
         const CAPACITY_WRITE = bindings::PERF_TXN_CAPACITY_WRITE as _;
         const CAPACITY_READ = bindings::PERF_TXN_CAPACITY_READ as _;
 
-        const ABORT_MASK = bindings::PERF_TXN_ABORT_MASK as _;
+        // bindings::PERF_TXN_ABORT_MASK is truncated to 0 when c_ulong is 32 bits wide.
+        const ABORT_MASK = (u32::MAX as u64) << bindings::PERF_TXN_ABORT_SHIFT;
     }
 }
 
-- 
2.43.0


From a4e94e81f6527b8a933fb7d63e1f6ba6caae30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 15/15] fix: sample fields behind the branch counters were
 misread

With PERF_SAMPLE_BRANCH_COUNTERS set in branch_sample_type the branch
entries of a sample are followed by one word for each entry. The parser
did not know about them, so every field behind them was read from the
wrong place.
---
 src/config.rs         | 19 +++++++++++++++++--
 src/records/sample.rs |  9 +++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 857e247..1001099 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,7 +1,9 @@
 use std::fmt;
 
 use bitflags::bitflags;
-use perf_event_open_sys::bindings::{self, perf_event_attr, PERF_SAMPLE_BRANCH_HW_INDEX};
+use perf_event_open_sys::bindings::{
+    self, perf_event_attr, PERF_SAMPLE_BRANCH_COUNTERS, PERF_SAMPLE_BRANCH_HW_INDEX,
+};
 
 use crate::endian::Endian;
 use crate::{ReadFormat, SampleFlags};
@@ -18,8 +20,9 @@ bitflags! {
     #[derive(Copy, Clone, Debug, Default)]
     struct ConfigFlags : u64 {
         const READ_FORMAT = ((1u64 << ConfigFlags::READ_FORMAT_WIDTH) - 1);
-        const SAMPLE_TYPE = (u64::MAX << ConfigFlags::READ_FORMAT_WIDTH) & (ConfigFlags::SAMPLE_ID_ALL.bits() - 1);
+        const SAMPLE_TYPE = (u64::MAX << ConfigFlags::READ_FORMAT_WIDTH) & (ConfigFlags::BRANCH_COUNTERS.bits() - 1);
 
+        const BRANCH_COUNTERS = 1 << 45;
         const SAMPLE_ID_ALL   = 1 << 46;
         const BRANCH_HW_INDEX = 1 << 47;
         const MISC = u64::MAX << ConfigFlags::MISC_OFFSET;
@@ -37,6 +40,7 @@ impl ConfigFlags {
 
     const READ_FORMAT_OFFSET: u32 = 0;
     const SAMPLE_TYPE_OFFSET: u32 = Self::READ_FORMAT_WIDTH;
+    const BRANCH_COUNTERS_OFFSET: u32 = Self::SAMPLE_ID_ALL_OFFSET - 1;
     const SAMPLE_ID_ALL_OFFSET: u32 = Self::BRANCH_HW_INDEX_OFFSET - 1;
     const BRANCH_HW_INDEX_OFFSET: u32 = Self::MISC_OFFSET - 1;
     const MISC_OFFSET: u32 = u64::BITS - Self::MISC_WIDTH;
@@ -48,11 +52,13 @@ impl ConfigFlags {
         sample_type: SampleFlags,
         sample_id_all: bool,
         branch_hw_index: bool,
+        branch_counters: bool,
         misc: u16,
     ) -> Self {
         let mut bits = 0u64;
         bits |= (sample_id_all as u64) << Self::SAMPLE_ID_ALL_OFFSET;
         bits |= (branch_hw_index as u64) << Self::BRANCH_HW_INDEX_OFFSET;
+        bits |= (branch_counters as u64) << Self::BRANCH_COUNTERS_OFFSET;
         bits |= (misc as u64) << Self::MISC_OFFSET;
 
         let mut flags = Self::from_bits_retain(bits);
@@ -81,6 +87,10 @@ impl ConfigFlags {
         self.contains(Self::BRANCH_HW_INDEX)
     }
 
+    fn branch_counters(&self) -> bool {
+        self.contains(Self::BRANCH_COUNTERS)
+    }
+
     fn misc(&self) -> u16 {
         ((*self & Self::MISC).bits() >> Self::MISC_OFFSET) as _
     }
@@ -188,6 +198,10 @@ impl<E> ParseConfig<E> {
         self.config.config_flags.branch_hw_index()
     }
 
+    pub(crate) fn branch_counters(&self) -> bool {
+        self.config.config_flags.branch_counters()
+    }
+
     pub(crate) fn misc(&self) -> u16 {
         self.config.config_flags.misc()
     }
@@ -206,6 +220,7 @@ impl From<perf_event_attr> for RawParseConfig {
                 SampleFlags::from_bits_retain(attrs.sample_type),
                 attrs.sample_id_all() != 0,
                 (attrs.branch_sample_type & PERF_SAMPLE_BRANCH_HW_INDEX as u64) != 0,
+                (attrs.branch_sample_type & PERF_SAMPLE_BRANCH_COUNTERS as u64) != 0,
                 0,
             ),
             sample_regs_user: attrs.sample_regs_user,
diff --git a/src/records/sample.rs b/src/records/sample.rs
index d1605ac..01a3589 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -175,6 +175,7 @@ impl<'p> Parse<'p> for Sample<'p> {
         let config = p.config();
         let sty = config.sample_type();
         let branch_hw_index = config.branch_hw_index();
+        let branch_counters = config.branch_counters();
 
         let id = p.parse_if(sty.contains(SampleFlags::IDENTIFIER))?;
         let ip = p.parse_if(sty.contains(SampleFlags::IP))?;
@@ -210,6 +211,14 @@ impl<'p> Parse<'p> for Sample<'p> {
             let hw_index = p.parse_if(branch_hw_index)?;
             let lbr = unsafe { p.parse_slice(nr)? };
 
+            // The entries are followed by one word of event counts for each of them. There
+            // is no field for those yet but the rest of the sample comes after them.
+            if branch_counters {
+                for _ in 0..nr {
+                    p.parse_u64()?;
+                }
+            }
+
             Ok((lbr, hw_index))
         })?;
         let (lbr, lbr_hw_index) = match lbr {
-- 
2.43.0

