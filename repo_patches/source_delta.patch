From 854f74af4c989f13eff33fcd95f44e4782319e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 01/14] fix: dispatch SWITCH records to visit_switch

They reached visit_unknown, and failed with EOF since they have no body.
---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..edf0a28 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -580,6 +580,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From 5316000c89447fc615fb5be512b20e74de8dc882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:01 +0000
Subject: [PATCH 02/14] fix: parse_rest on an exhausted input returns an empty
 slice

Records whose trailing field is empty failed to parse with EOF.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index edf0a28..2ce7703 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -389,7 +389,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From 773ca5296ddd5d16d1263ee7acc8962824aac68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:01 +0000
Subject: [PATCH 03/14] fix: zero-length byte and slice parses succeed at the
 end of the input

A sample ending in an empty array (call chain, branch stack, registers,
read group...) failed to parse with EOF.
---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2ce7703..4962161 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // There may be no chunk left at all, which is fine if no bytes are needed.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
@@ -293,6 +298,10 @@ where
     }
 
     pub(crate) fn parse_array<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
+        if N == 0 {
+            return Ok([0u8; N]);
+        }
+
         let chunk = self.data.chunk()?;
 
         if chunk.len() < N {
-- 
2.43.0


From b69c8849c11af147f7febe237f345c36cfc73e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:02 +0000
Subject: [PATCH 04/14] fix: perf_event_attr consumes exactly attr.size bytes

Only one of the two u32 fields already parsed was subtracted, so 4 bytes
past the end of the struct were consumed.
---
 src/impls/perf_event_attr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..5d06c28 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,8 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        let parsed = mem::size_of_val(&attr.type_) + mem::size_of_val(&attr.size);
+        let mut p = p.split_at(attr.size as usize - parsed)?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From f8f9f59c8849e7194be8af45b4397924eb56bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:03 +0000
Subject: [PATCH 05/14] fix: registers with ABI_NONE are not followed by
 register values

The kernel writes only the abi word in this case. Reading registers
anyway misparsed every field that follows.
---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..368ff4e 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -355,10 +355,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // The kernel does not emit any registers when there is no ABI.
+        let count = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(count)? },
         })
     }
 }
-- 
2.43.0


From bd5655de2bd30f0a2c890cea54742113418f7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:04 +0000
Subject: [PATCH 06/14] fix: parse the weight of samples with
 PERF_SAMPLE_WEIGHT_STRUCT

The field was neither reported nor skipped, so that all later fields of
the sample were misparsed.
---
 src/records/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 368ff4e..422c4c1 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,7 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight = p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From 4cdc8a384ce6717ff9c0064d2bb4df332290a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:04 +0000
Subject: [PATCH 07/14] fix: Namespaces::uts returns the UTS namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From d34e7fc4b513af527a5c04e77a3dbeda76f2f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 08/14] fix: splitting an owned cow at either end keeps the
 halves in order

---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 5d3cae1f257cd43001e292feb90da064a6b77625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 09/14] fix: print build ids as proper hex digits, high nibble
 first

---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From d5d46eaba1a3282322af5d36c433fbc42f69e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 10/14] fix: separate the error category from its cause

The condition was inverted: external errors, which have no category text,
started with ": " and all others had no separator.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 678005d779d0c5f15522fb0ef90403ecb78629b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:07 +0000
Subject: [PATCH 11/14] fix: the parser returned by parse_metadata knows the
 header misc bits

Parsing a MMAP2 or SWITCH_CPU_WIDE from it ignored the misc bits of the
record.
---
 src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 4962161..2764958 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -552,6 +552,10 @@ where
             }
         };
 
+        let p = Parser {
+            config: p.config.with_misc(header.misc),
+            data: p.data,
+        };
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0


From 352c04cdfc867593a95dcd7e0ebe6352aeb94443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:07 +0000
Subject: [PATCH 12/14] fix: ParseBufCursor keeps its remaining length up to
 date

The result of the subtraction was dropped, so remaining_hint, which has
to be accurate, stayed at the initial length.
---
 src/parsebuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..ad655d1 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -234,7 +234,8 @@ unsafe impl<'p> ParseBuf<'p> for ParseBufCursor<'p> {
             .checked_add(count)
             .expect("advanced past the end of the buffer");
 
-        self.len
+        self.len = self
+            .len
             .checked_sub(count)
             .expect("advanced past the end of the buffer");
 
-- 
2.43.0


From d87963e3e4522ba4759ad74f1b78166dd83603a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 13/14] fix: reject lengths that do not fit in usize instead of
 truncating them

On 32-bit hosts a 64-bit length or element count lost its upper bits, so
a sample whose stack dynamic size is 2^52+1 parsed with one byte of stack
and a call chain claiming 2^32 entries parsed as empty.
---
 src/parse.rs              | 14 ++++++++++++++
 src/records/namespaces.rs |  2 +-
 src/records/read.rs       |  2 +-
 src/records/sample.rs     | 10 +++++-----
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2764958..48ef14a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -396,6 +396,20 @@ where
         Ok(self.endian().convert_u64(array))
     }
 
+    /// Parse a `u64` that is the length, or number of elements, of the data
+    /// following it.
+    ///
+    /// Fails if the length cannot be represented as a `usize`, since truncating
+    /// it would result in parsing the wrong data.
+    pub(crate) fn parse_len(&mut self) -> ParseResult<usize> {
+        self.parse_u64()?.try_into().map_err(|_| {
+            ParseError::custom(
+                ErrorKind::InvalidRecord,
+                "record contains a length larger than usize::MAX",
+            )
+        })
+    }
+
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
         let mut bytes = match self.data.chunk() {
diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 46a243b..b360c39 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -92,7 +92,7 @@ impl<'p> Parse<'p> for Namespaces<'p> {
     {
         let pid = p.parse()?;
         let tid = p.parse()?;
-        let len = p.parse_u64()? as usize;
+        let len = p.parse_len()?;
         let namespaces = unsafe { p.parse_slice(len)? };
 
         Ok(Self {
diff --git a/src/records/read.rs b/src/records/read.rs
index f8e7aac..0519163 100644
--- a/src/records/read.rs
+++ b/src/records/read.rs
@@ -418,7 +418,7 @@ impl<'p> Parse<'p> for ReadGroup<'p> {
             ));
         }
 
-        let nr = p.parse_u64()? as usize;
+        let nr = p.parse_len()?;
         let time_enabled = p
             .parse_if(read_format.contains(ReadFormat::TOTAL_TIME_ENABLED))?
             .unwrap_or(0);
diff --git a/src/records/sample.rs b/src/records/sample.rs
index 422c4c1..a50c250 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -196,7 +196,7 @@ impl<'p> Parse<'p> for Sample<'p> {
             }
         })?;
         let callchain = p.parse_if_with(sty.contains(SampleFlags::CALLCHAIN), |p| {
-            let nr = p.parse_u64()? as _;
+            let nr = p.parse_len()?;
             unsafe { p.parse_slice(nr) }
         })?;
         let raw = p.parse_if_with(sty.contains(SampleFlags::RAW), |p| {
@@ -206,7 +206,7 @@ impl<'p> Parse<'p> for Sample<'p> {
             })
         })?;
         let lbr = p.parse_if_with(sty.contains(SampleFlags::BRANCH_STACK), |p| {
-            let nr = p.parse_u64()? as usize;
+            let nr = p.parse_len()?;
             let hw_index = p.parse_if(branch_hw_index)?;
             let lbr = unsafe { p.parse_slice(nr)? };
 
@@ -220,14 +220,14 @@ impl<'p> Parse<'p> for Sample<'p> {
             Registers::parse_user(p)
         })?;
         let stack_user = p.parse_if_with(sty.contains(SampleFlags::STACK_USER), |p| {
-            let size = p.parse_u64()? as usize;
+            let size = p.parse_len()?;
 
             let mut data = p.parse_bytes(size)?;
 
             // from the manpage: dyn_size is omitted if size is 0.
             let dyn_size = match size {
                 0 => 0,
-                _ => p.parse_u64()? as usize,
+                _ => p.parse_len()?,
             };
 
             if dyn_size > data.len() {
@@ -255,7 +255,7 @@ impl<'p> Parse<'p> for Sample<'p> {
         let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
         let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
         let aux = p.parse_if_with(sty.contains(SampleFlags::AUX), |p| {
-            let size = p.parse_u64()? as usize;
+            let size = p.parse_len()?;
             p.parse_bytes(size)
         })?;
 
-- 
2.43.0


From 1b4e7f1423320c69a1eb574a49ebb3527e9b2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:11 +0000
Subject: [PATCH 14/14] fix: Txn::ABORT_MASK was empty on 32-bit targets

The constant in the bindings is a c_ulong, which loses the whole mask
when it is 32 bits wide.
---
 src/records/sample.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index a50c250..b4bb5a4 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -703,7 +703,9 @@ bitflags! {
         const CAPACITY_WRITE = bindings::PERF_TXN_CAPACITY_WRITE as _;
         const CAPACITY_READ = bindings::PERF_TXN_CAPACITY_READ as _;
 
-        const ABORT_MASK = bindings::PERF_TXN_ABORT_MASK as _;
+        // PERF_TXN_ABORT_MASK does not fit in the type that the bindings give it on 32-bit
+        // targets.
+        const ABORT_MASK = (u32::MAX as u64) << bindings::PERF_TXN_ABORT_SHIFT;
     }
 }
 
-- 
2.43.0

