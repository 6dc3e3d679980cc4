From dfeaacd187569d6e057570ec729397a5758c2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:18 +0000
Subject: [PATCH 01/32] fix: do not reserve 4 GiB in PacketBufReader::new

---
 brec/src/packet/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..094c82a 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -257,7 +257,7 @@ impl<
             inner: std::io::BufReader::new(inner),
             rules: RulesDef::default(),
             recent: HeaderReadState::Empty,
-            buffered: Vec::with_capacity(u32::MAX as usize),
+            buffered: Vec::new(),
         }
     }
 
-- 
2.43.0


From c3f9c85f9556281211fd952cf043ffd7dc917a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 02/32] fix: BufferedReader loses preloaded bytes and
 undercounts consumed ones

---
 brec/src/traits/read/reader.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..3bd1bd3 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,10 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let loaded = self.inner.fill_buf()?;
+        let len = loaded.len();
+        self.buffer.extend_from_slice(loaded);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -158,7 +160,7 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
     /// Reads data from the buffer into `buf`, consuming buffered data first.
     ///
     /// - If `self.buffer` contains data, it is read first.
-    /// - If additional data is needed, `self.inner.read()` is called.
+    /// - If there is no preloaded data, `self.inner.read()` is called.
     ///
     /// This ensures that any preloaded data is utilized before reading directly from
     /// the inner reader.
@@ -173,7 +175,7 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             self.buffer.drain(..to_copy);
             total_read += to_copy;
         }
-        if total_read < buf.len() {
+        if total_read == 0 {
             let from_inner = self.inner.read(&mut buf[total_read..])?;
             total_read += from_inner;
         }
@@ -226,16 +228,8 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
 
         amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(amt);
+        self.inner_len = self.inner_len.saturating_sub(amt);
+        self.consumed += buf_len + amt;
     }
 }
-- 
2.43.0


From e76cc9fde84face6b8c794a5a5c0d94cc071724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 03/32] fix: reading a Block from a stream fails unless it is
 of the first declared type

---
 brec_macros/src/collector/blocks/read.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..a9dda11 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,10 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                false,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +28,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // The signature is taken from the source only once and shown to every candidate
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -38,7 +44,10 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, skip_sig) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                skip_sig,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -54,6 +63,12 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // The signature is taken from the source only once and shown to every candidate
+                let mut sig = Vec::new();
+                if !skip_sig {
+                    sig.resize(#BLOCK_SIG_LEN, 0u8);
+                    buf.read_exact(&mut sig)?;
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 95980844ec6d1d76294af9e45c80f19844eca63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 04/32] fix: read_from_slice of a block ignores skip_sig when
 locating fields

---
 brec_macros/src/codegen/read/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..b82a9a7 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,7 +68,11 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    // Offsets of all other fields are counted from the end of the signature
+                    let #src = if skip_sig { #src } else { &#src[#BLOCK_SIG_LEN..] };
                 });
+                fnames.push(name);
+                continue;
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
-- 
2.43.0


From 605b08b8df170b1aa3761b4abdf257455e1e2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 05/32] fix: buffered PacketHeader::try_read consumes the
 header twice

---
 brec/src/packet/header/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..70a356c 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -145,8 +145,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From c0d188afb6e3b13bca336fec4e91d1055b3c2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 06/32] fix: PayloadHeader::ssize ignores the size of the
 payload's own CRC

---
 brec/src/payload/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..5d43703 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc()?.size() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
-- 
2.43.0


From 521c8353a015c14ac4382f7e7c1671054a6708fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 07/32] fix: write_vectored_all fails when the sink is
 interrupted

---
 brec/src/traits/write/slices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/write/slices.rs b/brec/src/traits/write/slices.rs
index ea1770c..9eecb50 100644
--- a/brec/src/traits/write/slices.rs
+++ b/brec/src/traits/write/slices.rs
@@ -100,7 +100,11 @@ impl<'a> IoSlices<'a> {
                 break;
             }
 
-            let just_written = buf.write_vectored(&in_work)?;
+            let just_written = match buf.write_vectored(&in_work) {
+                Ok(n) => n,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             written += just_written;
 
             if just_written == 0 {
-- 
2.43.0


From 753c8d644b0e6aea26b93f909a150e1b92d463b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 08/32] fix: seekable PacketDef::try_read moves the source when
 data is missing or damaged

---
 brec/src/packet/header/read.rs | 12 ++++++++++--
 brec/src/packet/read.rs        | 27 ++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 70a356c..2b95743 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,14 +113,22 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..28ac8dd 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,13 +82,22 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
-        let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
-            ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
-            ReadStatus::Success(header) => header,
+        let header = match <PacketHeader as TryReadFrom>::try_read(buf) {
+            Ok(ReadStatus::NotEnoughData(needed)) => return Ok(ReadStatus::NotEnoughData(needed)),
+            Ok(ReadStatus::Success(header)) => header,
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                return Err(err);
+            }
         };
+        // The header itself isn't a part of `header.size`
+        let available = available.saturating_sub(PacketHeader::ssize());
         if header.size > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(header.size - available));
         }
         let mut pkg = PacketDef::default();
@@ -121,8 +130,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -137,10 +146,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
-- 
2.43.0


From 05f6bf03a0edefd4a49469e6af13d4ae11aad7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 09/32] fix: buffered PacketDef::try_read consumes an
 incomplete packet

---
 brec/src/packet/read.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 28ac8dd..d822690 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -1,3 +1,5 @@
+use std::io::BufRead;
+
 use crate::*;
 
 /// Reads a complete `PacketDef` from a stream, including header, blocks, and optional payload.
@@ -165,8 +167,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
 /// This is similar to `TryReadFrom`, but works with non-seekable buffered sources (e.g., network streams).
 ///
 /// # Behavior
-/// - Reads header directly from `BufRead::fill_buf()` and consumes it.
-/// - Ensures that `header.size` bytes are available before decoding.
+/// - Reads header directly from `BufRead::fill_buf()`.
+/// - Ensures that the whole packet is available before decoding.
+/// - Consumes the packet only if it has been read successfully.
 /// - Supports partial reads using `ReadStatus::NotEnoughData(...)`.
 ///
 /// # Returns
@@ -190,16 +193,20 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        // The header itself isn't a part of `header.size`
+        if header.size > available - PacketHeader::ssize() {
+            return Ok(ReadStatus::NotEnoughData(
+                header.size - (available - PacketHeader::ssize()),
+            ));
         }
-        reader.consume(PacketHeader::ssize() as usize);
+        let consume = (PacketHeader::ssize() + header.size) as usize;
+        let mut body = &bytes[PacketHeader::ssize() as usize..consume];
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
+                match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -208,7 +215,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                         }
                     }
                     ReadStatus::NotEnoughData(needed) => {
-                        return Ok(ReadStatus::NotEnoughData(needed))
+                        return Err(Error::NotEnoughData(needed as usize))
                     }
                 }
                 iterations += 1;
@@ -218,15 +225,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
+            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
                 ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
+                    body.consume(header.size());
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)?
+                    {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
                         ReadStatus::NotEnoughData(needed) => {
-                            return Ok(ReadStatus::NotEnoughData(needed))
+                            return Err(Error::NotEnoughData(needed as usize))
                         }
                     }
                 }
@@ -235,6 +243,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                 }
             }
         }
+        reader.consume(consume);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 615011f693741f348a449898a5ded1ef32696489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 10/32] fix: seekable try_read of a block moves the source when
 data is missing or damaged

---
 brec_macros/src/codegen/read/block.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index b82a9a7..1877663 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -147,7 +147,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
@@ -159,9 +159,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(block) => Ok(brec::ReadStatus::Success(block)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
-- 
2.43.0


From 6885d63af426f065f102f2915922594d146421eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:57 +0000
Subject: [PATCH 11/32] fix: seekable try_read of a payload moves the source on
 error

---
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  8 +++++++-
 brec/src/traits/read/mod.rs        | 12 ++++++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..9d9c319 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..4ce176f 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
@@ -63,6 +63,12 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         })
     }
 
+    /// Returns the stream to the position captured on creation of the reader.
+    pub fn reset(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..f0d016b 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -113,12 +113,20 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
         }
-        <T as ReadPayloadFrom<T>>::read(buf, header).map(ReadStatus::Success)
+        match <T as ReadPayloadFrom<T>>::read(buf, header) {
+            Ok(value) => Ok(ReadStatus::Success(value)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 67367f20d50a38e740805da70acb15e26de13dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 12/32] fix: readers reserve memory by an announced length and
 panic on inconsistent blocks length

---
 brec/src/packet/mod.rs      |  6 ++++--
 brec/src/packet/read.rs     |  3 +--
 brec/src/traits/read/mod.rs | 16 ++++++++++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..7c9b188 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,8 +126,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let packet_buffer = read_sized(reader, header.size)?;
+        if header.blocks_len > header.size {
+            return Err(Error::NotEnoughData(header.blocks_len as usize));
+        }
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index d822690..bf420a9 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -26,8 +26,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
+        let mut inner = read_sized(buf, header.size)?;
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
             let mut iterations = 0;
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index f0d016b..7bb4b2f 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -3,6 +3,7 @@ mod status;
 
 use crate::*;
 use payload::*;
+use std::io::Read;
 pub use reader::*;
 pub use status::*;
 
@@ -53,6 +54,18 @@ pub trait ReadBlockFrom {
         Self: Sized;
 }
 
+/// Reads exactly `len` bytes. In contrast to reading into a preallocated buffer, memory is
+/// reserved only for data which really can be obtained from the source. Announced length might
+/// be wrong and cannot be trusted.
+pub(crate) fn read_sized<T: std::io::Read>(buf: &mut T, len: u64) -> Result<Vec<u8>, Error> {
+    let mut bytes = Vec::new();
+    std::io::Read::take(buf, len).read_to_end(&mut bytes)?;
+    if (bytes.len() as u64) < len {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 /// Trait for reading and validating a typed payload using a `PayloadHeader`.
 ///
 /// Performs signature and CRC checks, and delegates to `PayloadDecode`.
@@ -72,8 +85,7 @@ pub trait ReadPayloadFrom<
         if header.sig != T::ssig() {
             return Err(Error::SignatureDismatch);
         }
-        let mut bytes = vec![0u8; header.payload_len()];
-        buf.read_exact(&mut bytes)?;
+        let bytes = read_sized(buf, header.payload_len() as u64)?;
         let value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
-- 
2.43.0


From 696f9d906a50823b22f6d0a03200018b2432ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 13/32] fix: limit of 255 blocks isn't the same for all readers

---
 brec/src/packet/mod.rs  | 9 +++++++--
 brec/src/packet/read.rs | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 7c9b188..c5289ce 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -133,8 +133,13 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
-                let blk =
-                    <BR as ReadBlockFromSlice>::read_from_slice(&packet_buffer[read..], false)?;
+                if blocks.len() >= MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
+                let blk = <BR as ReadBlockFromSlice>::read_from_slice(
+                    &packet_buffer[read..blocks_len],
+                    false,
+                )?;
                 read += blk.size() as usize;
                 blocks.push(blk);
                 if read == blocks_len {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index bf420a9..61cb0cd 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -44,7 +44,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
@@ -124,7 +124,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::MaxBlocksCount);
                 }
@@ -218,7 +218,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
-- 
2.43.0


From b5288c91d2b9c9f78c7358283958257088b488c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 14/32] fix: damaged payload flag of a packet header isn't
 detected

---
 brec/src/packet/header/read.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 2b95743..096a10c 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -34,6 +34,10 @@ impl ReadFrom for PacketHeader {
 
         let mut payload = [0u8; 1usize];
         buf.read_exact(&mut payload)?;
+        if payload[0] > 1 {
+            // CRC is calculated for the flag, it can be only 0 or 1
+            return Err(Error::CrcDismatch);
+        }
         let payload = payload[0] == 1;
 
         let mut crc = [0u8; 4usize];
@@ -81,6 +85,10 @@ impl ReadBlockFromSlice for PacketHeader {
         offset += 8;
         let blocks_len = u64::from_le_bytes(buf[offset..offset + 8].try_into()?);
         offset += 8;
+        if buf[offset] > 1 {
+            // CRC is calculated for the flag, it can be only 0 or 1
+            return Err(Error::CrcDismatch);
+        }
         let payload = buf[offset] == 1;
         offset += 1;
         let crc = u32::from_le_bytes(buf[offset..offset + 4].try_into()?);
-- 
2.43.0


From 239a56ffa977cfc8fe90ae2b4f3bb70e5bad38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 15/32] fix: PacketBufReader gets stuck or panics on a damaged
 packet

---
 brec/src/packet/reader.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 094c82a..d9f5bd5 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -336,7 +336,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -360,15 +360,17 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
-        let blocks_buffer = &packet_buffer[..blocks_len];
+        let Some(blocks_buffer) = packet_buffer.get(..blocks_len) else {
+            // Length of blocks is bigger than whole packet
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(blocks_len)));
+        };
         let mut blocks = Vec::new();
         let mut processed = 0;
         let mut count = 0;
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -404,12 +406,15 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
-- 
2.43.0


From 309f14412634227176f42e762e1e691a2d134f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 16/32] fix: PacketBufReader gets stuck on a signature which
 isn't a packet header

---
 brec/src/packet/reader.rs | 55 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index d9f5bd5..425684f 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -130,6 +130,29 @@ impl<
         ))
     }
 
+    /// Returns the number of bytes up to and including the first byte of the first signature in
+    /// the provided buffer. A next packet might start right after it.
+    fn false_header_len(buffer: &[u8]) -> usize {
+        PacketHeader::get_pos(buffer).unwrap_or_default() + 1
+    }
+
+    /// Skips a header which has been found in `buffer`, but cannot be read.
+    ///
+    /// First `buffered` bytes of `buffer` are consumed already, all other bytes are still in the
+    /// internal reader.
+    fn skip_false_header(&mut self, mut buffer: Vec<u8>, buffered: usize) -> Result<(), Error> {
+        let litter = Self::false_header_len(&buffer);
+        self.rules.ignore(&buffer[..litter])?;
+        if litter >= buffered {
+            self.inner.consume(litter - buffered);
+        } else {
+            buffer.truncate(buffered);
+            buffer.drain(..litter);
+            self.recent = HeaderReadState::Refill(Some((buffer, 1)));
+        }
+        Ok(())
+    }
+
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
     ///
     /// This function is used to maintain the correct reading position while ensuring
@@ -203,7 +226,14 @@ impl<
         let buffered = buffer.len();
         // First make attempt to read header without possible litter
         buffer.extend_from_slice(&extracted[..needed]);
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
+            Ok(state) => state,
+            Err(err) => {
+                self.skip_false_header(buffer, buffered)?;
+                return Err(err);
+            }
+        };
+        match state {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
@@ -219,7 +249,14 @@ impl<
         // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
         buffer.extend_from_slice(&extracted[needed..]);
         let header_len = PacketHeader::ssize() as usize;
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
+            Ok(state) => state,
+            Err(err) => {
+                self.skip_false_header(buffer, buffered)?;
+                return Err(err);
+            }
+        };
+        match state {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
@@ -303,7 +340,19 @@ impl<
                     self.inner.consume(available);
                     return Ok(NextPacket::NotEnoughData(needed));
                 }
-                match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
+                let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)
+                {
+                    Ok(state) => state,
+                    Err(err) => {
+                        // Found signature doesn't belong to a packet, search has to be continued
+                        // right after beginning of it
+                        let litter = Self::false_header_len(buffer);
+                        self.rules.ignore(&buffer[..litter])?;
+                        self.inner.consume(litter);
+                        return Err(err);
+                    }
+                };
+                match state {
                     PacketHeaderState::NotFound => {
                         let header_len = PacketHeader::ssize() as usize;
                         if available > header_len {
-- 
2.43.0


From 0269e9ed15de72e9ee963c33c612b2fbc87478f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 17/32] fix: PacketBufReader misses a short packet at the end
 of a stream

---
 brec/src/packet/reader.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 425684f..ed32c98 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -282,7 +282,7 @@ impl<
                     buffer.drain(..(buffer.len() - header_len));
                 }
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                self.recent = HeaderReadState::Refill(Some((buffer, 1)));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -359,11 +359,10 @@ impl<
                             self.rules.ignore(&buffer[..available - header_len])?;
                             self.recent = HeaderReadState::Refill(Some((
                                 buffer[available - header_len..].to_vec(),
-                                header_len,
+                                1,
                             )));
                         } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
+                            self.recent = HeaderReadState::Refill(Some((buffer.to_vec(), 1)));
                         }
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
-- 
2.43.0


From 963b2e5ee8e571a5a5ca5116da4e7df8e090a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 18/32] fix: PacketBufReader never reports the end of a stream
 after an incomplete packet

---
 brec/src/packet/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index ed32c98..3ffb9eb 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -182,6 +182,14 @@ impl<
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
+        if packet_size > available && buffer.is_empty() {
+            // Source is exhausted, packet will be never completed
+            let mut litter: Vec<u8> = Vec::new();
+            header.write_all(&mut litter)?;
+            litter.append(&mut self.buffered);
+            self.rules.ignore(&litter)?;
+            return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+        }
         if packet_size > available {
             // Not enough data to load packet
             let consumed = buffer.len();
-- 
2.43.0


From 1cea146c7e08029eddd4b10f2f25fd4b2a902c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 19/32] fix: PacketBufReader loses data on a temporary failure
 of the source

---
 brec/src/packet/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 3ffb9eb..1350a3f 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -178,7 +178,13 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -219,7 +225,13 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From b1292958e5e1b11af4bc48435520520b23d858eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 20/32] fix: damaged or incomplete storage slot makes reading
 panic or be taken as the end of storage

---
 brec/src/storage/slot/header.rs |  4 +-
 brec/src/storage/slot/read.rs   | 77 ++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..045982f 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,9 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..88f9867 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -1,5 +1,41 @@
 use crate::*;
 
+/// Slots of any other capacity aren't supported by storage; other value means header is damaged.
+fn check_capacity(header: &SlotHeader) -> Result<(), Error> {
+    if header.capacity != DEFAULT_SLOT_CAPACITY as u64 {
+        return Err(Error::DamagedSlot(Box::new(Error::InvalidCapacity(
+            header.capacity as usize,
+            DEFAULT_SLOT_CAPACITY.to_string(),
+        ))));
+    }
+    Ok(())
+}
+
+/// Reads lengths and CRC of a slot. Reading is done at once to get a consistent state even if
+/// the slot is being overwritten at the same time.
+fn read_body<T: std::io::Read>(buf: &mut T, header: &SlotHeader) -> Result<Slot, Error> {
+    check_capacity(header)?;
+    let mut body = [0u8; DEFAULT_SLOT_CAPACITY * 8 + 4];
+    buf.read_exact(&mut body)?;
+
+    let (lenghts, crc) = body.split_at(DEFAULT_SLOT_CAPACITY * 8);
+    let lenghts = lenghts
+        .chunks_exact(8)
+        .map(|ln| Ok(u64::from_le_bytes(ln.try_into()?)))
+        .collect::<Result<Vec<u64>, Error>>()?;
+
+    let slot = Slot::new(lenghts, header.capacity, crc.try_into()?);
+    if slot.crc != slot.crc() {
+        return Err(Error::CrcDismatch);
+    }
+    // Position of any packet has to be a valid position in a file
+    slot.lenghts
+        .iter()
+        .try_fold(0i64, |sum, ln| sum.checked_add_unsigned(*ln))
+        .ok_or(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)))?;
+    Ok(slot)
+}
+
 impl ReadFrom for Slot {
     /// Reads a `Slot` from a stream, expecting the full structure to be available.
     ///
@@ -21,22 +57,7 @@ impl ReadFrom for Slot {
     {
         let header = SlotHeader::read(buf)?;
 
-        let mut lenghts = Vec::with_capacity(header.capacity as usize);
-        for _ in 0..header.capacity {
-            let mut packet_len = [0u8; 8usize];
-            buf.read_exact(&mut packet_len)?;
-            lenghts.push(u64::from_le_bytes(packet_len));
-        }
-
-        let mut crc = [0u8; 4usize];
-        buf.read_exact(&mut crc)?;
-
-        let slot = Slot::new(lenghts, header.capacity, crc);
-        if slot.crc == slot.crc() {
-            Ok(slot)
-        } else {
-            Err(Error::CrcDismatch)
-        }
+        read_body(buf, &header)
     }
 }
 
@@ -60,7 +81,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
@@ -68,29 +91,15 @@ impl TryReadFrom for Slot {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
         };
 
+        check_capacity(&header)?;
         let needed = SlotHeader::ssize()
             + header.capacity * std::mem::size_of::<u64>() as u64
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
-        let mut lenghts = Vec::with_capacity(header.capacity as usize);
-        for _ in 0..header.capacity {
-            let mut packet_len = [0u8; 8usize];
-            buf.read_exact(&mut packet_len)?;
-            lenghts.push(u64::from_le_bytes(packet_len));
-        }
-
-        let mut crc = [0u8; 4usize];
-        buf.read_exact(&mut crc)?;
-
-        let slot = Slot::new(lenghts, header.capacity, crc);
-        if slot.crc == slot.crc() {
-            Ok(ReadStatus::Success(slot))
-        } else {
-            Err(Error::CrcDismatch)
-        }
+        read_body(buf, &header).map(ReadStatus::Success)
     }
 }
-- 
2.43.0


From 1bedae0ab93b0ffd99d5c3c4dec08d75e3162b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 21/32] fix: positioned iteration reads wrong data after the
 first slot

---
 brec/src/storage/locator.rs      | 1 +
 brec/src/storage/reader/iters.rs | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..279d562 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -62,6 +62,7 @@ impl FreeSlotLocator {
 
     pub fn setup<'a, I: Iterator<Item = &'a Slot>>(&mut self, slots: I) {
         self.next = 0;
+        self.slot_offset = 0;
         for slot in slots {
             if slot.get_free_slot_offset().is_some() {
                 break;
diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..169f993 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,13 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            // Next location will be requested for the next slot
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From 349f18b4852480c089df52342caa3e88ca743def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 22/32] fix: storage iterators panic if packets cannot be read

---
 brec/src/storage/reader/iters.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 169f993..f429f62 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -1,7 +1,4 @@
-use std::{
-    io::{BufRead, Cursor},
-    ops::RangeInclusive,
-};
+use std::{io::Cursor, ops::RangeInclusive};
 
 use crate::*;
 
@@ -137,9 +134,7 @@ impl<
         self.source
             .seek(std::io::SeekFrom::Start(*location.start()))?;
         let size = (location.end() - location.start()) as usize;
-        let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
-        self.buffer = Cursor::new(inner);
+        self.buffer = Cursor::new(read_sized(self.source, size as u64)?);
         Ok(self)
     }
 }
@@ -160,8 +155,7 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
-        if self.buffer.fill_buf().unwrap().is_empty() {
+        if self.buffer.position() >= self.buffer.get_ref().len() as u64 {
             let location = self.locator.next()?;
             if let Err(err) = self
                 .source
@@ -170,9 +164,10 @@ impl<
                 return Some(Err(err.into()));
             }
             let size = (location.end() - location.start()) as usize;
-            let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
-            self.buffer = Cursor::new(inner);
+            match read_sized(self.source, size as u64) {
+                Ok(inner) => self.buffer = Cursor::new(inner),
+                Err(err) => return Some(Err(err)),
+            }
         }
         match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
             Err(err) => Some(Err(err)),
@@ -254,7 +249,7 @@ impl<
     /// Returns `Some(Ok(...))` if accepted, skips if denied, and `Err(...)` on error.
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if self.buffer.fill_buf().unwrap().is_empty() {
+            if self.buffer.position() >= self.buffer.get_ref().len() as u64 {
                 let location = self.locator.next()?;
                 if let Err(err) = self
                     .source
@@ -263,9 +258,10 @@ impl<
                     return Some(Err(err.into()));
                 }
                 let size = (location.end() - location.start()) as usize;
-                let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
-                self.buffer = Cursor::new(inner);
+                match read_sized(self.source, size as u64) {
+                    Ok(inner) => self.buffer = Cursor::new(inner),
+                    Err(err) => return Some(Err(err)),
+                }
             }
             match PacketDef::filtered(&mut self.buffer, self.rules) {
                 Ok(LookInStatus::Accepted(_, packet)) => return Some(Ok(packet)),
-- 
2.43.0


From 8ac274acd02fdc2d66ba3845d2d13749ac359fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:42 +0000
Subject: [PATCH 23/32] fix: reload of a storage reader misreads and miscounts
 new slots

---
 brec/src/storage/reader/mod.rs | 105 ++++++++-------------------------
 1 file changed, 24 insertions(+), 81 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..a5cac85 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -77,70 +77,34 @@ impl<
     }
 
     pub fn reload(&mut self) -> Result<usize, Error> {
-        let mut source_pos;
-
-        let last = match self.slots.last().map(|v| (v, v.inner.expand())) {
-            Some((last, (Some(offset), Some(index), crc))) => {
-                source_pos = last.offset;
-                Some((offset, index, crc))
-            }
-            Some((last, (None, None, _))) => {
-                // Slot is full, because no free offset or/and index
-                source_pos = last.offset + last.inner.width() + last.inner.size();
-                None
-            }
-            _ => {
-                // No slots
-                source_pos = 0;
-                None
-            }
+        let before = self.count();
+        // If last known slot has free space, it has to be read again
+        let (mut source_pos, reread) = match self.slots.last() {
+            Some(last) if last.get_free_slot_index().is_some() => (last.offset, true),
+            Some(last) => (last.offset + last.width() + last.size(), false),
+            None => (0, false),
         };
-        let count = self.slots.len();
+        let mut loaded = Vec::new();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
-                    {
-                        if crc == slot.crc {
-                            return Ok(0);
-                        }
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
-                        } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
-                        }
-                    } else {
-                        let position = source_pos;
-                        source_pos += slot.size() + slot.width();
-                        self.slots.push(AnchoredSlot::new(slot, position));
+                    let position = source_pos;
+                    source_pos += slot.size() + slot.width();
+                    let has_next = slot.is_full();
+                    loaded.push(AnchoredSlot::new(slot, position));
+                    if !has_next {
+                        break;
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if reread && loaded.is_empty() {
+                        // Cannot read again last slot
+                        return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                            needed as usize,
+                        ))));
                     }
+                    break;
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -151,34 +115,13 @@ impl<
                 Err(err) => return Err(err),
             }
         }
-
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
+        if reread {
+            self.slots.pop();
+        }
+        self.slots.append(&mut loaded);
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
-        Ok(read)
+        Ok(self.count().saturating_sub(before))
     }
 
     /// Adds a packet filter or processing rule.
-- 
2.43.0


From cf3bb22f27ae2a2c0f9cef1e7a7842b20431bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 24/32] fix: interrupted or failed insertion breaks a storage

---
 brec/src/storage/reader/mod.rs |  5 +++
 brec/src/storage/writer/mod.rs | 69 ++++++++++++++++++++++++++--------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index a5cac85..170cea7 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -57,7 +57,12 @@ impl<
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
                     offset += slot.size() + slot.width();
+                    let has_next = slot.is_full();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if !has_next {
+                        // Data after not filled slot isn't a part of storage
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..2f5fa79 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -54,7 +54,12 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     offset += slot.size() + slot.width();
+                    let has_next = slot.is_full();
                     self.slots.push(slot);
+                    if !has_next {
+                        // Data after not filled slot isn't a part of storage
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
@@ -81,35 +86,67 @@ impl<
     /// * `Ok(())` — Packet successfully written
     /// * `Err(Error)` — If no space is found or write fails
     pub fn insert(&mut self, mut packet: PacketDef<B, P, Inner>) -> Result<(), Error> {
+        // Convert the packet into bytes
+        let mut buffer: Vec<u8> = Vec::new();
+        packet.write_all(&mut buffer)?;
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
-                self.slots.push(Slot::default());
+                // New slot becomes known only if it has been stored
+                let (_, slot_offset) = self.locator.current();
+                let slot = Slot::default();
+                Self::write_slot(&mut self.inner, &slot, slot_offset)?;
+                self.slots.push(slot);
                 self.locator
                     .next(&self.slots)
                     .ok_or(Error::CannotFindFreeSlot)?
             }
         };
-        // Convert the packet into bytes
-        let mut buffer: Vec<u8> = Vec::new();
-        packet.write_all(&mut buffer)?;
+        // Write packet; it isn't a part of storage until slot is updated
+        self.inner.seek(std::io::SeekFrom::Start(offset))?;
+        self.inner.write_all(&buffer)?;
+        self.inner.flush()?;
+        // Get slot data
+        let (slot_index, slot_offset) = self.locator.current();
+        let index = self
+            .slots
+            .get(slot_index)
+            .and_then(|slot| slot.get_free_slot_index())
+            .ok_or(Error::CannotFindFreePlaceInSlot)?;
+        let mut next = None;
+        if index + 1 == DEFAULT_SLOT_CAPACITY {
+            // Slot will be full and next slot will be expected right after the packet. Rests of
+            // an interrupted insertion shouldn't be there
+            let end = offset + buffer.len() as u64;
+            if self.inner.seek(std::io::SeekFrom::End(0))? > end {
+                let slot = Slot::default();
+                Self::write_slot(&mut self.inner, &slot, end)?;
+                next = Some(slot);
+            }
+        }
         // Insert length of packet
         self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        // Get updated slot data
-        let (slot_index, slot_offset) = self.locator.current();
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         let slot = self
             .slots
-            .get(slot_index)
+            .get_mut(slot_index)
             .ok_or(Error::CannotFindFreeSlot)?;
-        // Write/Rewrite slot
-        slot.write_all(&mut self.inner)?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.write_all(&buffer)?;
-        self.inner.flush()?;
+        // Rewrite slot
+        if let Err(err) = Self::write_slot(&mut self.inner, slot, slot_offset) {
+            // Packet isn't inserted, bring slot back to previous state
+            slot.lenghts[index] = 0;
+            slot.overwrite_crc();
+            let _ = Self::write_slot(&mut self.inner, slot, slot_offset);
+            return Err(err);
+        }
+        self.slots.extend(next);
+        Ok(())
+    }
+
+    /// Writes/rewrites slot at given position
+    fn write_slot(inner: &mut S, slot: &Slot, offset: u64) -> Result<(), Error> {
+        inner.seek(std::io::SeekFrom::Start(offset))?;
+        slot.write_all(inner)?;
+        inner.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From dbb9a299e9b854db1ee0f49583767c518e36ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:57 +0000
Subject: [PATCH 25/32] fix: range of packets starting at the largest index
 overflows

---
 brec/src/storage/reader/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index f429f62..1b005dc 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -344,7 +344,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -414,7 +414,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
-- 
2.43.0


From 1deb8519b3bb072f98563c3945c3a9348cf42ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 26/32] fix: failed insertion might leave a damaged record in a
 storage

If rewriting of a slot fails and the slot cannot be brought back, the record
of the failed insertion is still listed in the file. A next insertion used to
overwrite its bytes before the slot, and being interrupted it left a listed,
but damaged record.
---
 brec/src/storage/writer/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 2f5fa79..aa47d95 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -14,6 +14,8 @@ pub struct WriterDef<
     pub slots: Vec<Slot>,
     inner: S,
     locator: FreeSlotLocator,
+    /// `true` if the current slot might be stored in a state that differs from the known one
+    dirty: bool,
     _phantom: std::marker::PhantomData<(B, P, Inner)>,
 }
 
@@ -37,6 +39,7 @@ impl<
             slots: Vec::new(),
             inner,
             locator: FreeSlotLocator::default(),
+            dirty: false,
             _phantom: std::marker::PhantomData,
         }
         .load()
@@ -89,6 +92,14 @@ impl<
         // Convert the packet into bytes
         let mut buffer: Vec<u8> = Vec::new();
         packet.write_all(&mut buffer)?;
+        if self.dirty {
+            // Rests of a failed insertion shouldn't be a part of storage before data is overwritten
+            let (slot_index, slot_offset) = self.locator.current();
+            if let Some(slot) = self.slots.get(slot_index) {
+                Self::write_slot(&mut self.inner, slot, slot_offset)?;
+            }
+            self.dirty = false;
+        }
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
@@ -135,7 +146,7 @@ impl<
             // Packet isn't inserted, bring slot back to previous state
             slot.lenghts[index] = 0;
             slot.overwrite_crc();
-            let _ = Self::write_slot(&mut self.inner, slot, slot_offset);
+            self.dirty = Self::write_slot(&mut self.inner, slot, slot_offset).is_err();
             return Err(err);
         }
         self.slots.extend(next);
-- 
2.43.0


From bd4107dc5459845262ba8111ac30d6999a5fbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 27/32] fix: fields of a block may have any name

---
 brec_macros/src/codegen/read/block.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 1877663..5c83c11 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -9,7 +9,9 @@ impl Read for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let sig_len = self.sig_len();
-        let src: syn::Ident = format_ident!("buf");
+        // Names of internal variables shouldn't overlap names of fields
+        let src: syn::Ident = format_ident!("__buf");
+        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
         for field in self.fields.iter().filter(|f| !f.injected) {
             fields.push(field.read_exact(&src)?);
             fnames.push(format_ident!("{}", field.name));
@@ -17,7 +19,7 @@ impl Read for Block {
         Ok(quote! {
 
             impl brec::ReadBlockFrom for #block_name {
-                fn read<T: std::io::Read>(buf: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
+                fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
                 where
                     Self: Sized {
                         use brec::prelude::*;
@@ -31,13 +33,13 @@ impl Read for Block {
 
                         #(#fields)*
 
-                        let mut crc = [0u8; 4];
-                        #src.read_exact(&mut crc)?;
+                        let mut #crc = [0u8; 4];
+                        #src.read_exact(&mut #crc)?;
 
                         let block = #block_name {
                             #(#fnames,)*
                         };
-                        if block.crc() != crc {
+                        if block.crc() != #crc {
                             return Err(brec::Error::CrcDismatch)
                         }
 
@@ -58,7 +60,9 @@ impl ReadFromSlice for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let mut offset = 0usize;
-        let src: syn::Ident = format_ident!("buf");
+        // Names of internal variables shouldn't overlap names of fields
+        let src: syn::Ident = format_ident!("__buf");
+        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
         for field in self.fields.iter() {
             if &field.name == "__sig" {
                 let name = format_ident!("{}", FIELD_SIG);
@@ -77,7 +81,6 @@ impl ReadFromSlice for Block {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
                     let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#src[#offset..#offset + #BLOCK_CRC_LEN])?;
-                    let crc = #name;
                 });
             } else {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
@@ -118,7 +121,7 @@ impl ReadFromSlice for Block {
                         #(#fnames,)*
                     };
 
-                    if block.crc() != *crc {
+                    if block.crc() != *#crc {
                         return Err(brec::Error::CrcDismatch)
                     }
                     let block: #referred_name <'a> = unsafe { std::mem::transmute(block) };
-- 
2.43.0


From 044be8aef9af745423acba3859a30f1285f8b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 28/32] fix: protocol without default payloads might have own
 ones

---
 brec_macros/src/collector/payloads/mod.rs   |  20 +--
 brec_macros/src/collector/payloads/props.rs |  45 ++++--
 brec_macros/src/collector/payloads/read.rs  | 151 +++++++++++---------
 brec_macros/src/collector/payloads/write.rs |  25 ++--
 brec_macros/src/generate/config.rs          |   8 ++
 5 files changed, 145 insertions(+), 104 deletions(-)

diff --git a/brec_macros/src/collector/payloads/mod.rs b/brec_macros/src/collector/payloads/mod.rs
index 8d451e3..bb69513 100644
--- a/brec_macros/src/collector/payloads/mod.rs
+++ b/brec_macros/src/collector/payloads/mod.rs
@@ -11,16 +11,16 @@ mod write;
 pub fn gen(payloads: Vec<&Payload>, cfg: &Config) -> Result<TokenStream, E> {
     let derives = Derives::common(payloads.iter().map(|p| &p.derives).collect())?;
     let payload = enums::gen(&payloads, derives, cfg)?;
-    let encode = props::encode(&payloads)?;
-    let encode_referred = props::encode_referred(&payloads)?;
-    let sig = props::sig(&payloads)?;
-    let crc = props::crc(&payloads)?;
-    let size = props::size(&payloads)?;
-    let extract_from = read::extract_from(&payloads)?;
-    let try_extract_from = read::try_extract_from(&payloads)?;
-    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads)?;
-    let writing_to = write::writing_to(&payloads)?;
-    let writing_vectored_to = write::writing_vectored_to(&payloads)?;
+    let encode = props::encode(&payloads, cfg)?;
+    let encode_referred = props::encode_referred(&payloads, cfg)?;
+    let sig = props::sig(&payloads, cfg)?;
+    let crc = props::crc(&payloads, cfg)?;
+    let size = props::size(&payloads, cfg)?;
+    let extract_from = read::extract_from(&payloads, cfg)?;
+    let try_extract_from = read::try_extract_from(&payloads, cfg)?;
+    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads, cfg)?;
+    let writing_to = write::writing_to(&payloads, cfg)?;
+    let writing_vectored_to = write::writing_vectored_to(&payloads, cfg)?;
     Ok(quote! {
         #payload
         #encode
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 3ef9a83..354ab16 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -3,95 +3,110 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn encode(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncode::encode(pl)});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::PayloadEncode::encode(pl),
+        Payload::String(pl) => brec::PayloadEncode::encode(pl),
+    });
     Ok(quote! {
         impl brec::PayloadEncode for Payload {
             fn encode(&self) -> std::io::Result<Vec<u8>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncode::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncode::encode(pl),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn encode_referred(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode_referred(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncodeReferred::encode(pl)});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl),
+        Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl),
+    });
     Ok(quote! {
         impl brec::PayloadEncodeReferred for Payload {
             fn encode(&self) -> std::io::Result<Option<&[u8]>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn sig(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.sig()});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => pl.sig(),
+        Payload::String(pl) => pl.sig(),
+    });
     Ok(quote! {
         impl brec::PayloadSignature for Payload {
             fn sig(&self) -> brec::ByteBlock {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.sig(),
-                    Payload::String(pl) => pl.sig(),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn crc(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => pl.crc(),
+        Payload::String(pl) => pl.crc(),
+    });
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
             fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.crc(),
-                    Payload::String(pl) => pl.crc(),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn size(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn size(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.size()});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => pl.size(),
+        Payload::String(pl) => pl.size(),
+    });
     Ok(quote! {
         impl brec::PayloadSize for Payload {
             fn size(&self) -> std::io::Result<u64> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.size(),
-                    Payload::String(pl) => pl.size(),
+                    #defaults
                 }
             }
         }
diff --git a/brec_macros/src/collector/payloads/read.rs b/brec_macros/src/collector/payloads/read.rs
index 2d842d0..1c31a68 100644
--- a/brec_macros/src/collector/payloads/read.rs
+++ b/brec_macros/src/collector/payloads/read.rs
@@ -3,7 +3,7 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -19,6 +19,24 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    let defaults = cfg.default_payloads(quote! {
+        match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
+            Ok(pl) => return Ok(Payload::Bytes(pl)),
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+        match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
+            Ok(pl) => return Ok(Payload::String(pl)),
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+    });
     Ok(quote! {
         impl brec::ExtractPayloadFrom<Payload> for Payload {
             fn read<B: std::io::Read>(
@@ -29,29 +47,14 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 Self: Sized,
             {
                 #(#variants)*
-                match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::Bytes(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::String(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -72,6 +75,34 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    let defaults = cfg.default_payloads(quote! {
+        match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
+            Ok(brec::ReadStatus::Success(pl)) => {
+                return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+            }
+            Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                return Ok(brec::ReadStatus::NotEnoughData(needed))
+            }
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+        match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
+            Ok(brec::ReadStatus::Success(pl)) => {
+                return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+            }
+            Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                return Ok(brec::ReadStatus::NotEnoughData(needed))
+            }
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+    });
     Ok(quote! {
         impl brec::TryExtractPayloadFrom<Payload> for Payload {
             fn try_read<B: std::io::Read + std::io::Seek>(
@@ -79,39 +110,14 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from_buffered(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -132,6 +138,34 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
             }
         });
     }
+    let defaults = cfg.default_payloads(quote! {
+        match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
+            Ok(brec::ReadStatus::Success(pl)) => {
+                return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+            }
+            Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                return Ok(brec::ReadStatus::NotEnoughData(needed))
+            }
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+        match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
+            Ok(brec::ReadStatus::Success(pl)) => {
+                return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+            }
+            Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                return Ok(brec::ReadStatus::NotEnoughData(needed))
+            }
+            Err(err) => {
+                if !matches!(err, brec::Error::SignatureDismatch) {
+                    return Err(err);
+                }
+            }
+        }
+    });
     Ok(quote! {
         impl brec::TryExtractPayloadFromBuffered<Payload> for Payload {
             fn try_read<B: std::io::BufRead>(
@@ -139,32 +173,7 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
diff --git a/brec_macros/src/collector/payloads/write.rs b/brec_macros/src/collector/payloads/write.rs
index 45b6d5a..513f4e9 100644
--- a/brec_macros/src/collector/payloads/write.rs
+++ b/brec_macros/src/collector/payloads/write.rs
@@ -3,7 +3,7 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut write = Vec::new();
     let mut write_all = Vec::new();
     for payload in payloads.iter() {
@@ -15,41 +15,50 @@ pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
             quote! {Payload::#fullname(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf)},
         );
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+        Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+    });
+    let defaults_all = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+        Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+    });
     Ok(quote! {
         impl brec::WriteMutTo for Payload {
             fn write<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<usize> {
                 match self {
                     #(#write,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+                    #defaults
                 }
             }
 
             fn write_all<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<()> {
                 match self {
                     #(#write_all,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+                    #defaults_all
                 }
             }
         }
     })
 }
 
-pub fn writing_vectored_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_vectored_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut slices = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         slices.push(quote! {Payload::#fullname(pl) => pl.slices()});
     }
+    let defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => pl.slices(),
+        Payload::String(pl) => pl.slices(),
+    });
     Ok(quote! {
         impl brec::WriteVectoredMutTo for Payload {
             fn slices(&mut self) -> std::io::Result<brec::IoSlices<'_>> {
                 use brec::WriteVectoredPayloadWithHeaderTo;
                 match self {
                     #(#slices,)*
-                    Payload::Bytes(pl) => pl.slices(),
-                    Payload::String(pl) => pl.slices(),
+                    #defaults
                 }
             }
         }
diff --git a/brec_macros/src/generate/config.rs b/brec_macros/src/generate/config.rs
index c6df3f4..515077c 100644
--- a/brec_macros/src/generate/config.rs
+++ b/brec_macros/src/generate/config.rs
@@ -18,6 +18,14 @@ impl Config {
             .iter()
             .any(|attr| matches!(attr, Setting::NoDefaultPayload))
     }
+    /// Returns given tokens if default payloads (`Vec<u8>` and `String`) are in use
+    pub fn default_payloads(&self, tokens: TokenStream) -> TokenStream {
+        if self.is_no_default_payloads() {
+            TokenStream::new()
+        } else {
+            tokens
+        }
+    }
     pub fn get_payload_derive(&self) -> Result<Vec<TokenStream>, E> {
         let Some(Setting::PayloadsDerive(derives)) = self
             .0
-- 
2.43.0


From 77100a3eb28cd2a688e3e9e2a17cca205984c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 29/32] fix: seekable reader decodes a packet only within its
 announced size

---
 brec/src/packet/read.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 61cb0cd..f80a1b4 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -101,12 +101,20 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(header.size - available));
         }
+        // Packet is available as a whole, nothing after it can become a part of it
+        let mut body = match read_sized(buf, header.size) {
+            Ok(body) => std::io::Cursor::new(body),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                return Err(err);
+            }
+        };
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFrom>::try_read(buf) {
+                match <B as TryReadFrom>::try_read(&mut body) {
                     Ok(ReadStatus::Success(blk)) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -116,7 +124,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                     Ok(ReadStatus::NotEnoughData(needed)) => {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                        return Ok(ReadStatus::NotEnoughData(needed));
+                        return Err(Error::NotEnoughData(needed as usize));
                     }
                     Err(err) => {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
@@ -131,15 +139,15 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+            match <PayloadHeader as TryReadFrom>::try_read(&mut body) {
                 Ok(ReadStatus::Success(header)) => {
-                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
+                    match <P as TryExtractPayloadFrom<Inner>>::try_read(&mut body, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
                         }
                         Ok(ReadStatus::NotEnoughData(needed)) => {
                             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                            return Ok(ReadStatus::NotEnoughData(needed));
+                            return Err(Error::NotEnoughData(needed as usize));
                         }
                         Err(err) => {
                             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-- 
2.43.0


From e083dffcd56b3e0bc0854dde0a5e51321bef1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 30/32] fix: borrowed bool fields are read as owned ones

---
 brec_macros/src/tokenized/block/from_bytes/ty/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
index 80823ad..70ad119 100644
--- a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
+++ b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
@@ -26,7 +26,7 @@ impl FromBytes for Ty {
             }
             Ty::Bool => {
                 quote! {
-                   u8::from_le_bytes(#src[#from..#to].try_into()?) == 1
+                   u8::from_le_bytes(#src[#from..#to].try_into()?) != 0
                 }
             }
             Ty::Blob(len) => quote! {
-- 
2.43.0


From 9637894b29c55b89fce23c25d604f917e3a42737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 31/32] fix: payload hooks are invoked around encoding and
 decoding

---
 brec/src/packet/write.rs                    | 21 ++++--
 brec/src/traits/read/mod.rs                 |  3 +-
 brec/src/traits/write/mod.rs                | 83 +++++++++++++++------
 brec_macros/src/collector/payloads/enums.rs | 32 +++++++-
 4 files changed, 107 insertions(+), 32 deletions(-)

diff --git a/brec/src/packet/write.rs b/brec/src/packet/write.rs
index fbbe265..b34d927 100644
--- a/brec/src/packet/write.rs
+++ b/brec/src/packet/write.rs
@@ -23,6 +23,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriteMutTo
     ///
     /// Use `write_all()` if full delivery is required.
     fn write<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<usize> {
+        if let Some(payload) = self.payload.as_mut() {
+            payload.before_encode()?;
+        }
         let header = PacketHeader::new(&self.blocks, self.payload.as_ref())?;
         let mut total = header.write(buf)?;
         if total < PacketHeader::SIZE as usize {
@@ -36,8 +39,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriteMutTo
             }
             total += written;
         }
-        if let Some(payload) = self.payload.as_mut() {
-            let written = payload.write(buf)?;
+        if let Some(payload) = self.payload.as_ref() {
+            let written = write_payload(payload, buf)?;
             if written < payload.size()? as usize + PayloadHeader::ssize(payload)? {
                 return Ok(total + written);
             } else {
@@ -54,13 +57,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriteMutTo
     /// - each individual block
     /// - optional payload
     fn write_all<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<()> {
+        if let Some(payload) = self.payload.as_mut() {
+            payload.before_encode()?;
+        }
         let header = PacketHeader::new(&self.blocks, self.payload.as_ref())?;
         header.write_all(buf)?;
         for blk in self.blocks.iter() {
             blk.write_all(buf)?;
         }
-        if let Some(payload) = self.payload.as_mut() {
-            payload.write_all(buf)?;
+        if let Some(payload) = self.payload.as_ref() {
+            write_payload_all(payload, buf)?;
         }
         Ok(())
     }
@@ -91,6 +97,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriteVectoredMut
     /// # Returns
     /// A ready-to-write `IoSlices` that can be passed to `write_vectored`.
     fn slices(&mut self) -> std::io::Result<IoSlices<'_>> {
+        if let Some(payload) = self.payload.as_mut() {
+            payload.before_encode()?;
+        }
         let header = PacketHeader::new(&self.blocks, self.payload.as_ref())?;
         let mut slices = IoSlices::default();
         let mut header_bytes: Vec<u8> = Vec::new();
@@ -99,8 +108,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriteVectoredMut
         for blk in self.blocks.iter() {
             slices.append(blk.slices()?);
         }
-        if let Some(payload) = self.payload.as_mut() {
-            slices.append(payload.slices()?);
+        if let Some(payload) = self.payload.as_ref() {
+            slices.append(payload_slices(payload)?);
         }
         Ok(slices)
     }
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index 7bb4b2f..b0124af 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -86,11 +86,12 @@ pub trait ReadPayloadFrom<
             return Err(Error::SignatureDismatch);
         }
         let bytes = read_sized(buf, header.payload_len() as u64)?;
-        let value = T::decode(&bytes)?;
+        let mut value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
             return Err(Error::CrcDismatch);
         }
+        value.after_decode()?;
         Ok(value)
     }
 }
diff --git a/brec/src/traits/write/mod.rs b/brec/src/traits/write/mod.rs
index e9e54d3..99e2969 100644
--- a/brec/src/traits/write/mod.rs
+++ b/brec/src/traits/write/mod.rs
@@ -69,6 +69,59 @@ pub trait WriteVectoredMutTo {
     }
 }
 
+/// Writes the header and the body of a payload.
+///
+/// Doesn't invoke `PayloadHooks::before_encode()`, a caller is responsible for it.
+pub(crate) fn write_payload<P, T>(payload: &P, buf: &mut T) -> std::io::Result<usize>
+where
+    P: PayloadEncode + PayloadEncodeReferred + PayloadSignature + PayloadCrc + PayloadSize,
+    T: std::io::Write,
+{
+    let header = PayloadHeader::new(payload)?.as_vec();
+    buf.write_all(&header)?;
+    if let Some(bytes) = PayloadEncodeReferred::encode(payload)? {
+        buf.write(bytes)
+    } else {
+        buf.write(&PayloadEncode::encode(payload)?)
+    }
+    .map(|s| s + header.len())
+}
+
+/// Writes the entire header and body of a payload.
+///
+/// Doesn't invoke `PayloadHooks::before_encode()`, a caller is responsible for it.
+pub(crate) fn write_payload_all<P, T>(payload: &P, buf: &mut T) -> std::io::Result<()>
+where
+    P: PayloadEncode + PayloadEncodeReferred + PayloadSignature + PayloadCrc + PayloadSize,
+    T: std::io::Write,
+{
+    let header = PayloadHeader::new(payload)?.as_vec();
+    buf.write_all(&header)?;
+    if let Some(bytes) = PayloadEncodeReferred::encode(payload)? {
+        buf.write_all(bytes)
+    } else {
+        buf.write_all(&PayloadEncode::encode(payload)?)
+    }
+}
+
+/// Prepares slices with the header and the body of a payload.
+///
+/// Doesn't invoke `PayloadHooks::before_encode()`, a caller is responsible for it.
+pub(crate) fn payload_slices<P>(payload: &P) -> std::io::Result<IoSlices<'_>>
+where
+    P: PayloadEncode + PayloadEncodeReferred + PayloadSignature + PayloadCrc + PayloadSize,
+{
+    let mut slices = IoSlices::default();
+    let header = PayloadHeader::new(payload)?.as_vec();
+    slices.add_buffered(header.to_vec());
+    if let Some(bytes) = PayloadEncodeReferred::encode(payload)? {
+        slices.add_slice(bytes);
+    } else {
+        slices.add_buffered(PayloadEncode::encode(payload)?);
+    }
+    Ok(slices)
+}
+
 /// Trait for writing a payload with an automatically generated header.
 ///
 /// This includes encoding the header and writing the encoded payload (either referred or standard).
@@ -87,25 +140,14 @@ where
     /// # Returns
     /// The total number of bytes written.
     fn write<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<usize> {
-        let header = PayloadHeader::new(self)?.as_vec();
-        buf.write_all(&header)?;
-        if let Some(bytes) = PayloadEncodeReferred::encode(self)? {
-            buf.write(bytes)
-        } else {
-            buf.write(&PayloadEncode::encode(self)?)
-        }
-        .map(|s| s + header.len())
+        self.before_encode()?;
+        write_payload(self, buf)
     }
 
     /// Writes the entire header and payload, ensuring completeness.
     fn write_all<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<()> {
-        let header = PayloadHeader::new(self)?.as_vec();
-        buf.write_all(&header)?;
-        if let Some(bytes) = PayloadEncodeReferred::encode(self)? {
-            buf.write_all(bytes)
-        } else {
-            buf.write_all(&PayloadEncode::encode(self)?)
-        }
+        self.before_encode()?;
+        write_payload_all(self, buf)
     }
 }
 
@@ -124,15 +166,8 @@ where
 
     /// Prepares the header and payload slices for vectored I/O.
     fn slices(&mut self) -> std::io::Result<IoSlices<'_>> {
-        let mut slices = IoSlices::default();
-        let header = PayloadHeader::new(self)?.as_vec();
-        slices.add_buffered(header.to_vec());
-        if let Some(bytes) = PayloadEncodeReferred::encode(self)? {
-            slices.add_slice(bytes);
-        } else {
-            slices.add_buffered(PayloadEncode::encode(self)?);
-        }
-        Ok(slices)
+        self.before_encode()?;
+        payload_slices(self)
     }
 
     /// Writes all header and payload data using vectored I/O.
diff --git a/brec_macros/src/collector/payloads/enums.rs b/brec_macros/src/collector/payloads/enums.rs
index d367690..943ac1a 100644
--- a/brec_macros/src/collector/payloads/enums.rs
+++ b/brec_macros/src/collector/payloads/enums.rs
@@ -28,6 +28,22 @@ pub fn gen(
             String(String),
         }
     };
+    let mut before_encode = Vec::new();
+    let mut after_decode = Vec::new();
+    for pl in payloads.iter() {
+        let fullname = pl.fullname()?;
+        before_encode
+            .push(quote! {Payload::#fullname(pl) => brec::PayloadHooks::before_encode(pl)});
+        after_decode.push(quote! {Payload::#fullname(pl) => brec::PayloadHooks::after_decode(pl)});
+    }
+    let before_encode_defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::PayloadHooks::before_encode(pl),
+        Payload::String(pl) => brec::PayloadHooks::before_encode(pl),
+    });
+    let after_decode_defaults = cfg.default_payloads(quote! {
+        Payload::Bytes(pl) => brec::PayloadHooks::after_decode(pl),
+        Payload::String(pl) => brec::PayloadHooks::after_decode(pl),
+    });
     Ok(quote! {
         #derives
         #[allow(non_snake_case)]
@@ -36,7 +52,21 @@ pub fn gen(
             #deafults
         }
 
-        impl brec::PayloadHooks for Payload {}
+        impl brec::PayloadHooks for Payload {
+            fn before_encode(&mut self) -> std::io::Result<()> {
+                match self {
+                    #(#before_encode,)*
+                    #before_encode_defaults
+                }
+            }
+
+            fn after_decode(&mut self) -> std::io::Result<()> {
+                match self {
+                    #(#after_decode,)*
+                    #after_decode_defaults
+                }
+            }
+        }
 
         impl brec::PayloadInnerDef for Payload {}
 
-- 
2.43.0


From 8b6cb03e777724b288285f18e6d48013aa41cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:03 +0000
Subject: [PATCH 32/32] fix: blocks of not imported modules are referred to by
 their path

---
 brec_macros/src/collector/blocks/enums.rs | 4 ++--
 brec_macros/src/collector/blocks/read.rs  | 4 ++--
 brec_macros/src/entities/block/mod.rs     | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/brec_macros/src/collector/blocks/enums.rs b/brec_macros/src/collector/blocks/enums.rs
index b50afb6..f0572fa 100644
--- a/brec_macros/src/collector/blocks/enums.rs
+++ b/brec_macros/src/collector/blocks/enums.rs
@@ -30,8 +30,8 @@ pub fn gen_referred(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
-        let referred_name = blk.referred_name();
-        variants.push(quote! {#fullname(#referred_name<'a>)});
+        let referred_fullpath = blk.referred_fullpath()?;
+        variants.push(quote! {#fullname(#referred_fullpath<'a>)});
     }
     Ok(quote! {
         pub enum BlockReferred<'a> {
diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index a9dda11..0c716e3 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -149,10 +149,10 @@ pub fn try_read_from_buffered(blocks: &[&Block]) -> Result<TokenStream, E> {
 pub fn read_from_slice(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
-        let referred_name = blk.referred_name();
+        let referred_fullpath = blk.referred_fullpath()?;
         let fullname = blk.fullname()?;
         variants.push(quote! {
-            match #referred_name::read_from_slice(buf, skip_sig) {
+            match #referred_fullpath::read_from_slice(buf, skip_sig) {
                 Ok(blk) => return Ok(BlockReferred::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
diff --git a/brec_macros/src/entities/block/mod.rs b/brec_macros/src/entities/block/mod.rs
index 35935ac..e13b341 100644
--- a/brec_macros/src/entities/block/mod.rs
+++ b/brec_macros/src/entities/block/mod.rs
@@ -79,6 +79,9 @@ impl Block {
     pub fn fullpath(&self) -> Result<TokenStream, E> {
         self.attrs.fullpath(self.name())
     }
+    pub fn referred_fullpath(&self) -> Result<TokenStream, E> {
+        self.attrs.fullpath(self.referred_name())
+    }
     pub fn vis_token(&self) -> Result<TokenStream, E> {
         self.vis.as_token()
     }
-- 
2.43.0

