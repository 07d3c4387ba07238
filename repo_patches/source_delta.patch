From deb9f63474d7f12f8b9df7b922bf7fdd30639188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 01/15] fix: Huffman codes longer than 16 bits were truncated
 by the LZSS/Huffman coders

---
 src/direct_ports/lzhuf.rs  | 13 +++++++------
 src/tools/adaptive_huff.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..427ee22 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,9 +521,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -539,7 +539,8 @@ impl AdaptiveHuffman {
         }
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut i: u16 = 0;
+        // the codes can have more than 16 bits
+        let mut i: u32 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -547,7 +548,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -561,9 +562,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..3052e7d 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -328,7 +328,8 @@ impl AdaptiveHuffmanCoder {
         }
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut code: u16 = 0;
+        // the codes can have more than 16 bits
+        let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -336,7 +337,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -349,9 +350,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
     }
 }
 
-- 
2.43.0


From c04cf00f689c8f1261b8ab8e63d0937b92718c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 02/15] fix: LZSS/Huffman compression of an empty input
 panicked

---
 src/direct_ports/lzhuf.rs | 4 ++--
 src/lzss_huff.rs          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 427ee22..b2daca3 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -636,8 +636,8 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         lzss.insert_node(r-i);
     }
     lzss.insert_node(r);
-    // start compressing
-    loop {
+    // start compressing, there is nothing to do if the input is empty
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..2a5f4df 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -271,8 +271,8 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     lzss.insert_node()?;
-    // main compression loop
-    loop {
+    // main compression loop, there is nothing to do if the input is empty
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
-- 
2.43.0


From e2636a7a6d639e44be3f0da3f18bed440802771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 03/15] fix: LZW expansion panicked if the first code of a
 chunk was not a symbol

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..b87b378 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,7 +549,6 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
-                    prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
                         return Err(Box::new(crate::Error::FileFormatMismatch));
@@ -558,6 +557,7 @@ where R: Read + Seek, W: Write + Seek {
                         log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                         return Err(Box::new(crate::Error::FileFormatMismatch));
                     }
+                    prev_str.push(prev_str[0]);
                 },
                 true => {
                     prev_str = lzw.get_string(code);
-- 
2.43.0


From 400279ebdcdfd22168960c55ebc84d52e9a1af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 04/15] fix: LZSS/Huffman expansion with an output offset
 stopped early

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 2a5f4df..72f7516 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -347,7 +347,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 11c2fbd7757bda36b2eb910b8093d35916ce0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 05/15] fix: LZSS/Huffman compression refused a file of exactly
 the maximum size

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 72f7516..c51f568 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 2ffe5e5c1bd657cbad6a69ac0890f650947bc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 06/15] fix: LZW expansion could lose part of a long string if
 the writer takes only some of it

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index b87b378..138c06c 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -567,7 +567,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From d00ddbe540cbcf942ff2a5fafa2721de933ed2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 07/15] fix: LZHUF port did not count the header in the
 compressed size returned by decode

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index b2daca3..c371748 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -727,7 +727,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 10fb91304e7c5a7d4497fce31b8b143433021f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 08/15] fix: compression into a longer existing file returned
 that file's size

---
 src/direct_ports/lzhuf.rs  | 6 +++++-
 src/lzss_huff.rs           | 2 +-
 src/lzw.rs                 | 9 +++++++--
 src/tools/adaptive_huff.rs | 4 ++++
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index c371748..3eb5c09 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -538,6 +538,10 @@ impl AdaptiveHuffman {
             self.ptr = 0;
         }
     }
+    /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
+    fn bytes_rewound(&self) -> u64 {
+        match self.bits.is_empty() { true => 0, false => 1 }
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // the codes can have more than 16 bits
         let mut i: u32 = 0;
@@ -682,7 +686,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    writer.seek(SeekFrom::Current(huff.bytes_rewound() as i64))?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index c51f568..d344cd6 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -310,7 +310,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    writer.seek(SeekFrom::Current(huff.bytes_rewound() as i64))?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index 138c06c..2da7637 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -160,6 +160,10 @@ impl LZWCoder {
         }
         self.count += 1;
     }
+    /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
+    fn bytes_rewound(&self) -> u64 {
+        match self.bits.is_empty() { true => 0, false => 1 }
+    }
 }
 
 impl LZWDecoder {
@@ -438,14 +442,15 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer);
                         }
+                        let end_offset = writer.stream_position()? + coder.bytes_rewound();
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        writer.seek(SeekFrom::Start(end_offset))?; // coder could be rewound
                         writer.flush()?;
-                        return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
+                        return Ok((expanded_length,end_offset - opt.out_offset))
                     },
                     Err(e) => return Err(Box::new(e))
                 }
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 3052e7d..c721cfc 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -327,6 +327,10 @@ impl AdaptiveHuffmanCoder {
             self.ptr = 0;
         }
     }
+    /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
+    pub fn bytes_rewound(&self) -> u64 {
+        match self.bits.is_empty() { true => 0, false => 1 }
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // the codes can have more than 16 bits
         let mut code: u32 = 0;
-- 
2.43.0


From a4f06cd24c278dca4547a5d3ea579861bd2c4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 09/15] fix: I/O errors in the bit level coders panicked
 instead of being returned

---
 src/direct_ports/lzhuf.rs  | 58 +++++++++++++++++++-------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 3eb5c09..ee90203 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> std::io::Result<u8> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -502,47 +502,46 @@ impl AdaptiveHuffman {
                         self.count += 1;
                         self.get_bit(bytes)
                     }
-                    Some(Err(e)) => {
-                        panic!("error reading file {}",e)
-                    },
-                    None => 0
+                    Some(Err(e)) => Err(e),
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> std::io::Result<u8> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
     /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
     fn bytes_rewound(&self) -> u64 {
         match self.bits.is_empty() { true => 0, false => 1 }
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         // the codes can have more than 16 bits
         let mut i: u32 = 0;
         let mut j: u16 = 0;
@@ -560,40 +559,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> std::io::Result<i16> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> std::io::Result<u16> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -647,10 +647,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -712,14 +712,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index d344cd6..10e3ee0 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -278,10 +278,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index 2da7637..e31a608 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
     /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
     fn bytes_rewound(&self) -> u64 {
@@ -408,7 +409,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -437,15 +438,15 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         let end_offset = writer.stream_position()? + coder.bytes_rewound();
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end_offset))?; // coder could be rewound
@@ -458,19 +459,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index c721cfc..7b3ac28 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,28 +310,29 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
     /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
     pub fn bytes_rewound(&self) -> u64 {
         match self.bits.is_empty() { true => 0, false => 1 }
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         // the codes can have more than 16 bits
         let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
@@ -348,15 +349,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
 }
 
-- 
2.43.0


From 53ad880fafb1f95fc4a50dd58ee7da79c78fe525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 10/15] fix: LZW chunk headers not ending on a byte boundary
 erased bits of the first codes

---
 src/lzw.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index e31a608..e092f24 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -97,7 +97,9 @@ struct LZWCoder {
     bits: BitVec,
     ptr: usize,
     ord: BitOrder,
-    count: usize
+    count: usize,
+    /// first few bits of the chunk, in stream order, could share a byte with the header
+    first_bits: BitVec
 }
 
 struct LZWDecoder {
@@ -113,9 +115,15 @@ impl LZWCoder {
             bits: BitVec::new(),
             ptr: 0,
             ord,
-            count: 0
+            count: 0,
+            first_bits: BitVec::new()
         }
     }
+    /// call this when the codes of a new chunk are about to start
+    fn start_chunk(&mut self) {
+        self.count = 0;
+        self.first_bits = BitVec::new();
+    }
     /// keep the bit vector small, we don't need the bits behind us
     fn drop_leading_bits(&mut self) {
         let cpy = self.bits.clone();
@@ -129,6 +137,7 @@ impl LZWCoder {
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
     pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> std::io::Result<()> {
+        let start = self.bits.len();
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,6 +158,11 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
+        for i in start..self.bits.len() {
+            if self.first_bits.len() < 8 {
+                self.first_bits.push(self.bits[i]);
+            }
+        }
         writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
             writer.seek(SeekFrom::Current(-1))?;
@@ -161,6 +175,16 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// output the header of a chunk whose codes were already written by `chunk`.
+    /// The codes might start in the last byte of the header, so their bits are repeated.
+    fn put_header<W: Write + Seek>(&mut self,num_bits: usize,code: usize,chunk: &LZWCoder,writer: &mut BufWriter<W>) -> std::io::Result<()> {
+        self.put_code(num_bits,code,writer)?;
+        let shared = (8 - self.bits.len()) % 8;
+        for bit in chunk.first_bits.iter().take(shared) {
+            self.put_code(1,bit as usize,writer)?;
+        }
+        Ok(())
+    }
     /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
     fn bytes_rewound(&self) -> u64 {
         match self.bits.is_empty() { true => 0, false => 1 }
@@ -411,7 +435,7 @@ where R: Read + Seek, W: Write + Seek {
         if opt.header_bits > 0 {
             coder.put_code(opt.header_bits,0,&mut writer)?;
         }
-        coder.count = 0;
+        coder.start_chunk();
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
         loop {
@@ -446,7 +470,7 @@ where R: Read + Seek, W: Write + Seek {
                         let end_offset = writer.stream_position()? + coder.bytes_rewound();
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                            old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&coder,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end_offset))?; // coder could be rewound
@@ -471,7 +495,7 @@ where R: Read + Seek, W: Write + Seek {
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&coder,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
-- 
2.43.0


From 9fea142bf0df59d7665d1e782a9d1c096382647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 11/15] fix: LZSS/Huffman output could differ from LZHUF's near
 the end of short inputs

---
 src/lzss_huff.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 10e3ee0..3d72ff3 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -58,6 +58,9 @@ pub const STD_OPTIONS: Options = Options {
 struct LZSS {
     opt: Options,
     dictionary: RingBuffer<u8>,
+    /// `LZHUF` compares strings that run past the end of the ring using a copy of
+    /// the first `lookahead-1` positions, which is zero until something is written there
+    mirror: Vec<u8>,
     index: Tree,
     match_offset: i32,
     match_length: usize
@@ -66,15 +69,32 @@ struct LZSS {
 impl LZSS {
     fn create(opt: Options) -> Self {
         let dictionary = RingBuffer::create(0,opt.window_size);
+        let mirror = vec![0;opt.lookahead-1];
         let index = Tree::create(opt.window_size,256);
         Self {
             opt,
             dictionary,
+            mirror,
             index,
             match_offset: 0,
             match_length: 0
         }
     }
+    /// set symbol in the lookahead part of the dictionary
+    fn set_lookahead(&mut self,offset: i64,sym: u8) {
+        let pos = self.dictionary.get_pos(offset);
+        self.dictionary.set_abs(pos,sym);
+        if pos < self.mirror.len() {
+            self.mirror[pos] = sym;
+        }
+    }
+    /// get symbol during string comparison, positions past the end of the ring are in the mirror
+    fn get_cmp(&self,abs: usize) -> i16 {
+        match abs < self.opt.window_size {
+            true => self.dictionary.get_abs(abs) as i16,
+            false => self.mirror[abs - self.opt.window_size] as i16
+        }
+    }
     /// This finds a match to the symbol run starting at position `pos`.
     /// It always exits by inserting a node: either for a match that was found,
     /// or for a prospective match to come.
@@ -103,7 +123,7 @@ impl LZSS {
             // upon exiting this loop, `i` will have the number of matched symbols,
             // and `cmp` will have the difference in first mismatched symbol values.
             while i < self.opt.lookahead {
-                cmp = self.dictionary.get(i as i64) as i16 - self.dictionary.get_abs(curs+i) as i16;
+                cmp = self.get_cmp(pos+i) - self.get_cmp(curs+i);
                 if cmp != 0 {
                     break;
                 }
@@ -254,7 +274,7 @@ where R: Read + Seek, W: Write + Seek {
     while len < opt.lookahead {
         match bytes.next() {
             Some(Ok(c)) => {
-                lzss.dictionary.set(len as i64,c);
+                lzss.set_lookahead(len as i64,c);
                 len += 1;
             },
             None => {
@@ -292,7 +312,7 @@ where R: Read + Seek, W: Write + Seek {
                 Some(Err(e)) => return Err(Box::new(e))
             };
             lzss.delete_node(opt.lookahead as i64)?;
-            lzss.dictionary.set(opt.lookahead as i64,c);
+            lzss.set_lookahead(opt.lookahead as i64,c);
             lzss.dictionary.advance();
             lzss.insert_node()?;
             i += 1;
-- 
2.43.0


From d483a724a05874436aed832f29b329f6f0f1531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 12/15] fix: LZW chunks ending in the last byte of their header
 lost the header

---
 src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index e092f24..757372b 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -177,12 +177,16 @@ impl LZWCoder {
     }
     /// output the header of a chunk whose codes were already written by `chunk`.
     /// The codes might start in the last byte of the header, so their bits are repeated.
-    fn put_header<W: Write + Seek>(&mut self,num_bits: usize,code: usize,chunk: &LZWCoder,writer: &mut BufWriter<W>) -> std::io::Result<()> {
+    fn put_header<W: Write + Seek>(&mut self,num_bits: usize,code: usize,chunk: &mut LZWCoder,writer: &mut BufWriter<W>) -> std::io::Result<()> {
         self.put_code(num_bits,code,writer)?;
         let shared = (8 - self.bits.len()) % 8;
         for bit in chunk.first_bits.iter().take(shared) {
             self.put_code(1,bit as usize,writer)?;
         }
+        if chunk.first_bits.len() < shared {
+            // the chunk ends in this byte too, what follows must not bring back the placeholder
+            chunk.bits = self.bits.clone();
+        }
         Ok(())
     }
     /// number of bytes (0 or 1) that are written, but remain ahead of the stream position
@@ -470,7 +474,7 @@ where R: Read + Seek, W: Write + Seek {
                         let end_offset = writer.stream_position()? + coder.bytes_rewound();
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&coder,&mut writer)?;
+                            old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut coder,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end_offset))?; // coder could be rewound
@@ -495,7 +499,7 @@ where R: Read + Seek, W: Write + Seek {
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&coder,&mut writer)?;
+                    old_coder_state.put_header(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut coder,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
-- 
2.43.0


From ec774744204ab695198f6a538f1ddbc118254a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:41 +0000
Subject: [PATCH 13/15] fix: LZSS match code overflowed for thresholds above
 255

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 3d72ff3..428c460 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -300,7 +300,7 @@ where R: Read + Seek, W: Write + Seek {
             lzss.match_length = 1;
             huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_char((255+lzss.match_length-opt.threshold) as u16,&mut writer)?;
             huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
-- 
2.43.0


From fb31c8817f498702462334aaac11275c0951091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 14/15] fix: TD0 files refused for their size had their header
 written first

---
 src/td0.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/td0.rs b/src/td0.rs
index 2a3c41e..7f3659f 100644
--- a/src/td0.rs
+++ b/src/td0.rs
@@ -11,7 +11,7 @@
 //! Some decoders count on this padding to correctly decode the last symbol.
 //! The aforementioned issue does not apply to v1.x (LZW) compression.
 
-use std::io::{Cursor,Read,Write,Seek};
+use std::io::{Cursor,Read,Write,Seek,SeekFrom};
 use crate::DYNERR;
 use crate::lzss_huff;
 use crate::lzw;
@@ -58,6 +58,18 @@ pub const TD_V2_OPTIONS: lzss_huff::Options = lzss_huff::Options {
     max_file_size: 3_000_000
 };
 
+/// Refuse files that are too large before any output is written, `ver` is the Teledisk version
+fn check_size<R: Seek>(src: &mut R,ver: u8) -> Result<(),DYNERR> {
+    let max_size = match ver < 20 {
+        true => TD_V1_OPTIONS.in_offset + TD_V1_OPTIONS.max_file_size,
+        false => TD_V2_OPTIONS.in_offset + TD_V2_OPTIONS.max_file_size
+    };
+    match src.seek(SeekFrom::End(0))? > max_size {
+        true => Err(Box::new(crate::Error::FileTooLarge)),
+        false => Ok(())
+    }
+}
+
 /// Convert a TD0 image from advanced compression to normal.
 /// For Teledisk 2.x, the heavy lifting is done by the `lzss_huff` module.
 /// For Teledisk 1.x, the heavy lifting is done by the `lzw` module.
@@ -72,6 +84,7 @@ where R: Read + Seek, W: Write + Seek {
     if crc!=td_header[10..12] {
         return Err(Box::new(crate::Error::BadChecksum))
     }
+    check_size(compressed_in,td_header[4])?;
     td_header[0..2].copy_from_slice("TD".as_bytes());
     let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
     td_header[10..12].copy_from_slice(&crc);
@@ -100,6 +113,7 @@ where R: Read + Seek, W: Write + Seek {
     if crc!=td_header[10..12] {
         return Err(Box::new(crate::Error::BadChecksum))
     }
+    check_size(expanded_in,td_header[4])?;
     td_header[0..2].copy_from_slice("td".as_bytes());
     let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
     td_header[10..12].copy_from_slice(&crc);
-- 
2.43.0


From 8c01cc427ac74aa25b3bd8d8544cb4fcbe9075e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 15/15] fix: a reader failing with UnexpectedEof was taken for
 the end of the data

---
 src/lzw.rs                 | 17 ++++++++---------
 src/tools/adaptive_huff.rs |  8 ++++----
 src/tools/mod.rs           | 14 +++++++++++++-
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 757372b..809d099 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -9,6 +9,7 @@ use crate::BitOrder;
 use std::io::{Cursor,Read,Write,Seek,SeekFrom,BufReader,BufWriter,ErrorKind};
 use std::collections::HashMap;
 use crate::DYNERR;
+use crate::tools::read_byte;
 
 /// Options controlling compression
 #[derive(Clone)]
@@ -223,15 +224,14 @@ impl LZWDecoder {
                 Ok(bit as u8)
             },
             None => {
-            let mut by: [u8;1] = [0];
-                match reader.read_exact(&mut by) {
-                    Ok(()) => {
+                match read_byte(reader) {
+                    Ok(by) => {
                         if self.bits.len()>512 {
                             self.drop_leading_bits();
                         }
                         match self.ord {
-                            BitOrder::Msb0 => self.bits.append(&mut BitVec::from_bytes(&by)),
-                            BitOrder::Lsb0 => self.bits.append(&mut bytes_to_bits_lsb0(&by))
+                            BitOrder::Msb0 => self.bits.append(&mut BitVec::from_bytes(&[by])),
+                            BitOrder::Lsb0 => self.bits.append(&mut bytes_to_bits_lsb0(&[by]))
                         }
                         self.get_bit(reader)
                     }
@@ -427,7 +427,6 @@ where R: Read + Seek, W: Write + Seek {
     let mut write_offset_header = opt.out_offset;
     let mut read_chunk_offset = opt.in_offset;
     let mut old_coder_state = LZWCoder::new(opt.ord.clone());
-    let mut sym_in: [u8;1] = [0];
 
     log::debug!("entering loop over chunks");
     loop {
@@ -446,9 +445,9 @@ where R: Read + Seek, W: Write + Seek {
             lzw.curr_match = None;
             // loop to build the longest possible match
             loop {
-                match reader.read_exact(&mut sym_in) {
-                    Ok(()) => {
-                        match lzw.check_match(sym_in[0] as usize) {
+                match read_byte(&mut reader) {
+                    Ok(sym_in) => {
+                        match lzw.check_match(sym_in as usize) {
                             Some(true) => {
                                 // keep matching
                             },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 7b3ac28..9ca7772 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -4,6 +4,7 @@
 //! see the `direct_ports` module for more on the legacy.
 
 use bit_vec::BitVec;
+use super::read_byte;
 use std::io::{Read,Write,Seek,SeekFrom,BufWriter,BufReader};
 
 /// Tree used for both encoding and decoding.
@@ -389,13 +390,12 @@ impl AdaptiveHuffmanDecoder {
                 Ok(bit as u8)
             },
             None => {
-                let mut by: [u8;1] = [0];
-                match reader.read_exact(&mut by) {
-                    Ok(()) => {
+                match read_byte(reader) {
+                    Ok(by) => {
                         if self.bits.len()>512 {
                             self.drop_leading_bits();
                         }
-                        self.bits.append(&mut BitVec::from_bytes(&by));
+                        self.bits.append(&mut BitVec::from_bytes(&[by]));
                         self.get_bit(reader)
                     }
                     Err(e) => Err(e)
diff --git a/src/tools/mod.rs b/src/tools/mod.rs
index 31fa031..fe9ef18 100644
--- a/src/tools/mod.rs
+++ b/src/tools/mod.rs
@@ -2,4 +2,16 @@
 
 pub mod adaptive_huff;
 pub mod node_pool;
-pub mod ring_buffer;
\ No newline at end of file
+pub mod ring_buffer;
+
+use std::io::{Read,ErrorKind};
+
+/// Read one byte.  Only the end of the stream is reported as `UnexpectedEof`; if the stream
+/// itself fails with that kind of error, it is wrapped, lest it be taken for the end.
+pub fn read_byte<R: Read>(reader: &mut R) -> Result<u8,std::io::Error> {
+    match reader.bytes().next() {
+        Some(Err(e)) if e.kind()==ErrorKind::UnexpectedEof => Err(std::io::Error::new(ErrorKind::Other,e)),
+        Some(ans) => ans,
+        None => Err(ErrorKind::UnexpectedEof.into())
+    }
+}
-- 
2.43.0

