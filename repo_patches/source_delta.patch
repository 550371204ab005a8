From 9c6044d17566e55f60dcc3f8ed7ca3f2661f0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 01/28] fix: compressing empty data panics (LZSS/Huffman and
 LZHUF port)

---
 src/direct_ports/lzhuf.rs | 5 +++++
 src/lzss_huff.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..97e2ecb 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -603,6 +603,11 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     }
     let header = u32::to_le_bytes(expanded_length as u32);
     writer.write(&header)?;
+    // same as `LZHUF.C`, there is nothing to encode
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()?));
+    }
     reader.seek(SeekFrom::Start(0))?;
     // init
     let mut bytes = reader.bytes();
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..e20c610 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -240,6 +240,11 @@ where R: Read + Seek, W: Write + Seek {
         let header = u32::to_le_bytes(expanded_length as u32);
         writer.write(&header)?;
     }
+    // nothing to encode, the coding loop expects at least one symbol
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()? - opt.out_offset));
+    }
     // init
     let mut bytes = reader.bytes();
     let mut lzss = LZSS::create(opt.clone());
-- 
2.43.0


From db5e0f4ed08937a941b455f920006fa621d548c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 02/28] fix: expanding with an output offset stops short of the
 length in the header

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index e20c610..823bea9 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -352,7 +352,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From cc10188a8b9d2bb65810a65dd75bce835c7fb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 03/28] fix: file exactly at the size limit is rejected when
 compressing with LZSS/Huffman

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 823bea9..5f759b6 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From a3305ab294bfc90c80786818deab694e3f081111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 04/28] fix: retreating the ring buffer cursor from position 0
 underflows

---
 src/tools/ring_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ring_buffer.rs b/src/tools/ring_buffer.rs
index d611921..aa02331 100644
--- a/src/tools/ring_buffer.rs
+++ b/src/tools/ring_buffer.rs
@@ -45,7 +45,7 @@ impl <T: PrimInt> RingBuffer<T> {
     }
     /// retreat cursor by 1
     pub fn retreat(&mut self) {
-        self.pos = (self.pos - 1) % self.n;
+        self.pos = (self.pos + self.n - 1) % self.n;
     }
     /// Distance to another position, assuming it is behind us.
     /// Correctly handles positions that are "ahead" in memory order.
-- 
2.43.0


From 4c8fe51755c29b99a0c05defdc64cff949a5c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 05/28] fix: LZW expansion panics if a chunk starts with an
 unknown code

---
 src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..fdb95dd 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,6 +549,10 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
+                    if prev_str.is_empty() {
+                        log::error!("first code in chunk is not a symbol, got {}",code);
+                        return Err(Box::new(crate::Error::FileFormatMismatch));
+                    }
                     prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
-- 
2.43.0


From 4bf8e1194bfe6e116392cc1de78f3e4b48f718d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 06/28] fix: Huffman codes longer than 16 bits are truncated,
 corrupting the data

---
 src/direct_ports/lzhuf.rs  | 13 +++++++------
 src/tools/adaptive_huff.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 97e2ecb..9c4e0ca 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,9 +521,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -539,7 +539,8 @@ impl AdaptiveHuffman {
         }
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut i: u16 = 0;
+        // `LZHUF.C` has a 16 bit code here, but the tree can get deeper than that
+        let mut i: u32 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -547,7 +548,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -561,9 +562,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..5f2ec42 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -328,7 +328,8 @@ impl AdaptiveHuffmanCoder {
         }
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut code: u16 = 0;
+        // the tree can get deeper than 16 levels, but not as deep as 32
+        let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -336,7 +337,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -349,9 +350,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
     }
 }
 
-- 
2.43.0


From 3b047b1e524f913921dafc353e76912a5a96b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:31 +0000
Subject: [PATCH 07/28] fix: I/O errors during coding panic instead of being
 returned

---
 src/direct_ports/lzhuf.rs  | 56 ++++++++++++++++++++------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 9c4e0ca..645f0af 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -503,42 +503,43 @@ impl AdaptiveHuffman {
                         self.get_bit(bytes)
                     }
                     Some(Err(e)) => {
-                        panic!("error reading file {}",e)
+                        Err(e)
                     },
-                    None => 0
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // `LZHUF.C` has a 16 bit code here, but the tree can get deeper than that
         let mut i: u32 = 0;
         let mut j: u16 = 0;
@@ -556,40 +557,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -648,10 +650,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -713,14 +715,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 5f759b6..ced27c8 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -283,10 +283,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index fdb95dd..a40a1ef 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,14 +434,14 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
@@ -453,19 +454,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 5f2ec42..5af5e28 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,24 +310,25 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // the tree can get deeper than 16 levels, but not as deep as 32
         let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
@@ -344,15 +345,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,((c & 0x3f) as u32) << 26,writer);
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
 }
 
-- 
2.43.0


From c4f92b303e1633d70312f1ac74f6832068d57d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 08/28] fix: short writes could silently drop expanded data

---
 src/direct_ports/lzhuf.rs | 6 +++---
 src/lzss_huff.rs          | 6 +++---
 src/lzw.rs                | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 645f0af..0f759e9 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -605,7 +605,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     let header = u32::to_le_bytes(expanded_length as u32);
-    writer.write(&header)?;
+    writer.write_all(&header)?;
     // same as `LZHUF.C`, there is nothing to encode
     if expanded_length == 0 {
         writer.flush()?;
@@ -717,7 +717,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	while writer.stream_position()? < textsize as u64 {
 		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
-            writer.write(&[c as u8])?;
+            writer.write_all(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
@@ -726,7 +726,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
-                writer.write(&[c8])?;
+                writer.write_all(&[c8])?;
 				lzss.dictionary[r] = c8;
                 r += 1;
 				r &= WIN_SIZE - 1;
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index ced27c8..533c3af 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -238,7 +238,7 @@ where R: Read + Seek, W: Write + Seek {
     // write the 32-bit header with length of expanded data
     if opt.header {
         let header = u32::to_le_bytes(expanded_length as u32);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
     }
     // nothing to encode, the coding loop expects at least one symbol
     if expanded_length == 0 {
@@ -359,7 +359,7 @@ where R: Read + Seek, W: Write + Seek {
             Err(e) => return Err(Box::new(e))
         };
 		if c < 256 {
-            writer.write(&[c as u8])?;
+            writer.write_all(&[c as u8])?;
 			lzss.dictionary.set(0,c as u8);
             lzss.dictionary.advance();
 		} else {
@@ -371,7 +371,7 @@ where R: Read + Seek, W: Write + Seek {
 			let strlen = c as i64 + opt.threshold as i64 - 255;
 			for _k in 0..strlen {
 				let c8 = lzss.dictionary.get(offset);
-                writer.write(&[c8])?;
+                writer.write_all(&[c8])?;
                 lzss.dictionary.set(0,c8 as u8);
                 lzss.dictionary.advance();
             }
diff --git a/src/lzw.rs b/src/lzw.rs
index a40a1ef..c71b97a 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -572,7 +572,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From a5df422d878f2736bb7200180870ec7d6060a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:35 +0000
Subject: [PATCH 09/28] fix: LZHUF port leaves the header out of the compressed
 size when decoding

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 0f759e9..5fae31d 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -734,7 +734,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((huff.count as u64 + header.len() as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 9deaa3eaa9b63cfcd1fd1ca772575816a9c6508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:37 +0000
Subject: [PATCH 10/28] fix: expand with unknown method creates an empty output
 file

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f44b9d7..6133d7c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,7 +41,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         .about("compress a file"));
 
         main_cmd = main_cmd.subcommand(Command::new("expand")
-        .arg(arg!(-m --method <METHOD> "compression algorithm").required(true))
+        .arg(arg!(-m --method <METHOD> "compression algorithm").value_parser(methods)
+            .required(true))
         .arg(arg!(-i --input <PATH> "input path").required(true))
         .arg(arg!(-o --output <PATH> "output path").required(true))
         .about("expand a file"));
-- 
2.43.0


From 1a41e019bcd912837d71cd7e85fb23be42984a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:58 +0000
Subject: [PATCH 11/28] fix: compressing over longer existing data reports
 wrong size and leaves stale tail

---
 src/direct_ports/lzhuf.rs  |  9 ++++++++-
 src/lzss_huff.rs           |  2 +-
 src/lzw.rs                 | 13 +++++++++++--
 src/tools/adaptive_huff.rs |  7 +++++++
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 5fae31d..0c6f668 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -539,6 +539,13 @@ impl AdaptiveHuffman {
         }
         Ok(())
     }
+    /// move past the final partial byte, if there is one, call this when coding is done
+    fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // `LZHUF.C` has a 16 bit code here, but the tree can get deeper than that
         let mut i: u32 = 0;
@@ -689,7 +696,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 533c3af..2e63c9d 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -315,7 +315,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index c71b97a..0b1e8f7 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,13 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// move past the final partial byte, if there is one, call this when coding is done
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
 }
 
 impl LZWDecoder {
@@ -439,14 +446,16 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
+                        coder.finish(&mut writer)?; // coder could be rewound
+                        let end_offset = writer.stream_position()?;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        writer.seek(SeekFrom::Start(end_offset))?;
                         writer.flush()?;
-                        return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
+                        return Ok((expanded_length,end_offset - opt.out_offset))
                     },
                     Err(e) => return Err(Box::new(e))
                 }
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 5af5e28..c8a1512 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -328,6 +328,13 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
+    /// move past the final partial byte, if there is one, call this when coding is done
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // the tree can get deeper than 16 levels, but not as deep as 32
         let mut code: u32 = 0;
-- 
2.43.0


From cbca744ce154d70d498c484b59e7647d33b28867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 12/28] fix: LZW chunk headers that are not byte aligned
 overwrite the first code

---
 src/lzw.rs | 61 +++++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 0b1e8f7..6b271b7 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -92,7 +92,6 @@ fn bytes_to_bits_lsb0(bytes: &[u8]) -> BitVec {
     ans
 }
 
-#[derive(Clone)]
 struct LZWCoder {
     bits: BitVec,
     ptr: usize,
@@ -161,6 +160,25 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// output `code`, or hold it back if the chunk header has to be written first
+    fn put_or_hold<W: Write + Seek>(&mut self,code: usize,held: &mut Vec<usize>,opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if opt.header_bits > 0 {
+            held.push(code);
+            self.count += 1;
+            return Ok(());
+        }
+        self.put_code(opt.max_code_width,code,writer)
+    }
+    /// output the chunk header followed by the codes held back, nothing happens if there is no header
+    fn put_held<W: Write + Seek>(&mut self,held: &mut Vec<usize>,opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if opt.header_bits > 0 {
+            self.put_code(opt.header_bits,held.len()*opt.max_code_width/opt.header_divisor,writer)?;
+            for code in held.drain(..) {
+                self.put_code(opt.max_code_width,code,writer)?;
+            }
+        }
+        Ok(())
+    }
     /// move past the final partial byte, if there is one, call this when coding is done
     pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         if self.bits.len() > 0 {
@@ -399,21 +417,16 @@ where R: Read + Seek, W: Write + Seek {
     if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
-    let mut write_offset_header = opt.out_offset;
-    let mut read_chunk_offset = opt.in_offset;
-    let mut old_coder_state = LZWCoder::new(opt.ord.clone());
+    // codes held back until the chunk header can be written, not used if there is no header
+    let mut chunk_codes: Vec<usize> = Vec::new();
     let mut sym_in: [u8;1] = [0];
+    reader.seek(SeekFrom::Start(opt.in_offset))?;
+    writer.seek(SeekFrom::Start(opt.out_offset))?;
 
     log::debug!("entering loop over chunks");
     loop {
         log::debug!("create LZW dictionary");
         let mut lzw = LZW::create(opt.clone());
-        reader.seek(SeekFrom::Start(read_chunk_offset))?;
-        writer.seek(SeekFrom::Start(write_offset_header))?;
-        //placeholder for header 
-        if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer)?;
-        }
         coder.count = 0;
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
@@ -441,21 +454,16 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
+                            coder.put_or_hold(val.code,&mut chunk_codes,opt,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer)?;
-                        }
-                        coder.finish(&mut writer)?; // coder could be rewound
-                        let end_offset = writer.stream_position()?;
-                        if opt.header_bits > 0 {
-                            writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                            coder.put_or_hold(code,&mut chunk_codes,opt,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::Start(end_offset))?;
+                        coder.put_held(&mut chunk_codes,opt,&mut writer)?;
+                        coder.finish(&mut writer)?; // coder could be rewound
                         writer.flush()?;
-                        return Ok((expanded_length,end_offset - opt.out_offset))
+                        return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
                     Err(e) => return Err(Box::new(e))
                 }
@@ -463,24 +471,17 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
+            coder.put_or_hold(curr.code,&mut chunk_codes,opt,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer)?;
-                }
-                let save_offset = writer.stream_position()?;
-                if opt.header_bits > 0 {
-                    writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    coder.put_or_hold(code,&mut chunk_codes,opt,&mut writer)?;
                 }
-                old_coder_state = coder.clone();
-                write_offset_header = save_offset;
+                coder.put_held(&mut chunk_codes,opt,&mut writer)?;
                 // read-position should be on the last symbol that didn't match
-                read_chunk_offset = reader.stream_position()?;
                 break;
             }
         }
-- 
2.43.0


From 3b080653096bb1abc4fd117de0986ede8ae94fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 13/28] verif: hooks to save, restore and rescale the adaptive
 Huffman model (cfg retro_verif)

---
 src/lib.rs                 |  7 +++++++
 src/tools/adaptive_huff.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index eed724d..1398dcf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,7 +29,14 @@
 //! let compressed = lzw::compress_slice(test_data,&lzw::STD_OPTIONS).expect("compression failed");
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod tools;
+/// Access to internals for the model checker, only compiled with `--cfg retro_verif`
+#[cfg(retro_verif)]
+pub mod verif_hooks {
+    pub use crate::tools::adaptive_huff::{AdaptiveHuffmanTree,AdaptiveHuffmanCoder,AdaptiveHuffmanDecoder};
+}
 pub mod lzw;
 pub mod lzss_huff;
 pub mod td0;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index c8a1512..9beaa36 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -442,3 +442,36 @@ impl AdaptiveHuffmanDecoder {
         Ok(upper6 | (first8 & 0x3f))
     }
 }
+
+/// Hooks for the model checker, only compiled with `--cfg retro_verif`.
+/// The state of the model can be saved, restored and rescaled early.
+#[cfg(retro_verif)]
+impl AdaptiveHuffmanTree {
+    /// state as [freq,parent,son,symb_map]
+    pub fn verif_save(&self) -> [Vec<usize>;4] {
+        [self.freq.clone(),self.parent.clone(),self.son.clone(),self.symb_map.clone()]
+    }
+    pub fn verif_restore(&mut self,state: &[Vec<usize>;4]) {
+        self.freq = state[0].clone();
+        self.parent = state[1].clone();
+        self.son = state[2].clone();
+        self.symb_map = state[3].clone();
+    }
+    pub fn verif_set_max_freq(&mut self,max_freq: usize) {
+        self.max_freq = max_freq;
+    }
+}
+
+#[cfg(retro_verif)]
+impl AdaptiveHuffmanCoder {
+    pub fn verif_tree(&mut self) -> &mut AdaptiveHuffmanTree {
+        &mut self.tree
+    }
+}
+
+#[cfg(retro_verif)]
+impl AdaptiveHuffmanDecoder {
+    pub fn verif_tree(&mut self) -> &mut AdaptiveHuffmanTree {
+        &mut self.tree
+    }
+}
-- 
2.43.0


From 4583618fb15a7fa485b00b8ce5acc46816215e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 14/28] fix: windows shorter than twice the lookahead index
 symbols that are not coded yet

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 2e63c9d..c281e4c 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -270,7 +270,8 @@ where R: Read + Seek, W: Write + Seek {
             }
         }
     }
-    for _i in 1..=opt.lookahead {
+    // index the symbols behind us, as far as they are in the window
+    for _i in 1..=usize::min(opt.lookahead,start_pos) {
         lzss.dictionary.retreat();
         lzss.insert_node()?;
     }
-- 
2.43.0


From 26e1894f6cfd3c5a5c08e87cdfa8a53db97ec086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 15/28] fix: a length that does not fit the 32 bit header is
 written truncated

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index c281e4c..6c5ead8 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,8 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length > opt.max_file_size {
+    // the header cannot describe more than 32 bits, whatever the options allow
+    if expanded_length > opt.max_file_size || (opt.header && expanded_length > u32::MAX as u64) {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From c6be3a2a80071e99af7ae8908015d203a59d9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 16/28] verif: copy the adaptive Huffman model as a whole
 instead of field by field (cfg retro_verif)

---
 src/tools/adaptive_huff.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 9beaa36..aa27111 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -8,6 +8,7 @@ use std::io::{Read,Write,Seek,SeekFrom,BufWriter,BufReader};
 
 /// Tree used for both encoding and decoding.
 /// The tree is constantly updated during either operation.
+#[cfg_attr(retro_verif, derive(Clone,Debug))]
 pub struct AdaptiveHuffmanTree {
     max_freq: usize,
     num_symb: usize,
@@ -444,19 +445,9 @@ impl AdaptiveHuffmanDecoder {
 }
 
 /// Hooks for the model checker, only compiled with `--cfg retro_verif`.
-/// The state of the model can be saved, restored and rescaled early.
+/// The model can be copied, inspected, replaced, and rescaled early.
 #[cfg(retro_verif)]
 impl AdaptiveHuffmanTree {
-    /// state as [freq,parent,son,symb_map]
-    pub fn verif_save(&self) -> [Vec<usize>;4] {
-        [self.freq.clone(),self.parent.clone(),self.son.clone(),self.symb_map.clone()]
-    }
-    pub fn verif_restore(&mut self,state: &[Vec<usize>;4]) {
-        self.freq = state[0].clone();
-        self.parent = state[1].clone();
-        self.son = state[2].clone();
-        self.symb_map = state[3].clone();
-    }
     pub fn verif_set_max_freq(&mut self,max_freq: usize) {
         self.max_freq = max_freq;
     }
-- 
2.43.0


From 780ee776aee84f0c0b0c35b55b2da4af391e24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 17/28] fix: ties at the end of short data are not resolved as
 in LZHUF.C

A match search near the end of the data looks at symbols behind the last
position of the window.  LZHUF.C keeps a copy of the first symbols there which
is 0 until data is stored, lzss_huff saw the precursor, e.g. 63 spaces were
compressed to other bits than by the direct port.
---
 src/lzss_huff.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 6c5ead8..143d24e 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -58,6 +58,9 @@ pub const STD_OPTIONS: Options = Options {
 struct LZSS {
     opt: Options,
     dictionary: RingBuffer<u8>,
+    /// What a match search sees behind the last position of the dictionary.  As in `LZHUF.C` this
+    /// copies the data that goes to the first positions, but it is 0 as long as there is no data.
+    overrun: Vec<u8>,
     index: Tree,
     match_offset: i32,
     match_length: usize
@@ -66,15 +69,32 @@ struct LZSS {
 impl LZSS {
     fn create(opt: Options) -> Self {
         let dictionary = RingBuffer::create(0,opt.window_size);
+        let overrun = vec![0;opt.lookahead-1];
         let index = Tree::create(opt.window_size,256);
         Self {
             opt,
             dictionary,
+            overrun,
             index,
             match_offset: 0,
             match_length: 0
         }
     }
+    /// Put a symbol into the dictionary at the far end of the lookahead
+    fn set_ahead(&mut self,c: u8) {
+        let pos = self.dictionary.get_pos(self.opt.lookahead as i64);
+        self.dictionary.set_abs(pos,c);
+        if pos < self.overrun.len() {
+            self.overrun[pos] = c;
+        }
+    }
+    /// Get the symbol that follows position `pos` by `i` places for purposes of matching
+    fn get_ahead(&self,pos: usize,i: usize) -> u8 {
+        match pos + i < self.opt.window_size {
+            true => self.dictionary.get_abs(pos + i),
+            false => self.overrun[pos + i - self.opt.window_size]
+        }
+    }
     /// This finds a match to the symbol run starting at position `pos`.
     /// It always exits by inserting a node: either for a match that was found,
     /// or for a prospective match to come.
@@ -103,7 +123,7 @@ impl LZSS {
             // upon exiting this loop, `i` will have the number of matched symbols,
             // and `cmp` will have the difference in first mismatched symbol values.
             while i < self.opt.lookahead {
-                cmp = self.dictionary.get(i as i64) as i16 - self.dictionary.get_abs(curs+i) as i16;
+                cmp = self.get_ahead(pos,i) as i16 - self.get_ahead(curs,i) as i16;
                 if cmp != 0 {
                     break;
                 }
@@ -299,7 +319,7 @@ where R: Read + Seek, W: Write + Seek {
                 Some(Err(e)) => return Err(Box::new(e))
             };
             lzss.delete_node(opt.lookahead as i64)?;
-            lzss.dictionary.set(opt.lookahead as i64,c);
+            lzss.set_ahead(c);
             lzss.dictionary.advance();
             lzss.insert_node()?;
             i += 1;
-- 
2.43.0


From 92f48b14b78ede102e1476fe3554448af37cac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 18/28] fix: LZW compression refuses codes and chunk lengths
 its fields cannot hold

They were cut off silently, and expansion returned other data.
---
 src/lzw.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 6b271b7..3c5c2d9 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -92,6 +92,12 @@ fn bytes_to_bits_lsb0(bytes: &[u8]) -> BitVec {
     ans
 }
 
+/// error for something the options leave no room for
+fn no_fit(what: &str) -> std::io::Error {
+    log::error!("{} does not fit",what);
+    std::io::Error::new(ErrorKind::InvalidInput,format!("LZW {} does not fit",what))
+}
+
 struct LZWCoder {
     bits: BitVec,
     ptr: usize,
@@ -128,6 +134,10 @@ impl LZWCoder {
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
     pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        // the high bits would be lost, this can happen if the chunk header is too narrow for the chunk
+        if num_bits < usize::BITS as usize && code >> num_bits > 0 {
+            return Err(no_fit("code or chunk length"));
+        }
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -172,7 +182,12 @@ impl LZWCoder {
     /// output the chunk header followed by the codes held back, nothing happens if there is no header
     fn put_held<W: Write + Seek>(&mut self,held: &mut Vec<usize>,opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         if opt.header_bits > 0 {
-            self.put_code(opt.header_bits,held.len()*opt.max_code_width/opt.header_divisor,writer)?;
+            let header = held.len()*opt.max_code_width/opt.header_divisor;
+            // the divisor can lose at most part of a code
+            if header*opt.header_divisor + opt.max_code_width <= held.len()*opt.max_code_width {
+                return Err(no_fit("chunk length"));
+            }
+            self.put_code(opt.header_bits,header,writer)?;
             for code in held.drain(..) {
                 self.put_code(opt.max_code_width,code,writer)?;
             }
-- 
2.43.0


From e4286679f41dc3d6dca1df0de723afc9362e3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 19/28] fix: LZW compression does not reset the dictionary
 where expansion cannot follow

With neither chunk header nor clear code, data of more than a chunk was corrupted.
---
 src/lzw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 3c5c2d9..5ff830c 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -490,7 +490,8 @@ where R: Read + Seek, W: Write + Seek {
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
-            if coder.count >= opt.chunk_size {
+            // without header or clear code the decoder cannot know about a reset, so there is none
+            if coder.count >= opt.chunk_size && (opt.header_bits > 0 || opt.clear_code.is_some()) {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
                     coder.put_or_hold(code,&mut chunk_codes,opt,&mut writer)?;
-- 
2.43.0


From 847975b9c494ff1eb1702d9774f11d4c70fc8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 20/28] fix: LZSS compression refuses distances that do not fit
 16 bits

With windows beyond 64K they wrapped around, and expansion returned other data.
---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 143d24e..165bb8d 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -308,7 +308,7 @@ where R: Read + Seek, W: Write + Seek {
             huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
             huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
-            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
+            huff.encode_position(u16::try_from(lzss.match_offset)?,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
-- 
2.43.0


From 1f7b4e130c5cea82161df65a6ff017fc0b3c25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 21/28] fix: an overwrite answer that is not UTF-8 is an answer
 other than y

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6133d7c..a73a612 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -8,7 +8,10 @@ fn ok_to_overwrite(path_out: &str) -> bool {
     if let Ok(_f) = std::fs::File::open(path_out) {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
-        std::io::stdin().read_line(&mut ans).expect("could not read stdin");
+        if std::io::stdin().read_line(&mut ans).is_err() {
+            // not text, so it is neither y nor Y
+            return false;
+        }
         if ans.trim_end()=="y" || ans.trim_end()=="Y" {
             log::warn!("existing file will not be truncated");
             return true;
-- 
2.43.0


From 48e795241fc58fb22e0d8418cfb73e45185411bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 22/28] fix: ask before overwriting a file without read
 permission

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a73a612..b516f24 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,8 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> bool {
-    if let Ok(_f) = std::fs::File::open(path_out) {
+    // not whether it can be opened, it may be writable without being readable
+    if std::fs::metadata(path_out).is_ok() {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
         if std::io::stdin().read_line(&mut ans).is_err() {
-- 
2.43.0


From 7b64527dcc066042b1556ca38a5c0b6324db5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 23/28] fix: conversion of a file in place lost data or never
 ended

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b516f24..408574c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -61,7 +61,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        // read everything first, the output can be the same file
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::compress(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
@@ -85,7 +86,7 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::expand(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
-- 
2.43.0


From bb71fa0e47ff6a1e99a236a631e7e0ae75aad534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 24/28] fix: LZSS expansion without header stopped at 4 GiB

---
 src/lzss_huff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 165bb8d..ffcfe2b 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -361,9 +361,9 @@ where R: Read + Seek, W: Write + Seek {
         true => {
             let mut header: [u8;4] = [0;4];
             reader.read_exact(&mut header)?;
-            u32::from_le_bytes(header)
+            u32::from_le_bytes(header) as u64
         }
-       false => u32::MAX
+       false => u64::MAX
     };
     // init
     let mut huff = AdaptiveHuffmanDecoder::create(256 + opt.lookahead - opt.threshold);
@@ -374,7 +374,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 7a978d7bd951d49ac21671ac2e4e459c5e3c59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 25/28] fix: td0 images that do not start at position 0 of the
 streams were mangled

---
 src/td0.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/td0.rs b/src/td0.rs
index 2a3c41e..ed5be1e 100644
--- a/src/td0.rs
+++ b/src/td0.rs
@@ -64,6 +64,9 @@ pub const TD_V2_OPTIONS: lzss_huff::Options = lzss_huff::Options {
 pub fn expand<R,W>(compressed_in: &mut R, expanded_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
     let mut td_header: [u8;12] = [0;12];
+    // the images start where the streams are, which is usually 0
+    let in_start = compressed_in.stream_position()?;
+    let out_start = expanded_out.stream_position()?;
     compressed_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "td".as_bytes() {
         return Err(Box::new(crate::Error::FileFormatMismatch))
@@ -78,10 +81,20 @@ where R: Read + Seek, W: Write + Seek {
     expanded_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
-        let (in_size,out_size) = lzw::expand(compressed_in,expanded_out,&TD_V1_OPTIONS)?;
+        let opt = lzw::Options {
+            in_offset: in_start + TD_V1_OPTIONS.in_offset,
+            out_offset: out_start + TD_V1_OPTIONS.out_offset,
+            ..TD_V1_OPTIONS
+        };
+        let (in_size,out_size) = lzw::expand(compressed_in,expanded_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     } else {
-        let (in_size,out_size) = lzss_huff::expand(compressed_in,expanded_out,&TD_V2_OPTIONS)?;
+        let opt = lzss_huff::Options {
+            in_offset: in_start + TD_V2_OPTIONS.in_offset,
+            out_offset: out_start + TD_V2_OPTIONS.out_offset,
+            ..TD_V2_OPTIONS
+        };
+        let (in_size,out_size) = lzss_huff::expand(compressed_in,expanded_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     }
 }
@@ -92,6 +105,9 @@ where R: Read + Seek, W: Write + Seek {
 pub fn compress<R,W>(expanded_in: &mut R, compressed_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
     let mut td_header: [u8;12] = [0;12];
+    // the images start where the streams are, which is usually 0
+    let in_start = expanded_in.stream_position()?;
+    let out_start = compressed_out.stream_position()?;
     expanded_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "TD".as_bytes() {
         return Err(Box::new(crate::Error::FileFormatMismatch))
@@ -106,10 +122,20 @@ where R: Read + Seek, W: Write + Seek {
     compressed_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
-        let (in_size,out_size) = lzw::compress(expanded_in,compressed_out,&TD_V1_OPTIONS)?;
+        let opt = lzw::Options {
+            in_offset: in_start + TD_V1_OPTIONS.in_offset,
+            out_offset: out_start + TD_V1_OPTIONS.out_offset,
+            ..TD_V1_OPTIONS
+        };
+        let (in_size,out_size) = lzw::compress(expanded_in,compressed_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     } else {
-        let (in_size,out_size) = lzss_huff::compress(expanded_in,compressed_out,&TD_V2_OPTIONS)?;
+        let opt = lzss_huff::Options {
+            in_offset: in_start + TD_V2_OPTIONS.in_offset,
+            out_offset: out_start + TD_V2_OPTIONS.out_offset,
+            ..TD_V2_OPTIONS
+        };
+        let (in_size,out_size) = lzss_huff::compress(expanded_in,compressed_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     }
 }
-- 
2.43.0


From de44ed68ea52503334f009f76c933fc389341a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 26/28] fix: LZHUF port lost data and reported wrong sizes for
 output not at position 0

---
 src/direct_ports/lzhuf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 0c6f668..483b937 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -612,11 +612,12 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     let header = u32::to_le_bytes(expanded_length as u32);
+    let out_start = writer.stream_position()?;
     writer.write_all(&header)?;
     // same as `LZHUF.C`, there is nothing to encode
     if expanded_length == 0 {
         writer.flush()?;
-        return Ok((0,writer.stream_position()?));
+        return Ok((0,writer.stream_position()? - out_start));
     }
     reader.seek(SeekFrom::Start(0))?;
     // init
@@ -698,7 +699,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     }
     huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
-    Ok((expanded_length,writer.stream_position()?))
+    Ok((expanded_length,writer.stream_position()? - out_start))
 }
 
 /// Main decompression function.
@@ -711,6 +712,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
     let mut header: [u8;4] = [0;4];
     reader.read_exact(&mut header)?;
     let textsize = u32::from_le_bytes(header);
+    let out_start = writer.stream_position()?;
     // init
     let mut bytes = reader.bytes();
     let mut huff = AdaptiveHuffman::new();
@@ -721,7 +723,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
     }
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
-	while writer.stream_position()? < textsize as u64 {
+	while writer.stream_position()? - out_start < textsize as u64 {
 		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write_all(&[c as u8])?;
@@ -741,7 +743,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64 + header.len() as u64,writer.stream_position()?))
+    Ok((huff.count as u64 + header.len() as u64,writer.stream_position()? - out_start))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 105e333fe2dc0624b94d2ebe104fee3fec6ab8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 27/28] fix: LZW chunk lengths in very wide headers overflowed

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 5ff830c..6e16aa8 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -535,7 +535,7 @@ where R: Read + Seek, W: Write + Seek {
             num_bits => {
                 log::debug!("read length of chunk");
                 match decoder.get_code(num_bits,&mut reader) {
-                    Ok(code) => opt.header_divisor * code,
+                    Ok(code) => opt.header_divisor.saturating_mul(code),
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         break;
                     },
-- 
2.43.0


From 79101e9fadd58002338fccda2c8e1adae0634652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 28/28] fix: LZSS compression with a threshold above 255
 overflowed

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index ffcfe2b..242ee23 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -307,7 +307,7 @@ where R: Read + Seek, W: Write + Seek {
             lzss.match_length = 1;
             huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_char((255+lzss.match_length-opt.threshold) as u16,&mut writer)?;
             huff.encode_position(u16::try_from(lzss.match_offset)?,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
-- 
2.43.0

