From c2af1b5adce55d43d05cc3f1598429453bfc24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 01/14] fix: zip-back never emits a sequence longer than its
 length field can hold

---
 src/zip/back.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..f412209 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -33,6 +33,10 @@ struct LookBack {
 type Len = u16;
 type Back = u16;
 
+/// The longest sequence a single [Symbol] can carry:
+/// the most significant bit of [Len] stores the kind of symbol
+const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
 impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
@@ -42,7 +46,7 @@ impl Symbol {
     }
 
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= MAX_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -149,8 +153,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
         let mut curr_explicit: Vec<u8> = Vec::new();
 
         fn push_explicit(curr_explicit: Vec<u8>, channel: &mut Vec<Symbol>) {
-            if !curr_explicit.is_empty() {
-                channel.push(Symbol::Explicit(curr_explicit));
+            for chunk in curr_explicit.chunks(MAX_LEN) {
+                channel.push(Symbol::Explicit(chunk.to_vec()));
             }
         }
 
@@ -265,6 +269,7 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             let input_iter = self.rep_buf.iter().cloned();
             let rep_len =
                 input_iter.zip(subseq)
+                    .take(MAX_LEN)
                     .take_while(|(a, b)| a == b)
                     .count();
 
-- 
2.43.0


From beb98633ab2fe15572e6fe111d2ec0527b02f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 02/14] fix: hilbert and delta reject a stream that ends before
 the last pixel

---
 src/codec/hilbertc.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..a02e73a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -53,13 +53,12 @@ impl Codec for Hilbert {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
-        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
+        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), mut iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
+            for (x, y) in hilbert::iter(dimensions.0 as usize, dimensions.1 as usize) {
+                *img_buffer.get_pixel_mut(x as u32, y as u32) = iter.next()?;
+            }
 
             Some(img_buffer.into())
         }
@@ -420,11 +419,11 @@ impl Codec for Delta {
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
         let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
-- 
2.43.0


From c8cfeb05ac1bbae06f200e9b60d6c45a02745213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 03/14] fix: delta decoder reports malformed differences
 instead of panicking

---
 src/codec/hilbertc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index a02e73a..3500c08 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -418,7 +418,7 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
+        let diff_stream = huf::decode_all(reader)?;
         let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
@@ -498,11 +498,12 @@ impl<I: Iterator<Item = SignedColor>> Iterator for FromDiff<I> {
     fn next(&mut self) -> Option<Self::Item> {
         self.diff_stream
             .next()
-            .map(|new_diff| {
+            .and_then(|new_diff| {
                 let new_signed = self.last_color + new_diff;
                 self.last_color = new_signed;
+                // A difference that leaves the range of a color is malformed
                 new_signed.try_into()
-                    .unwrap()
+                    .ok()
             })
     }
 }
@@ -551,7 +552,8 @@ impl Add for SignedColor {
 
     fn add(mut self, rhs: Self) -> Self::Output {
         for i in 0..3 {
-            self.0[i] += rhs.0[i];
+            // Differences read from a malformed stream can be anything
+            self.0[i] = self.0[i].wrapping_add(rhs.0[i]);
         }
         self
     }
-- 
2.43.0


From a23bb428c012eee1492b079cf8f2925afef3bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/14] fix: run-length decoder reports malformed runs instead
 of panicking

---
 src/codec/hilbertc.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 3500c08..bfaf7d8 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -321,9 +321,13 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.count == 0 {
-            self.count = RepCount::deserialize(&mut self.bytes)?;
-            assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            let count = RepCount::deserialize(&mut self.bytes)?;
+            if count == 0 {
+                // No encoder produces an empty run
+                return None;
+            }
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
+            self.count = count;
         }
 
         self.count -= 1;
-- 
2.43.0


From fff84f381463b29258ff940c0444d7f98067488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 05/14] fix: zip-dict decoder reports malformed symbols instead
 of panicking

---
 src/zip/dict.rs | 51 ++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..de5bec3 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -182,33 +182,36 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
     type Item = u8;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.prev_decoded.next() {
-            Some(b) => {
-                // Previously decoded sequence still has bytes
-                return Some(b);
-            }
-            None => {
-                // Figure out the next sequence (if any)
-                let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+        // Note: this is a loop because a malformed stream can hold any number
+        // of pairs that decode to an empty sequence
+        loop {
+            match self.prev_decoded.next() {
+                Some(b) => {
+                    // Previously decoded sequence still has bytes
+                    return Some(b);
+                }
+                None => {
+                    // Figure out the next sequence (if any)
+                    let symbol1 = self.next_symbol()?;
+                    let symbol2 = self.next_symbol()?;
 
-                let seq1 = self.decode(symbol1);
-                let seq2 = self.decode(symbol2);
+                    let seq1 = self.decode(symbol1)?;
+                    let seq2 = self.decode(symbol2)?;
 
-                let mut total_seq = seq1.clone();
-                total_seq.extend_from_slice(seq2);
+                    let mut total_seq = seq1.clone();
+                    total_seq.extend_from_slice(seq2);
 
-                match self.next_code() {
-                    Some(new_code) => {
-                        self.new_mapping(new_code, total_seq.clone());
-                    }
-                    None => {
-                        // nothing to do
+                    match self.next_code() {
+                        Some(new_code) => {
+                            self.new_mapping(new_code, total_seq.clone());
+                        }
+                        None => {
+                            // nothing to do
+                        }
                     }
-                }
 
-                self.store_seq(total_seq);
-                self.next()
+                    self.store_seq(total_seq);
+                }
             }
         }
     }
@@ -235,10 +238,10 @@ impl<I: Iterator<Item=u8>> DictDecoder<I> {
         return decoder;
     }
 
-    fn decode(&self, symbol: Symbol) -> &Vec<u8> {
+    // Returns None if the symbol hasn't been assigned (yet)
+    fn decode(&self, symbol: Symbol) -> Option<&Vec<u8>> {
         self.mapping
             .get(&symbol)
-            .unwrap()
     }
 
     fn next_symbol(&mut self) -> Option<Symbol> {
-- 
2.43.0


From bb562fcd390afda32c652e52149853ad963bb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 06/14] fix: zip-back decoder reports malformed symbols instead
 of panicking

---
 src/zip/back.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index f412209..4f40b31 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,10 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    // Reached the end of the stream too early
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
@@ -688,6 +691,10 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 self.decoded.extend(&explicit_data);
             }
             Some(Symbol::LookBack(lb)) => {
+                if lb.back > self.history.len() {
+                    // Malformed: this points before the start of the history
+                    return;
+                }
                 let lookback_slice = self.duplicate(&lb);
                 self.decoded.extend(lookback_slice);
             }
-- 
2.43.0


From 81d969150d3bb11f9d1fd967f0da56a8dfdd765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 07/14] fix: hufman encoding reports write errors instead of
 panicking

---
 src/huf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..bab3293 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,7 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +135,14 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
-        let code = self.codes.get(symbol)?;
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> io::Result<()> {
+        let code = self.codes.get(symbol)
+                        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "Unknown symbol"))?;
         if code.len() == 0 {
-            return Some(());
+            return Ok(());
         }
 
         writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
     }
 }
 
-- 
2.43.0


From 16908b3a60514f037f0ed3fc41e8be020f0f968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 08/14] fix: voronoi distances no longer overflow on image
 positions

---
 src/codec/clusterc.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..204f245 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,8 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
-                                        .unwrap();
+                                        .min_by_key(|c| (c.x.abs_diff(x) as u128).pow(2) + (c.y.abs_diff(y) as u128).pow(2))?;
             *px = closest_centroid.color.clone();
         }
 
@@ -205,8 +204,8 @@ struct ColorPos {
 
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = (self.x.abs_diff(other.x) as f64).powi(2);
+        d += (self.y.abs_diff(other.y) as f64).powi(2);
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From 0f8198d81410689e45670f0bbb8a4e6ac3c5073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 09/14] fix: fun_call splits specifications at byte positions

---
 src/prs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..41d51b6 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,11 +24,10 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 69fb18d05a6d9d4cfba1a7ea0d67b071cfb39728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 10/14] fix: hilbert(rle()) is a parse error, not a panic

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index bfaf7d8..af2a9a0 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -371,10 +371,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From 9189fad9f1aaba7fea504213e5a76e016d59e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 11/14] fix: clustering codecs reject text around their
 specification

---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 204f245..3795611 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -277,7 +277,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 443bdaad1b2d33ce85cce0f11f888cc98a4d6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 12/14] fix: benchmark sizes no longer overflow on large images

---
 src/bench.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..6a1b875 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,7 +38,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
+            let raw_size = (h as u128) * (w as u128) * 24; // we're counting on 3 bytes RGB pixels
             println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
@@ -100,7 +100,7 @@ fn compute_error(x: &Img, y: &Img) -> f64 {
                             .map(|(px, py)| px.dist(&py).powi(2))
                             .sum();
     let (w, h) = x.dimensions();
-    return tot_error / ((w * h) as f64);
+    return tot_error / ((w as u64 * h as u64) as f64);
 }
 
 fn print_err<T, E: Debug>(r: Result<T, E>) {
-- 
2.43.0


From 9892f9ef609c6fd7d609ad192227270426480c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 13/14] fix: compression ratio compares bytes with bytes

---
 src/bench.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bench.rs b/src/bench.rs
index 6a1b875..ca8b9d3 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,7 +38,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = (h as u128) * (w as u128) * 24; // we're counting on 3 bytes RGB pixels
+            let raw_size = (h as u128) * (w as u128) * 3; // we're counting on 3 bytes RGB pixels
             println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
-- 
2.43.0


From d93412222ad366f70261c9dbdf0c8293466e7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 14/14] fix: pixel dump header lists the channels in the order
 they are written

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f4eecf..3d47e04 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,7 @@ fn try_special() -> Result<(), Err> {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
-                        csv.write_record(&["red", "blue", "green"]).unwrap();
+                        csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
                     }
-- 
2.43.0

