From 120bdf9d21f7d0d3275ea686f34faf7c7db0bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 01/20] fix: inflating by zero copies yields an empty stream

---
 src/iter/inflate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..210f7fc 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,10 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
+
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 9fd72bc83d34b08d6197ccdd9f76a86f764e4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 02/20] fix: wchunks yields no all-padding chunk after the last
 whole one

---
 src/iter/chunks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/chunks.rs b/src/iter/chunks.rs
index d34b52d..0255289 100644
--- a/src/iter/chunks.rs
+++ b/src/iter/chunks.rs
@@ -63,6 +63,9 @@ impl<T: Copy + Default, I: Iterator<Item = T>> Iterator for WholeChunks<T, I> {
                     }
                     None => {
                         self.done = true;
+                        if buf.is_empty() {
+                            return None;
+                        }
                         buf.push(T::default());
                     }
                 }
-- 
2.43.0


From 683ea9e8c880370287c6cdbb373a8243dd3d7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 03/20] fix: streaming convolution weights the newest sample by
 the first tap and drains the whole tail

---
 src/iter/convolution.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..73f39cc 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    drained: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,10 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.drained + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.drained += 1;
                     Some(self._convolve())
                 }
             }
@@ -80,6 +81,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    drained: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +95,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
@@ -100,7 +103,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +133,10 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.drained + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.drained += 1;
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From ca30f89392ce3f2cdaee10f01a65e37dc91655d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 04/20] fix: the Chebyshev map keeps its orbit within [-1, 1]

---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 7c9b32d4460fd63f6e852c5c3974efaf6db008b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 05/20] fix: a hop table of a single frequency keeps hopping on
 it

---
 src/fh.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..bae27c7 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,15 +42,10 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
-        } else if self.idx == self.hopping_table.len() - 1 {
-            self.idx = 0;
-            Some(self.hopping_table[self.hopping_table.len() - 1])
-        } else {
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
         }
+        let hop_freq = self.hopping_table[self.idx];
+        self.idx = (self.idx + 1) % self.hopping_table.len();
+        Some(hop_freq)
     }
 }
 
-- 
2.43.0


From 4045be4a5457bb4857fc6890ca6a2b8da3b28d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 06/20] fix: Walsh keys repeat with the number of keys

---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 93a9f4645f44bdba7d52866d138fbea407619b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 07/20] fix: power divides by the number of samples

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..61d2d0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From 71fcd936fc948f4703aa35dbf147c536c6e972b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 08/20] fix: the centred down-chirp sweeps downwards

---
 src/fh_css.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..07f3c05 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -34,8 +34,8 @@ pub fn linear_downchirp_centered(
     bandwidth: f64,
     sample_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    let f0: f64 = center_freq - bandwidth / 2f64;
-    let f1: f64 = center_freq + bandwidth / 2f64;
+    let f0: f64 = center_freq + bandwidth / 2f64;
+    let f1: f64 = center_freq - bandwidth / 2f64;
     linear_chirp(chirp_rate, sample_rate, f0, f1)
 }
 
-- 
2.43.0


From ca58d600dcfe75b88ba5d63bb53ce367051efc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 09/20] fix: a coded stream ending inside a frame does not stop
 the receiver

---
 src/bch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..cc8fe0d 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -22,6 +22,11 @@ pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
         .flat_map(|chunk| {
+            if chunk.len() < ECC_VALUE {
+                // A stream that ends inside the parity holds no data.
+                return Vec::new().into_iter();
+            }
+
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
             // let decoded = dec.correct(&chunk, None);
-- 
2.43.0


From aedfaeac6ae74e48fd8b8a975d01a24bb5f9fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 10/20] fix: OFDM with an odd number of subcarriers undoes the
 receiver's frequency order

---
 src/lib.rs  | 8 ++++++++
 src/ofdm.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61d2d0c..bb85e49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,14 @@ fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
     v
 }
 
+fn ifftshift<T: Clone>(x: &[T]) -> Vec<T> {
+    let mut v = Vec::with_capacity(x.len());
+    let pivot = x.len() / 2;
+    v.extend_from_slice(&x[pivot..]);
+    v.extend_from_slice(&x[..pivot]);
+    v
+}
+
 fn fftshift_mut<T: Copy>(x: &mut [T]) {
     let pivot = x.len().div_ceil(2);
     let v: Vec<T> = Vec::from(&x[..pivot]);
diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..fd9911b 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -1,6 +1,6 @@
 use crate::iter::Iter;
 use crate::qpsk::{rx_baseband_qpsk_signal, tx_baseband_qpsk_signal};
-use crate::{fftshift, is_int, Bit};
+use crate::{fftshift, ifftshift, is_int, Bit};
 use rustfft::num_traits::Zero;
 use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
@@ -41,7 +41,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            let mut ofdm_symbols = ifftshift(&ofdm_symbol_data);
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From 6024b4ca3e1de52c9d6ac5bb18cbce7901694c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 11/20] fix: the OFDM-QPSK receiver integrates over whole
 symbols

---
 src/ofdm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index fd9911b..cfa369f 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -139,8 +139,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
         })
         .nonvolve(filter)
         .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .skip(samples_per_symbol - 1)
+        .take_every(samples_per_symbol);
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From 4b70cc6d8828a277dfba6f8a7940c9a2eb946e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 12/20] Verification hook: expose the CSK receiver under
 cfg(komunikilo_verif)

---
 src/csk.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csk.rs b/src/csk.rs
index 8a9033d..ec0e77c 100644
--- a/src/csk.rs
+++ b/src/csk.rs
@@ -20,6 +20,12 @@ fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item =
         .map(|((sample, chaos_1), chaos_2)| (sample - chaos_1).abs() < (sample - chaos_2).abs())
 }
 
+/// Verification hook: the receiver is private to the crate.
+#[cfg(komunikilo_verif)]
+pub fn verif_rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item = Bit> {
+    rx_baseband_csk(message)
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From e8c276f2e5f81622d198e68f979e4e0480a2b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 13/20] fix: FH-OFDM-DCSK data carriers carry the reference
 chip the receiver correlates with

---
 src/fh_ofdm_dcsk.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..e1103c5 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -30,11 +30,10 @@ pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
             let pre_hop_symbols: Vec<Complex<f64>> = iter::once(chaotic_sequence[0])
                 .map(Complex::from)
                 .chain(
-                    // Multiply the data symbols by the remaining chaotic sequence chunk.
-                    chaotic_sequence[1..]
+                    // Multiply the data symbols by the reference chip they are compared to.
+                    bpsk_symbols
                         .iter()
-                        .zip(bpsk_symbols.iter())
-                        .map(|(&c_i, &s_i)| s_i * Complex::new(c_i, 0f64)),
+                        .map(|&s_i| s_i * Complex::new(chaotic_sequence[0], 0f64)),
                 )
                 .collect();
 
-- 
2.43.0


From 180b54565047d9b3f338da9b71755aabc8b2952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 14/20] fix: the Python receivers integrate over whole symbols

---
 kom_py/psk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..b014859 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -56,7 +56,7 @@ def rx_bpsk(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 def tx_qpsk(
@@ -101,7 +101,7 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    i_bits = [i > 0 for i in ii[samples_per_symbol - 1 :: samples_per_symbol]]
+    q_bits = [i > 0 for i in qi[samples_per_symbol - 1 :: samples_per_symbol]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From d4aa3401c35a7d193e4972306ad5b0437f00f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 15/20] fix: the Python QPSK modulator uses the carrier
 frequency

---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index b014859..9a8941a 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From d5975510d6889bac82e35dcd55e1e727bd92ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 16/20] fix: the mapped SSCA finds each value's cell by exact
 integer arithmetic

---
 src/ssca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssca.rs b/src/ssca.rs
index 5096033..adac13e 100644
--- a/src/ssca.rs
+++ b/src/ssca.rs
@@ -70,10 +70,10 @@ pub fn ssca_mapped(s: Vec<f64>, n: usize, np: usize) -> Array2<Complex<f64>> {
     // Step 5.
     for q_p in 0..n {
         for k_p in 0..np {
-            let f: f64 = k_p as f64 / (2f64 * np as f64) - q_p as f64 / (2f64 * n as f64);
-            let a: f64 = k_p as f64 / np as f64 + q_p as f64 / n as f64;
-            let k: usize = (np as f64 * (f + 0.5)) as usize;
-            let q: usize = (n as f64 * a) as usize;
+            // f = k_p / (2 np) - q_p / (2 n) and a = k_p / np + q_p / n, the cell being
+            // (np * (f + 0.5), n * a) rounded down: in integers, so that it is exact.
+            let k: usize = (k_p * n + n * np - q_p * np) / (2 * n);
+            let q: usize = (k_p * n + q_p * np) / np;
             sxf[[k, q]] = sx[[q_p, k_p]];
         }
     }
-- 
2.43.0


From beaf5310ce80fd48e433f0df544375b4e89368eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 17/20] fix: the Python CDMA receiver despreads by the chip and
 samples at the end of each symbol

---
 kom_py/cdma.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..67c6563 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -32,21 +32,25 @@ def rx_bpsk_cdma(
     signal: List[float], samp_rate: int, symb_rate: int, carrier_freq: float
 ) -> List[bool]:
     samples_per_symbol = int(samp_rate / symb_rate)
+    samples_per_chip = int(samples_per_symbol / len(KEY))
     assert samp_rate / 2 >= carrier_freq
     assert samp_rate / 2 >= len(KEY) * symb_rate
     assert samp_rate % symb_rate == 0
     assert (samp_rate / symb_rate).is_integer()
     assert (samp_rate / (symb_rate * len(KEY))).is_integer()
+    spreading_code = np.repeat(KEY, samples_per_chip)
     filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
-        s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
+        s_i
+        * spreading_code[i % samples_per_symbol]
+        * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 if __name__ == "__main__":
-- 
2.43.0


From a5f1a327cac12e67cb55745a8ad07b903343e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 18/20] fix: the greatest power of two not above a number is
 found exactly

---
 kom_py/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 461cf9d..a1f77b3 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 from contextlib import contextmanager
 from itertools import zip_longest
-from math import ceil, log
+from math import ceil
 import numpy as np
 import time
 from typing import Any, Iterable, Generator, List, Union, Optional
@@ -23,10 +23,7 @@ def floor_power_of_2(x):
     x = int(x)
     if x == 0:
         return 0
-    elif log(x, 2).is_integer():
-        return x
-    else:
-        return 2 ** (int(x - 1).bit_length() - 1)
+    return 2 ** (x.bit_length() - 1)
 
 
 def bit_to_nrz(bit: bool) -> float:
-- 
2.43.0


From cb10cfde7980bb882ecc469cda804c81f0ac7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 19/20] fix: the FSK receiver compares with the tones the
 transmitter sends

---
 src/fm.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/fm.rs b/src/fm.rs
index 0bde625..bbf9fb9 100644
--- a/src/fm.rs
+++ b/src/fm.rs
@@ -34,26 +34,19 @@ pub fn rx_fsk<I: Iterator<Item = f64>>(
         .chunks(samples_per_symbol)
         .enumerate()
         .map(move |(idx, chunk)| {
-            let time = idx as f64 / sample_rate as f64;
-
-            let (s0, s1, s2, s3) = chunk
+            // Squared distance to each of the two tones that might have been sent.
+            let (d_hi, d_lo) = chunk
                 .iter()
                 .enumerate()
                 .map(|(jdx, &s_i)| {
-                    let t_i = time + jdx as f64 / sample_rate as f64;
-                    [
-                        s_i * (2f64 * PI * (carrier_freq + (sep / 2f64)) * t_i).cos(),
-                        s_i * (2f64 * PI * (carrier_freq + (sep / 2f64)) * t_i).sin(),
-                        s_i * (2f64 * PI * (carrier_freq - (sep / 2f64)) * t_i).cos(),
-                        s_i * (2f64 * PI * (carrier_freq - (sep / 2f64)) * t_i).sin(),
-                    ]
+                    let time = (idx * samples_per_symbol + jdx) as f64 / sample_rate as f64;
+                    let hi = (2_f64 * PI * (carrier_freq + (sep / 2f64)) * time).cos();
+                    let lo = (2_f64 * PI * (carrier_freq - (sep / 2f64)) * time).cos();
+                    [(s_i - hi).powi(2), (s_i - lo).powi(2)]
                 })
-                .fold(
-                    (0f64, 0f64, 0f64, 0f64),
-                    |(a0, a1, a2, a3), [v0, v1, v2, v3]| (a0 + v0, a1 + v1, a2 + v2, a3 + v3),
-                );
+                .fold((0f64, 0f64), |(a0, a1), [v0, v1]| (a0 + v0, a1 + v1));
 
-            (s0.powi(2) + s1.powi(2)) - (s2.powi(2) + s3.powi(2)) >= 0f64
+            d_hi <= d_lo
         })
 }
 
-- 
2.43.0


From 4f27b303b8e851d70f9cd52be8f7fe9ba736a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 20/20] verif hook: the Python module's functions are callable
 under cfg(komunikilo_verif_py)

---
 src/lib.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bb85e49..a6b3508 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -614,6 +614,40 @@ fn module_with_functions(m: &Bound<'_, PyModule>) -> PyResult<()> {
         res
     }
 
+    // Verification hook: the functions the Python module offers are private to this one.
+    #[cfg(komunikilo_verif_py)]
+    macro_rules! verif_export {
+        ($($hook:ident = $f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(#[no_mangle]
+            pub fn $hook($($a: $t),*) -> $r {
+                $f($($a),*)
+            })*
+        };
+    }
+    #[cfg(komunikilo_verif_py)]
+    verif_export! {
+        komunikilo_verif_tx_baseband_bpsk = tx_baseband_bpsk(message: Vec<Bit>) -> Vec<Complex<f64>>;
+        komunikilo_verif_tx_bpsk = tx_bpsk(message: Vec<Bit>, fs: usize, sr: usize, fc: f64) -> Vec<f64>;
+        komunikilo_verif_rx_bpsk = rx_bpsk(signal: Vec<f64>, fs: usize, sr: usize, fc: f64) -> Vec<Bit>;
+        komunikilo_verif_tx_qpsk = tx_qpsk(message: Vec<Bit>, fs: usize, sr: usize, fc: f64) -> Vec<f64>;
+        komunikilo_verif_rx_qpsk = rx_qpsk(signal: Vec<f64>, fs: usize, sr: usize, fc: f64) -> Vec<Bit>;
+        komunikilo_verif_tx_ofdm = tx_ofdm(message: Vec<Bit>, nc: usize, np: usize, fs: usize, sr: usize, fc: f64) -> Vec<f64>;
+        komunikilo_verif_rx_ofdm = rx_ofdm(signal: Vec<f64>, nc: usize, np: usize, fs: usize, sr: usize, fc: f64) -> Vec<Bit>;
+        komunikilo_verif_tx_cdma_bpsk = tx_cdma_bpsk(message: Vec<Bit>, fs: usize, sr: usize, fc: f64) -> Vec<f64>;
+        komunikilo_verif_tx_bfsk = tx_bfsk(message: Vec<Bit>, fs: usize, sr: usize, lo: f64, hi: f64) -> Vec<f64>;
+        komunikilo_verif_tx_fh_css = tx_fh_css(message: Vec<Bit>, fs: usize, sr: usize, lo: f64, hi: f64, n: usize) -> Vec<f64>;
+        komunikilo_verif_tx_csk = tx_csk(message: Vec<Bit>, fs: usize, sr: usize) -> Vec<f64>;
+        komunikilo_verif_tx_dcsk = tx_dcsk(message: Vec<Bit>, fs: usize, sr: usize) -> Vec<f64>;
+        komunikilo_verif_tx_fh_ofdm_dcsk = tx_fh_ofdm_dcsk(message: Vec<Bit>, fs: usize, sr: usize, fc: f64) -> Vec<f64>;
+        komunikilo_verif_awgn_py = awgn_py(signal: Vec<f64>, sigma: f64) -> Vec<f64>;
+        komunikilo_verif_pure_awgn = pure_awgn(size: usize, sigma: f64) -> Vec<f64>;
+        komunikilo_verif_chirp = chirp(rate: f64, fs: usize, f0: f64, f1: f64) -> Vec<f64>;
+        komunikilo_verif_energy_detector = energy_detector(signal: Vec<f64>) -> f64;
+        komunikilo_verif_avg_energy_py = avg_energy_py(signal: Vec<f64>) -> f64;
+        komunikilo_verif_max_cut_detector = max_cut_detector(signal: Vec<f64>) -> f64;
+        komunikilo_verif_dcs_detector = dcs_detector(signal: Vec<f64>) -> f64;
+    }
+
     m.add_function(wrap_pyfunction!(tx_baseband_bpsk, m)?)?;
     m.add_function(wrap_pyfunction!(tx_bpsk, m)?)?;
     m.add_function(wrap_pyfunction!(rx_bpsk, m)?)?;
-- 
2.43.0

