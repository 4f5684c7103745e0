//! C29: sample values of the linear modulators
use crate::sym::*;
use komunikilo::*;
fn carrier(k: usize, fs: usize) -> f64 {
    // a fixed carrier, or any carrier up to half the sample rate
    if k == 0 {
        pf(0)
    } else {
        real(0.0, (fs / 2) as f64)
    }
}
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, symbolic carrier; f: carrier
    fn h_c29_bpsk() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let fc = carrier(p(3), fs);
        let m = bits(n);
        let s: Vec<f64> = bpsk::tx_bpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
        let sps = fs / sr;
        eq(s.len() as u64, (n * sps) as u64, 1);
        for i in 0..s.len().min(n * sps) {
            near(s[i], nrz(m[i / sps]) * phase(fc, i, fs).cos(), 1e-8, 2);
        }
        obs_some(&s, 16);
        reached(1);
    }
    fn h_c29_qpsk() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let fc = carrier(p(3), fs);
        let m = bits(n);
        let s: Vec<f64> = qpsk::tx_qpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
        let sps = fs / sr;
        eq(s.len() as u64, (n / 2 * sps) as u64, 11);
        for i in 0..s.len().min(n / 2 * sps) {
            let (a, b) = (nrz(m[i / sps * 2]), nrz(m[i / sps * 2 + 1]));
            near(s[i], a * phase(fc, i, fs).cos() - b * phase(fc, i, fs).sin(), 1e-8, 12);
        }
        obs_some(&s, 16);
        reached(1);
    }
    /// p: bits, sample rate, symbol rate, symbolic carrier, key length, which; f: carrier
    fn h_c29_cdma() {
        let (n, fs, sr, l) = (p(0), p(1), p(2), p(4));
        let fc = carrier(p(3), fs);
        let m = bits(n);
        let key = bits(l);
        let (sps, spc) = (fs / sr, fs / sr / l);
        let per = if p(5) == 0 { 1 } else { 2 };
        let s: Vec<f64> = if per == 1 {
            cdma::tx_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect()
        } else {
            cdma::tx_cdma_qpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect()
        };
        eq(s.len() as u64, (n / per * sps) as u64, 21);
        for i in 0..s.len().min(n / per * sps) {
            let chip = key[i % sps / spc];
            let (c, q) = (phase(fc, i, fs).cos(), phase(fc, i, fs).sin());
            let a = nrz(m[i / sps * per] == chip);
            if per == 1 {
                near(s[i], a * c, 1e-8, 22);
            } else {
                near(s[i], a * c - nrz(m[i / sps * 2 + 1] == chip) * q, 1e-8, 23);
            }
        }
        obs_some(&s, 16);
        reached(1);
    }
    /// the baseband spreader; p: bits, key length
    fn h_c29_spread() {
        let (n, l) = (p(0), p(1));
        let m = bits(n);
        let key = bits(l);
        let c: Vec<bool> = cdma::tx_baseband_cdma(m.iter().cloned(), &key).collect();
        eq(c.len() as u64, (n * l) as u64, 31);
        for i in 0..c.len().min(n * l) {
            eqb(c[i], m[i / l] != key[i % l], 32);
        }
        obs_bits(&c, 32);
        reached(1);
    }
}
