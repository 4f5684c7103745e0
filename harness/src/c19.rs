//! C19: frequency modulation
use crate::sym::*;
use komunikilo::{fm::*, fsk::*};
fn law(tx: &[f64], m: &[bool], fs: usize, sps: usize, lo: f64, hi: f64, id: u64) {
    eq(tx.len() as u64, (m.len() * sps) as u64, id);
    for n in 0..tx.len() {
        let b = m[(n / sps).min(m.len() - 1)];
        let (c1, c0) = (phase(hi, n, fs).cos(), phase(lo, n, fs).cos());
        near(tx[n], if b { c1 } else { c0 }, 1e-9, id + 1);
    }
    obs_some(tx, 4);
}
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, modulator; f: low, high
    fn h_c19_fsk() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let m = bits(n);
        let it = m.iter().cloned();
        let (lo, hi) = (pf(0), pf(1));
        let tx: Vec<f64> = match p(3) {
            0 => tx_bfsk_signal(it, fs, sr, lo, hi).collect(),
            1 => tx_mfsk_signal(it, fs, sr, lo, hi, 2).collect(),
            _ => tx_fsk_signal(it, fs, sr, &[hi, lo]).collect(),
        };
        law(&tx, &m, fs, fs / sr, lo, hi, 1);
        reached(1);
    }
    /// p: bits, sample rate, symbol rate; f: carrier
    fn h_c19_fmfsk() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let m = bits(n);
        let fc = pf(0);
        let tx: Vec<f64> = tx_fsk(m.iter().cloned(), fs, sr, fc).collect();
        law(&tx, &m, fs, fs / sr, fc - 0.025 * fc, fc + 0.025 * fc, 11);
        reached(1);
    }
    /// p: modulating values, sample rate, symbol rate; f: carrier, largest value
    fn h_c19_fm() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let fc = pf(0);
        let sps = fs / sr;
        let x = reals(n, -pf(1), pf(1));
        let tx: Vec<f64> = tx_fm(x.iter().cloned(), fs, sr, fc).collect();
        eq(tx.len() as u64, (n * sps) as u64, 21);
        let mut sum = 0.0;
        for k in 0..tx.len() {
            sum += x[k / sps];
            near(tx[k], (phase(fc, k, fs) + 0.05 * sum).cos(), 1e-7, 22);
        }
        obs_some(&tx, 4);
        reached(1);
    }
    /// binary messages on the FM modulator; p: bits, sample rate, symbol rate; f: carrier
    fn h_c19_fmbits() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let fc = pf(0);
        let sps = fs / sr;
        let m = bits(n);
        let tx: Vec<f64> = tx_fm(m.iter().map(|b| nrz(*b)), fs, sr, fc).collect();
        eq(tx.len() as u64, (n * sps) as u64, 31);
        let mut sum = 0.0;
        for k in 0..tx.len() {
            sum += nrz(m[k / sps]);
            near(tx[k], (phase(fc, k, fs) + 0.05 * sum).cos(), 1e-7, 32);
        }
        obs_some(&tx, 4);
        reached(1);
    }
}
