//! C01: the passband BPSK link
use crate::sym::*;
use komunikilo::bpsk::*;
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, samples dropped at the end; f: carrier, noise bound
    fn h_c01_link() {
        let (n, fs, sr, cut) = (p(0), p(1), p(2), p(3));
        let (fc, q) = (pf(0), pf(1));
        let m = bits(n);
        let mut tx: Vec<f64> = tx_bpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
        eq(tx.len() as u64, (n * (fs / sr)) as u64, 1);
        obs_some(&tx, 8);
        tx.truncate(tx.len() - cut);
        let whole = tx.len() / (fs / sr);
        let rx: Vec<bool> = rx_bpsk_signal(noisy(tx, q).into_iter(), fs, sr, fc).collect();
        same_bits(&rx, &m[..whole], 2);
        obs_bits(&rx, 8);
        reached(1);
    }
    /// one symbol with any carrier frequency up to half the sample rate
    /// p: samples per symbol
    fn h_c01_carrier() {
        let sps = p(0);
        let fc = real(0.0, (sps * 50) as f64);
        let m = bits(1);
        let tx: Vec<f64> = tx_bpsk_signal(m.iter().cloned(), sps * 100, 100, fc).collect();
        eq(tx.len() as u64, sps as u64, 11);
        let rx: Vec<bool> = rx_bpsk_signal(tx.into_iter(), sps * 100, 100, fc).collect();
        same_bits(&rx, &m, 12);
        reached(1);
    }
}
