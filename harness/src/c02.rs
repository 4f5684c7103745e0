//! C02: the passband QPSK link
use crate::sym::*;
use komunikilo::qpsk::*;
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, samples dropped at the end; f: carrier, noise bound
    fn h_c02_link() {
        let (n, fs, sr, cut) = (p(0), p(1), p(2), p(3));
        let (fc, q) = (pf(0), pf(1));
        let m = bits(n);
        let sps = fs / sr;
        let mut tx: Vec<f64> = tx_qpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
        eq(tx.len() as u64, (n / 2 * sps) as u64, 1);
        obs_some(&tx, 8);
        tx.truncate(tx.len() - cut);
        let whole = tx.len() / sps * 2;
        let rx: Vec<bool> = rx_qpsk_signal(noisy(tx, q).into_iter(), fs, sr, fc).collect();
        same_bits(&rx, &m[..whole], 2);
        obs_bits(&rx, 8);
        reached(1);
    }
}
