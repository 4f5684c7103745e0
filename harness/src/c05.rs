//! C05: passband CDMA links
use crate::sym::*;
use komunikilo::cdma::*;
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, key length; f: carrier
    fn h_c05_bpsk() {
        let (n, fs, sr, l) = (p(0), p(1), p(2), p(3));
        let key = bits(l);
        let m = bits(n);
        let tx: Vec<f64> = tx_cdma_bpsk_signal(m.iter().cloned(), fs, sr, pf(0), &key).collect();
        eq(tx.len() as u64, (n * (fs / sr)) as u64, 1);
        obs_some(&tx, 8);
        let rx: Vec<bool> = rx_cdma_bpsk_signal(tx.into_iter(), fs, sr, pf(0), &key).collect();
        same_bits(&rx, &m, 2);
        obs_bits(&rx, 8);
        reached(1);
    }
    fn h_c05_qpsk() {
        let (n, fs, sr, l) = (p(0), p(1), p(2), p(3));
        let key = bits(l);
        let m = bits(n);
        let tx: Vec<f64> = tx_cdma_qpsk_signal(m.iter().cloned(), fs, sr, pf(0), &key).collect();
        eq(tx.len() as u64, (n / 2 * (fs / sr)) as u64, 11);
        obs_some(&tx, 8);
        let rx: Vec<bool> = rx_cdma_qpsk_signal(tx.into_iter(), fs, sr, pf(0), &key).collect();
        same_bits(&rx, &m[..n / 2 * 2], 12);
        obs_bits(&rx, 8);
        reached(1);
    }
}
