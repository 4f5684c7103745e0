//! C08: the Reed-Solomon coded CDMA-BPSK link without errors
use crate::sym::*;
use komunikilo::cdma::*;
crate::harnesses! {
    /// p: bits, sample rate, symbol rate, key length; f: carrier
    fn h_c08_link() {
        let (n, fs, sr, l) = (p(0), p(1), p(2), p(3));
        let key = bits(l);
        let m = bits(n);
        let bytes = n.div_ceil(8);
        let frames = bytes.div_ceil(7);
        let tx: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, sr, pf(0), &key).collect();
        eq(tx.len() as u64, ((bytes + 5 * frames) * 8 * (fs / sr)) as u64, 1);
        obs_some(&tx, 16);
        // the coded stream holds the message bytes, each group of seven followed by parity
        let c: Vec<bool> = rx_cdma_bpsk_signal(tx.iter().cloned(), fs, sr, pf(0), &key).collect();
        eq(c.len() as u64, ((bytes + 5 * frames) * 8) as u64, 2);
        for i in 0..n.min(c.len()) {
            let at = i / 56 * 96 + i % 56;
            eqb(c[at.min(c.len() - 1)], m[i], 3);
        }
        let rx: Vec<bool> = rx_coded_cdma_bpsk_signal(tx.into_iter(), fs, sr, pf(0), &key).collect();
        eq(rx.len() as u64, (bytes * 8) as u64, 4);
        for i in 0..rx.len() {
            eqb(rx[i], i < n && m[i.min(n - 1)], 5);
        }
        obs_bits(&rx, 64);
        reached(1);
    }
}
