//! C13: frequency-hopped BPSK link
use crate::sym::*;
use komunikilo::fh::*;
crate::harnesses! {
    /// p: bits, hop frequencies, sample rate, symbol rate, extra trailing samples; f: low, high, noise
    fn h_c13_link() {
        let (n, nf, fs, sr) = (p(0), p(1), p(2), p(3));
        let m = bits(n);
        let tx: Vec<f64> = tx_fh_bpsk_signal(m.iter().cloned(), pf(0), pf(1), nf, fs, sr).collect();
        eq(tx.len() as u64, (n * (fs / sr)) as u64, 1);
        obs_some(&tx, 4);
        let mut rxs = noisy(tx, pf(2));
        for _ in 0..p(4) {
            rxs.push(real(-1.0, 1.0));
        }
        let rx: Vec<bool> = rx_fh_bpsk_signal(rxs.into_iter(), pf(0), pf(1), nf, fs, sr).collect();
        same_bits(&rx, &m, 2);
        obs_bits(&rx, 8);
        reached(1);
    }
}
