//! C36: the frequency-shift link of the fm module
use crate::sym::*;
use komunikilo::fm::*;
crate::harnesses! {
    /// p: bits, sample rate, symbol rate; f: carrier
    fn h_c36_link() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let m = bits(n);
        let tx: Vec<f64> = tx_fsk(m.iter().cloned(), fs, sr, pf(0)).collect();
        let rx: Vec<bool> = rx_fsk(tx.iter().cloned(), fs, sr, pf(0)).collect();
        same_bits(&rx, &m, 1);
        obs_bits(&rx, 8);
        reached(1);
    }
    /// every sample off by at most a bound; f: carrier, bound
    fn h_c36_noisy() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let m = bits(n);
        let tx: Vec<f64> = tx_fsk(m.iter().cloned(), fs, sr, pf(0)).collect();
        let rx: Vec<bool> = rx_fsk(noisy(tx, pf(1)).into_iter(), fs, sr, pf(0)).collect();
        same_bits(&rx, &m, 11);
        reached(1);
    }
}
