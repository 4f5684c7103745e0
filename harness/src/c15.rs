//! C15: DCSK
use crate::sym::*;
use komunikilo::dcsk::*;
crate::harnesses! {
    /// p: bits
    fn h_c15_link() {
        let n = p(0);
        let m = bits(n);
        let tx: Vec<f64> = tx_baseband_dcsk(m.iter().cloned()).collect();
        eq(tx.len() as u64, 2 * n as u64, 1);
        let mut prev = 0.1;
        for i in 0..tx.len() / 2 {
            near(tx[2 * i], 3.9 * prev * (1.0 - prev), 1e-12, 2);
            near(tx[2 * i + 1], nrz(m[i]) * tx[2 * i], 1e-12, 3);
            check(tx[2 * i] > 0.0 && tx[2 * i] < 1.0, 4);
            prev = tx[2 * i];
        }
        let rx: Vec<bool> = rx_baseband_dcsk(tx.iter().cloned()).collect();
        same_bits(&rx, &m, 5);
        obs_some(&tx, 8);
        reached(1);
    }
    /// p: samples; f: smallest and largest magnitude
    fn h_c15_decide() {
        let n = p(0);
        let (lo, hi) = (pf(0), pf(1));
        let s: Vec<f64> = reals(n, -hi, hi);
        for x in &s {
            assume((*x >= lo) | (*x <= -lo));
        }
        let rx: Vec<bool> = rx_baseband_dcsk(s.iter().cloned()).collect();
        eq(rx.len() as u64, (n / 2) as u64, 11);
        for i in 0..rx.len().min(n / 2) {
            eqb(rx[i], (s[2 * i] > 0.0) == (s[2 * i + 1] > 0.0), 12);
        }
        obs_bits(&rx, 8);
        reached(1);
    }
}
