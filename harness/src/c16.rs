//! C16: CSK
use crate::sym::*;
use komunikilo::csk::*;
crate::harnesses! {
    /// p: bits
    fn h_c16_link() {
        let n = p(0);
        let m = bits(n);
        let tx: Vec<f64> = tx_baseband_csk(m.iter().cloned()).collect();
        eq(tx.len() as u64, n as u64, 1);
        let ones: Vec<f64> = tx_baseband_csk((0..n).map(|_| true)).collect();
        let zeros: Vec<f64> = tx_baseband_csk((0..n).map(|_| false)).collect();
        let (mut a, mut b) = (0.1, 0.15);
        for i in 0..n {
            near(ones[i], 3.9 * a * (1.0 - a), 1e-12, 2);
            near(zeros[i], 3.9 * b * (1.0 - b), 1e-12, 3);
            check(ones[i] != zeros[i], 4);
            check(ones[i] > 0.0 && ones[i] < 1.0 && zeros[i] > 0.0 && zeros[i] < 1.0, 4);
            near(tx[i], if m[i] { ones[i] } else { zeros[i] }, 0.0, 5);
            a = ones[i];
            b = zeros[i];
        }
        let rx: Vec<bool> = verif_rx_baseband_csk(tx.iter().cloned()).collect();
        same_bits(&rx, &m, 6);
        obs_some(&tx, 8);
        reached(1);
    }
}
