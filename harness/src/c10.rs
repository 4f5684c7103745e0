//! C10: baseband OFDM link
use crate::sym::*;
use komunikilo::ofdm::*;
crate::harnesses! {
    /// p: symbols, subcarriers, pilots
    fn h_c10_link() {
        let (n, sc, pi) = (p(0), p(1), p(2));
        let s: Vec<_> = (0..n).map(|_| cplx(4.0)).collect();
        let tx: Vec<_> = tx_baseband_ofdm_signal(s.iter().cloned(), sc, pi).collect();
        let d = sc - pi;
        let blocks = n.div_ceil(d);
        eq(tx.len() as u64, (blocks * (sc + sc / 4)) as u64, 1);
        let rx: Vec<_> = rx_baseband_ofdm_signal(tx.iter().cloned(), sc, pi).collect();
        eq(rx.len() as u64, (blocks * d) as u64, 2);
        for i in 0..rx.len() {
            let want = if i < n { s[i] } else { num_complex::Complex::new(0.0, 0.0) };
            nearc(rx[i], want, 1e-9, 3);
        }
        if n > 0 {
            obs(rx[0].re);
            obs(tx[0].im);
        }
        reached(1);
    }
}
