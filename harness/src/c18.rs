//! C18: FH-OFDM-DCSK baseband link
use crate::sym::*;
use komunikilo::fh_ofdm_dcsk::*;
crate::harnesses! {
    /// p: bits
    fn h_c18_link() {
        let n = p(0);
        let m = bits(n);
        let tx: Vec<_> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
        let k = n.div_ceil(7);
        eq(tx.len() as u64, 10 * k as u64, 1);
        for b in 0..tx.len() / 10 {
            for i in 0..2 {
                nearc(tx[10 * b + i], tx[10 * b + 8 + i], 1e-12, 2);
            }
            for i in 0..10 {
                let z = tx[10 * b + i];
                check((z.re <= 1.0) & (z.re >= -1.0) & (z.im <= 1.0) & (z.im >= -1.0), 3);
            }
        }
        let rx: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(tx.iter().cloned()).collect();
        eq(rx.len() as u64, 7 * k as u64, 4);
        for i in 0..n.min(rx.len()) {
            eqb(rx[i], m[i], 5);
        }
        if n > 0 {
            obs(tx[0].re);
            obs(tx[3].im);
        }
        obs_bits(&rx[..n.min(rx.len())], 8);
        reached(1);
    }
}
