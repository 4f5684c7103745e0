//! C04: baseband CDMA
use crate::sym::*;
use komunikilo::cdma::*;
crate::harnesses! {
    /// p: bits, key length
    fn h_c04_link() {
        let (n, l) = (p(0), p(1));
        let key = bits(l);
        let m = bits(n);
        let c: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).collect();
        eq(c.len() as u64, (n * l) as u64, 1);
        for i in 0..c.len() {
            eqb(c[i], m[i / l] ^ key[i % l], 2);
        }
        let r: Vec<bool> = rx_baseband_cdma(c.iter().cloned(), &key).collect();
        same_bits(&r, &m, 3);
        obs_bits(&c, 8);
        reached(1);
    }
    /// chips inverted in transit: every bit with fewer than half of its chips inverted survives
    /// p: bits, key length
    fn h_c04_errors() {
        let (n, l) = (p(0), p(1));
        let key = bits(l);
        let m = bits(n);
        let e = bits(n * l);
        let c: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).collect();
        let d: Vec<bool> = c.iter().zip(&e).map(|(a, b)| a ^ b).collect();
        let r: Vec<bool> = rx_baseband_cdma(d.into_iter(), &key).collect();
        eq(r.len() as u64, n as u64, 11);
        for k in 0..n {
            let mut w = 0u64;
            for i in 0..l {
                w += e[k * l + i] as u64;
            }
            check((2 * w >= l as u64) | (r[k] == m[k]), 12);
            obsu(r[k] as u64);
        }
        reached(1);
    }
}
