//! C11: structure of an OFDM symbol
use crate::sym::*;
use komunikilo::ofdm::*;
use num_complex::Complex;
use std::f64::consts::PI;
crate::harnesses! {
    /// p: symbols, subcarriers, pilots
    fn h_c11_symbol() {
        let (n, sc, pi) = (p(0), p(1), p(2));
        let s: Vec<_> = (0..n).map(|_| cplx(4.0)).collect();
        let tx: Vec<_> = tx_baseband_ofdm_signal(s.iter().cloned(), sc, pi).collect();
        let (cp, d) = (sc / 4, sc - pi);
        let len = sc + cp;
        eq(tx.len() as u64, (n.div_ceil(d) * len) as u64, 1);
        // guard carriers split over the band edges, the odd one below
        let back = (pi - 1) / 2;
        let front = pi - 1 - back;
        let m = sc / 2;
        for b in 0..tx.len() / len {
            let sy = &tx[b * len..(b + 1) * len];
            for i in 0..cp {
                nearc(sy[i], sy[sc + i], 1e-12, 2);
            }
            let mut used = b * d;
            // centred index k is frequency k - sc/2
            for k in 0..sc {
                let fr = k as i64 - m as i64;
                let mut acc = Complex::new(0.0, 0.0);
                for t in 0..sc {
                    let r = (fr * t as i64).rem_euclid(sc as i64);
                    let a = -2.0 * PI * r as f64 / sc as f64;
                    acc += sy[cp + t] * Complex::new(a.cos(), a.sin());
                }
                let data = fr != 0 && k >= front && k < sc - back;
                let want = if data {
                    used += 1;
                    if used <= n { s[used - 1] } else { Complex::new(0.0, 0.0) }
                } else {
                    Complex::new(0.0, 0.0)
                };
                nearc(acc, want, 1e-9, if data { 3 } else { 4 });
            }
            eq(used as u64, ((b + 1) * d) as u64, 5);
        }
        if n > 0 {
            obs(tx[0].re);
        }
        reached(1);
    }
}
