//! C03: baseband PSK mapping and decisions
use crate::sym::*;
use komunikilo::bpsk::*;
use komunikilo::qpsk::*;
use num_complex::Complex;
crate::harnesses! {
    /// p: bits
    fn h_c03_map() {
        let m = bits(p(0));
        let b: Vec<Complex<f64>> = tx_baseband_bpsk_signal(m.iter().cloned()).collect();
        eq(b.len() as u64, m.len() as u64, 1);
        for (s, &x) in b.iter().zip(&m) {
            near(s.re, nrz(x), 0.0, 2);
            near(s.im, 0.0, 0.0, 3);
        }
        let s: Vec<Complex<f64>> = tx_baseband_qpsk_signal(m.iter().cloned()).collect();
        eq(s.len() as u64, (m.len() / 2) as u64, 4);
        let r = 2f64.sqrt();
        for (k, z) in s.iter().enumerate() {
            near(z.re, r * nrz(m[2 * k]), 1e-15, 5);
            near(z.im, r * nrz(m[2 * k + 1]), 1e-15, 6);
            obs(z.re);
            obs(z.im);
        }
        reached(1);
    }
    /// decisions on arbitrary received symbols; p: symbols; f: magnitude
    fn h_c03_slice() {
        let n = p(0);
        let a = pf(0);
        let r: Vec<Complex<f64>> = (0..n).map(|_| cplx(a)).collect();
        let b: Vec<bool> = rx_baseband_bpsk_signal(r.iter().cloned()).collect();
        eq(b.len() as u64, n as u64, 11);
        let q: Vec<bool> = rx_baseband_qpsk_signal(r.iter().cloned()).collect();
        eq(q.len() as u64, 2 * n as u64, 12);
        for k in 0..n {
            let (re, im) = (r[k].re, r[k].im);
            check(!(re > 0.0) | b[k], 13);
            check(!(re < 0.0) | !b[k], 14);
            check(!(re > 0.0) | q[2 * k], 15);
            check(!(re < 0.0) | !q[2 * k], 16);
            check(!(im > 0.0) | q[2 * k + 1], 17);
            check(!(im < 0.0) | !q[2 * k + 1], 18);
            obsu(b[k] as u64);
            obsu(q[2 * k] as u64);
            obsu(q[2 * k + 1] as u64);
        }
        reached(1);
    }
    /// modulate, disturb without crossing an axis, demodulate; p: bits
    fn h_c03_link() {
        let m = bits(p(0));
        let mut d = |z: Complex<f64>, b: f64| z + Complex::new(real(-b, b), real(-b, b));
        let rb: Vec<Complex<f64>> = tx_baseband_bpsk_signal(m.iter().cloned()).map(|z| d(z, 0.999)).collect();
        let b: Vec<bool> = rx_baseband_bpsk_signal(rb.into_iter()).collect();
        same_bits(&b, &m, 21);
        let rq: Vec<Complex<f64>> = tx_baseband_qpsk_signal(m.iter().cloned()).map(|z| d(z, 1.41)).collect();
        let q: Vec<bool> = rx_baseband_qpsk_signal(rq.into_iter()).collect();
        same_bits(&q, &m[..m.len() / 2 * 2], 22);
        obs_bits(&q, 8);
        reached(1);
    }
}
