//! C24: the FFT band-pass filter
use crate::sym::*;
use komunikilo::bpf::bandpass;
use num_complex::Complex;
use std::f64::consts::PI;
fn dft(x: &[f64], k: usize) -> Complex<f64> {
    let n = x.len();
    let mut acc = Complex::new(0.0, 0.0);
    for (t, v) in x.iter().enumerate() {
        let a = -2.0 * PI * (k * t % n) as f64 / n as f64;
        acc += Complex::new(v * a.cos(), v * a.sin());
    }
    acc
}
crate::harnesses! {
    /// p: block length, blocks, sample rate; f: band edges
    fn h_c24_band() {
        let (len, blocks, fs) = (p(0), p(1), p(2));
        let (low, high) = (pf(0), pf(1));
        let tol = if len > 16 { 1e-7 } else { 1e-9 };
        let x = reals(len * blocks, -4.0, 4.0);
        let y: Vec<f64> = bandpass(low, high, x.iter().cloned(), fs, len).collect();
        eq(y.len() as u64, x.len() as u64, 1);
        for b in 0..blocks.min(y.len() / len) {
            let (xb, yb) = (&x[b * len..(b + 1) * len], &y[b * len..(b + 1) * len]);
            for k in 0..=len / 2 {
                let f = (k * fs) as f64 / len as f64;
                let got = dft(yb, k);
                if f >= low && f <= high {
                    nearc(got, dft(xb, k), tol, 2);
                } else {
                    nearc(got, Complex::new(0.0, 0.0), tol, 3);
                }
            }
        }
        let z: Vec<f64> = bandpass(low, high, y.iter().cloned(), fs, len).collect();
        eq(z.len() as u64, y.len() as u64, 4);
        for i in 0..z.len().min(y.len()) {
            near(z[i], y[i], tol, 5);
        }
        obs_some(&y, 6);
        reached(1);
    }
    /// any band edges; p: block length, sample rate
    fn h_c24_edges() {
        let (len, fs) = (p(0), p(1));
        let low = real(0.0, fs as f64);
        let high = real(0.0, fs as f64);
        // a fixed signal with every frequency in it
        let x: Vec<f64> = (0..len).map(|i| if i == 0 { 1.0 } else { 0.25 / i as f64 }).collect();
        let y: Vec<f64> = bandpass(low, high, x.iter().cloned(), fs, len).collect();
        eq(y.len() as u64, len as u64, 11);
        for k in 0..=len / 2 {
            let f = (k * fs) as f64 / len as f64;
            let got = dft(&y, k);
            let s = dft(&x, k);
            let inside = (f >= low) & (f <= high);
            let e = got - s;
            check(!inside | ((e.re < 1e-9) & (e.re > -1e-9) & (e.im < 1e-9) & (e.im > -1e-9)), 12);
            check(inside | ((got.re < 1e-9) & (got.re > -1e-9) & (got.im < 1e-9) & (got.im > -1e-9)), 13);
        }
        obs_some(&y, 6);
        reached(1);
    }
}
