//! C23: streaming convolution
use crate::sym::*;
use komunikilo::iter::Iter;
crate::harnesses! {
    /// p: longest signal, longest filter
    fn h_c23_ints() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let x: Vec<u64> = (0..n).map(|_| int(0, 1 << 20)).collect();
        let h: Vec<u64> = (0..k).map(|_| int(0, 1 << 20)).collect();
        let y: Vec<u64> = x.iter().cloned().convolve(h.clone()).collect();
        eq(y.len() as u64, if n == 0 { 0 } else { n + k - 1 } as u64, 1);
        for i in 0..y.len() {
            let mut s = 0;
            for j in 0..k {
                if j <= i && i - j < n {
                    s += h[j] * x[i - j];
                }
            }
            eq(y[i], s, 2);
        }
        }}
        reached(1);
    }
    /// p: longest signal, longest filter
    fn h_c23_reals() {
        for n in 1..=p(0) {
        for k in 1..=p(1) {
        let x = reals(n, -10.0, 10.0);
        let h = reals(k, -10.0, 10.0);
        let y: Vec<f64> = x.iter().cloned().convolve(h.clone()).collect();
        eq(y.len() as u64, (n + k - 1) as u64, 11);
        for i in 0..y.len() {
            let mut s = 0.0;
            for j in 0..k {
                if j <= i && i - j < n {
                    s += h[j] * x[i - j];
                }
            }
            near(y[i], s, 1e-9, 12);
        }
        }}
        reached(1);
    }
    /// p: longest signal, longest filter
    fn h_c23_branches() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let x: Vec<[f64; 2]> = (0..n).map(|_| [real(-10.0, 10.0), real(-10.0, 10.0)]).collect();
        let h = reals(k, -10.0, 10.0);
        let y: Vec<[f64; 2]> = x.iter().cloned().nonvolve(h.clone()).collect();
        eq(y.len() as u64, if n == 0 { 0 } else { n + k - 1 } as u64, 21);
        for i in 0..y.len() {
            for b in 0..2 {
                let mut s = 0.0;
                for j in 0..k {
                    if j <= i && i - j < n {
                        s += h[j] * x[i - j][b];
                    }
                }
                near(y[i][b], s, 1e-9, 22);
            }
        }
        }}
        reached(1);
    }
    /// long signals; p: signal, filter
    fn h_c23_long() {
        let (n, k) = (p(0), p(1));
        let x = reals(n, -10.0, 10.0);
        let h: Vec<f64> = (0..k).map(|j| 1.0 + j as f64 * 0.25).collect();
        let y: Vec<f64> = x.iter().cloned().convolve(h.clone()).collect();
        let z: Vec<[f64; 1]> = x.iter().map(|v| [*v]).nonvolve(h.clone()).collect();
        eq(y.len() as u64, (n + k - 1) as u64, 31);
        eq(z.len() as u64, (n + k - 1) as u64, 32);
        for i in 0..y.len().min(z.len()) {
            let mut s = 0.0;
            for j in 0..k {
                if j <= i && i - j < n {
                    s += h[j] * x[i - j];
                }
            }
            near(y[i], s, 1e-7, 33);
            near(z[i][0], s, 1e-7, 34);
        }
        obs_some(&y, 4);
        reached(1);
    }
}
