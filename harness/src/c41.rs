//! C41: decibels, grids, windows
use crate::sym::*;
use komunikilo::{bit_to_nrz, db, hamming_window, hamming_window_complex, linspace, undb};
use std::f64::consts::PI;
crate::harnesses! {
    /// p: number of values; f: bound of the ends
    fn h_c41_grid() {
        let (n, b) = (p(0), pf(0));
        let (lo, hi) = (real(-b, b), real(-b, b));
        let v: Vec<f64> = linspace(lo, hi, n).collect();
        eq(v.len() as u64, n as u64, 1);
        for i in 0..v.len() {
            near(v[i], lo + (hi - lo) * (i as f64 / n as f64), 1e-9 * b, 2);
            obs(v[i]);
        }
        reached(1);
    }
    /// p: length
    fn h_c41_window() {
        let n = p(0);
        let (w, c) = (hamming_window(n), hamming_window_complex(n));
        eq(w.len() as u64, n as u64, 1);
        eq(c.len() as u64, n as u64, 2);
        for i in 0..w.len().min(c.len()) {
            let want = 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos();
            near(w[i], want, 1e-12, 3);
            near(c[i].re, want, 1e-12, 4);
            near(c[i].im, 0.0, 0.0, 5);
            near(w[i], w[(n - i) % n], 1e-12, 6);
            obs(w[i]);
        }
        reached(1);
    }
    /// levels within pieces of one decibel scale; f: start of the first, start of the second, width
    fn h_c41_db() {
        let (a, b, w) = (pf(0), pf(1), pf(2));
        let (x, y) = (a + real(0.0, w), b + real(0.0, w));
        let (u, v) = (undb(x), undb(y));
        check(u > 0.0 && v > 0.0, 1);
        near(db(u), x, 1e-9, 2);
        // powers multiply where levels add up
        near(db(u * v), x + y, 1e-9, 3);
        near(db(u / v), x - y, 1e-9, 4);
        let z = undb(a) * real(1.0, 1.0 + w);
        near(db(10.0 * z), db(z) + 10.0, 1e-9, 5);
        near(db(bit_to_nrz(true) * 100.0), 20.0, 1e-12, 6);
        near(undb(0.0), 1.0, 1e-12, 7);
        near(undb(20.0), 100.0, 1e-9, 8);
        obs(db(u * v));
        obs(u / undb(a));
        obs(db(z));
        reached(1);
    }
}
