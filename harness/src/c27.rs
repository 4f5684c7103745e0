//! C27: the noise channel
use crate::sym::*;
use komunikilo::*;
use num_complex::Complex;
crate::harnesses! {
    /// every noise value is independent of all samples, proportional to the deviation, and drawn anew
    /// p: samples; f: largest sample
    fn h_c27_noise() {
        let n = p(0);
        let a = pf(0);
        let x = reals(n, -a, a);
        let sigma = real(0.5, 2.0);
        let s0 = base(sigma);
        let y: Vec<f64> = awgn(x.iter().cloned(), sigma).collect();
        eq(y.len() as u64, n as u64, 1);
        let tol = 1e-9 * (a + 1.0);
        let mut z = vec![];
        for i in 0..n.min(y.len()) {
            let zi = base(y[i] - x[i]) / s0;
            near(y[i] - x[i], sigma * zi, tol, 2);
            check((zi < 40.0) & (zi > -40.0), 3);
            z.push(zi);
        }
        for i in 1..z.len() {
            check(z[i] != z[i - 1], 4);
        }
        obs_some(&y, 8);
        reached(1);
    }
    fn h_c27_complex() {
        let n = p(0);
        let a = pf(0);
        let x: Vec<Complex<f64>> = (0..n).map(|_| cplx(a)).collect();
        let sigma = real(0.5, 2.0);
        let s0 = base(sigma);
        let y: Vec<Complex<f64>> = awgn_complex(x.iter().cloned(), sigma).collect();
        eq(y.len() as u64, n as u64, 11);
        let tol = 1e-9 * (a + 1.0);
        let mut last = 0.0;
        for i in 0..n.min(y.len()) {
            let d = y[i] - x[i];
            let (zr, zi) = (base(d.re) / s0, base(d.im) / s0);
            near(d.re, sigma * zr, tol, 12);
            near(d.im, sigma * zi, tol, 13);
            check((zr < 40.0) & (zr > -40.0) & (zi < 40.0) & (zi > -40.0), 14);
            check(zr != last, 15);
            last = zr;
            obs(y[i].re);
        }
        reached(1);
    }
    /// no noise: the signal itself
    fn h_c27_silent() {
        let n = p(0);
        let x = reals(n, -100.0, 100.0);
        let y: Vec<f64> = awgn(x.iter().cloned(), 0.0).collect();
        eq(y.len() as u64, n as u64, 21);
        for i in 0..n.min(y.len()) {
            near(y[i], x[i], 0.0, 22);
        }
        let x: Vec<Complex<f64>> = (0..n).map(|_| cplx(100.0)).collect();
        let y: Vec<Complex<f64>> = awgn_complex(x.iter().cloned(), 0.0).collect();
        eq(y.len() as u64, n as u64, 23);
        for i in 0..n.min(y.len()) {
            nearc(y[i], x[i], 0.0, 24);
        }
        reached(1);
    }
    /// a level that is not a finite number is refused; p: which, plain or complex
    fn h_c27_invalid() {
        let s = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][p(0)];
        let x = reals(3, -1.0, 1.0);
        reached(1);
        may_panic(true);
        let n = if p(1) == 0 {
            awgn(x.iter().cloned(), s).count()
        } else {
            awgn_complex(x.iter().map(|v| Complex::new(*v, 0.0)), s).count()
        };
        // nothing may be delivered
        may_panic(false);
        eq(n as u64, 99, 31);
    }
}
