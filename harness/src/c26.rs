//! C26: error rate and energy measures
use crate::sym::*;
use komunikilo::*;
crate::harnesses! {
    /// p: transmitted bits, received bits
    fn h_c26_ber() {
        let (n, m) = (p(0), p(1));
        let a = bits(n);
        let b = bits(m);
        let e = ber(&a, &b);
        let common = n.min(m);
        let mut diff = 0u64;
        for i in 0..common {
            diff += (a[i] != b[i]) as u64;
        }
        near(e * common as f64, diff as f64, 1e-9, 1);
        check((e >= 0.0) & (e <= 1.0), 2);
        near(ber(&b, &a), e, 0.0, 3);
        near(ber(&a, &a), 0.0, 0.0, 4);
        obs(e);
        reached(1);
    }
    /// p: samples; f: magnitude, sample rate
    fn h_c26_energy() {
        let n = p(0);
        let (a, fs) = (pf(0), pf(1));
        let x = reals(n, -a, a);
        let mut sq = 0.0;
        for v in &x {
            sq += v * v;
        }
        let tol = 1e-12 * a * a * n as f64;
        let e = energy(x.iter().cloned(), fs);
        near(e * fs, sq, tol * 8.0, 11);
        check(e >= 0.0, 12);
        let av = avg_energy(&x);
        near(av * n as f64, sq, tol * 8.0, 13);
        check(av >= 0.0, 14);
        near(avg_energy_py(x.clone()), av, 0.0, 15);
        let pw = power(x.iter().cloned(), fs);
        near(pw * n as f64 * fs, sq, tol * 8.0, 16);
        check(pw >= 0.0, 17);
        obs(e);
        obs(av);
        obs(pw);
        reached(1);
    }
    /// scaling the signal; p: samples; f: magnitude, sample rate
    fn h_c26_scaled() {
        let n = p(0);
        let (a, fs) = (pf(0), pf(1));
        let x = reals(n, -a, a);
        let c = real(-4.0, 4.0);
        let y: Vec<f64> = x.iter().map(|v| v * c).collect();
        let tol = 1e-9 * a * a * n as f64;
        near(energy(y.iter().cloned(), fs) * fs, energy(x.iter().cloned(), fs) * fs * c * c, tol, 21);
        near(avg_energy(&y), avg_energy(&x) * c * c, tol, 22);
        near(power(y.iter().cloned(), fs) * fs, power(x.iter().cloned(), fs) * fs * c * c, tol, 23);
        reached(1);
    }
    /// any sample rate; p: samples
    fn h_c26_rate() {
        let n = p(0);
        let fs = real(1.0, 1e5);
        let x = reals(n, -2.0, 2.0);
        let mut sq = 0.0;
        for v in &x {
            sq += v * v;
        }
        near(energy(x.iter().cloned(), fs) * fs, sq, 1e-6, 31);
        near(power(x.iter().cloned(), fs) * n as f64 * fs, sq, 1e-6, 32);
        reached(1);
    }
}
