//! C17: chaotic maps
use crate::sym::*;
use komunikilo::chaos::*;
crate::harnesses! {
    /// starting values are accepted exactly inside the interval; f: bound
    fn h_c17_start() {
        let x0 = real(-pf(0), pf(0));
        let which = bit();
        let inside = if which { (x0 >= 0.0) & (x0 <= 1.0) } else { (x0 >= -1.0) & (x0 <= 1.0) };
        may_panic(!inside);
        let y = if which { LogisticMap::new(3.0, x0).next() } else { Chebyshev::new(x0).next() };
        check(inside, 1);
        check(y.is_some(), 2);
        reached(1);
    }
    /// p: steps
    fn h_c17_logistic() {
        let mu = real(0.0, 4.0);
        let mut x = real(0.0, 1.0);
        let mut l = LogisticMap::new(mu, x);
        for _ in 0..p(0) {
            let y = l.next().unwrap();
            near(y, mu * x * (1.0 - x), 1e-9, 11);
            check((y >= -1e-9) & (y <= 1.0 + 1e-9), 12);
            obs(y);
            x = y;
        }
        reached(1);
    }
    /// p: steps
    fn h_c17_chebyshev() {
        let mut l = Chebyshev::new(real(-1.0, 1.0));
        for _ in 0..p(0) {
            let y = l.next().unwrap();
            check((y >= -1.0 - 1e-9) & (y <= 1.0 + 1e-9), 13);
            obs(y);
        }
        reached(1);
    }
    /// the maps as plain functions on their documented intervals
    fn h_c17_maps() {
        let mu = real(0.0, 4.0);
        let x = real(0.0, 1.0);
        let y = logistic_map(mu, x);
        check((y >= -1e-12) & (y <= 1.0 + 1e-12), 21);
        let z = real(-1.0, 1.0);
        let c = chebyshev(z);
        check((c >= -1.0 - 1e-12) & (c <= 1.0 + 1e-12), 22);
        let nu = real(0.0, 1.0);
        let t = tent_map(nu, z);
        check((t >= -1.0 - 1e-12) & (t <= 1.0 + 1e-12), 23);
        let bu = real(0.0, 2.0);
        let b = bernoulli_map(bu, z);
        check((b >= -1.0 - 1e-12) & (b <= 1.0 + 1e-12), 24);
        obs(y);
        obs(c);
        obs(t);
        obs(b);
        reached(1);
    }
    /// long concrete orbits stay inside; p: steps; f: mu, start
    fn h_c17_orbit() {
        let mut l = LogisticMap::new(pf(0), pf(1));
        let mut c = Chebyshev::new(pf(1));
        for _ in 0..p(0) {
            let x = l.next().unwrap();
            check(x >= 0.0 && x <= 1.0, 31);
            let y = c.next().unwrap();
            check(y >= -1.0 && y <= 1.0, 32);
        }
        reached(1);
    }
}
