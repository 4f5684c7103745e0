//! C31: the error function helpers
use crate::sym::*;
use komunikilo::{erf, erfc};
/// the error function by its series
fn series(x: f64) -> f64 {
    let (mut t, mut s, mut n) = (x, x, 0.0);
    while n < 200.0 {
        n += 1.0;
        t *= -x * x / n;
        s += t / (2.0 * n + 1.0);
    }
    s * 2.0 / std::f64::consts::PI.sqrt()
}
crate::harnesses! {
    /// p: pieces; f: from, width of a piece, tolerance
    fn h_c31_value() {
        for k in 0..p(0) {
            let a = pf(0) + pf(1) * k as f64;
            let x = a + real(0.0, pf(1));
            let y = erf(x);
            check(y <= 1.0 && y >= -1.0 && erf(-x) <= 1.0 && erf(-x) >= -1.0, 1);
            if a >= 0.05 {
                check(y > 0.0, 2);
            }
            let z = erf(-x);
            near(z, -y, 1e-6, 3);
            near(y + erfc(x), 1.0, 1e-12, 4);
            near(z + erfc(-x), 1.0, 1e-12, 5);
            near(y, if a < 5.0 { series(a) } else { 1.0 }, pf(2), 6);
            if k < 8 {
                obs(y);
            }
        }
        near(erf(0.0), 0.0, 1e-6, 7);
        near(erf(-0.0), 0.0, 1e-6, 8);
        near(erfc(0.0), 1.0, 1e-6, 9);
        reached(1);
    }
}
