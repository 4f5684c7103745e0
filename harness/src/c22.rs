//! C22: integrators
use crate::sym::*;
use komunikilo::iter::Iter;
fn ints(n: usize) -> Vec<u64> {
    (0..n).map(|_| int(0, 1 << 40)).collect()
}
crate::harnesses! {
    /// p: longest stream
    fn h_c22_integrate() {
        for n in 0..=p(0) {
        let v = ints(n);
        let c: Vec<u64> = v.iter().cloned().integrate().collect();
        eq(c.len() as u64, n as u64, 1);
        let mut s = 0;
        for i in 0..n.min(c.len()) {
            s += v[i];
            eq(c[i], s, 2);
        }
        let w = reals(n, -1e3, 1e3);
        let d: Vec<f64> = w.iter().cloned().integrate().collect();
        eq(d.len() as u64, n as u64, 3);
        let mut s = 0.0;
        for i in 0..n.min(d.len()) {
            s += w[i];
            near(d[i], s, 1e-6, 4);
        }
        }
        reached(1);
    }
    /// p: longest stream, largest block
    fn h_c22_dump() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v = ints(n);
        let c: Vec<u64> = v.iter().cloned().integrate_and_dump(k).collect();
        eq(c.len() as u64, (n / k) as u64, 11);
        for i in 0..c.len().min(n / k) {
            let mut s = 0;
            for j in 0..k {
                s += v[i * k + j];
            }
            eq(c[i], s, 12);
        }
        let w = reals(n, -1e3, 1e3);
        let d: Vec<f64> = w.iter().cloned().integrate_and_dump(k).collect();
        eq(d.len() as u64, (n / k) as u64, 13);
        for i in 0..d.len().min(n / k) {
            let mut s = 0.0;
            for j in 0..k {
                s += w[i * k + j];
            }
            near(d[i], s, 1e-6, 14);
        }
        }}
        reached(1);
    }
    /// p: longest stream, largest block
    fn h_c22_branches() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v: Vec<[u64; 3]> = (0..n).map(|_| [int(0, 1 << 40), int(0, 1 << 40), int(0, 1 << 40)]).collect();
        let c: Vec<[u64; 3]> = v.iter().cloned().nintegrate().collect();
        eq(c.len() as u64, n as u64, 21);
        let d: Vec<[u64; 3]> = v.iter().cloned().nintegrate_and_dump(k).collect();
        eq(d.len() as u64, (n / k) as u64, 22);
        for b in 0..3 {
            let mut s = 0;
            for i in 0..n.min(c.len()) {
                s += v[i][b];
                eq(c[i][b], s, 23);
            }
            for i in 0..d.len().min(n / k) {
                let mut s = 0;
                for j in 0..k {
                    s += v[i * k + j][b];
                }
                eq(d[i][b], s, 24);
            }
        }
        }}
        reached(1);
    }
    /// real branches; p: stream, block
    fn h_c22_rbranches() {
        let (n, k) = (p(0), p(1));
        let v: Vec<[f64; 2]> = (0..n).map(|_| [real(-1e3, 1e3), real(-1e3, 1e3)]).collect();
        let c: Vec<[f64; 2]> = v.iter().cloned().nintegrate().collect();
        let d: Vec<[f64; 2]> = v.iter().cloned().nintegrate_and_dump(k).collect();
        eq(c.len() as u64, n as u64, 31);
        eq(d.len() as u64, (n / k) as u64, 32);
        for b in 0..2 {
            let mut s = 0.0;
            for i in 0..n.min(c.len()) {
                s += v[i][b];
                near(c[i][b], s, 1e-6, 33);
            }
            for i in 0..d.len().min(n / k) {
                let mut s = 0.0;
                for j in 0..k {
                    s += v[i * k + j][b];
                }
                near(d[i][b], s, 1e-6, 34);
            }
        }
        reached(1);
    }
}
