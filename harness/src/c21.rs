//! C21: stream adaptors
use crate::sym::*;
use komunikilo::iter::Iter;
use num_complex::Complex;
fn ints(n: usize) -> Vec<u64> {
    (0..n).map(|_| int(0, 1 << 40)).collect()
}
crate::harnesses! {
    /// p: longest stream, largest chunk
    fn h_c21_chunks() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v = ints(n);
        let c: Vec<Vec<u64>> = v.iter().cloned().chunks(k).collect();
        eq(c.len() as u64, n.div_ceil(k) as u64, 1);
        let mut i = 0;
        for (j, ch) in c.iter().enumerate() {
            eq(ch.len() as u64, if j + 1 < c.len() || n % k == 0 { k } else { n % k } as u64, 2);
            for x in ch {
                check(i < n, 3);
                eq(*x, v[i.min(n - 1)], 3);
                i += 1;
            }
        }
        eq(i as u64, n as u64, 4);
        // exhausted for good
        let mut it = v.iter().cloned().chunks(k);
        while it.next().is_some() {}
        check(it.next().is_none(), 5);
        }}
        reached(1);
    }
    /// p: longest stream, largest chunk
    fn h_c21_wchunks() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v = ints(n);
        let c: Vec<Vec<u64>> = v.iter().cloned().wchunks(k).collect();
        eq(c.len() as u64, n.div_ceil(k) as u64, 11);
        let mut i = 0;
        for ch in &c {
            eq(ch.len() as u64, k as u64, 12);
            for x in ch {
                eq(*x, if i < n { v[i] } else { 0 }, 13);
                i += 1;
            }
        }
        let mut it = v.iter().cloned().wchunks(k);
        while it.next().is_some() {}
        check(it.next().is_none(), 14);
        }}
        reached(1);
    }
    /// p: longest stream, most copies
    fn h_c21_inflate() {
        for n in 0..=p(0) {
        for k in 0..=p(1) {
        let v = ints(n);
        let c: Vec<u64> = v.iter().cloned().inflate(k).collect();
        eq(c.len() as u64, (n * k) as u64, 21);
        for i in 0..c.len() {
            eq(c[i], v[i / k], 22);
        }
        // a copy of a partly consumed stream continues where it was
        if k > 0 && n > 0 {
            let mut it = v.iter().cloned().inflate(k);
            it.next();
            let rest: Vec<u64> = it.clone().collect();
            eq(rest.len() as u64, (n * k - 1) as u64, 23);
            for i in 0..rest.len() {
                eq(rest[i], v[(i + 1) / k], 24);
            }
        }
        }}
        reached(1);
    }
    /// p: longest stream, largest stride
    fn h_c21_take() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v = ints(n);
        let c: Vec<u64> = v.iter().cloned().take_every(k).collect();
        eq(c.len() as u64, n.div_ceil(k) as u64, 31);
        for i in 0..c.len() {
            eq(c[i], v[i * k], 32);
        }
        }}
        reached(1);
    }
    /// p: longest stream; f: bound
    fn h_c21_scale() {
        for n in 0..=p(0) {
        let b = pf(0);
        let a = real(-b, b);
        let v = reals(n, -b, b);
        let c: Vec<f64> = v.iter().cloned().scale(a).collect();
        eq(c.len() as u64, n as u64, 41);
        for i in 0..n.min(c.len()) {
            near(c[i], a * v[i], 1e-9, 42);
        }
        let z: Vec<Complex<f64>> = (0..n).map(|_| cplx(b)).collect();
        let d: Vec<Complex<f64>> = z.iter().cloned().scale(a).collect();
        eq(d.len() as u64, n as u64, 43);
        for i in 0..n.min(d.len()) {
            nearc(d[i], z[i] * a, 1e-9, 44);
        }
        }
        reached(1);
    }
    /// adaptors composed: decimating an inflated stream gives the stream back; p: longest stream, largest factor
    fn h_c21_round() {
        for n in 0..=p(0) {
        for k in 1..=p(1) {
        let v = ints(n);
        let c: Vec<u64> = v.iter().cloned().inflate(k).take_every(k).collect();
        eq(c.len() as u64, n as u64, 51);
        for i in 0..n.min(c.len()) {
            eq(c[i], v[i], 52);
        }
        let d: Vec<u64> = v.iter().cloned().inflate(k).chunks(k).map(|w| w[w.len() - 1]).collect();
        eq(d.len() as u64, n as u64, 53);
        for i in 0..n.min(d.len()) {
            eq(d[i], v[i], 54);
        }
        }}
        reached(1);
    }
}
