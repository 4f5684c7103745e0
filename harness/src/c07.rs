//! C07: Hadamard code books
use crate::sym::*;
use komunikilo::hadamard::HadamardMatrix;
/// any user index with this remainder over the period
fn user(n: usize, r: usize) -> usize {
    let u = int(0, (1 << 62) - 1);
    assume(u % (n as u64 - 1) == r as u64);
    u as usize
}
crate::harnesses! {
    /// any user index with this remainder; p: size, remainder
    fn h_c07_total() {
        let (n, r) = (p(0), p(1));
        let h = HadamardMatrix::new(n);
        let a = h.key(user(n, r));
        let b = h.key(r);
        eq(a.len() as u64, n as u64, 11);
        eq(b.len() as u64, n as u64, 11);
        for k in 0..n.min(a.len()).min(b.len()) {
            eqb(a[k], b[k], 12);
        }
        obsu(a[n - 1] as u64);
        reached(1);
    }
    /// any user index with this remainder against every key of the book; p: size, remainder
    fn h_c07_keys() {
        let (n, r) = (p(0), p(1));
        let h = HadamardMatrix::new(n);
        let a = h.key(user(n, r));
        let mut set = 0u64;
        for k in 0..n {
            set += a[k] as u64;
        }
        eq(2 * set, n as u64, 1);
        for s in 0..n - 1 {
            let b = h.key(s);
            eq(b.len() as u64, n as u64, 2);
            let mut agree = 0u64;
            for k in 0..n {
                agree += (a[k] == b[k]) as u64;
            }
            eq(agree, if r == s { n } else { n / 2 } as u64, 3);
        }
        reached(1);
    }
}
