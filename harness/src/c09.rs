//! C09: corrupted coded CDMA frames
use crate::sym::*;
use komunikilo::cdma::*;
const FS: usize = 2;
const KEY: [bool; 1] = [true];
fn send(m: &[bool]) -> Vec<bool> {
    rx_cdma_bpsk_signal(tx_coded_cdma_bpsk_signal(m.iter().cloned(), FS, 1, 0.0, &KEY), FS, 1, 0.0, &KEY).collect()
}
fn receive(c: Vec<bool>) -> Vec<bool> {
    let s: Vec<f64> = tx_cdma_bpsk_signal(c.into_iter(), FS, 1, 0.0, &KEY).collect();
    rx_coded_cdma_bpsk_signal(s.into_iter(), FS, 1, 0.0, &KEY).collect()
}
crate::harnesses! {
    /// up to two corrupted bytes in one frame: any damage to the first, symbolic damage to the low bits of the
    /// second on top of a fixed pattern; p: message bits, frame, first byte, second byte, symbolic bits, pattern
    fn h_c09_two() {
        let (n, f, a, b, w, x) = (p(0), p(1), p(2), p(3), p(4), p(5));
        let m = bits(n);
        let mut c = send(&m);
        for k in 0..8 {
            let e = error_bit();
            c[f * 96 + a * 8 + k] ^= e;
        }
        if b != a {
            for k in 0..w {
                let e = error_bit();
                c[f * 96 + b * 8 + k] ^= e;
            }
            for k in 0..8 {
                c[f * 96 + b * 8 + k] ^= x >> k & 1 != 0;
            }
        }
        let r = receive(c);
        eq(r.len() as u64, (n.div_ceil(8) * 8) as u64, 1);
        for i in 0..r.len() {
            eqb(r[i], i < n && m[i.min(n - 1)], 2);
        }
        obs_bits(&r, 64);
        reached(1);
    }
    /// fixed messages with symbolic damage to two bytes over fixed patterns
    /// p: message bits, frame, first byte, second byte, symbolic bits of each, pattern, seed of the message
    fn h_c09_few() {
        let (n, f, a, b, w, x) = (p(0), p(1), p(2), p(3), p(4), p(5));
        let mut s = p(6) as u64 ^ 0x9e3779b97f4a7c15;
        let m: Vec<bool> = (0..n)
            .map(|_| {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                s & 1 != 0
            })
            .collect();
        let mut c = send(&m);
        for (at, sh) in [(a, 0), (b, 8)] {
            for k in 0..8 {
                let i = f * 96 + at * 8 + k;
                if k < w {
                    let e = error_bit();
                    c[i] ^= e;
                }
                c[i] ^= x >> (sh + k) & 1 != 0;
            }
        }
        let r = receive(c);
        eq(r.len() as u64, (n.div_ceil(8) * 8) as u64, 6);
        for i in 0..r.len() {
            eqb(r[i], i < n && m[i.min(n - 1)], 7);
        }
        obs_bits(&r, 64);
        reached(1);
    }
    /// three damaged bytes in one frame: the others are delivered unharmed, the bit count is unchanged
    /// p: message bits, frame, first byte, second byte, third byte, symbolic bits of the first, second, third, pattern of the rest
    fn h_c09_contain() {
        let (n, f, x) = (p(0), p(1), p(8));
        let m: Vec<bool> = (0..n).map(|i| if i / 56 == f { i % 5 < 2 } else { bit() }).collect();
        let mut c = send(&m);
        for i in 0..3 {
            let at = f * 96 + p(2 + i) * 8;
            for k in 0..8 {
                if k < p(5 + i) {
                    let e = error_bit();
                    c[at + k] ^= e;
                } else {
                    c[at + k] ^= x >> k & 1 != 0;
                }
            }
        }
        let r = receive(c);
        eq(r.len() as u64, (n.div_ceil(8) * 8) as u64, 11);
        for i in 0..r.len() {
            if i / 56 != f {
                eqb(r[i], i < n && m[i.min(n - 1)], 12);
            }
        }
        obs_bits(&r, 64);
        reached(1);
    }
    /// the whole frame is overwritten by a fixed pattern; p: message bits (of the other frames symbolic), frame, seed
    fn h_c09_wreck() {
        let (n, f, x) = (p(0), p(1), p(2) as u64);
        let m: Vec<bool> = (0..n).map(|i| if i / 56 == f { x >> (i % 60) & 1 != 0 } else { bit() }).collect();
        let mut c = send(&m);
        let mut s = x ^ 0x9e3779b97f4a7c15;
        for i in f * 96..((f + 1) * 96).min(c.len()) {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            c[i] = s & 1 != 0;
        }
        let r = receive(c);
        eq(r.len() as u64, (n.div_ceil(8) * 8) as u64, 16);
        for i in 0..r.len() {
            if i / 56 != f {
                eqb(r[i], i < n && m[i.min(n - 1)], 17);
            }
        }
        obs_bits(&r, 64);
        reached(1);
    }
    /// the stream ends inside a frame; p: message bits, bits received, symbolic bits of the frame that is cut
    fn h_c09_cut() {
        let (n, keep, w) = (p(0), p(1), p(2));
        let last = keep / 96 * 56;
        let m: Vec<bool> = (0..n).map(|i| if i >= last + w { i % 3 == 0 } else if i >= last { error_bit() } else { bit() }).collect();
        let mut c = send(&m);
        c.truncate(keep);
        let r = receive(c);
        let whole = keep / 96 * 56;
        check(r.len() >= whole, 21);
        check(r.len() <= whole + 56, 23);
        for i in 0..whole.min(r.len()) {
            eqb(r[i], m[i], 22);
        }
        obs_bits(&r, 64);
        reached(1);
    }
}
