//! C20: chirps
use crate::sym::*;
use komunikilo::fh_css::*;
use std::f64::consts::PI;
/// phase of a chirp of rate r from f0 to f1 at sample n
fn chirp(f0: f64, f1: f64, r: f64, n: usize, fs: usize) -> f64 {
    let t = n as f64 / fs as f64;
    2.0 * PI * (f0 * t + 0.5 * (f1 - f0) * r * t * t)
}
crate::harnesses! {
    /// p: sample rate; f: chirp rate, start, end
    fn h_c20_chirp() {
        let fs = p(0);
        let (r, f0, f1) = (pf(0), pf(1), pf(2));
        let tx: Vec<f64> = linear_chirp(r, fs, f0, f1).collect();
        eq(tx.len() as u64, (fs as f64 / r) as u64, 1);
        near(tx[0], 1.0, 1e-12, 2);
        for n in 0..tx.len() {
            // the chirp period need not be a whole number of samples: the grid divides it evenly
            let t = n as f64 / (r * tx.len() as f64);
            near(tx[n], (2.0 * PI * (f0 * t + 0.5 * (f1 - f0) * r * t * t)).cos(), 1e-7, 3);
        }
        obs_some(&tx, 4);
        reached(1);
    }
    /// any centre and bandwidth; p: sample rate; f: chirp rate, largest centre, largest bandwidth
    fn h_c20_centered() {
        let fs = p(0);
        let r = pf(0);
        let fc = real(0.0, pf(1));
        let bw = real(0.0, pf(2));
        let up: Vec<f64> = linear_upchirp_centered(r, fc, bw, fs).collect();
        let dn: Vec<f64> = linear_downchirp_centered(r, fc, bw, fs).collect();
        let len = (fs as f64 / r) as usize;
        eq(up.len() as u64, len as u64, 11);
        eq(dn.len() as u64, len as u64, 12);
        for n in 0..len.min(up.len()).min(dn.len()) {
            near(up[n], chirp(fc - bw / 2.0, fc + bw / 2.0, r, n, fs).cos(), 1e-6, 13);
            near(dn[n], chirp(fc + bw / 2.0, fc - bw / 2.0, r, n, fs).cos(), 1e-6, 14);
        }
        obs_some(&up, 4);
        reached(1);
    }
    /// any start and end frequency; p: sample rate; f: chirp rate, largest frequency
    fn h_c20_any() {
        let fs = p(0);
        let r = pf(0);
        let f0 = real(0.0, pf(1));
        let f1 = real(0.0, pf(1));
        let tx: Vec<f64> = linear_chirp(r, fs, f0, f1).collect();
        eq(tx.len() as u64, (fs as f64 / r) as u64, 21);
        for n in 0..tx.len() {
            near(tx[n], chirp(f0, f1, r, n, fs).cos(), 1e-6, 22);
        }
        obs_some(&tx, 4);
        reached(1);
    }
    /// p: bits, hop frequencies, sample rate, symbol rate; f: low, high
    fn h_c20_css() {
        let (n, nf, fs, sr) = (p(0), p(1), p(2), p(3));
        let (lo, hi) = (pf(0), pf(1));
        let sps = fs / sr;
        let bw = (hi - lo) / nf as f64;
        // hop frequencies, read off an all-set message
        let base: Vec<f64> = tx_fh_css_signal((0..n).map(|_| true), fs, sr, lo, hi, nf).collect();
        let m = bits(n);
        let tx: Vec<f64> = tx_fh_css_signal(m.iter().cloned(), fs, sr, lo, hi, nf).collect();
        eq(tx.len() as u64, (n * sps) as u64, 31);
        for i in 0..n {
            let mut hop = -1.0;
            for k in 0..nf {
                let f = lo + bw * k as f64;
                let up = |t: usize| chirp(f - bw / 2.0, f + bw / 2.0, sr as f64, t, fs).cos();
                if (0..sps).all(|t| (base[i * sps + t] - up(t)).abs() < 1e-7) {
                    hop = f;
                }
            }
            check(hop >= 0.0, 32);
            for t in 0..sps {
                let u = chirp(hop - bw / 2.0, hop + bw / 2.0, sr as f64, t, fs).cos();
                let d = chirp(hop + bw / 2.0, hop - bw / 2.0, sr as f64, t, fs).cos();
                near(tx[i * sps + t], if m[i] { u } else { d }, 1e-7, 33);
            }
        }
        obs_some(&tx, 4);
        reached(1);
    }
}
