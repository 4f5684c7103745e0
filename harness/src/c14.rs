//! C14: hop pattern
use crate::sym::*;
use komunikilo::fh::*;
use komunikilo::fh_css::tx_fh_css_signal;
use std::f64::consts::PI;
crate::harnesses! {
    /// p: bits, hop frequencies, sample rate, symbol rate; f: low, high
    fn h_c14_hops() {
        let (n, nf, fs, sr) = (p(0), p(1), p(2), p(3));
        let (lo, hi) = (pf(0), pf(1));
        let sps = fs / sr;
        let grid: Vec<f64> = (0..nf).map(|k| lo + (hi - lo) * k as f64 / nf as f64).collect();
        let wave = |k: usize, t: usize| (2.0 * PI * grid[k] * t as f64 / fs as f64).cos();
        // the pattern of an all-set message
        let base: Vec<f64> = tx_fh_bpsk_signal((0..n).map(|_| true), lo, hi, nf, fs, sr).collect();
        eq(base.len() as u64, (n * sps) as u64, 1);
        let mut hops = vec![];
        for i in 0..n {
            let mut found = nf;
            let mut hits = 0;
            for k in 0..nf {
                if (0..sps).all(|t| (base[i * sps + t] - wave(k, t)).abs() < 1e-7) {
                    found = k;
                    hits += 1;
                }
            }
            check(hits == 1, 2);
            hops.push(found);
        }
        // every period from the start visits each frequency once
        for w in hops.chunks(nf) {
            if w.len() == nf {
                let mut seen = vec![false; nf];
                for &k in w {
                    if k < nf {
                        seen[k] = true;
                    }
                }
                check(seen.iter().all(|s| *s), 3);
            } else {
                let mut seen = vec![0; nf + 1];
                for &k in w {
                    seen[k] += 1;
                }
                check(seen.iter().all(|s| *s <= 1), 3);
            }
        }
        // any message rides on the same pattern
        let m = bits(n);
        let tx: Vec<f64> = tx_fh_bpsk_signal(m.iter().cloned(), lo, hi, nf, fs, sr).collect();
        eq(tx.len() as u64, base.len() as u64, 4);
        for i in 0..tx.len().min(base.len()) {
            near(tx[i], nrz(m[i / sps]) * base[i], 1e-9, 5);
        }
        obs_some(&tx, 8);
        reached(1);
    }
    /// chirps hop the same way; p: bits, hop frequencies, sample rate, symbol rate; f: low, high
    fn h_c14_chirps() {
        let (n, nf, fs, sr) = (p(0), p(1), p(2), p(3));
        let (lo, hi) = (pf(0), pf(1));
        let sps = fs / sr;
        let bw = (hi - lo) / nf as f64;
        let grid: Vec<f64> = (0..nf).map(|k| lo + bw * k as f64).collect();
        let wave = |k: usize, up: bool, t: usize| {
            let s = t as f64 / fs as f64;
            let (f0, f1) = if up { (grid[k] - bw / 2.0, grid[k] + bw / 2.0) } else { (grid[k] + bw / 2.0, grid[k] - bw / 2.0) };
            (2.0 * PI * (f0 * s + (f1 - f0) * sr as f64 * s * s / 2.0)).cos()
        };
        let base: Vec<f64> = tx_fh_css_signal((0..n).map(|_| true), fs, sr, lo, hi, nf).collect();
        eq(base.len() as u64, (n * sps) as u64, 11);
        let m = bits(n);
        let tx: Vec<f64> = tx_fh_css_signal(m.iter().cloned(), fs, sr, lo, hi, nf).collect();
        eq(tx.len() as u64, base.len() as u64, 12);
        let mut seen = vec![0usize; nf];
        for i in 0..n {
            if i % nf == 0 {
                seen = vec![0; nf];
            }
            let mut hits = 0;
            let mut hop = 0;
            for k in 0..nf {
                if (0..sps).all(|t| (base[i * sps + t] - wave(k, true, t)).abs() < 1e-7) {
                    hits += 1;
                    hop = k;
                }
            }
            check(hits == 1, 13);
            seen[hop] += 1;
            check(seen[hop] == 1, 14);
            for t in 0..sps {
                let (u, d) = (wave(hop, true, t), wave(hop, false, t));
                near(tx[i * sps + t], if m[i] { u } else { d }, 1e-7, 15);
            }
        }
        obs_some(&tx, 8);
        reached(1);
    }
}
