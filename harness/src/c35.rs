//! C35: the Butterworth band-pass
use crate::sym::*;
use komunikilo::bpf::butterpass;
use std::f64::consts::PI;
/// the share of a tone's amplitude that passes the filter forwards and backwards: the bilinear Butterworth band-pass
fn gain(f: f64, low: f64, high: f64, fs: f64) -> f64 {
    let w = |x: f64| (PI * x / fs).tan();
    let (l, h, x) = (w(low), w(high), w(f));
    let r = (x * x - l * h) / (x * (h - l));
    1.0 / (1.0 + r.abs().powi(128))
}
crate::harnesses! {
    /// any combination of tones, each absent, or with either sign and either phase
    /// p: samples, sample rate, tones; f: low, high, then the tones' frequencies
    fn h_c35_tones() {
        let (n, fs, k) = (p(0), p(1), p(2));
        let (low, high) = (pf(0), pf(1));
        let mut s = vec![0.0; n];
        let mut want = vec![0.0; n];
        for j in 0..k {
            let f = pf(2 + j);
            let (on, neg, quad) = (bit(), bit(), if p(3) == 1 { bit() } else { j % 2 == 1 });
            let a = if on { if neg { -1.0 } else { 1.0 } } else { 0.0 };
            let g = gain(f, low, high, fs as f64);
            for i in 0..n {
                let x = 2.0 * PI * f * i as f64 / fs as f64;
                let c = a * if quad { x.sin() } else { x.cos() };
                s[i] += c;
                want[i] += g * c;
            }
        }
        let r: Vec<f64> = butterpass(low, high, s.into_iter(), fs).collect();
        eq(r.len() as u64, n as u64, 1);
        let mut i = n * 2 / 5;
        while i < n * 3 / 5 {
            near(r[i], want[i], 0.01, 2);
            obs(r[i]);
            i += 1;
        }
        reached(1);
    }
}
