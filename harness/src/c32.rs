//! C32: FH-OFDM-DCSK passband waveforms
use crate::sym::*;
use komunikilo::fh_ofdm_dcsk::*;
use num_complex::Complex;
fn mix(b: Complex<f64>, f: f64, i: usize, fs: usize) -> f64 {
    b.re * phase(f, i, fs).cos() + b.im * phase(f, i, fs).sin()
}
crate::harnesses! {
    /// one carrier; p: bits, sample rate, symbol rate, symbolic carrier; f: carrier
    fn h_c32_carrier() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let fc = if p(3) == 0 { pf(0) } else { real(0.0, (fs / 2) as f64) };
        let m = bits(n);
        let b: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
        let s: Vec<f64> = tx_fh_ofdm_dcsk_signal_2(m.iter().cloned(), fs, sr, fc).collect();
        let sps = fs / sr;
        eq(b.len() as u64, (n.div_ceil(7) * 10) as u64, 1);
        eq(s.len() as u64, (b.len() * sps) as u64, 2);
        for i in 0..s.len().min(b.len() * sps) {
            near(s[i], mix(b[i / sps], fc, i, fs), 1e-8, 3);
        }
        obs_some(&s, 16);
        reached(1);
    }
    /// no sample exceeds the magnitude of its symbol; p: bits, sample rate, symbol rate; f: carrier
    fn h_c32_bound() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let m = bits(n);
        let b: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
        let s: Vec<f64> = tx_fh_ofdm_dcsk_signal_2(m.iter().cloned(), fs, sr, pf(0)).collect();
        let t: Vec<f64> = tx_fh_ofdm_dcsk_signal(m.iter().cloned(), pf(0) / 2.0, pf(0), 4, fs, sr).collect();
        let sps = fs / sr;
        for i in 0..(b.len() * sps) {
            let lim = b[i / sps].norm_sqr() + 1e-9;
            check(i < s.len() && s[i] * s[i] <= lim, 5);
            check(i < t.len() && t[i] * t[i] <= lim, 6);
        }
        obs_some(&s, 16);
        reached(1);
    }
    /// hopping; p: bits, sample rate, symbol rate, frequencies; f: lowest, highest
    fn h_c32_hops() {
        let (n, fs, sr, k) = (p(0), p(1), p(2), p(3));
        let (lo, hi) = (pf(0), pf(1));
        let m = bits(n);
        let b: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
        let s: Vec<f64> = tx_fh_ofdm_dcsk_signal(m.iter().cloned(), lo, hi, k, fs, sr).collect();
        let sps = fs / sr;
        eq(s.len() as u64, (b.len() * sps) as u64, 11);
        // the hop frequency of each symbol, from concrete messages ...
        let known: Vec<(Vec<Complex<f64>>, Vec<f64>)> = [0usize, 1, 2, 5]
            .iter()
            .map(|&c| {
                let m: Vec<bool> = (0..n).map(|i| [false, true, i % 2 == 0, i % 3 == 0, i % 5 < 2, i % 7 < 3][c]).collect();
                (
                    tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect(),
                    tx_fh_ofdm_dcsk_signal(m.iter().cloned(), lo, hi, k, fs, sr).collect(),
                )
            })
            .collect();
        let mut seen = vec![0; k];
        for j in 0..b.len().min(s.len() / sps) {
            let (mut best, mut err) = (0, f64::INFINITY);
            for h in 0..k {
                let f = lo + (hi - lo) * h as f64 / k as f64;
                let mut e = 0f64;
                for (b, s) in known.iter() {
                    for i in j * sps..(j + 1) * sps {
                        e += (s[i] - mix(b[j], f, i, fs)).abs();
                    }
                }
                if e < err {
                    best = h;
                    err = e;
                }
            }
            // ... explains it for every message
            let f = lo + (hi - lo) * best as f64 / k as f64;
            for i in j * sps..(j + 1) * sps {
                near(s[i], mix(b[j], f, i, fs), 1e-8, 12);
            }
            if known.iter().any(|(b, _)| b[j].norm_sqr() > 1e-6) {
                check(seen[best] <= j / k, 13);
            }
            seen[best] += 1;
        }
        obs_some(&s, 16);
        reached(1);
    }
}
