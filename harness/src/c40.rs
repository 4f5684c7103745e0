//! C40: the functions the Python module offers are the Rust ones
use crate::sym::*;
use komunikilo::*;
use num_complex::Complex;
type F = Vec<f64>;
type M = Vec<bool>;
extern "Rust" {
    fn komunikilo_verif_tx_baseband_bpsk(m: M) -> Vec<Complex<f64>>;
    fn komunikilo_verif_tx_bpsk(m: M, fs: usize, sr: usize, fc: f64) -> F;
    fn komunikilo_verif_rx_bpsk(s: F, fs: usize, sr: usize, fc: f64) -> M;
    fn komunikilo_verif_tx_qpsk(m: M, fs: usize, sr: usize, fc: f64) -> F;
    fn komunikilo_verif_rx_qpsk(s: F, fs: usize, sr: usize, fc: f64) -> M;
    fn komunikilo_verif_tx_ofdm(m: M, nc: usize, np: usize, fs: usize, sr: usize, fc: f64) -> F;
    fn komunikilo_verif_rx_ofdm(s: F, nc: usize, np: usize, fs: usize, sr: usize, fc: f64) -> M;
    fn komunikilo_verif_tx_cdma_bpsk(m: M, fs: usize, sr: usize, fc: f64) -> F;
    fn komunikilo_verif_tx_bfsk(m: M, fs: usize, sr: usize, lo: f64, hi: f64) -> F;
    fn komunikilo_verif_tx_fh_css(m: M, fs: usize, sr: usize, lo: f64, hi: f64, n: usize) -> F;
    fn komunikilo_verif_tx_csk(m: M, fs: usize, sr: usize) -> F;
    fn komunikilo_verif_tx_dcsk(m: M, fs: usize, sr: usize) -> F;
    fn komunikilo_verif_tx_fh_ofdm_dcsk(m: M, fs: usize, sr: usize, fc: f64) -> F;
    fn komunikilo_verif_awgn_py(s: F, sigma: f64) -> F;
    fn komunikilo_verif_pure_awgn(n: usize, sigma: f64) -> F;
    fn komunikilo_verif_chirp(rate: f64, fs: usize, f0: f64, f1: f64) -> F;
    fn komunikilo_verif_energy_detector(s: F) -> f64;
    fn komunikilo_verif_avg_energy_py(s: F) -> f64;
}
fn same(a: &[f64], b: &[f64], tol: f64, t: u64) {
    eq(a.len() as u64, b.len() as u64, t);
    for i in 0..a.len().min(b.len()) {
        near(a[i], b[i], tol, t + 1);
    }
}
crate::harnesses! {
    /// p: which, bits, sample rate, symbol rate; f: carrier
    fn h_c40_psk() {
        let (n, fs, sr, fc) = (p(1), p(2), p(3), pf(0));
        let m = bits(n);
        unsafe {
            if p(0) == 0 {
                let s = komunikilo_verif_tx_bpsk(m.clone(), fs, sr, fc);
                let e: F = bpsk::tx_bpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
                same(&s, &e, 1e-9, 1);
                same_bits(&komunikilo_verif_rx_bpsk(s.clone(), fs, sr, fc), &m, 3);
                obs_some(&s, 8);
            } else {
                let s = komunikilo_verif_tx_qpsk(m.clone(), fs, sr, fc);
                let e: F = qpsk::tx_qpsk_signal(m.iter().cloned(), fs, sr, fc).collect();
                same(&s, &e, 1e-9, 11);
                same_bits(&komunikilo_verif_rx_qpsk(s.clone(), fs, sr, fc), &m[..n - n % 2], 13);
                obs_some(&s, 8);
            }
        }
        reached(1);
    }
    /// p: bits
    fn h_c40_baseband() {
        let m = bits(p(0));
        let s = unsafe { komunikilo_verif_tx_baseband_bpsk(m.clone()) };
        eq(s.len() as u64, m.len() as u64, 21);
        for i in 0..m.len().min(s.len()) {
            near(s[i].re, nrz(m[i]), 1e-12, 22);
            near(s[i].im, 0.0, 1e-12, 23);
        }
        reached(1);
    }
    /// p: bits, subcarriers, pilots, sample rate, symbol rate; f: carrier
    fn h_c40_ofdm() {
        let (n, nc, np, fs, sr, fc) = (p(0), p(1), p(2), p(3), p(4), pf(0));
        let m = bits(n);
        let s = unsafe { komunikilo_verif_tx_ofdm(m.clone(), nc, np, fs, sr, fc) };
        let e: F = ofdm::tx_ofdm_qpsk_signal(m.iter().cloned(), nc, np, fs, sr, fc).collect();
        same(&s, &e, 1e-9, 31);
        let r = unsafe { komunikilo_verif_rx_ofdm(s.clone(), nc, np, fs, sr, fc) };
        same_bits(&r, &m, 33);
        obs_some(&s, 8);
        reached(1);
    }
    /// p: bits, sample rate, symbol rate; f: carrier
    fn h_c40_cdma() {
        let (n, fs, sr, fc) = (p(0), p(1), p(2), pf(0));
        let m = bits(n);
        let s = unsafe { komunikilo_verif_tx_cdma_bpsk(m.clone(), fs, sr, fc) };
        let h = hadamard::HadamardMatrix::new(16);
        let e: F = cdma::tx_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, h.key(0)).collect();
        same(&s, &e, 1e-9, 41);
        let r: M = cdma::rx_cdma_bpsk_signal(s.iter().cloned(), fs, sr, fc, h.key(0)).collect();
        same_bits(&r, &m, 43);
        obs_some(&s, 8);
        reached(1);
    }
    /// p: bits, sample rate, symbol rate, hop frequencies; f: low, high
    fn h_c40_hop() {
        let (n, fs, sr, k, lo, hi) = (p(0), p(1), p(2), p(3), pf(0), pf(1));
        let m = bits(n);
        let s = unsafe { komunikilo_verif_tx_fh_css(m.clone(), fs, sr, lo, hi, k) };
        let e: F = fh_css::tx_fh_css_signal(m.iter().cloned(), fs, sr, lo, hi, k).collect();
        same(&s, &e, 1e-9, 51);
        obs_some(&s, 8);
        let s = unsafe { komunikilo_verif_tx_bfsk(m.clone(), fs, sr, lo, hi) };
        let e: F = fsk::tx_bfsk_signal(m.iter().cloned(), fs, sr, lo, hi).collect();
        same(&s, &e, 1e-9, 53);
        obs_some(&s, 8);
        let s = unsafe { komunikilo_verif_chirp(sr as f64, fs, lo, hi) };
        let e: F = fh_css::linear_chirp(sr as f64, fs, lo, hi).collect();
        same(&s, &e, 1e-9, 55);
        let s = unsafe { komunikilo_verif_chirp(sr as f64, fs, hi, lo) };
        let e: F = fh_css::linear_chirp(sr as f64, fs, hi, lo).collect();
        same(&s, &e, 1e-9, 57);
        reached(1);
    }
    /// every baseband value held for the samples of its symbol; p: bits, sample rate, symbol rate
    fn h_c40_chaos() {
        let (n, fs, sr) = (p(0), p(1), p(2));
        let k = fs / sr;
        let m = bits(n);
        let s = unsafe { komunikilo_verif_tx_csk(m.clone(), fs, sr) };
        let b: F = csk::tx_baseband_csk(m.iter().cloned()).collect();
        let e: F = (0..b.len() * k).map(|i| b[i / k]).collect();
        same(&s, &e, 1e-12, 61);
        obs_some(&s, 8);
        let s = unsafe { komunikilo_verif_tx_dcsk(m.clone(), fs, sr) };
        let b: F = dcsk::tx_baseband_dcsk(m.iter().cloned()).collect();
        let e: F = (0..b.len() * k).map(|i| b[i / k]).collect();
        same(&s, &e, 1e-12, 63);
        obs_some(&s, 8);
        reached(1);
    }
    /// p: bits, sample rate, symbol rate; f: carrier
    fn h_c40_fhofdm() {
        let (n, fs, sr, fc) = (p(0), p(1), p(2), pf(0));
        let m = bits(n);
        let s = unsafe { komunikilo_verif_tx_fh_ofdm_dcsk(m.clone(), fs, sr, fc) };
        let e: F = fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(m.iter().cloned(), fs, sr, fc).collect();
        same(&s, &e, 1e-9, 71);
        obs_some(&s, 8);
        reached(1);
    }
    /// p: samples; f: largest sample
    fn h_c40_noise() {
        let (n, a) = (p(0), pf(0));
        let x = reals(n, -a, a);
        let sigma = real(0.5, 2.0);
        let s0 = base(sigma);
        let tol = 1e-9 * (a + 1.0);
        let y = unsafe { komunikilo_verif_awgn_py(x.clone(), sigma) };
        let w = unsafe { komunikilo_verif_pure_awgn(n, sigma) };
        eq(y.len() as u64, n as u64, 81);
        eq(w.len() as u64, n as u64, 82);
        let (mut ly, mut lw) = (0.0, 0.0);
        for i in 0..n.min(y.len()).min(w.len()) {
            let (zy, zw) = (base(y[i] - x[i]) / s0, base(w[i]) / s0);
            near(y[i] - x[i], sigma * zy, tol, 83);
            near(w[i], sigma * zw, tol, 84);
            check((zy < 40.0) & (zy > -40.0) & (zw < 40.0) & (zw > -40.0), 85);
            check((zy != ly) & (zw != lw), 86);
            ly = zy;
            lw = zw;
        }
        let y = unsafe { komunikilo_verif_awgn_py(x.clone(), 0.0) };
        same(&y, &x, 0.0, 87);
        for v in unsafe { komunikilo_verif_pure_awgn(n, 0.0) } {
            near(v, 0.0, 0.0, 89);
        }
        reached(1);
    }
    /// p: samples; f: largest sample
    fn h_c40_energy() {
        let (n, a) = (p(0), pf(0));
        let x: F = (0..n).map(|i| if i % 3 == 1 { real(0.5 * a, a) } else { real(-a, -0.5 * a) }).collect();
        let mut sq = 0.0;
        for v in &x {
            sq += v * v;
        }
        near(unsafe { komunikilo_verif_avg_energy_py(x.clone()) } * n as f64, sq, 1e-10 * a * a * n as f64, 91);
        let d = unsafe { komunikilo_verif_energy_detector(x.clone()) };
        near(d, 10.0 * sq.log10(), 1e-6, 92);
        obs(d);
        reached(1);
    }
}
