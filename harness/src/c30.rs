//! C30: parameters are accepted within their limits and refused outside
use crate::sym::*;
use komunikilo::{bpsk::*, cdma::*, fh::*, fh_css::*, fh_ofdm_dcsk::*, fsk::*, ofdm::*, Bit};
fn start(which: usize, fs: usize, sr: usize, lo: f64, fc: f64, key: &[bool]) {
    let none = || std::iter::empty::<Bit>();
    let silence = || std::iter::empty::<f64>();
    match which {
        0 => drop(tx_bpsk_signal(none(), fs, sr, fc)),
        1 => drop(tx_bfsk_signal(none(), fs, sr, lo, fc)),
        2 => drop(tx_mfsk_signal(none(), fs, sr, lo, fc, 2)),
        3 => drop(tx_fsk_signal(none(), fs, sr, &[fc, lo])),
        4 => drop(tx_fh_bpsk_signal(none(), lo, fc, 8, fs, sr)),
        5 => drop(rx_fh_bpsk_signal(silence(), lo, fc, 8, fs, sr)),
        6 => drop(tx_fh_bpsk_signal_old(none(), lo, lo, 8, fs, sr, fc)),
        7 => drop(tx_fh_css_signal(none(), fs, sr, lo, fc, 8)),
        8 => drop(tx_ofdm_qpsk_signal(none(), 16, 4, fs, sr, fc)),
        9 => drop(rx_ofdm_qpsk_signal(silence(), 16, 4, fs, sr, fc)),
        10 => drop(tx_fh_ofdm_dcsk_signal(none(), lo, fc, 8, fs, sr)),
        11 => drop(tx_fh_ofdm_dcsk_signal_2(none(), fs, sr, fc)),
        12 => drop(tx_cdma_bpsk_signal(none(), fs, sr, fc, key)),
        13 => drop(rx_cdma_bpsk_signal(silence(), fs, sr, fc, key)),
        14 => drop(tx_cdma_qpsk_signal(none(), fs, sr, fc, key)),
        15 => drop(rx_cdma_qpsk_signal(silence(), fs, sr, fc, key)),
        16 => drop(tx_coded_cdma_bpsk_signal(none(), fs, sr, fc, key)),
        _ => drop(rx_coded_cdma_bpsk_signal(silence(), fs, sr, fc, key)),
    }
}
fn rates(w: usize, sr: usize, s: usize, lim: u64) -> (usize, usize) {
    // one of the symbol rate and the ratio is given, the other is any
    if sr > 0 {
        // (one receiver allocates by it)
        (sr, if w == 9 { s } else { int(s as u64, s as u64 + 40) as usize })
    } else {
        (int(1, lim) as usize, s)
    }
}
crate::harnesses! {
    /// p: function, symbol rate (0: any), samples per chip (least or given), key length
    fn h_c30_valid() {
        let key = bits(p(3));
        let (sr, s) = rates(p(0), p(1), p(2), 1 << 20);
        let fs = sr * s * p(3);
        let half = fs as f64 * 0.5;
        let fc = real(0.0, 1.0) * half;
        start(p(0), fs, sr, 0.0, fc, &key);
        // the band edge itself
        start(p(0), fs, sr, 0.0, half, &key);
        obsu(fs as u64);
        reached(1);
    }
    /// p: function, symbol rate (0: any), samples per chip (least or given), key length, what is wrong
    fn h_c30_invalid() {
        let l = p(3);
        let key = bits(l);
        let (sr, s) = rates(p(0), p(1), p(2), 1 << 20);
        let mut fs = sr * s * l;
        let mut fc = fs as f64 * 0.125;
        match p(4) {
            // samples per symbol
            0 => {
                let r = int(1, (1 << 20) - 1) as usize;
                assume(r < sr);
                fs += r;
            }
            // carrier
            1 => fc = fs as f64 * 0.5 + real(1.01, 1e6),
            // samples per chip
            2 => fs += sr * int(1, l as u64 - 1) as usize,
            // chip rate
            _ => {
                fs = sr * l;
                fc = sr as f64 * 0.25;
            }
        }
        obsu(fs as u64);
        reached(1);
        may_panic(true);
        start(p(0), fs, sr, 0.0, fc, &key);
        may_panic(false);
        eq(0, 1, 11);
    }
}
