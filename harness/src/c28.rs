//! C28: modulators are causal, lazy streams
use crate::sym::*;
use komunikilo::*;
use std::cell::Cell;
const FS: usize = 800;
const SR: usize = 100;
type It<'a> = Box<dyn Iterator<Item = f64> + 'a>;
fn pairs<'a>(i: impl Iterator<Item = num_complex::Complex<f64>> + 'a) -> It<'a> {
    Box::new(i.flat_map(|c| [c.re, c.im].into_iter()))
}
fn tx<'a>(k: usize, m: impl Iterator<Item = bool> + 'a, key: &'a [bool], freqs: &'a [f64]) -> It<'a> {
    match k {
        0 => pairs(bpsk::tx_baseband_bpsk_signal(m)),
        1 => pairs(qpsk::tx_baseband_qpsk_signal(m)),
        2 => Box::new(bpsk::tx_bpsk_signal(m, FS, SR, 230.0)),
        3 => Box::new(qpsk::tx_qpsk_signal(m, FS, SR, 170.0)),
        4 => Box::new(cdma::tx_baseband_cdma(m, key).map(|b| b as u8 as f64)),
        5 => Box::new(cdma::tx_cdma_bpsk_signal(m, FS, SR, 200.0, key)),
        6 => Box::new(cdma::tx_cdma_qpsk_signal(m, FS, SR, 130.0, key)),
        7 => Box::new(cdma::tx_coded_cdma_bpsk_signal(m, 2, 1, 0.0, &key[..1])),
        8 => Box::new(fh::tx_fh_bpsk_signal(m, 100.0, 300.0, 4, FS, SR)),
        9 => Box::new(fh::tx_fh_bpsk_signal_old(m, 100.0, 300.0, 4, FS, SR, 50.0)),
        10 => Box::new(fsk::tx_bfsk_signal(m, FS, SR, 120.0, 250.0)),
        11 => Box::new(fsk::tx_mfsk_signal(m, FS, SR, 120.0, 250.0, 2)),
        12 => Box::new(fsk::tx_fsk_signal(m, FS, SR, freqs)),
        13 => Box::new(fm::tx_fsk(m, FS, SR, 200.0)),
        14 => Box::new(fm::tx_fm(m.map(|b| if b { 0.75 } else { -0.5 }), FS, SR, 200.0)),
        15 => Box::new(csk::tx_baseband_csk(m)),
        16 => Box::new(dcsk::tx_baseband_dcsk(m)),
        17 => Box::new(fh_css::tx_fh_css_signal(m, FS, SR, 100.0, 300.0, 4)),
        18 => pairs(ofdm::tx_baseband_ofdm_signal(qpsk::tx_baseband_qpsk_signal(m), 8, 3)),
        19 => Box::new(ofdm::tx_ofdm_qpsk_signal(m, 8, 3, FS, SR, 150.0)),
        20 => pairs(fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal(m)),
        21 => Box::new(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal(m, 100.0, 300.0, 4, FS, SR)),
        _ => Box::new(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(m, FS, SR, 150.0)),
    }
}
/// (message bits, output values) of one symbol
fn symbol(k: usize) -> (usize, usize) {
    match k {
        0 => (1, 2),
        1 => (2, 2),
        3 | 6 => (2, 8),
        4 => (1, 4),
        7 => (56, 96 * 2),
        15 => (1, 1),
        16 => (1, 2),
        18 => (10, 20),
        19 => (10, 80),
        20 => (7, 20),
        21 | 22 => (7, 80),
        _ => (1, 8),
    }
}
crate::harnesses! {
    /// p: modulator, symbols, symbols of the prefix
    fn h_c28_prefix() {
        let (k, n, q) = (p(0), p(1), p(2));
        let (g, o) = symbol(k);
        let key = if k == 7 { vec![true] } else { bits(4) };
        let f = [250.0, 120.0];
        let m = bits(n * g);
        let whole: Vec<f64> = tx(k, m.iter().cloned(), &key, &f).collect();
        eq(whole.len() as u64, (n * o) as u64, 1);
        let part: Vec<f64> = tx(k, m[..q * g].iter().cloned(), &key, &f).collect();
        eq(part.len() as u64, (q * o) as u64, 2);
        for i in 0..part.len().min(whole.len()) {
            near(part[i], whole[i], 1e-12, 3);
        }
        // the part that follows may be anything
        let mut other = m.clone();
        for b in other[q * g..].iter_mut() {
            *b = bit();
        }
        let alt: Vec<f64> = tx(k, other.iter().cloned(), &key, &f).collect();
        eq(alt.len() as u64, (n * o) as u64, 4);
        for i in 0..(q * o).min(whole.len()).min(alt.len()) {
            near(alt[i], whole[i], 1e-12, 5);
        }
        obs_some(&whole, 16);
        reached(1);
    }
    /// p: modulator, values taken: the source is read no further than the symbol that holds the last of them
    fn h_c28_lazy() {
        let (k, t) = (p(0), p(1));
        let (g, o) = symbol(k);
        let key = if k == 7 { vec![true] } else { bits(4) };
        let f = [250.0, 120.0];
        let used = Cell::new(0usize);
        let most = t.div_ceil(o) * g;
        // far more than is needed, and a stream that reads too far is stopped early
        let src = std::iter::from_fn(|| {
            used.set(used.get() + 1);
            if used.get() > most + 3 * g + 64 { None } else { Some(bit()) }
        });
        let mut s = tx(k, src, &key, &f);
        check(used.get() == 0, 11);
        for i in 0..t {
            let v = s.next();
            check(v.is_some(), 12);
            check(used.get() <= (i / o + 1) * g, 13);
            obs(v.unwrap_or(0.0));
        }
        reached(1);
    }
}
