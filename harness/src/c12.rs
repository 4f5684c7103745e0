//! C12: passband OFDM-QPSK
use crate::sym::*;
use komunikilo::ofdm::*;
crate::harnesses! {
    /// p: OFDM symbols, subcarriers, pilots, sample rate, symbol rate; f: carrier
    fn h_c12_link() {
        let (k, sc, pi, fs, sr) = (p(0), p(1), p(2), p(3), p(4));
        let n = 2 * k * (sc - pi);
        let m = bits(n);
        let tx: Vec<f64> = tx_ofdm_qpsk_signal(m.iter().cloned(), sc, pi, fs, sr, pf(0)).collect();
        eq(tx.len() as u64, (k * (sc + sc / 4) * (fs / sr)) as u64, 1);
        obs_some(&tx, 4);
        let rx: Vec<bool> = rx_ofdm_qpsk_signal(tx.iter().cloned(), sc, pi, fs, sr, pf(0)).collect();
        same_bits(&rx, &m, 2);
        obs_bits(&rx, 8);
        reached(1);
    }
}
