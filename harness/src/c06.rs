//! C06: Walsh-coded users sharing a channel
use crate::sym::*;
use komunikilo::cdma::*;
use komunikilo::hadamard::HadamardMatrix;
crate::harnesses! {
    /// p: code length, users, bits each, sample rate, symbol rate; f: carrier
    fn h_c06_users() {
        let (size, users, n, fs, sr) = (p(0), p(1), p(2), p(3), p(4));
        let h = HadamardMatrix::new(size);
        let keys: Vec<Vec<bool>> = (0..users).map(|u| h.key(u).clone()).collect();
        let ms: Vec<Vec<bool>> = (0..users).map(|_| bits(n)).collect();
        let len = n * (fs / sr);
        let mut sum = vec![0f64; len];
        for u in 0..users {
            let tx: Vec<f64> = tx_cdma_bpsk_signal(ms[u].iter().cloned(), fs, sr, pf(0), &keys[u]).collect();
            eq(tx.len() as u64, len as u64, 1);
            for (s, t) in sum.iter_mut().zip(&tx) {
                *s += t;
            }
        }
        obs_some(&sum, 8);
        for u in 0..users {
            let rx: Vec<bool> = rx_cdma_bpsk_signal(sum.iter().cloned(), fs, sr, pf(0), &keys[u]).collect();
            same_bits(&rx, &ms[u], 2);
            obs_bits(&rx, 4);
        }
        reached(1);
    }
}
