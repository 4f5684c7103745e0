//! C25: strip spectral correlation
use crate::sym::*;
use komunikilo::ssca::*;
use num_complex::Complex;
use std::f64::consts::PI;
fn cis(num: i64, den: i64) -> Complex<f64> {
    let a = 2.0 * PI * num.rem_euclid(den) as f64 / den as f64;
    Complex::new(a.cos(), a.sin())
}
fn window(n: usize) -> Vec<f64> {
    (0..n).map(|i| 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos()).collect()
}
/// the definition: out[q][k], q the centred time transform bin, k the centred short transform bin
fn direct(s: &[f64], n: usize, np: usize) -> Vec<Vec<Complex<f64>>> {
    let (a, g) = (window(np), window(n));
    let mut prod = vec![vec![Complex::new(0.0, 0.0); n]; np];
    for k in 0..np {
        let fr = k as i64 - (np / 2) as i64;
        for i in 0..n {
            let mut x = Complex::new(0.0, 0.0);
            for m in 0..np {
                x += cis(-fr * m as i64, np as i64) * (a[m] * s[i + m]);
            }
            prod[k][i] = x * cis(-fr * i as i64, np as i64) * s[i + np / 2] * g[i];
        }
    }
    let mut out = vec![vec![Complex::new(0.0, 0.0); np]; n];
    for q in 0..n {
        let al = q as i64 - (n / 2) as i64;
        for k in 0..np {
            let mut acc = Complex::new(0.0, 0.0);
            for i in 0..n {
                acc += prod[k][i] * cis(-al * i as i64, n as i64);
            }
            out[q][k] = acc;
        }
    }
    out
}
crate::harnesses! {
    /// p: strip length, channels, extra samples
    fn h_c25_base() {
        let (n, np, extra) = (p(0), p(1), p(2));
        let s = reals(n + np - 1 + extra, -2.0, 2.0);
        let got = ssca_base(s.clone(), n, np);
        eq(got.shape()[0] as u64, n as u64, 1);
        eq(got.shape()[1] as u64, np as u64, 2);
        let want = direct(&s, n, np);
        for q in 0..n {
            for k in 0..np {
                nearc(got[[q, k]], want[q][k], 1e-8, 3);
            }
        }
        obs(got[[0, 0]].re);
        obs(got[[n - 1, np - 1]].im);
        reached(1);
    }
    /// p: strip length, channels
    fn h_c25_mapped() {
        let (n, np) = (p(0), p(1));
        let s = reals(n + np - 1, -2.0, 2.0);
        let got = ssca_mapped(s.clone(), n, np);
        eq(got.shape()[0] as u64, np as u64 + 1, 11);
        eq(got.shape()[1] as u64, 2 * n as u64 + 1, 12);
        let want = direct(&s, n, np);
        let mut cell = vec![vec![None; 2 * n + 1]; np + 1];
        for q in 0..n {
            for k in 0..np {
                // frequency (k/np - q/n)/2 and cycle frequency k/np + q/n, as fractions of n
                let row = (k as f64 * 0.5 + np as f64 * 0.5 - (q * np) as f64 * 0.5 / n as f64 + 1e-9).floor() as usize;
                let col = ((k * n) as f64 / np as f64 + q as f64 + 1e-9).floor() as usize;
                if n % np == 0 {
                    eq(cell[row][col].is_none() as u64, 1, 15);
                }
                cell[row][col] = Some(want[q][k]);
            }
        }
        for r in 0..=np {
            for c in 0..=2 * n {
                match cell[r][c] {
                    Some(v) => nearc(got[[r, c]], v, 1e-8, 13),
                    None => nearc(got[[r, c]], Complex::new(0.0, 0.0), 0.0, 14),
                }
            }
        }
        obs(got[[0, 0]].re);
        reached(1);
    }
}
