//! Interface to the symbolic executor; natively the same calls read a replay file (rt.c).
#![allow(dead_code)]
use num_complex::Complex;
use std::f64::consts::PI;
mod ffi {
    extern "C" {
        pub fn sym_bool() -> bool;
        pub fn sym_u8() -> u8;
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_f64(lo: f64, hi: f64) -> f64;
        pub fn sym_base(x: f64) -> f64;
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_paramf(i: u64) -> f64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u64);
        pub fn sym_check_eq(a: u64, b: u64, id: u64);
        pub fn sym_near(a: f64, b: f64, t: f64, id: u64);
        pub fn sym_observe_f64(x: f64);
        pub fn sym_observe_u64(x: u64);
        pub fn sym_mark(c: bool) -> bool;
        pub fn sym_may_panic(c: bool);
        pub fn sym_reached(id: u64);
        pub fn sym_concretize(x: u64) -> u64;
    }
}
pub fn bit() -> bool {
    unsafe { ffi::sym_bool() }
}
/// a bit the executor tabulates over directly
pub fn error_bit() -> bool {
    unsafe { ffi::sym_mark(ffi::sym_bool()) }
}
pub fn bits(n: usize) -> Vec<bool> {
    (0..n).map(|_| bit()).collect()
}
pub fn byte() -> u8 {
    unsafe { ffi::sym_u8() }
}
pub fn int(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::sym_u64(lo, hi) }
}
/// an integer in lo..=hi on which execution forks, one path per feasible value
pub fn pick(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::sym_concretize(ffi::sym_u64(lo, hi)) }
}
pub fn concretize(x: u64) -> u64 {
    unsafe { ffi::sym_concretize(x) }
}
pub fn real(lo: f64, hi: f64) -> f64 {
    unsafe { ffi::sym_f64(lo, hi) }
}
pub fn reals(n: usize, lo: f64, hi: f64) -> Vec<f64> {
    (0..n).map(|_| real(lo, hi)).collect()
}
pub fn cplx(b: f64) -> Complex<f64> {
    let re = real(-b, b);
    let im = real(-b, b);
    Complex::new(re, im)
}
pub fn p(i: usize) -> usize {
    unsafe { ffi::sym_param(i as u64) as usize }
}
pub fn pf(i: usize) -> f64 {
    unsafe { ffi::sym_paramf(i as u64) }
}
/// the value x has under one fixed choice of all inputs so far
pub fn base(x: f64) -> f64 {
    unsafe { ffi::sym_base(x) }
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { ffi::sym_check(c, id) }
}
pub fn eq(a: u64, b: u64, id: u64) {
    unsafe { ffi::sym_check_eq(a, b, id) }
}
pub fn eqb(a: bool, b: bool, id: u64) {
    unsafe { ffi::sym_check_eq(a as u64, b as u64, id) }
}
pub fn near(a: f64, b: f64, tol: f64, id: u64) {
    unsafe { ffi::sym_near(a, b, tol, id) }
}
pub fn nearc(a: Complex<f64>, b: Complex<f64>, tol: f64, id: u64) {
    near(a.re, b.re, tol, id);
    near(a.im, b.im, tol, id);
}
pub fn obs(x: f64) {
    unsafe { ffi::sym_observe_f64(x) }
}
pub fn obsu(x: u64) {
    unsafe { ffi::sym_observe_u64(x) }
}
pub fn may_panic(c: bool) {
    unsafe { ffi::sym_may_panic(c) }
}
pub fn reached(id: u64) {
    unsafe { ffi::sym_reached(id) }
}
/// observe up to `n` entries, evenly spread
pub fn obs_some(v: &[f64], n: usize) {
    let step = (v.len() / n.max(1)).max(1);
    let mut i = 0;
    while i < v.len() {
        obs(v[i]);
        i += step;
    }
}
pub fn obs_bits(v: &[bool], n: usize) {
    for b in v.iter().take(n) {
        obsu(*b as u64);
    }
}
pub fn nrz(b: bool) -> f64 {
    if b {
        1.0
    } else {
        -1.0
    }
}
/// the received bits are exactly the sent ones
pub fn same_bits(rx: &[bool], tx: &[bool], id: u64) {
    eq(rx.len() as u64, tx.len() as u64, id);
    for i in 0..rx.len().min(tx.len()) {
        eqb(rx[i], tx[i], id + 1);
    }
}
pub fn noisy(v: Vec<f64>, bound: f64) -> Vec<f64> {
    if bound == 0.0 {
        v
    } else {
        v.into_iter().map(|x| x + real(-bound, bound)).collect()
    }
}
pub fn phase(f: f64, n: usize, rate: usize) -> f64 {
    2.0 * PI * f * (n as f64) / (rate as f64)
}
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub const H: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
