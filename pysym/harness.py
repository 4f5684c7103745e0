"""Harnesses of the Python reference modem. Each runs twice: on symbolic values (sym.py) and, for replays and
validation, on plain values under an ordinary Python interpreter. K supplies inputs and records assertions."""
import math


def same(K, m, r, what, prefix=False):
    K.check((len(r) >= len(m)) if prefix else (len(r) == len(m)), what + " length")
    for i, b in enumerate(m):
        if i < len(r):
            K.check(K.eqb(r[i], b), what)
            K.obs(r[i])


def baseband_bpsk(K, n):
    psk = K.load("psk")
    m = K.bits(n)
    same(K, m, psk.rx_baseband_bpsk(psk.tx_baseband_bpsk(m)), "baseband BPSK bits")


def baseband_qpsk(K, n):
    psk = K.load("psk")
    m = K.bits(n)
    s = psk.tx_baseband_qpsk(m)
    K.check(len(s) == (n + 1) // 2, "two bits per QPSK symbol")
    same(K, m, psk.rx_baseband_qpsk(s), "baseband QPSK bits", prefix=n % 2 == 1)


def bpsk(K, n, fs, sr, fc):
    psk = K.load("psk")
    m = K.bits(n)
    s = psk.tx_bpsk(m, fs, sr, fc)
    K.check(len(s) == n * (fs // sr), "BPSK waveform length")
    same(K, m, psk.rx_bpsk(s, fs, sr, fc), "BPSK bits")


def qpsk(K, n, fs, sr, fc):
    psk = K.load("psk")
    m = K.bits(n)
    s = psk.tx_qpsk(m, fs, sr, fc)
    K.check(len(s) == (n + 1) // 2 * (fs // sr), "QPSK waveform length")
    same(K, m, psk.rx_qpsk(s, fs, sr, fc), "QPSK bits", prefix=n % 2 == 1)


def noisy_bpsk(K, n, fs, sr, fc, level):
    """every noise sample bounded by level"""
    psk = K.load("psk")
    m = K.bits(n)
    s = psk.tx_bpsk(m, fs, sr, fc)
    same(K, m, psk.rx_bpsk([a + K.real(-level, level) for a in s], fs, sr, fc), "BPSK bits under noise")


def noisy_qpsk(K, n, fs, sr, fc, level):
    psk = K.load("psk")
    m = K.bits(n)
    s = psk.tx_qpsk(m, fs, sr, fc)
    same(K, m, psk.rx_qpsk([a + K.real(-level, level) for a in s], fs, sr, fc), "QPSK bits under noise", prefix=n % 2 == 1)


def cdma(K, n, fs, sr, fc):
    mod = K.load("cdma")
    m = K.bits(n)
    s = mod.tx_bpsk_cdma(m, fs, sr, fc)
    K.check(len(s) == n * (fs // sr), "spread waveform length")
    same(K, m, mod.rx_bpsk_cdma(s, fs, sr, fc), "despread bits")


def cdma_spread(K, n, fs, sr, fc):
    """chip by chip the spread waveform is the BPSK waveform, kept or inverted by the key"""
    mod, psk = K.load("cdma"), K.load("psk")
    m = K.bits(n)
    s = mod.tx_bpsk_cdma(m, fs, sr, fc)
    b = psk.tx_bpsk(m, fs, sr, fc)
    chip = fs // sr // len(mod.KEY)
    K.check(len(s) == len(b), "spread waveform length")
    for i in range(min(len(s), len(b))):
        k = int(mod.KEY[i // chip % len(mod.KEY)])
        K.near(s[i], b[i] * k, 1e-9, "spread sample")
        K.obs(s[i])


def noisy_cdma(K, n, fs, sr, fc, level):
    mod = K.load("cdma")
    m = K.bits(n)
    s = mod.tx_bpsk_cdma(m, fs, sr, fc)
    same(K, m, mod.rx_bpsk_cdma([a + K.real(-level, level) for a in s], fs, sr, fc), "despread bits under noise")


def hamming(n):
    return [0.54 - 0.46 * math.cos(2 * math.pi * i / (n - 1)) if n > 1 else 1.0 for i in range(n)]


def ssca(K, N, Np, extra):
    """the strip spectral correlation estimate, term by term from its definition"""
    mod = K.load("ssca")
    s = [K.real(-1, 1) for _ in range(N + Np + extra)]
    out = mod.ssca(s, N, Np, map_output=False)
    a, g = hamming(Np), hamming(N)
    K.check(tuple(out.shape) == (N, Np), "shape of the estimate")
    ks = sorted({0, 1, Np // 2, Np - 1})
    qs = sorted({0, 1, N // 2, N - 1})
    for k in ks:
        for q in qs:
            kk, qq = k - Np // 2, q - N // 2
            re, im = 0.0, 0.0
            for m in range(N):
                for i in range(Np):
                    w = -2 * math.pi * (kk * (i + m) / Np + qq * m / N)
                    c = s[m + i] * s[m + Np // 2] * (a[i] * g[m])
                    re, im = re + c * math.cos(w), im + c * math.sin(w)
            K.near(out[q][k].real, re, 1e-6, "estimate")
            K.near(out[q][k].imag, im, 1e-6, "estimate")
            K.obs(out[q][k].real)
            K.obs(out[q][k].imag)


def ssca_map(K, N, Np):
    """every estimate appears at its place in the frequency plane, and nothing else does"""
    mod = K.load("ssca")
    s = [K.real(-1, 1) for _ in range(N + Np)]
    raw = mod.ssca(s, N, Np, map_output=False)
    out = mod.ssca(s, N, Np)
    K.check(tuple(out.shape) == (Np + 1, 2 * N + 1), "shape of the plane")
    want = {}
    for q in range(N):
        for k in range(Np):
            want[((k * N - q * Np + Np * N) // (2 * N), k * N // Np + q)] = raw[q][k]
    for i in range(Np + 1):
        for j in range(2 * N + 1):
            w = want.get((i, j))
            v = out[i][j]
            K.near(v.real, 0.0 if w is None else w.real, 1e-9, "place in the plane")
            K.near(v.imag, 0.0 if w is None else w.imag, 1e-9, "place in the plane")


def fftshift(K, n):
    util = K.load("util")
    x = [K.real(-1, 1) for _ in range(n)]
    y = util.fftshift(x)
    K.check(len(y) == n, "length")
    for i in range(min(n, len(y))):
        K.near(y[(i + n // 2) % n], x[i], 0.0, "bin %s" % ("zero" if i == 0 else "other"))


def chunks(K, n, k):
    util = K.load("util")
    m = K.bits(n)
    c = [list(x) for x in util.chunk(m, k, fillvalue=False)]
    K.check(len(c) == -(-n // k), "number of groups")
    f = [b for x in c for b in x]
    K.check(all(len(x) == k for x in c), "size of a group")
    for i, b in enumerate(f):
        K.check(K.eqb(b, m[i] if i < n else False), "grouped bit")


def powers(K, lo, hi):
    """next and floor power of two for every integer of a range"""
    util = K.load("util")
    x = K.int(lo, hi)
    a, b = util.next_power_of_2(x), util.floor_power_of_2(x)
    K.check((a >= x) & (a < x * 2), "next power of two")
    K.check((b <= x) & (x < b * 2), "floor power of two")
    K.check(all(v & (v - 1) == 0 for v in (a, b)), "powers of two")
    K.obs(a)
    K.obs(b)
