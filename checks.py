"""What each check runs: (harness, integer parameters, real parameters[, options])."""
CHECKS = {}


def check(pid, **k):
    CHECKS[pid] = k


# ---------------------------------------------------------------- C01
def _bpsk():
    q = []
    for n, fs, sr, fc in [(200, 44100, 900, 1800.0), (120, 48000, 1000, 2000.0), (64, 48000, 1000, 24000.0), (64, 4000, 1000, 0.0),
                          (40, 10000, 2500, 1250.0), (40, 9600, 3200, 1600.0), (33, 1200, 1200, 600.0), (25, 80000, 1000, 20000.0),
                          (30, 44100, 6300, 18900.0), (50, 44100, 8820, 2205.0), (20, 100000, 1000, 12345.6)]:
        q.append(("h_c01_link", [n, fs, sr, 0], [fc, 0]))
        q.append(("h_c01_link", [9, fs, sr, min(fs // sr - 1, 3)], [fc, 0]))
    for n, fs, sr, fc in [(24, 48000, 4000, 2000.0), (16, 48000, 1000, 2000.0), (16, 8000, 1000, 4000.0), (16, 8000, 1000, 0.0),
                          (10, 44100, 900, 1800.0), (30, 9000, 3000, 1500.0), (12, 9000, 1000, 3500.0), (40, 1000, 1000, 500.0)]:
        q.append(("h_c01_link", [n, fs, sr, 0], [fc, 0.25]))
    # longer than a second, carriers that do not repeat with the second
    q += [("h_c01_link", [80, 40, 10, 0], [4.4, 0]), ("h_c01_link", [60, 7, 1, 0], [3.3, 0]), ("h_c01_link", [30, 12, 3, 0], [4.5, 0.25]), ("h_c01_link", [61, 15, 5, 0], [0.7, 0])]
    for s in range(1, 13):
        q.append(("h_c01_carrier", [s], []))
    return q


check("C01", quick=_bpsk(),
      thorough=[("h_c01_link", [1000, 44100, 900, 0], [1800.0, 0]), ("h_c01_link", [60, 44100, 900, 0], [1800.0, 0.25])] +
               [("h_c01_carrier", [s], []) for s in range(13, 60)],
      bounds="messages of up to 200 symbolic bits over 11 concrete rate/carrier sets (1 to 100 samples per symbol), noise on every sample "
             "symbolic within a quarter of the amplitude for up to 40 bits; any real carrier up to half the sample rate for one symbol of 1 to 12 samples",
      outside="longer messages, other rates, carriers that leave a symbol without energy")

# ---------------------------------------------------------------- C02
def _qpsk():
    q = []
    for n, fs, sr, fc in [(200, 44100, 900, 1800.0), (121, 48000, 1000, 2000.0), (64, 48000, 1000, 23000.0), (40, 10000, 2500, 2500.0),
                          (40, 9600, 3200, 3200.0), (34, 8000, 1000, 500.0), (30, 44100, 6300, 18900.0), (50, 44100, 8820, 4410.0),
                          (22, 9000, 1000, 3500.0), (26, 80000, 1000, 20000.0)]:
        q.append(("h_c02_link", [n, fs, sr, 0], [fc, 0]))
        q.append(("h_c02_link", [8, fs, sr, min(fs // sr - 1, 2)], [fc, 0]))
    for n, fs, sr, fc in [(24, 8000, 1000, 2000.0), (24, 48000, 4000, 2000.0), (16, 48000, 1000, 2000.0), (16, 8000, 1000, 3500.0),
                          (10, 44100, 900, 1800.0), (30, 9000, 3000, 3000.0), (12, 9000, 1000, 3500.0)]:
        q.append(("h_c02_link", [n, fs, sr, 0], [fc, 0.25]))
    q += [("h_c02_link", [60, 12, 3, 0], [4.5, 0]), ("h_c02_link", [41, 10, 5, 0], [2.5, 0]), ("h_c02_link", [24, 12, 3, 0], [1.5, 0.25])]
    return q


check("C02", quick=_qpsk(),
      thorough=[("h_c02_link", [1000, 44100, 900, 0], [1800.0, 0]), ("h_c02_link", [60, 44100, 900, 0], [1800.0, 0.25])],
      bounds="messages of up to 200 symbolic bits over 10 concrete rate/carrier sets (3 to 80 samples per symbol), noise on every sample symbolic "
             "within a quarter of the amplitude for up to 30 bits",
      outside="longer messages, other rates and carriers")

# ---------------------------------------------------------------- C03
check("C03",
      quick=[("h_c03_map", [n], []) for n in (1, 2, 7, 64, 301)] + [("h_c03_slice", [n], [a]) for n, a in ((1, 1e-3), (3, 10.0), (40, 1e6), (8, 1e150))] +
            [("h_c03_link", [n], []) for n in (1, 2, 30, 101)],
      thorough=[("h_c03_map", [2000], []), ("h_c03_slice", [300], [1e3]), ("h_c03_link", [600], [])],
      bounds="messages of up to 301 symbolic bits; up to 40 received symbols with arbitrary real and imaginary parts up to 1e150",
      outside="received parts that are exactly zero (no decision is promised), infinite or not a number")

# ---------------------------------------------------------------- C04
check("C04",
      quick=[("h_c04_link", [n, l], []) for n, l in ((1, 1), (9, 2), (30, 3), (20, 8), (12, 16), (7, 31), (4, 64), (64, 1))] +
            [("h_c04_errors", [n, l], []) for n, l in ((3, 1), (3, 2), (3, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (1, 9), (1, 10), (1, 11), (2, 12))],
      thorough=[("h_c04_errors", [1, l], []) for l in (13, 14, 15, 16)] + [("h_c04_link", [100, 32], []), ("h_c04_link", [20, 128], [])],
      bounds="messages of up to 64 symbolic bits, keys of up to 64 symbolic bits; every chip-error pattern on keys of up to 12 chips",
      outside="longer messages and keys; error patterns on keys longer than 12 chips (16 in the thorough tier)")

# ---------------------------------------------------------------- C05
def _cdma():
    q = []
    for n, fs, sr, l, fc in [(20, 48000, 1000, 16, 16000.0), (12, 8000, 1000, 4, 1000.0), (12, 8000, 1000, 1, 1000.0), (12, 8000, 1000, 2, 1500.0),
                             (8, 44100, 900, 7, 1800.0), (6, 80000, 1000, 20, 20000.0), (10, 12000, 1000, 3, 2500.0), (6, 48000, 500, 32, 4000.0),
                             (3, 64000, 500, 64, 7000.0), (2, 128000, 1000, 64, 10000.0)]:
        q.append(("h_c05_bpsk", [n, fs, sr, l], [fc]))
        q.append(("h_c05_qpsk", [n, fs, sr, l], [fc]))
    q.append(("h_c05_bpsk", [10, 8000, 1000, 4], [0.0]))
    q.append(("h_c05_bpsk", [10, 8000, 1000, 4], [4000.0]))
    q.append(("h_c05_bpsk", [10, 9000, 1000, 3], [777.7]))
    q += [("h_c05_bpsk", [12, 24, 3, 4], [4.7]), ("h_c05_bpsk", [12, 30, 1, 5], [7.3]), ("h_c05_qpsk", [16, 12, 1, 3], [4.5]), ("h_c05_qpsk", [16, 24, 2, 3], [9.0]),
          ("h_c05_qpsk", [13, 20, 1, 5], [2.5])]
    return q


check("C05", quick=_cdma(),
      thorough=[("h_c05_bpsk", [100, 48000, 1000, 16], [16000.0]), ("h_c05_qpsk", [100, 48000, 1000, 16], [16000.0])],
      bounds="messages of up to 20 symbolic bits, keys of 1 to 64 symbolic bits, 11 concrete rate/carrier sets (8 to 128 samples per symbol)",
      outside="longer messages and keys, other rates and carriers")

# ---------------------------------------------------------------- C06
check("C06",
      quick=[("h_c06_users", p, [f]) for p, f in (([2, 1, 8, 8000, 1000], 2000.0), ([4, 3, 6, 8000, 1000], 2000.0), ([8, 7, 4, 8000, 500], 1000.0),
                                                  ([16, 15, 3, 16000, 500], 1000.0), ([16, 5, 6, 48000, 1000], 16000.0),
                                                  ([16, 15, 2, 80000, 1000], 16000.0), ([32, 31, 2, 32000, 500], 8000.0), ([32, 3, 4, 64000, 1000], 16000.0))],
      thorough=[("h_c06_users", [64, 63, 2, 64000, 500], [16000.0]), ("h_c06_users", [16, 15, 10, 16000, 500], [1000.0])],
      bounds="up to 31 users of 2 symbolic bits, codes of 2 to 32 chips, whole half carrier cycles per chip",
      outside="longer codes and messages; carriers giving the chips of a code different energies")

# ---------------------------------------------------------------- C07
check("C07",
      quick=[(h, [n, r], []) for n in (2, 4, 8, 16, 32) for r in range(n - 1) for h in ("h_c07_keys", "h_c07_total")] +
            [(h, [n, r], []) for n in (64, 128) for r in (0, 1, n // 2, n - 3, n - 2) for h in ("h_c07_keys", "h_c07_total")],
      thorough=[(h, [64, r], []) for r in range(63) for h in ("h_c07_keys", "h_c07_total")],
      bounds="sizes 2 to 32, every user index below 2^62 against every key; sizes 64 and 128 for the user indices of five residues",
      outside="larger sizes")

# ---------------------------------------------------------------- C08
check("C08",
      quick=[("h_c08_link", [n, 2, 1, 1], [0.0]) for n in list(range(1, 18)) + [31, 32, 33, 48, 55, 56, 57, 63, 64, 65, 71, 104, 111, 112, 113, 120, 168, 200, 300]] +
            [("h_c08_link", [24, 16000, 1000, 8], [2000.0]), ("h_c08_link", [60, 4000, 1000, 2], [1000.0]), ("h_c08_link", [9, 32000, 1000, 16], [4000.0])],
      thorough=[("h_c08_link", [n, 2, 1, 1], [0.0]) for n in range(18, 130)] + [("h_c08_link", [1000, 2, 1, 1], [0.0])],
      bounds="messages of 1 to 300 symbolic bits (1 to 6 frames); keys of 1 to 16 symbolic bits",
      outside="longer messages, other rates and carriers (their effect on the chips is decided by C05)")

# ---------------------------------------------------------------- C09
def _rs(w_full):
    q = []
    pairs = [(a, b) for a in range(12) for b in range(a, 12)]
    for a, b in pairs:
        if a == b:
            q.append(("h_c09_two", [56, 0, a, b, 0, 0], [], {"kmax": 16, "cost": 1}))
        else:
            # any damage to the first byte with a nibble of the second
            q.append(("h_c09_two", [56, 0, a, b, 4, (17 * a + 31 * b) & 0xf0], [], {"kmax": 16, "cost": 3}))
            if w_full:
                q.append(("h_c09_two", [56, 0, a, b, 8, 0], [], {"kmax": 16, "cost": 40, "secs": 1500}))
    return q


def _rs_few():
    q = []
    for a in range(12):
        for b in range(a + 1, 12):
            q.append(("h_c09_few", [56, 0, a, b, 4, 0x1050 * (1 + (a + b) % 15) & 0xf0f0, 12 * a + b], [], {"kmax": 16, "first": 1}))
    for n in (1, 8, 17, 40, 60, 130):
        fr = (n - 1) // 56
        l = -(-(n - 56 * fr) // 8) + 5
        for a in range(l - 1):
            q.append(("h_c09_few", [n, fr, a, l - 1 - a % 3 if a < l - 3 else l - 1, 4, 0x3090, n + a], [], {"kmax": 16, "first": 1}))
    return q


def _rs_quick():
    q = _rs_few() + _rs(False)
    for n in (8, 24, 50):
        b = -(-n // 8)
        ends = list(range(b)) + list(range(b, b + 5))
        for i in range(len(ends)):
            q.append(("h_c09_two", [n, 0, ends[i], ends[(i + 3) % len(ends)], 4, 0xa0], [], {"kmax": 16, "cost": 3}))
    q += [("h_c09_two", [8, 0, 0, 3, 8, 0], [], {"kmax": 16, "cost": 30}), ("h_c09_two", [56, 0, 1, 9, 8, 0], [], {"kmax": 16, "cost": 60}),
          ("h_c09_two", [120, 1, 2, 7, 4, 0x50], [], {"kmax": 16, "cost": 4}), ("h_c09_two", [64, 1, 0, 2, 4, 0x90], [], {"kmax": 16, "cost": 4})]
    return q


K16 = {"kmax": 16}


def _rs_contain():
    q = []
    for n, f, a, b, c, w2, w3, x in [(112, 0, 0, 1, 2, 2, 2, 0x94), (112, 1, 3, 7, 11, 2, 2, 0x68), (120, 1, 0, 11, 5, 4, 0, 0x94), (64, 1, 0, 1, 2, 2, 2, 0x88),
                                     (168, 2, 6, 7, 8, 2, 1, 0x30), (112, 0, 7, 9, 10, 3, 2, 0xc0), (16, 0, 1, 2, 5, 3, 2, 0x10)]:
        q.append(("h_c09_contain", [n, f, a, b, c, 8, w2, w3, x], [], dict(K16, cost=5)))
    q.append(("h_c09_contain", [112, 0, 0, 5, 10, 8, 4, 4, 0x90], [], dict(K16, cost=40)))
    for n, f, x in [(112, 0, 1), (112, 1, 2), (168, 1, 3), (64, 0, 4), (64, 1, 5), (120, 2, 6), (240, 3, 7)]:
        q.append(("h_c09_wreck", [n, f, x], []))
    for k in list(range(1, 96, 5)) + [8, 16, 40, 47, 48, 56, 64, 72, 80, 88, 95]:
        q.append(("h_c09_cut", [56, k, 8], [], K16))
    for n, keeps in [(112, (97, 104, 136, 144, 150, 168, 184, 191)), (60, (104, 130, 136)), (64, (104, 120, 130))]:
        for k in keeps:
            q.append(("h_c09_cut", [n, k, 8], [], K16))
    return q


def _rs_deep():
    q = [c for c in _rs(True) if c[1][4] == 8]
    for a in range(10):
        q.append(("h_c09_contain", [112, a % 2, a, a + 1, a + 2, 8, 4, 4, 0x90], [], dict(K16, cost=40)))
    q += [("h_c09_cut", [112, k, 16], [], dict(K16, cost=20)) for k in (112, 136, 160, 184)]
    q += [("h_c09_wreck", [112, s % 2, s], []) for s in range(10, 60)]
    return q


check("C09", quick=_rs_quick() + _rs_contain(), thorough=_rs_deep(),
      bounds="full frames: every pair of the 12 byte positions, with any damage to the first byte and any damage to the low nibble of the second over a fixed "
             "high nibble (thorough: any damage to both), for every 56-bit message; short frames of 1, 3 and 7 message bytes likewise; containment: any damage to one byte and "
             "2 to 4 symbolic bits in two others, frames overwritten whole by fixed patterns; streams cut at 40 places with 8 symbolic bits in the cut frame",
      outside="every simultaneous 16-bit damage in the quick tier (two pairs only), damage beyond three bytes other than fixed overwrites")

# ---------------------------------------------------------------- C10, C11


def _valid_ofdm():
    """every accepted pair with a data carrier left"""
    out = []
    for s in (4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 21, 32, 33, 48, 52, 60, 64):
        for p in (1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 16, 20):
            if p <= s // 2:
                out.append((s, p))
    return out


def _ofdm(fn):
    q = []
    for s, p in _valid_ofdm():
        for k in ((1,) if s > 24 else (1, s - p, s + 3)):
            q.append((fn, [k, s, p], []))
        if s > 24:
            q.append((fn, [s + 5, s, p], []))
    q.append((fn, [0, 8, 2], []))
    return q


check("C10", quick=_ofdm("h_c10_link"), thorough=[("h_c10_link", [40, s, p], []) for s in range(4, 65) for p in range(1, s // 2 + 1)],
      bounds="streams of 1 to 69 complex symbols with arbitrary real and imaginary parts; 153 subcarrier/pilot pairs with 4 to 64 subcarriers",
      outside="more than 64 subcarriers; longer streams", assumptions=["floating point additions and multiplications are exact real operations up to the stated tolerance 1e-9"])
check("C11", quick=_ofdm("h_c11_symbol"), thorough=[("h_c11_symbol", [40, s, p], []) for s in range(4, 65) for p in range(1, s // 2 + 1)],
      bounds="as C10", outside="as C10", assumptions=["floating point additions and multiplications are exact real operations up to the stated tolerance"])

# ---------------------------------------------------------------- C12
# (OFDM symbols, subcarriers, pilots, sample rate, symbol rate, carrier)
_OFP = [(1, 8, 3, 48000, 12000, 12000.0), (2, 8, 3, 9000, 3000, 3000.0), (1, 16, 4, 44100, 900, 1800.0), (2, 7, 2, 12000, 3000, 3000.0),
        (1, 64, 12, 12000, 3000, 3000.0), (1, 64, 12, 44100, 900, 1800.0), (3, 4, 1, 8000, 1000, 2000.0), (2, 5, 2, 8000, 1000, 3000.0),
        (2, 12, 4, 9000, 1000, 2000.0), (1, 20, 5, 44100, 2100, 2100.0), (1, 33, 9, 20000, 4000, 4000.0), (2, 10, 1, 20000, 2500, 7500.0),
        (1, 52, 12, 30000, 3000, 9000.0), (4, 6, 3, 10000, 2000, 4000.0), (1, 9, 2, 9600, 3200, 3200.0)]
check("C12", quick=[("h_c12_link", list(x[:5]), [x[5]], dict(K16, cost=x[0] * x[1])) for x in _OFP],
      thorough=[("h_c12_link", [6, 8, 3, 48000, 12000], [12000.0], K16), ("h_c12_link", [3, 64, 12, 12000, 3000], [3000.0], dict(K16, secs=1500)),
                ("h_c12_link", [2, 64, 12, 44100, 900], [1800.0], dict(K16, secs=1500))],
      bounds="15 parameter sets: up to 64 subcarriers and 4 OFDM symbols, every message of the 10 to 104 bits these carry",
      outside="longer messages; carriers without whole cycles per baseband sample")

# ---------------------------------------------------------------- C13, C14
# (bits, hop frequencies, sample rate, symbol rate), low, high
_FH = [(8, 4, 8000, 1000, 1000, 3000), (20, 8, 44100, 900, 1000, 20000), (6, 1, 8000, 1000, 2000, 2000), (6, 1, 8000, 1000, 1000, 3000), (9, 2, 8000, 1000, 1000, 2000),
       (7, 3, 12000, 1000, 500, 5500), (33, 16, 48000, 1000, 1000, 16000), (11, 5, 9600, 1200, 600, 4200), (70, 64, 44100, 900, 1000, 20000), (30, 7, 10000, 1000, 300, 4700),
       (60, 4, 80, 10, 10.0, 31.0), (50, 3, 12, 3, 1.3, 5.6)]
_E = lambda t: (list(t[:4]), [float(t[4]), float(t[5])])
check("C13", quick=[("h_c13_link", list(x[:4]) + [0], [float(x[4]), float(x[5]), 0.0]) for x in _FH] +
      [("h_c13_link", list(x[:4]) + [3], [float(x[4]), float(x[5]), 0.0]) for x in _FH[:5]] +
      [("h_c13_link", [6, 1, 8000, 1000, 2], [1000.0, 3000.0, 0.25]), ("h_c13_link", [6, 3, 8000, 1000, 2], [1000.0, 3000.0, 0.25])],
      thorough=[("h_c13_link", [300, 16, 48000, 1000, 0], [1000.0, 16000.0, 0.0]), ("h_c13_link", [200, 64, 44100, 900, 0], [1000.0, 20000.0, 0.0]),
                ("h_c13_link", [30, 8, 8000, 1000, 0], [1000.0, 3000.0, 0.25])],
      bounds="messages of up to 70 symbolic bits over 10 parameter sets with 1 to 64 hop frequencies; noise on every sample symbolic within a quarter of the amplitude for 6 bits",
      outside="longer messages, other bands and rates")
check("C14", quick=[("h_c14_hops",) + _E(x) for x in _FH if x[1] > 1] + [("h_c14_chirps",) + _E(x) for x in _FH if x[1] > 1],
      thorough=[("h_c14_hops", [300, 16, 48000, 1000], [1000.0, 16000.0]), ("h_c14_chirps", [300, 16, 48000, 1000], [1000.0, 16000.0])],
      bounds="messages of up to 70 symbolic bits over 8 parameter sets with 2 to 64 hop frequencies", outside="longer messages, other bands and rates")

# ---------------------------------------------------------------- C15, C16
check("C15", quick=[("h_c15_link", [n], []) for n in (1, 2, 50, 51, 200)] +
      [("h_c15_decide", [n], [a, b]) for n, a, b in ((5, 0.01, 1.0), (20, 1e-3, 1e3), (21, 1e-2, 1e3), (40, 0.5, 1e4))],
      thorough=[("h_c15_link", [1000], []), ("h_c15_decide", [200], [1e-3, 1e3])],
      bounds="messages of up to 200 symbolic bits; up to 40 received samples of magnitude between 1e-3 and 1e3, any sign",
      outside="samples whose product underflows to zero or overflows")
check("C16", quick=[("h_c16_link", [n], []) for n in (1, 2, 50, 200)], thorough=[("h_c16_link", [1500], [])],
      bounds="messages of up to 200 symbolic bits", outside="longer messages (the orbits' distance was examined over the first 200 steps only)")

# ---------------------------------------------------------------- C17
check("C17", quick=[("h_c17_start", [], [2.0]), ("h_c17_start", [], [1e6]), ("h_c17_logistic", [1], []), ("h_c17_logistic", [2], []), ("h_c17_chebyshev", [1], []),
                    ("h_c17_chebyshev", [2], []), ("h_c17_maps", [], [])] +
      [("h_c17_orbit", [3000], [mu, x]) for mu, x in ((4.0, 0.3), (3.9, 0.1), (4.0, 0.9999), (0.5, 0.7), (3.57, 0.5))],
      thorough=[("h_c17_logistic", [3], []), ("h_c17_orbit", [100000], [4.0, 0.1])],
      bounds="one and two steps of both maps from every starting value, every parameter 0 to 4; orbits of 3000 concrete steps",
      outside="three or more symbolic steps (the one-step result is an inductive step up to rounding)")

# ---------------------------------------------------------------- C18
check("C18", quick=[("h_c18_link", [n], []) for n in (1, 6, 7, 8, 13, 14, 15, 30, 70, 100)], thorough=[("h_c18_link", [n], []) for n in range(1, 60)] + [("h_c18_link", [500], [])],
      bounds="messages of up to 100 symbolic bits", outside="longer messages")

# ---------------------------------------------------------------- C19
check("C19", quick=[("h_c19_fsk", [20, 44100, 900, k], [1000.0, d]) for k in (0, 1, 2) for d in (3000.5, 50.0)] +
      [("h_c19_fsk", [31, 8000, 1000, k], [1500.0, 250.0]) for k in (0, 1, 2)] +
      [("h_c19_fmfsk", [20, 44100, 900], [1800.0]), ("h_c19_fmfsk", [31, 8000, 1000], [3000.0]), ("h_c19_fm", [4, 8000, 2000], [1800.0, 3.0]), ("h_c19_fm", [4, 8000, 2000], [0.0, 100.0]),
       ("h_c19_fm", [9, 48000, 1000], [16000.0, 1.0]), ("h_c19_fmbits", [8, 8000, 2000], [1800.0]), ("h_c19_fmbits", [10, 44100, 900], [2000.0], {"kmax": 12})] +
      [("h_c19_fsk", [40, 40, 10, k], [3.3, 4.7]) for k in (0, 1, 2)] + [("h_c19_fmfsk", [40, 40, 10], [12.3]), ("h_c19_fm", [12, 12, 3], [4.4, 1.0]), ("h_c19_fmbits", [8, 12, 3], [4.4])],
      thorough=[("h_c19_fsk", [300, 44100, 900, k], [1000.0, 3000.5]) for k in (0, 1, 2)] + [("h_c19_fmfsk", [300, 44100, 900], [1800.0])],
      bounds="messages of up to 31 symbolic bits; up to 9 arbitrary real modulating values; 8 parameter sets", outside="longer messages, other rates")

# ---------------------------------------------------------------- C20
check("C20", quick=[("h_c20_chirp", [fs], [r, a, b]) for fs, r, a, b in ((8000, 100.0, 500.0, 1500.0), (8000, 1000.0, 1500.0, 500.0), (44100, 900.0, 100.0, 20000.0), (9600, 1200.0, 0.0, 4800.0), (8000, 500.0, 700.0, 700.0))] +
      [("h_c20_centered", [fs], [r, a, b]) for fs, r, a, b in ((8000, 1000.0, 2000.0, 1000.0), (44100, 900.0, 5000.0, 4000.0), (9600, 1200.0, 2400.0, 4800.0))] +
      [("h_c20_any", [8000], [1000.0, 4000.0]), ("h_c20_any", [8000], [2000.0, 4000.0])] +
      [("h_c20_css", [n, nf, fs, sr], [a, b]) for n, nf, fs, sr, a, b in ((12, 5, 8000, 1000, 1000.0, 3000.0), (6, 1, 8000, 1000, 1000.0, 3000.0), (40, 16, 44100, 900, 1000.0, 20000.0), (9, 2, 9600, 1200, 600.0, 4200.0), (40, 3, 40, 10, 2.5, 16.7))],
      thorough=[("h_c20_css", [300, 16, 44100, 900], [1000.0, 20000.0]), ("h_c20_any", [8000], [500.0, 4000.0])],
      bounds="8 concrete chirps, every real start and end frequency up to half the rate for chirps of 4 and 8 samples; FH-CSS messages of up to 40 symbolic bits over 4 parameter sets",
      outside="chirp periods that are not a whole number of samples; longer messages")

# ---------------------------------------------------------------- C21, C22, C23
check("C21", quick=[(h, [n, k], []) for h in ("h_c21_chunks", "h_c21_wchunks", "h_c21_inflate", "h_c21_take", "h_c21_round") for n, k in ((12, 7), (5, 1), (20, 3))] +
      [("h_c21_scale", [5], [100.0]), ("h_c21_scale", [40], [100.0])],
      thorough=[(h, [60, 20], []) for h in ("h_c21_chunks", "h_c21_wchunks", "h_c21_inflate", "h_c21_take", "h_c21_round")],
      bounds="every stream length up to 20 and size or factor up to 7, elements symbolic", outside="longer streams")
check("C22", quick=[("h_c22_integrate", [n], []) for n in (0, 1, 12, 40)] + [("h_c22_dump", [n, k], []) for n, k in ((12, 7), (20, 3), (4, 9))] +
      [("h_c22_branches", [n, k], []) for n, k in ((8, 4), (5, 6))] + [("h_c22_rbranches", [n, k], []) for n, k in ((10, 3), (4, 6))],
      thorough=[("h_c22_integrate", [300], []), ("h_c22_dump", [60, 20], []), ("h_c22_branches", [20, 6], []), ("h_c22_rbranches", [20, 6], [])],
      bounds="streams of up to 40 symbolic elements, blocks of up to 9", outside="longer streams")
check("C23", quick=[(h, [n, k], []) for h in ("h_c23_ints", "h_c23_reals", "h_c23_branches") for n, k in ((7, 6), (4, 9), (12, 2))] + [("h_c23_long", [40, 7], []), ("h_c23_long", [7, 40], [])],
      thorough=[("h_c23_long", [300, 30], []), ("h_c23_ints", [14, 10], []), ("h_c23_reals", [14, 10], [])],
      bounds="every signal length up to 12 and filter length up to 9, all elements symbolic; 40 by 7", outside="longer signals and filters")

# ---------------------------------------------------------------- C24, C25, C26
def _bpf():
    q = []
    for n in (2, 3, 4, 5, 8, 9, 15, 16):
        fs = 1000 * n
        for lo, hi in ((0, 1e9), (1000, 1000 * (n // 4 + 1)), (500, 1500), (1000, 1000), (2000, 1000), (0, 0), (-5, 999), (1000 * (n // 2), 1e9), (1500, 1900)):
            q.append(("h_c24_band", [n, 2, fs], [float(lo), float(hi)]))
    for n, b, fs, lo, hi in ((64, 2, 44100, 1000.0, 9000.0), (64, 1, 64000, 3000.0, 12000.0), (30, 3, 48000, 3200.0, 12800.0), (50, 0, 44100, 1.0, 2.0), (128, 1, 8000, 1000.0, 3000.0), (63, 1, 44100, 700.0, 22000.0)):
        q.append(("h_c24_band", [n, b, fs], [lo, hi]))
    for n in range(1, 17):
        q.append(("h_c24_edges", [n, 1000 * n], [], {"kmax": 20}))
        if n > 1:
            q.append(("h_c24_edges", [n, 1000 + 7 * n + (n % 2) * 3], [], {"kmax": 20}))
    q += [("h_c24_edges", [12, 44100], [], {"kmax": 20}), ("h_c24_edges", [16, 1000], [], {"kmax": 20})]
    # edges just beside, and on, bins that do not lie on whole frequencies
    for n, fs, k, m in ((64, 1000, 20, 23), (48, 44100, 5, 11), (7, 8000, 1, 2), (36, 22050, 0, 17), (100, 44100, 33, 50), (30, 1001, 3, 4)):
        lo, hi = k * fs / n, m * fs / n
        for a, b in ((0.0, 0.0), (0.3, -0.3), (-0.3, 0.3), (1.2, 1.2), (-1.2, -1.2)):
            q.append(("h_c24_band", [n, 2 if n < 40 else 1, fs], [lo + a, hi + b]))
    return q


check("C24", quick=_bpf(), thorough=[("h_c24_band", [512, 1, 44100], [1000.0, 9000.0]), ("h_c24_band", [1024, 1, 44100], [1000.0, 9000.0])] +
      [("h_c24_band", [n, 2, 8000], [1000.0, 3000.0]) for n in range(17, 64)],
      bounds="every real signal of up to three blocks of 2 to 128 samples for 108 bands (edges on, between and outside the bins, empty bands); every pair of real band edges for blocks of 1 to 16 samples on a fixed full-spectrum signal",
      outside="streams whose last block is not complete (the filter refuses them); longer blocks")
check("C25", quick=[("h_c25_base", [n, k, x], []) for n, k, x in ((8, 4, 0), (6, 4, 0), (16, 8, 0), (16, 4, 3), (12, 2, 1), (9, 4, 0), (15, 8, 2), (10, 6, 0), (32, 8, 0))] +
      [("h_c25_mapped", [n, k], []) for n, k in ((8, 4), (4, 2), (16, 8), (16, 4), (12, 2), (12, 6), (18, 6), (32, 8), (32, 16))],
      thorough=[("h_c25_base", [64, 16, 0], []), ("h_c25_mapped", [64, 8], []), ("h_c25_mapped", [64, 32], [])],
      bounds="every real signal for 18 combinations of strip lengths up to 32 and channels up to 16",
      outside="odd channel counts; larger transforms; mapped strips whose length is not a multiple of the channels")
check("C26", quick=[("h_c26_ber", [n, m], []) for n, m in ((1, 1), (8, 8), (30, 25), (11, 12), (1, 9), (60, 60))] +
      [("h_c26_energy", [n], [a, fs]) for n, a, fs in ((1, 2.0, 1000.0), (5, 2.0, 1000.0), (60, 100.0, 44100.0), (200, 1.0, 1.0))] +
      [("h_c26_scaled", [n], [a, fs]) for n, a, fs in ((1, 2.0, 1000.0), (20, 2.0, 1000.0), (50, 10.0, 44100.0))] + [("h_c26_rate", [n], []) for n in (1, 3, 12)],
      thorough=[("h_c26_ber", [500, 500], []), ("h_c26_energy", [1000], [10.0, 44100.0])],
      bounds="messages of up to 60 symbolic bits, signals of up to 200 symbolic samples, symbolic scale factors and sample rates",
      outside="empty signals (the averages are undefined); longer signals")

# ---------------------------------------------------------------- C27
check("C27", quick=[(h, [n], [a]) for h in ("h_c27_noise", "h_c27_complex") for n, a in ((1, 1.0), (20, 100.0), (100, 10.0))] + [("h_c27_silent", [n], []) for n in (0, 1, 40)] +
      [("h_c27_invalid", [i, k], []) for i in (0, 1, 2) for k in (0, 1)],
      thorough=[(h, [1000], [10.0]) for h in ("h_c27_noise", "h_c27_complex")],
      bounds="streams of up to 100 samples with arbitrary values, every standard deviation between 0.5 and 2 (and zero), entropy fixed by the seed",
      outside="other entropy than the seeded one; the distribution of the noise",
      assumptions=["the operating system's entropy is replaced by a seeded generator, the same in the executor and in native replays"])

# ---------------------------------------------------------------- C28
_MODS = {0: ("baseband BPSK", 2), 1: ("baseband QPSK", 2), 2: ("BPSK", 8), 3: ("QPSK", 8), 4: ("spreading", 4), 5: ("CDMA BPSK", 8), 6: ("CDMA QPSK", 8), 7: ("coded CDMA", 192),
         8: ("FH-BPSK", 8), 9: ("FH-BPSK (old)", 8), 10: ("BFSK", 8), 11: ("MFSK", 8), 12: ("FSK", 8), 13: ("FM-FSK", 8), 14: ("FM", 8), 15: ("CSK", 1), 16: ("DCSK", 2),
         17: ("FH-CSS", 8), 18: ("baseband OFDM", 20), 19: ("OFDM-QPSK", 80), 20: ("baseband FH-OFDM-DCSK", 20), 21: ("FH-OFDM-DCSK", 80), 22: ("FH-OFDM-DCSK on one carrier", 80)}


def _causal(full):
    q = []
    for k, (_, o) in _MODS.items():
        for n, pre in ([(3, 2), (2, 1)] if k == 7 else [(4, 2), (5, 1), (3, 0), (4, 3)]) + ([(9, 5)] if full and k != 7 else []):
            q.append(("h_c28_prefix", [k, n, pre], []))
        for v in sorted({1, o, o + 1, 2 * o + 1}):
            q.append(("h_c28_lazy", [k, v], []))
    return q


check("C28", quick=_causal(False), thorough=_causal(True),
      bounds="23 modulators at one rate each; messages of 3 to 5 symbols, every pair of messages that agree on the first 0 to 3; the first 1 to 2 symbols and a sample taken lazily from an unbounded source",
      outside="longer messages, other rates and keys")

# ---------------------------------------------------------------- C29
_PB = [(40, 40, 10, 4.3), (100, 44100, 900, 1800.0), (60, 48000, 1000, 16000.0), (30, 7, 1, 3.3), (33, 8000, 1000, 4000.0), (20, 8000, 8000, 777.0), (41, 80000, 1000, 20000.0), (25, 9600, 3200, 0.0)]
check("C29", quick=[(h, [n + ("qpsk" in h), fs, sr, 0], [fc]) for n, fs, sr, fc in _PB for h in ("h_c29_bpsk", "h_c29_qpsk")] +
      [("h_c29_bpsk", [2, 40, 10, 1], [0.0]), ("h_c29_qpsk", [5, 40, 10, 1], [0.0]), ("h_c29_bpsk", [9, 6, 3, 1], [0.0]), ("h_c29_cdma", [3, 80, 10, 1, 2, 1], [0.0]), ("h_c29_cdma", [2, 80, 10, 1, 4, 0], [0.0])] +
      [("h_c29_cdma", [n, fs, sr, 0, l, m], [fc]) for n, fs, sr, l, fc in ((6, 80, 10, 4, 13.3), (7, 48000, 1000, 16, 16000.0), (5, 44100, 900, 7, 1800.0), (12, 12, 1, 3, 4.7), (9, 8000, 1000, 1, 2500.5)) for m in (0, 1)] +
      [("h_c29_spread", [n, l], []) for n, l in ((5, 7), (1, 1), (30, 3), (9, 16), (3, 64))],
      thorough=[("h_c29_bpsk", [600, 44100, 900, 0], [1800.0]), ("h_c29_qpsk", [600, 44100, 900, 0], [1800.0])] + [("h_c29_cdma", [60, 48000, 1000, 0, 16, m], [16000.0]) for m in (0, 1)] +
      [("h_c29_bpsk", [4, 40, 10, 1], [0.0])],
      bounds="messages of up to 100 symbolic bits over 8 rate/carrier sets, keys of up to 64 symbolic chips; every real carrier up to half the rate for messages of up to 9 bits",
      outside="longer messages, other rates")

# ---------------------------------------------------------------- C32
check("C32", quick=[("h_c32_carrier", [n, fs, sr, 0], [fc]) for n, fs, sr, fc in ((14, 800, 100, 150.0), (14, 40, 10, 4.3), (30, 44100, 900, 1800.0), (7, 8000, 8000, 100.0), (20, 48000, 1000, 24000.0))] +
      [("h_c32_carrier", [7, 40, 10, 1], [0.0])] + [("h_c32_bound", [n, fs, sr], [fc]) for n, fs, sr, fc in ((14, 800, 100, 150.0), (21, 8000, 1000, 3000.0), (8, 40, 10, 4.3))] +
      [("h_c32_hops", [n, fs, sr, k], [lo, hi]) for n, fs, sr, k, lo, hi in ((14, 800, 100, 4, 100.0, 300.0), (30, 8000, 1000, 3, 1000.0, 3000.0), (22, 80, 10, 5, 10.3, 31.0), (14, 44100, 900, 16, 1000.0, 20000.0), (40, 48000, 1000, 8, 1000.0, 16000.0))],
      thorough=[("h_c32_carrier", [300, 44100, 900, 0], [1800.0]), ("h_c32_hops", [200, 48000, 1000, 16], [1000.0, 16000.0])],
      bounds="messages of up to 40 symbolic bits over 14 parameter sets; every real carrier for one frame", outside="longer messages, other bands and rates")

# ---------------------------------------------------------------- C33, C37, C38, C39: the Python reference modem
PY = "symbolic execution of the Python source (bits and samples symbolic); assertions decided by an SMT solver (z3), counterexamples replayed by an ordinary interpreter"
PSETS = [(48000, 1000, 2500.0), (44100, 900, 1800.0), (48000, 1000, 12345.6), (8, 1, 2.0), (10, 2, 1.5), (100, 10, 23.0), (12, 4, 6.0), (7, 7, 3.0),
         (9000, 1000, 3500.0), (80000, 1000, 20000.0), (65536, 256, 2121.0), (64, 8, 0.0), (40, 10, 4.4)]
QSETS = [(48000, 1000, 2500.0), (44100, 900, 1800.0), (8, 1, 2.0), (12, 2, 3.0), (100, 10, 25.0), (9, 3, 3.0), (9000, 1000, 3500.0), (80000, 1000, 20000.0),
         (65536, 256, 2048.0), (64, 8, 4.0), (12, 4, 2.0)]


def _py():
    q = [("baseband_bpsk", [n], []) for n in (1, 2, 3, 8, 33, 300)] + [("baseband_qpsk", [n], []) for n in (1, 2, 3, 8, 33, 100)]
    for fs, sr, fc in PSETS:
        for n in (1, 2, 13, max(14, min(48, 1200 * sr // fs))):
            q.append(("bpsk", [n, fs, sr], [fc]))
    for fs, sr, fc in QSETS:
        for n in (1, 2, 13, max(14, min(48, 1200 * sr // fs))):
            q.append(("qpsk", [n, fs, sr], [fc]))
    for fs, sr, fc in [(48000, 1000, 2500.0), (8, 1, 2.0), (64, 8, 0.0), (100, 10, 25.0)]:
        q.append(("noisy_bpsk", [8, fs, sr], [fc, 0.25]))
    for fs, sr, fc in [(48000, 1000, 2500.0), (8, 1, 2.0), (100, 10, 25.0), (64, 8, 4.0)]:
        q.append(("noisy_qpsk", [9, fs, sr], [fc, 0.25]))
    return q


check("C33", python=True, technique=PY, quick=_py(),
      thorough=[("bpsk", [200, 48000, 1000], [2500.0]), ("qpsk", [201, 48000, 1000], [2500.0]), ("noisy_bpsk", [40, 48000, 1000], [2500.0, 0.25]),
                ("noisy_qpsk", [41, 48000, 1000], [2500.0, 0.25]), ("baseband_qpsk", [1000], [])],
      bounds="messages of 1 to 300 symbolic bits (baseband) and up to 48 (passband) over 13 BPSK and 11 QPSK rate/carrier sets; noise on every sample within a "
             "quarter of the amplitude for up to 9 bits",
      outside="empty messages, longer messages, other rates and carriers")
CSETS = [(48000, 1000, 2500.0), (32, 1, 7.0), (64, 2, 5.5), (96, 2, 13.0), (64000, 1000, 12345.6), (320, 10, 80.0), (128, 4, 0.0)]
check("C37", python=True, technique=PY,
      quick=[(h, [n, fs, sr], [fc]) for fs, sr, fc in CSETS for n in (1, 2, 7, 21) for h in ("cdma", "cdma_spread")] +
            [("noisy_cdma", [6, fs, sr], [fc, 0.25]) for fs, sr, fc in [(48000, 1000, 2500.0), (32, 1, 8.0), (128, 4, 0.0)]],
      thorough=[("cdma", [100, 48000, 1000], [2500.0]), ("noisy_cdma", [24, 48000, 1000], [2500.0, 0.25])],
      bounds="messages of 1 to 21 symbolic bits over 8 rate/carrier sets with the module's 16-chip key; noise on every sample within a quarter of the amplitude for 6 bits",
      outside="longer messages, other rates and carriers, other keys (the key is a constant of the module)")
check("C38", python=True, technique=PY,
      quick=[("ssca", [N, Np, x], []) for N, Np, x in ((4, 2, 0), (8, 2, 0), (8, 4, 3), (8, 8, 0), (16, 4, 0), (16, 8, 5))] +
            [("ssca_map", [N, Np], []) for N, Np in ((4, 2), (4, 4), (8, 2), (8, 4), (8, 8), (16, 4), (16, 8))],
      thorough=[("ssca", [32, 8, 0], []), ("ssca", [32, 16, 0], []), ("ssca_map", [32, 8], []), ("ssca_map", [32, 16], [])],
      bounds="every real signal within [-1, 1], strip lengths of 4 to 16 samples, 2 to 8 channels (powers of two); for the estimate, 4 channels by 4 cycle bins of the plane",
      outside="larger planes, complex signals")
check("C39", python=True, technique=PY,
      quick=[("fftshift", [n], []) for n in (0, 1, 2, 3, 4, 5, 8, 17, 64)] + [("chunks", [n, k], []) for n in (0, 1, 2, 7, 8, 9, 60) for k in (1, 2, 3, 8)] +
            [("powers", [1, 2 ** 100], [])],
      thorough=[("fftshift", [1000], []), ("powers", [1, 2 ** 300], [])],
      bounds="every integer from 1 to 2^100; sequences of up to 64 symbolic values, groups of 1 to 8",
      outside="longer sequences")

# ---------------------------------------------------------------- C30
def _limits():
    q = []
    for w in range(18):
        for l in ((1,) if w < 12 else (1, 4, 7, 16)):
            sets = [(900, 1), (1, 2), (44100, 3), (450, 100), (0, 1), (0, 49), (0, 128), (0, 1000)]
            for sr, s in sets:
                s = max(s, 2) if w >= 12 else s
                q.append(("h_c30_valid", [w, sr, s, l], []))
                if sr != 1:
                    q.append(("h_c30_invalid", [w, sr, s, l, 0], []))
                if w not in (8, 9):
                    q.append(("h_c30_invalid", [w, sr, s, l, 1], []))
                if w >= 12:
                    q.append(("h_c30_invalid", [w, sr, s, l, 3], []))
                    if l > 1:
                        q.append(("h_c30_invalid", [w, sr, s, l, 2], []))
    return q


check("C30", quick=_limits(),
      bounds="18 modulators and demodulators; every symbol rate up to 2^20 with a fixed number of samples per chip (1 to 128), and fixed symbol rates with each of 41 successive "
             "numbers of samples per chip; every real carrier up to half the sample rate, or above it by 1.01 Hz to 1 MHz; keys of 1, 4, 7, 16 chips",
      outside="carriers above half the sample rate by no more than 1 Hz (the limit is checked in whole hertz); rates above 2^20; functions without documented limits")

# ---------------------------------------------------------------- C31
check("C31", quick=[("h_c31_value", [1000], [0.1 * i + 1e-9, 0.0001, 0.0015]) for i in range(41)] +
      [("h_c31_value", [3000], [4.05, 0.01, 0.001]), ("h_c31_value", [40], [26, 1e6, 0.001])],
      thorough=[("h_c31_value", [1000], [0.01 * i + 1e-9, 0.00001, 0.00015], {"cost": 1}) for i in range(400)],
      bounds="every real argument with 1e-9 <= |x| <= 4e7, and 0; agreement with the series of the error function within 0.0015 (0.00015 in the thorough tier); sign for |x| >= 0.05",
      outside="arguments beyond 4e7; deviations smaller than the tolerance")

# ---------------------------------------------------------------- C36
check("C36", quick=[("h_c36_link", [n, fs, sr], [fc]) for fs, sr, fc in
                    [(100, 1, 20.0), (100, 1, 40.0), (44100, 900, 18000.0), (96, 2, 40.0), (250, 1, 100.0), (48000, 500, 20000.0), (90000, 1000, 40000.0),
                     (41, 1, 20.0), (128, 2, 40.0), (1000, 10, 400.0), (44100, 900, 1800.0), (48000, 1000, 20000.0), (48000, 1000, 2000.0),
                     (44100, 900, 3600.0), (96000, 1200, 2400.0), (50, 1, 7.0), (400, 10, 33.0)] for n in (1, 2, 9, 40, 150, 300)] +
                   [("h_c36_noisy", [n, fs, sr], [fc, 0.25]) for fs, sr, fc in
                    [(100, 1, 20.0), (100, 1, 40.0), (96, 2, 40.0), (44100, 900, 18000.0), (41, 1, 20.0), (90000, 1000, 40000.0), (1000, 10, 200.0)] for n in (1, 3, 10)],
      thorough=[("h_c36_link", [1500, 44100, 900], [18000.0]), ("h_c36_link", [1000, 100, 1], [40.0]), ("h_c36_noisy", [40, 100, 1], [20.0, 0.25])],
      bounds="messages of up to 300 symbolic bits (1500 in the thorough tier) over 17 rate and carrier sets; noise on every sample symbolic within a quarter of the "
             "amplitude for messages of up to 10 bits (40 in the thorough tier)",
      outside="longer messages, other rates; carriers whose two tones are not distinguishable within a symbol")

# ---------------------------------------------------------------- C40: what the Python module offers
_B40 = [(48000, 1000, 2000.0), (4800, 600, 1200.0), (44100, 900, 1800.0), (9600, 1200, 3600.0), (16000, 500, 250.0)]
check("C40",
      quick=[("h_c40_psk", [w, n, fs, sr], [fc]) for w in (0, 1) for fs, sr, fc in _B40 for n in (1, 2, 7, 40)] +
            [("h_c40_baseband", [n], []) for n in (1, 5, 100)] +
            [("h_c40_ofdm", [w * (nc - np) * 2, nc, np, fs, sr], [fc]) for nc, np, fs, sr, fc in
             [(16, 4, 8000, 1000, 2000.0), (8, 6, 8000, 1000, 1000.0), (16, 12, 9000, 1000, 3000.0), (12, 3, 12000, 2000, 2000.0)] for w in (1, 2)] +
            [("h_c40_cdma", [n, fs, sr], [fc]) for fs, sr, fc in [(48000, 1000, 3000.0), (32000, 1000, 5000.0), (64000, 500, 8000.0)] for n in (1, 3, 12)] +
            [("h_c40_hop", [n, fs, sr, k], [lo, hi]) for fs, sr, k, lo, hi in
             [(8000, 1000, 4, 1000.0, 3000.0), (48000, 1000, 8, 2000.0, 10000.0), (65536, 256, 5, 2000.0, 10000.0), (9000, 500, 3, 100.0, 4000.0)] for n in (1, 4, 12)] +
            [("h_c40_chaos", [n, fs, sr], []) for fs, sr in [(8000, 1000), (900, 300), (7, 7)] for n in (1, 5, 16)] +
            [("h_c40_fhofdm", [n, fs, sr], [fc]) for fs, sr, fc in [(8000, 1000, 2000.0), (9000, 3000, 700.0)] for n in (3, 7, 20)] +
            [("h_c40_noise", [n], [a]) for n, a in ((1, 1.0), (8, 100.0))] +
            [("h_c40_energy", [n], [a]) for n, a in ((1, 1.0), (2, 3.0), (9, 10.0), (60, 1000.0))],
      thorough=[("h_c40_psk", [w, 400, 44100, 900], [1800.0]) for w in (0, 1)] + [("h_c40_cdma", [80, 48000, 1000], [3000.0]), ("h_c40_hop", [60, 65536, 256, 8], [2000.0, 10000.0])],
      bounds="messages of up to 40 symbolic bits (100 for the baseband map, 400 in the thorough tier) over 2 to 5 concrete parameter sets per function; 60 symbolic samples "
             "of either sign for the energy measures, 8 for the noise functions",
      outside="the conversion of arguments and results between Python and Rust; the detectors built on the strip spectral correlation, whose transform of 4096 points by 64 "
              "channels is fixed in the code and out of reach of the encoding; random_data and ssca, which return Python objects")

# ---------------------------------------------------------------- C35
def _butter():
    q = []
    o = {"kmax": 9}
    for fs, low, high, tones in [(8000, 1000, 2500, (1700, 400, 3000)), (8000, 1000, 2500, (1000, 2500, 1600)), (8000, 1000, 2500, (950, 1060, 2600)),
                                 (44100, 5000, 12000, (4500, 12800, 8000)), (44100, 5000, 12000, (5000, 12000, 20000)), (1000, 80, 220, (50, 150, 300)),
                                 (1000, 80, 220, (80, 220, 400)), (48000, 9000, 15000, (100, 12000, 23000)), (100, 10, 40, (5, 25, 45)), (100, 5, 20, (5, 12.5, 31)),
                                 (192000, 30000, 70000, (20000, 31234.5, 80000)), (9600, 1500.5, 3000.5, (1500.5, 3000.5, 3100)), (2, 0.3, 0.6, (0.2, 0.45, 0.75))]:
        n = 3000 if any(abs(t - e) < 0.1 * (high - low) for t in tones for e in (low, high)) else 2000
        q.append(("h_c35_tones", [n, fs, 3, 1], [low, high] + list(tones), o))
        q.append(("h_c35_tones", [n + 777, fs, 4, 0], [low, high] + list(tones) + [(low + high) / 2], o))
    return q


check("C35", quick=_butter(),
      thorough=[("h_c35_tones", [81920 + 2000, 8000, 1, 0], [1000, 2500, 1700], {"kmax": 9, "secs": 2000}), ("h_c35_tones", [3 * 8192, 8000, 2, 1], [1000, 2500, 2450, 2600], {"kmax": 9, "secs": 2000}),
                ("h_c35_tones", [6000, 8000, 5, 0], [600, 3300, 400, 700, 1600, 3200, 3500], {"kmax": 10, "secs": 2000})],
      bounds="sums of three tones, each absent or with either sign, as sine or as cosine, and of four with fixed phases (2^9 and 2^8 signals, carried as complete tables); 13 sets of rate, band and frequencies, "
             "streams of 2000 to 3777 samples, the middle fifth compared within 0.01",
      outside="arbitrary amplitudes (the recursion amplifies the rounding bound of a real-valued input beyond use); the transients at the ends; streams of more than one block of 81920 samples "
              "(thorough tier: one); streams of fewer than 388 samples, which the filter refuses")

# ---------------------------------------------------------------- C41
check("C41", quick=[("h_c41_grid", [n], [b]) for n in (1, 2, 3, 7, 8, 64, 100) for b in (1.0, 24000.0, 1e9)] + [("h_c41_window", [n], []) for n in list(range(1, 34)) + [64, 100, 128]] +
      [("h_c41_db", [], [a, b, w]) for a, b, w in [(0, 0, 5), (3, -7, 1), (100, -100, 10), (-300, 300, 10), (300, -300, 10)] + [(10.0 * k, -5.0 * k - 3, 10) for k in range(-20, 20)]],
      thorough=[("h_c41_window", [n], []) for n in (255, 256, 1000)] + [("h_c41_grid", [2000], [1e6])],
      bounds="every pair of levels in 45 pairs of pieces of 1 to 10 dB between -300 and 310 dB, every pair of grid ends up to 1e9 in magnitude with 1 to 100 values, every entry of 36 windows of up to 128 entries",
      outside="levels beyond 300 dB, longer grids and windows")
