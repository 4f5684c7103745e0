"""Replays one input on the real Python modules: native.py KOM_PY REPLAY"""
import contextlib, importlib, io, struct, sys, os

root, path = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, root)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
fn, ps, fs, ins = None, [], [], []
for l in open(path):
    w = l.split()
    if w[0] == "fn":
        fn = w[1]
    elif w[0] == "p":
        ps.append(int(w[1]))
    elif w[0] == "f":
        fs.append(struct.unpack("<d", struct.pack("<Q", int(w[1], 16)))[0])
    elif w[0] == "i":
        ins.append((w[1], w[2]))
out = []


class K:
    sym = False
    k = 0

    def take(self):
        self.k += 1
        return ins[self.k - 1]

    def bits(self, n):
        return [self.take()[0][-1] == "1" for _ in range(n)]

    def real(self, lo, hi):
        x = struct.unpack("<d", struct.pack("<Q", int(self.take()[0], 16)))[0]
        return x

    def int(self, lo, hi):
        return int(self.take()[0], 16)

    def load(self, name):
        import matplotlib
        matplotlib.use("Agg")
        return importlib.import_module(name)

    def check(self, c, what):
        if not c:
            out.append("CHECKFAIL %s" % what)

    def eqb(self, a, b):
        return bool(a) == bool(b)

    def near(self, a, b, tol, what):
        self.check(abs(complex(a) - complex(b)) <= tol * 1.001 + 1e-12, what)

    def obs(self, v):
        out.append("OBS %016x" % struct.unpack("<Q", struct.pack("<d", float(v)))[0])


import harness
k = K()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        getattr(harness, fn)(k, *[p for p in ps], *fs)
except Exception as x:
    print("\n".join(out))
    print("CHECKFAIL %s: %s" % (type(x).__name__, str(x).replace("\n", " ")[:200]))
    sys.exit(1)
print("\n".join(out))
