"""Symbolically executes one harness of the Python reference modem and reports as the IR engine does."""
import json, os, random, struct, sys, time, traceback
from fractions import Fraction
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import sym
import harness

a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
ROOT, FN, OUT, SEED, SAMPLES, SECS = a["--root"], a["--fn"], a["--out"], int(a["--seed"]), int(a["--samples"]), int(a["--secs"])
PS = [int(x) for x in a["--p"].split(",") if x]
FS = [float(x) for x in a["--f"].split(",") if x]


def hexf(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def arg(x):
    return int(x) if x == int(x) else x


class K:
    """the symbolic side of a harness"""
    sym = True

    def __init__(self):
        self.ids, self.failures, self.incon = set(), [], []
        self.checks = self.proved = self.folded = self.lemmas = 0
        self.reached = 0
        self.paths = []

    def start(self):
        self.inputs, self.observed, self.range = [], [], {}
        sym.CMPS.clear()
        sym._N[0] = 0

    def new(self, kind, z):
        self.inputs.append((kind, z))
        return z

    def bits(self, n):
        return [sym.SB(self.new("bool", z3.Bool("b%d" % len(self.inputs)))) for _ in range(n)]

    def real(self, lo, hi):
        z = self.new("real", z3.Real("r%d" % len(self.inputs)))
        sym.C.defs += [z >= sym.rv(Fraction(lo)), z <= sym.rv(Fraction(hi))]
        i = sym.atom(z)
        self.range[z.get_id()] = (lo, hi)
        sym.BOUND[i] = max(abs(Fraction(lo)), abs(Fraction(hi)))
        return sym.SR(Fraction(0), {i: Fraction(1)})

    def int(self, lo, hi):
        z = self.new("int", z3.Int("i%d" % len(self.inputs)))
        self.range[z.get_id()] = (lo, hi)
        sym.C.defs += [z >= lo, z <= hi]
        return sym.SI(z)

    def load(self, name):
        return sym.load(ROOT, name)

    # --- assertions
    def refute(self, m, what):
        if what in self.ids:
            return
        self.ids.add(what)
        p = "%s.f%d" % (OUT, len(self.failures))
        self.write(p, [self.value(m, k, z) for k, z in self.inputs])
        self.failures.append({"id": what, "replay": p})

    def value(self, m, kind, z):
        v = m.eval(z, model_completion=True)
        if kind == "bool":
            return z3.is_true(v)
        if kind == "int":
            return v.as_long()
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())

    def write(self, p, vals, obs=()):
        with open(p, "w") as f:
            f.write("fn %s\n" % FN)
            for x in PS:
                f.write("p %d\n" % x)
            for x in FS:
                f.write("f %s\n" % hexf(x))
            for (kind, z), v in zip(self.inputs, vals):
                h = ("%x" % int(v)) if kind != "real" else hexf(float(v))
                f.write("i %s %s %s\n" % (h, kind, repr(float(v)) if kind == "real" else v))
            for o in obs:
                f.write("o %s f\n" % hexf(float(o)))

    def check(self, c, what):
        self.checks += 1
        if isinstance(c, sym.SB):
            e = z3.simplify(c.e)
            if z3.is_true(e):
                self.folded += 1
                self.proved += 1
                return
            m = sym.C.check(z3.Not(e))
            if m is None:
                self.proved += 1
            else:
                self.refute(m, what)
        elif c:
            self.folded += 1
            self.proved += 1
        else:
            self.refute(sym.C.check(), what)

    def eqb(self, x, y):
        f = lambda v: v.e if isinstance(v, sym.SB) else (v.z() != 0 if isinstance(v, sym.SR) else z3.BoolVal(bool(v)))
        return sym.SB(f(x) == f(y))

    def le(self, x, y):
        return x <= y

    def lt(self, x, y):
        return x < y

    def near(self, x, y, tol, what):
        d = sym.sub(x, y)
        for e in (d if isinstance(d, tuple) else (d,)):
            self.near1(e, Fraction(tol), what)

    def near1(self, d, tol, what):
        self.checks += 1
        if not d.t:
            self.folded += 1
            if abs(d.c) <= tol:
                self.proved += 1
            else:
                self.refute(sym.C.check(), what)
            return
        # products of bounded inputs are bounded: first with every product free within its bound
        free, cons = [sym.rv(d.c)], []
        for i, k in d.t.items():
            b = sym.BOUND.get(i)
            if b is None:
                free.append(sym.rv(k) * sym.ATOMS[i])
            else:
                v = z3.Real("free!%d" % i)
                cons += [v >= sym.rv(-b), v <= sym.rv(b)]
                free.append(sym.rv(k) * v)
        e = z3.Sum(free)
        self.lemmas += len(cons) // 2
        if sym.C.check(*cons, z3.Or(e > sym.rv(tol), e < sym.rv(-tol))) is None:
            self.proved += 1
            return
        # look for an input: the real expression, first with the inputs restricted to -1, 0, 1
        e = d.z()
        bad = z3.Or(e > sym.rv(tol), e < sym.rv(-tol))
        small = [z3.Or(z == 0, z == 1, z == -1) for k, z in self.inputs if k == "real"]
        m = None
        for extra in (small, []):
            try:
                m = sym.C.check(bad, *extra)
            except sym.Unsupported:
                continue
            if m is not None:
                self.refute(m, what)
                return
        if m is None and extra == []:
            self.proved += 1

    def obs(self, v):
        self.observed.append(v)

    def margins(self):
        """every comparison of computed values is decided with room for rounding"""
        for e, pc, exact in sym.CMPS:
            if exact:
                continue
            self.checks += 1
            self.lemmas += 1
            s = z3.Solver()
            s.set("timeout", 60000)
            t = time.time()
            s.add(*sym.C.defs, *pc, e <= sym.rv(sym.EPS), e >= sym.rv(-sym.EPS))
            r = s.check()
            t = time.time() - t
            sym.C.queries += 1
            sym.C.time += t
            sym.C.longest = max(sym.C.longest, t)
            if r == z3.unsat:
                sym.C.unsat += 1
                self.proved += 1
            elif r == z3.sat:
                sym.C.sat += 1
                self.refute(s.model(), "a decision within rounding of its threshold")
            else:
                self.incon.append("threshold margin")


def between(rnd, kind, lo, hi):
    if kind == "int":
        return min(hi, lo + rnd.getrandbits(rnd.randint(1, max(1, (hi - lo).bit_length()))))
    return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rnd.randint(0, 1024), 1024)


def main():
    t0 = time.time()
    sym.C = c = sym.Ctx(400, SECS)
    k = K()
    args = PS + [arg(x) for x in FS]
    stop = ""

    def path():
        k.start()
        try:
            with sym.quiet(ROOT):
                getattr(harness, FN)(k, *args)
            k.reached += 1
        except sym.Unsupported:
            raise
        except Exception as x:
            if os.environ.get("KS_DBG"):
                traceback.print_exc()
            k.checks += 1
            k.refute(c.check(), "%s: %s" % (type(x).__name__, str(x)[:200]))
            return
        k.margins()
        k.paths.append((list(c.pc), list(c.defs), list(k.observed), list(k.inputs)))
    n = 0
    try:
        n = c.explore(path)
    except sym.Unsupported as x:
        stop = "unsupported: %s" % x
        if os.environ.get("KS_DBG"):
            traceback.print_exc()
    samples = []
    rnd = random.Random(SEED)
    for j in range(SAMPLES if k.paths else 0):
        ins = k.paths[0][3]
        vals = [rnd.random() < 0.5 if kind == "bool" else between(rnd, kind, *k.range[z.get_id()])
                for kind, z in ins]
        fix = [z == (z3.BoolVal(v) if kind == "bool" else sym.rv(v) if kind == "real" else v) for (kind, z), v in zip(ins, vals)]
        for pc, defs, obs, ins in k.paths:
            s = z3.Solver()
            s.add(*pc, *defs, *fix)
            if s.check() != z3.sat:
                continue
            m = s.model()
            out = []
            for o in obs:
                if isinstance(o, sym.SB):
                    out.append(1.0 if z3.is_true(m.eval(o.e, model_completion=True)) else 0.0)
                elif isinstance(o, sym.SI):
                    out.append(float(m.eval(o.e, model_completion=True).as_long()))
                elif isinstance(o, sym.SR):
                    v = m.eval(o.z(), model_completion=True)
                    out.append(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))
                else:
                    out.append(float(o))
            k.inputs = ins
            p = "%s.s%d" % (OUT, j)
            k.write(p, vals, out)
            samples.append(p)
            break
    print(json.dumps({
        "stop": stop, "returned": n, "checks": k.checks, "proved": k.proved, "folded": k.folded, "inconclusive": k.incon,
        "n_inconclusive": len(k.incon), "failures": k.failures, "steps": c.ops, "branches": len(sym.CMPS), "merges": c.merges, "forks": c.forks,
        "panics_expected": 0, "inputs": len(k.inputs), "lemmas": k.lemmas, "queries": c.queries, "cached": 0, "unsat": c.unsat,
        "sat": c.sat, "unknown": 0, "solver_s": c.time, "max_query_s": c.longest, "reached": {"1": k.reached}, "samples": samples,
        "observations": 0, "load_s": 0, "exec_s": time.time() - t0, "nodes": 0, "atoms": len(sym.ATOMS), "called": sorted(sym.FUNCS)}))


main()
