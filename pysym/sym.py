"""Symbolic values and a source-level executor for the Python reference modem.

The modules under kom_py are parsed, conditional expressions and boolean operators are rewritten so that a symbolic
condition yields a symbolic value, and the module is then executed by Python itself on symbolic arguments. What is left
(`if` statements on symbolic conditions, conversions to bool) forks: the run is repeated for each feasible decision."""
import ast, contextlib, importlib, importlib.abc, importlib.util, io, os, sys, time
from fractions import Fraction
import numpy as np
import z3

EPS = Fraction(1, 10 ** 9)


class Unsupported(Exception):
    pass


class TooManyPaths(Unsupported):
    pass


class Ctx:
    """one exploration"""

    def __init__(self, max_paths=64, secs=300):
        self.pc, self.trace, self.pos, self.todo = [], [], 0, []
        self.max_paths, self.deadline = max_paths, time.time() + secs
        self.queries = self.sat = self.unsat = 0
        self.time = self.longest = 0.0
        self.forks = self.ops = self.merges = self.nonlin = 0
        self.defs = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)

    def check(self, *extra):
        if time.time() > self.deadline:
            raise Unsupported("time")
        t = time.time()
        self.solver.push()
        for x in self.defs + self.pc + list(extra):
            self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        t = time.time() - t
        self.time += t
        self.longest = max(self.longest, t)
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported("solver gave no answer")
        if r == z3.sat:
            self.sat += 1
        else:
            self.unsat += 1
        return m

    def decide(self, e):
        """fork on a symbolic condition"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            t, f = self.check(e) is not None, self.check(z3.Not(e)) is not None
            if t and f:
                self.forks += 1
                self.todo.append(self.trace[: self.pos] + [False])
                if len(self.todo) > self.max_paths:
                    raise TooManyPaths("too many paths")
            v = t
            self.trace.append(v)
        self.pos += 1
        self.pc.append(e if v else z3.Not(e))
        return v

    def explore(self, f):
        """run f on every path; returns the number of paths"""
        self.todo, n = [[]], 0
        while self.todo:
            self.trace = self.todo.pop()
            self.pc, self.pos, self.defs = [], 0, []
            n += 1
            if n > self.max_paths:
                raise TooManyPaths("too many paths")
            f()
        return n


C = None  # the current exploration


def frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("not a finite number")
        return Fraction(x)
    return None


def rv(x):
    return z3.Q(x.numerator, x.denominator)


class Base:
    __array_priority__ = 1000
    __array_ufunc__ = None
    __slots__ = ()


class SB(Base):
    """a symbolic bit"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C.decide(self.e)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def num(self):
        return ite(self, 1, 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic bit")

    def __invert__(self):
        return SB(z3.Not(self.e))

    def _b(self, o, f):
        if isinstance(o, SB):
            return SB(f(self.e, o.e))
        if isinstance(o, (bool, np.bool_)):
            return SB(f(self.e, z3.BoolVal(bool(o))))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    def __or__(self, o):
        return self._b(o, z3.Or)

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return self._b(o, lambda a, b: a == b)
        return self.num() == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SB) else not r


for _n in "add radd sub rsub mul rmul truediv rtruediv neg pow lt le gt ge abs".split():
    def _f(self, *a, _n="__%s__" % _n):
        return getattr(self.num(), _n)(*a)
    setattr(SB, "__%s__" % _n, _f)


class SR(Base):
    """an exact linear form over symbolic indicators and reals"""
    __slots__ = ("c", "t")

    def __init__(self, c=Fraction(0), t=None):
        self.c, self.t = c, t or {}

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def z(self):
        return z3.Sum([rv(self.c)] + [rv(k) * a for a, k in ((ATOMS[i], k) for i, k in self.t.items())])

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    @staticmethod
    def of(x):
        if isinstance(x, SR):
            return x
        if isinstance(x, SB):
            return x.num()
        f = frac(x)
        return None if f is None else SR(f)

    def _lin(self, o, k):
        if isinstance(o, (complex, np.complexfloating)) or isinstance(o, SC):
            return NotImplemented
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SR.of(o)
        if o is None:
            return NotImplemented
        C.ops += 1
        t = dict(self.t)
        for i, v in o.t.items():
            n = t.get(i, 0) + k * v
            if n:
                t[i] = n
            else:
                t.pop(i, None)
        return SR(self.c + k * o.c, t)

    def __add__(self, o):
        r = self._lin(o, 1)
        return _arr(self, o, np.add) if r is NotImplemented else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._lin(o, -1)
        return _arr(self, o, np.subtract) if r is NotImplemented else r

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self.scaled(Fraction(-1))

    def __pos__(self):
        return self

    def scaled(self, k):
        C.ops += 1
        if k == 0:
            return SR()
        return SR(self.c * k, {i: v * k for i, v in self.t.items()})

    def __mul__(self, o):
        if isinstance(o, SC):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SC(self * o.real, self * o.imag)
        if isinstance(o, np.ndarray):
            return _arr(self, o, np.multiply)
        o = SR.of(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self.scaled(o.c)
        if not self.t:
            return o.scaled(self.c)
        out = self.scaled(o.c) + SR(0, o.t).scaled(self.c)
        for i, a in self.t.items():
            for j, b in o.t.items():
                out = out + SR(Fraction(0), {prod(i, j): a * b})
        return out

    __rmul__ = __mul__

    def __truediv__(self, o):
        f = frac(o)
        if f is None:
            if isinstance(o, np.ndarray):
                return _arr(self, o, np.true_divide)
            raise Unsupported("division by a symbolic value")
        return self.scaled(1 / f)

    def __rtruediv__(self, o):
        raise Unsupported("division by a symbolic value")

    def __pow__(self, n):
        if n == 2:
            return self * self
        if n == 1:
            return self
        raise Unsupported("power")

    def __abs__(self):
        return ite(self < 0, -self, self)

    def cmp(self, o, f):
        o = SR.of(o)
        if o is None:
            return NotImplemented
        d = self - o
        if not d.t:
            return bool(f(d.c, 0))
        e = d.z()
        exact = all(k.denominator == 1 and abs(k) < 1 << 40 for k in [d.c, *d.t.values()])
        CMPS.append((e, list(C.pc), exact))
        return SB(f(e, 0))

    def __lt__(self, o):
        return self.cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self.cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self.cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self.cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self.cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SB) else (r if r is NotImplemented else not r)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("conversion of a symbolic number to float")

    __int__ = __index__ = __float__


def _arr(a, b, op):
    if isinstance(b, (complex, np.complexfloating)):
        return SC(a, 0.0) + b if op is np.add else SC(a, 0.0) - b
    if isinstance(b, np.ndarray):
        out = np.empty(b.shape, dtype=object)
        for i, x in np.ndenumerate(b):
            out[i] = {np.add: lambda: a + x, np.subtract: lambda: a - x, np.multiply: lambda: a * x, np.true_divide: lambda: a / x}[op]()
        return out.view(SArr)
    return NotImplemented


class SC(Base):
    """a complex number with symbolic parts"""
    __slots__ = ("real", "imag")

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    @staticmethod
    def parts(o):
        if isinstance(o, SC):
            return o.real, o.imag
        if isinstance(o, (complex, np.complexfloating)):
            return float(o.real), float(o.imag)
        if isinstance(o, (SR, SB)) or frac(o) is not None:
            return (o.num() if isinstance(o, SB) else o), 0.0
        return None

    def __add__(self, o):
        p = SC.parts(o)
        return NotImplemented if p is None else SC(self.real + p[0], self.imag + p[1])

    __radd__ = __add__

    def __sub__(self, o):
        p = SC.parts(o)
        return NotImplemented if p is None else SC(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SC(-self.real, -self.imag)

    def __mul__(self, o):
        p = SC.parts(o)
        if p is None:
            return NotImplemented
        return SC(self.real * p[0] - self.imag * p[1], self.real * p[1] + self.imag * p[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        if frac(o) is None:
            raise Unsupported("complex division")
        return SC(self.real / o, self.imag / o)

    def conjugate(self):
        return SC(self.real, -self.imag)

    conj = conjugate

    def __abs__(self):
        raise Unsupported("absolute value of a symbolic complex number")

    def __eq__(self, o):
        p = SC.parts(o)
        return NotImplemented if p is None else and_(lambda: self.real == p[0], lambda: self.imag == p[1])


ATOMS = {}
BOUND = {}  # |atom| <= bound
CMPS = []
_N = [0]


def atom(z):
    k = z.get_id()
    if k not in ATOMS:
        ATOMS[k] = z
    return k


def indicator(e):
    k = atom(z3.If(e, z3.RealVal(1), z3.RealVal(0)))
    BOUND[k] = 1
    return k


def prod(i, j):
    if i > j:
        i, j = j, i
    if i == j and z3.is_app_of(ATOMS[i], z3.Z3_OP_ITE):
        return i  # an indicator is its own square
    C.nonlin += 1
    k = atom(ATOMS[i] * ATOMS[j])
    if i in BOUND and j in BOUND:
        BOUND[k] = BOUND[i] * BOUND[j]
    return k


class SI(Base):
    """a symbolic integer"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(o):
        return o.e if isinstance(o, SI) else int(o) if isinstance(o, (int, np.integer)) else None

    def _op(self, o, f):
        o = SI.of(o)
        return NotImplemented if o is None else f(self.e, o)

    def __add__(self, o):
        r = self._op(o, lambda a, b: a + b)
        return r if r is NotImplemented else SI(r)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._op(o, lambda a, b: a - b)
        return r if r is NotImplemented else SI(r)

    def __mul__(self, o):
        r = self._op(o, lambda a, b: a * b)
        return r if r is NotImplemented else SI(r)

    __rmul__ = __mul__

    def _cmp(self, o, f):
        r = self._op(o, f)
        return r if r is NotImplemented else SB(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __bool__(self):
        return C.decide(self.e != 0)

    def bit_length(self):
        a = z3.If(self.e < 0, -self.e, self.e)
        lo, hi = 0, 512
        while lo < hi:
            k = (lo + hi) // 2
            if C.decide(a < (1 << k)):
                hi = k
            else:
                lo = k + 1
        if lo == 512:
            raise Unsupported("a very long integer")
        return lo

    def __int__(self):
        raise Unsupported("a symbolic integer where a number is needed")

    __float__ = __index__ = __int__


def sub(a, b):
    """the difference as linear forms: one, or (real, imaginary)"""
    if any(isinstance(x, (SC, complex, np.complexfloating)) for x in (a, b)):
        p, q = SC.parts(a), SC.parts(b)
        return SR.of(p[0]) - SR.of(q[0]), SR.of(p[1]) - SR.of(q[1])
    return SR.of(a) - SR.of(b)


def fresh(name="r"):
    _N[0] += 1
    return z3.Real("%s!%d" % (name, _N[0]))


def on_integers(e, depth=6):
    """a condition on symbolic integers: integers that depend on it stay integers, one case at a time"""
    return e.sort() == z3.IntSort() or depth > 0 and any(on_integers(x, depth - 1) for x in e.children())


def ite(c, a, b):
    """the value a or b by a symbolic condition"""
    if isinstance(a, SB) or isinstance(b, SB) or isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        z = lambda x: x.e if isinstance(x, SB) else z3.BoolVal(bool(x))
        if all(isinstance(x, (SB, bool, np.bool_)) for x in (a, b)):
            C.merges += 1
            return SB(z3.If(c.e, z(a), z(b)))
    if any(isinstance(x, (SC, complex, np.complexfloating)) for x in (a, b)):
        p, q = SC.parts(a), SC.parts(b)
        if p and q:
            return SC(ite(c, p[0], q[0]), ite(c, p[1], q[1]))
    if isinstance(a, SI) or isinstance(b, SI):
        x, y = SI.of(a), SI.of(b)
        return None if x is None or y is None else SI(z3.If(c.e, x, y))
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and on_integers(c.e):
        return None
    x, y = SR.of(a), SR.of(b)
    if x is None or y is None:
        return None
    C.merges += 1
    d = x - y
    if not d.t:
        if d.c == 0:
            return x
        return y + SR(Fraction(0), {indicator(c.e): d.c})
    v = fresh("ite")
    C.defs.append(v == z3.If(c.e, x.z(), y.z()))
    return SR(Fraction(0), {atom(v): Fraction(1)})


# ---------------------------------------------------------------- source rewriting
def ifexp(t, a, b):
    t = t()
    if isinstance(t, SR):
        t = t != 0
    if isinstance(t, SB):
        v = ite(t, a(), b())
        if v is not None:
            return v
    return a() if t else b()


def not_(x):
    return ~x if isinstance(x, SB) else not x


def and_(*fs):
    acc = True
    for f in fs:
        v = f()
        if isinstance(v, SB):
            acc = v if acc is True or not isinstance(acc, SB) else acc & v
        elif isinstance(acc, SB):
            acc = acc & bool(v)
        else:
            acc = v
            if not v:
                return v
    return acc


def or_(*fs):
    acc = False
    for f in fs:
        v = f()
        if isinstance(v, SB):
            acc = acc | v if isinstance(acc, SB) else v
        elif isinstance(acc, SB):
            acc = acc | bool(v)
        else:
            acc = v
            if v:
                return v
    return acc


class Rewrite(ast.NodeTransformer):
    def plain(self, *ns):
        return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ns for x in ast.walk(n))

    def lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def call(self, f, *a):
        return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=list(a), keywords=[])

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if not self.plain(n):
            return n
        return ast.copy_location(self.call("__ks_ifexp", self.lam(n.test), self.lam(n.body), self.lam(n.orelse)), n)

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if not self.plain(n):
            return n
        return ast.copy_location(self.call("__ks_and" if isinstance(n.op, ast.And) else "__ks_or", *[self.lam(v) for v in n.values]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(self.call("__ks_not", n.operand), n)
        return n


class SArr(np.ndarray):
    """an array of symbolic values: comparisons stay symbolic"""

    def _c(self, o, f):
        o = np.asarray(o, dtype=object) if not isinstance(o, Base) else o
        if isinstance(o, Base) or o.shape == ():
            ov = o if isinstance(o, Base) else o[()]
            b = np.broadcast_to(np.array(None, dtype=object), self.shape)
            get = lambda i: ov
        else:
            b = np.broadcast_to(o, self.shape)
            get = lambda i: b[i]
        out = np.empty(self.shape, dtype=object)
        for i, x in np.ndenumerate(np.asarray(self)):
            out[i] = f(x, get(i))
        return out.view(SArr)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __invert__(self):
        return emap(self, not_)

    @property
    def real(self):
        return emap(self, lambda x: x.real)

    @property
    def imag(self):
        return emap(self, lambda x: x.imag)

    def astype(self, t, *a, **k):
        t = lower(t)
        if t in (float, complex, int, np.float64, np.complex128) or t == "float":
            return emap(self, lambda x: x.num() if isinstance(x, SB) else x)
        return emap(self, lambda x: x)

    def conj(self):
        return emap(self, lambda x: x.conjugate())


def emap(a, f):
    out = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(np.asarray(a)):
        out[i] = f(x)
    return out.view(SArr)


def sarr(x):
    return x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x


def has_sym(x, depth=0):
    if isinstance(x, Base):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def nest(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return [nest(y) for y in x]
    return x


class NP:
    """numpy, keeping symbolic values symbolic"""

    def __getattr__(self, n):
        v = getattr(np, n)
        if not callable(v) or isinstance(v, type):
            return v

        def g(*a, **k):
            a = [lower(x) for x in a]
            k = {i: lower(x) for i, x in k.items()}
            if any(has_sym(x) for x in a):
                if n in ("real", "imag"):
                    return emap(np.asarray(a[0], dtype=object), lambda x: getattr(x, n)) if not isinstance(a[0], Base) else getattr(a[0], n)
                if n in ("conj", "conjugate"):
                    return emap(np.asarray(a[0], dtype=object), lambda x: x.conjugate()) if not isinstance(a[0], Base) else a[0].conjugate()
            return sarr(v(*a, **k))
        return g

    def _new(self, f, *a, **k):
        r = f(*[lower(x) for x in a], **{i: lower(x) for i, x in k.items()})
        return r.astype(object).view(SArr) if r.dtype in (np.float64, np.complex128) else r

    def zeros(self, *a, **k):
        return self._new(np.zeros, *a, **k)

    def ones(self, *a, **k):
        return self._new(np.ones, *a, **k)

    def empty(self, *a, **k):
        return self._new(np.zeros, *a, **k)

    def full(self, *a, **k):
        if len(a) > 1 and has_sym(a[1]):
            r = np.empty(a[0], dtype=object)
            r[...] = a[1]
            return r.view(SArr)
        return self._new(np.full, *a, **k)

    def zeros_like(self, x, *a, **k):
        return self.zeros(np.shape(x))

    def array(self, x, *a, **k):
        if not isinstance(x, (list, tuple, np.ndarray)) and hasattr(x, "__iter__") and not isinstance(x, Base):
            pass
        elif has_sym(lower(x)):
            dt = lower(k.pop("dtype", a[0] if a else None))
            r = np.array(x, dtype=object, **k).view(SArr)
            return r.astype(dt) if dt is not None and dt not in (object, bool) else r
        return sarr(np.array(lower(x), *[lower(v) for v in a], **{i: lower(v) for i, v in k.items()}))

    def asarray(self, x, *a, **k):
        return self.array(x, *a, **k)

    def where(self, c, *ab):
        if has_sym(c) and len(ab) == 2:
            c = np.asarray(c, dtype=object)
            a, b = (np.broadcast_to(np.asarray(x, dtype=object), c.shape) for x in ab)
            out = np.empty(c.shape, dtype=object)
            for i, x in np.ndenumerate(c):
                out[i] = ifexp(lambda: x, lambda: a[i], lambda: b[i])
            return out.view(SArr)
        return np.where(c, *ab)

    def logical_not(self, c):
        return ~self.array(c) if has_sym(c) else np.logical_not(c)

    def sign(self, x):
        if not has_sym(x):
            return np.sign(x)
        s = lambda v: ite(v > 0, 1, ite(v < 0, -1, 0)) if isinstance(v, SR) else v
        return s(x) if isinstance(x, Base) else emap(self.array(x), s)

    @property
    def fft(self):
        return FFT()

    def fromiter(self, it, *a, **k):
        return self.array(list(it))


class FFT:
    """the discrete Fourier transform by its definition"""

    def __getattr__(self, n):
        v = getattr(np.fft, n)
        if n in ("fftshift", "ifftshift", "fftfreq"):
            return lambda *a, **k: sarr(v(*a, **k))

        def g(x, *a, **k):
            if has_sym(x):
                raise Unsupported("numpy.fft.%s" % n)
            return v(x, *a, **k)
        return g

    def _dft(self, x, n, sign):
        x = list(x)
        n = len(x) if n is None else n
        x = (x + [0.0] * n)[:n]
        w = [np.exp(sign * 2j * np.pi * k / n) for k in range(n)]
        return [sum((x[i] * w[i * k % n] for i in range(n)), SC(SR(), SR())) for k in range(n)]

    def fft(self, x, n=None, axis=-1, norm=None):
        if not has_sym(x):
            return np.fft.fft(x, n, axis, norm)
        x = np.asarray(x, dtype=object)
        if norm is not None:
            raise Unsupported("normalised transform")
        return along(x, axis, lambda v: self._dft(v, n, -1))

    def ifft(self, x, n=None, axis=-1, norm=None):
        if not has_sym(x):
            return np.fft.ifft(x, n, axis, norm)
        x = np.asarray(x, dtype=object)
        if norm is not None:
            raise Unsupported("normalised transform")
        return along(x, axis, lambda v: [y / len(v if n is None else range(n)) for y in self._dft(v, n, 1)])


def along(x, axis, f):
    x = np.moveaxis(x, axis, -1)
    rows = [f(x[i]) for i in np.ndindex(x.shape[:-1])]
    out = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    return np.moveaxis(out.reshape(x.shape[:-1] + (len(rows[0]),)), -1, axis).view(SArr)


class Ty(type):
    """a builtin number type that lets symbolic values through"""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.of)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls.of) or x is cls

    def __eq__(cls, o):
        return o is cls or o is cls.of

    def __hash__(cls):
        return hash(cls.of)

    def __getattr__(cls, n):
        return getattr(cls.of, n)


class complex_(metaclass=Ty):
    of = complex

    def __new__(cls, re=0, im=0):
        if isinstance(re, Base) or isinstance(im, Base):
            if isinstance(re, SB):
                re = re.num()
            if isinstance(im, SB):
                im = im.num()
            if isinstance(re, SC):
                return re if isinstance(im, (int, float)) and im == 0 else re + SC(0.0, 1.0) * im
            return SC(re, im)
        return complex(re, im)


class float_(metaclass=Ty):
    of = float

    def __new__(cls, x=0.0):
        return x.num() if isinstance(x, SB) else x if isinstance(x, SR) else float(x)


class int_(metaclass=Ty):
    of = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SI):
            return x
        return x.num() if isinstance(x, SB) else int(x, *a)


class bool_(metaclass=Ty):
    of = bool

    def __new__(cls, x=False):
        return x if isinstance(x, SB) else bool(x)


def lower(x):
    """concrete contents of an object array as an ordinary array; wrapped types as themselves"""
    if isinstance(x, Ty):
        return x.of
    if isinstance(x, np.ndarray) and x.dtype == object and not any(isinstance(v, Base) for v in x.flat):
        return np.array(x.tolist()) if x.size else np.zeros(x.shape)
    return x


FUNCS = set()


STUBS = {"matplotlib", "pandas", "sklearn", "komunikilo"}


class Stub(importlib.abc.Loader):
    """plotting and learning libraries, imported at the top of a module and never called here"""

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        def missing(n):
            if n.startswith("__"):
                raise AttributeError(n)

            def f(*a, **k):
                raise Unsupported("call of %s.%s" % (m.__name__, n))
            return f
        m.__getattr__ = missing


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in STUBS:
            return importlib.util.spec_from_loader(name, Stub(), is_package=True)
        p = os.path.join(self.root, *name.split(".")) + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=self)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        src = open(m.__spec__.origin).read()
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src)))
        m.__dict__.update({"__ks_ifexp": ifexp, "__ks_not": not_, "__ks_and": and_, "__ks_or": or_,
                           "complex": complex_, "float": float_, "int": int_, "bool": bool_})
        exec(compile(tree, m.__spec__.origin, "exec"), m.__dict__)
        for k, v in list(m.__dict__.items()):
            if v is np:
                m.__dict__[k] = NP()


def load(root, name):
    for k in [k for k, v in sys.modules.items() if getattr(v, "__file__", None) and str(v.__file__).startswith(root + os.sep)]:
        del sys.modules[k]
    f = Finder(root)
    sys.meta_path.insert(0, f)
    try:
        return importlib.import_module(name)
    finally:
        sys.meta_path.remove(f)


@contextlib.contextmanager
def quiet(root):
    def prof(fr, ev, arg):
        if ev == "call" and fr.f_code.co_filename.startswith(root):
            FUNCS.add("%s:%s" % (os.path.basename(fr.f_code.co_filename), fr.f_code.co_qualname))
    sys.setprofile(prof)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.setprofile(None)
