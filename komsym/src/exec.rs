//! Symbolic executor with state merging at post-dominators.
use crate::bc::*;
use crate::ll::*;
use crate::mem::*;
use crate::smt::{solve, Res};
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub struct Layout {
    m: &'static Module,
    fidx: HashMap<&'static str, u32>,
    pub fnames: Vec<&'static str>,
    inner: RefCell<LInner>,
}
struct LInner {
    gaddr: HashMap<String, u64>,
    next: u64,
    table: Vec<u32>, // granule -> gidx
    globs: Vec<(String, u64)>,
}
const GR: u64 = 32;
const GBASE: u64 = 1 << 32;
const FBASE: u64 = 2 << 32;

impl Layout {
    pub fn new(m: &'static Module) -> Layout {
        let mut names: Vec<&'static str> = m.funcs.keys().cloned().chain(m.decls.keys().cloned()).collect();
        names.sort();
        let fidx = names.iter().enumerate().map(|(i, n)| (*n, i as u32)).collect();
        Layout {
            m,
            fidx,
            fnames: names,
            inner: RefCell::new(LInner { gaddr: HashMap::new(), next: 0, table: vec![], globs: vec![] }),
        }
    }
}
impl Addr for Layout {
    fn addr(&self, name: &str) -> u64 {
        if let Some(i) = self.fidx.get(name) {
            return FBASE + 16 * (*i as u64 + 1);
        }
        if let Some(a) = self.inner.borrow().gaddr.get(name) {
            return *a;
        }
        let size = match self.m.parse_global(name) {
            Some((t, _)) => t.size(),
            None => 16,
        };
        let mut l = self.inner.borrow_mut();
        let off = l.next;
        let gi = l.globs.len() as u32;
        let gran = (size + GR) / GR + 1;
        for _ in 0..gran {
            l.table.push(gi);
        }
        l.next += gran * GR;
        l.globs.push((name.to_string(), off));
        l.gaddr.insert(name.to_string(), GBASE + off);
        GBASE + off
    }
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub gmem: Mem,
    pub pc: Vec<V>,
}
#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
}
enum End {
    Stop,
    Ret(V),
}
type Out = Vec<(Frame, State, End)>;

#[derive(Clone, Debug)]
pub struct Failure {
    pub id: String,
    pub inputs: Option<Vec<InVal>>,
    pub kind: &'static str,
}
#[derive(Clone)]
pub struct Obs {
    pub float: bool,
    pub v: V,
    pub pc: Vec<V>,
}

pub struct Exec {
    pub m: &'static Module,
    pub lay: Layout,
    pub t: Terms,
    funcs: HashMap<String, Rc<Func>>,
    base_glob: HashMap<u32, Rc<Obj>>,
    next_id: u32,
    pub params: Vec<u64>,
    pub fparams: Vec<f64>,
    pub steps: u64,
    pub branches: u64,
    pub merges: u64,
    pub forks: u64,
    pub max_steps: u64,
    pub checks: u64,
    pub proved: u64,
    pub trivially: u64,
    pub inconclusive: Vec<String>,
    pub failures: Vec<Failure>,
    pub obs: Vec<Obs>,
    pub reached: BTreeMap<u64, u64>,
    pub debug: bool,
    pub called: HashSet<String>,
    pub may_panic: Option<V>,
    pub stop: Option<String>,
    /// the path the execution stopped on
    pub stop_pc: Option<Vec<V>>,
    seed: u64,
    pub trace: bool,
    pub panics_ok: u64,
    pub errno: Option<u64>,
    pub max_fail: usize,
    pub deadline: std::time::Instant,
    pub stack: Vec<String>,
    pub batch: Vec<(V, V)>,
}

fn c64(v: &V) -> Option<u64> {
    match v {
        V::C(c) => Some(*c),
        _ => None,
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exec {
    pub fn new(m: &'static Module, t: Terms, secs: u64) -> Exec {
        Exec {
            m,
            lay: Layout::new(m),
            t,
            funcs: HashMap::new(),
            base_glob: HashMap::new(),
            next_id: 16,
            params: vec![],
            fparams: vec![],
            steps: 0,
            branches: 0,
            merges: 0,
            forks: 0,
            max_steps: 4_000_000_000,
            checks: 0,
            proved: 0,
            trivially: 0,
            inconclusive: vec![],
            failures: vec![],
            obs: vec![],
            reached: BTreeMap::new(),
            called: HashSet::new(),
            debug: std::env::var("KS_DBG").is_ok(),
            may_panic: None,
            stop: None,
            stop_pc: None,
            seed: 1,
            trace: std::env::var("KOMSYM_TRACE").is_ok(),
            panics_ok: 0,
            errno: None,
            max_fail: 3,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
            stack: vec![],
            batch: vec![],
        }
    }
    pub fn set_seed(&mut self, s: u64) {
        self.seed = s;
    }
    fn func(&mut self, n: &str) -> Rc<Func> {
        if let Some(f) = self.funcs.get(n) {
            return f.clone();
        }
        let f = Rc::new(compile(self.m, n, &self.lay));
        self.funcs.insert(n.to_string(), f.clone());
        f
    }
    fn abort(&mut self, why: String) {
        if self.stop.is_none() {
            let st = self.stack.join(" < ");
            self.stop = Some(format!("{} [in {}]", why, st));
        }
    }
    fn bad(&mut self) -> bool {
        if self.stop.is_some() {
            return true;
        }
        if let Some(u) = self.t.unsupported.take() {
            self.abort(u);
            return true;
        }
        false
    }

    // ---------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        if self.next_id >= 1 << 24 {
            self.abort("too many objects".into());
        }
        if size > 1 << 31 {
            self.abort(format!("allocation of {} bytes", size));
            return 0;
        }
        st.mem.set(id, Some(Rc::new(Obj::new(size))));
        (id as u64) << 32
    }
    fn glob(&mut self, off: u64) -> Option<(u32, u64)> {
        let l = self.lay.inner.borrow();
        let gi = *l.table.get((off / GR) as usize)?;
        Some((gi, off - l.globs[gi as usize].1))
    }
    fn glob_base(&mut self, gi: u32) -> Rc<Obj> {
        if let Some(o) = self.base_glob.get(&gi) {
            return o.clone();
        }
        let name = self.lay.inner.borrow().globs[gi as usize].0.clone();
        let o = match self.m.parse_global(&name) {
            Some((t, init)) => {
                let mut b = vec![0u8; t.size() as usize];
                if let Some(c) = init {
                    cst_bytes(&c, &t, &self.lay, &mut b);
                }
                Rc::new(Obj::from_bytes(&b))
            }
            None => Rc::new(Obj::new(16)),
        };
        self.base_glob.insert(gi, o.clone());
        o
    }
    /// resolve a concrete address range
    fn locate(&mut self, st: &State, a: u64, n: u64) -> Option<(bool, u32, usize)> {
        let hi = (a >> 32) as u32;
        let off = a & 0xffff_ffff;
        if hi == 1 {
            let (gi, o) = self.glob(off)?;
            let b = self.glob_base(gi);
            if o + n > b.size {
                return None;
            }
            Some((true, gi, o as usize))
        } else if hi >= 16 {
            let o = st.mem.get(hi)?;
            if off + n > o.size {
                return None;
            }
            Some((false, hi, off as usize))
        } else {
            None
        }
    }
    fn oob(&mut self, st: &State, a: u64, n: u64, what: &str) {
        // an invalid access is only an error when the path is feasible
        let r = solve(&mut self.t, &st.pc, false);
        if r.0 == Res::Unsat {
            return;
        }
        self.abort(format!("invalid {} at {:#x} size {}", what, a, n));
    }
    pub fn read(&mut self, st: &State, a: u64, n: usize) -> V {
        if n == 0 {
            return V::C(0);
        }
        match self.locate(st, a, n as u64) {
            Some((false, id, o)) => st.mem.get(id).unwrap().read(&mut self.t, o, n),
            Some((true, gi, o)) => match st.gmem.get(gi) {
                Some(ob) => ob.read(&mut self.t, o, n),
                None => {
                    let b = self.glob_base(gi);
                    b.read(&mut self.t, o, n)
                }
            },
            None => {
                self.oob(st, a, n as u64, "read");
                V::C(0)
            }
        }
    }
    pub fn write(&mut self, st: &mut State, a: u64, n: usize, v: &V) {
        if n == 0 {
            return;
        }
        match self.locate(st, a, n as u64) {
            Some((false, id, o)) => st.mem.get_mut(id).unwrap().write(&mut self.t, o, n, v),
            Some((true, gi, o)) => {
                if st.gmem.get(gi).is_none() {
                    let b = self.glob_base(gi);
                    st.gmem.set(gi, Some(b));
                }
                st.gmem.get_mut(gi).unwrap().write(&mut self.t, o, n, v)
            }
            None => self.oob(st, a, n as u64, "write"),
        }
    }
    fn obj_rc(&mut self, st: &State, a: u64, n: u64) -> Option<(Rc<Obj>, usize)> {
        match self.locate(st, a, n) {
            Some((false, id, o)) => Some((st.mem.get(id).unwrap().clone(), o)),
            Some((true, gi, o)) => {
                let b = match st.gmem.get(gi) {
                    Some(b) => b.clone(),
                    None => self.glob_base(gi),
                };
                Some((b, o))
            }
            None => None,
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> Option<(&'a mut Obj, usize)> {
        match self.locate(st, a, n) {
            Some((false, id, o)) => Some((st.mem.get_mut(id).unwrap(), o)),
            Some((true, gi, o)) => {
                if st.gmem.get(gi).is_none() {
                    let b = self.glob_base(gi);
                    st.gmem.set(gi, Some(b));
                }
                Some((st.gmem.get_mut(gi).unwrap(), o))
            }
            None => None,
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) {
        if n == 0 {
            return;
        }
        let (so, soff) = match self.obj_rc(st, s, n) {
            Some(x) => x,
            None => return self.oob(st, s, n, "copy source"),
        };
        let mut t = std::mem::replace(&mut self.t, Terms::dummy());
        let ok = match self.obj_mut(st, d, n) {
            Some((o, off)) => {
                o.copy_in(&mut t, off, &so, soff, n as usize);
                true
            }
            None => false,
        };
        self.t = t;
        if !ok {
            self.oob(st, d, n, "copy target");
        }
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> V {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, t) = ty.field(i);
                    v.push(self.load_ty(st, a + o, &t));
                }
                V::A(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                if **e == Ty::Int(1) {
                    let b = self.read(st, a, ty.size() as usize);
                    let v = (0..*n).map(|i| self.bin(B::LShr, 64, &b, &V::C(i), false)).collect::<Vec<_>>();
                    let v = v.iter().map(|x| self.trunc(x, 1)).collect();
                    return V::A(Rc::new(v));
                }
                let s = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * s, e));
                }
                V::A(Rc::new(v))
            }
            Ty::Int(1) => {
                let v = self.read(st, a, 1);
                self.trunc(&v, 1)
            }
            t => {
                let v = self.read(st, a, t.size() as usize);
                match (t, v) {
                    (Ty::Int(w), V::C(c)) if *w < 64 => V::C(c & m64(*w)),
                    (_, v) => v,
                }
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) {
        match (ty, v) {
            (Ty::Arr(..) | Ty::Struct(..), V::A(x)) => {
                for i in 0..ty.nfields() {
                    let (o, t) = ty.field(i);
                    self.store_ty(st, a + o, &t, &x[i].clone());
                }
            }
            (Ty::Vec(n, e), V::A(x)) => {
                if **e == Ty::Int(1) {
                    let mut acc = V::C(0);
                    for i in 0..*n as usize {
                        let s = self.bin(B::Shl, 64, &x[i], &V::C(i as u64), false);
                        acc = self.bin(B::Or, 64, &acc, &s, false);
                    }
                    self.write(st, a, ty.size() as usize, &acc);
                    return;
                }
                let s = e.size();
                for i in 0..*n {
                    self.store_ty(st, a + i * s, e, &x[i as usize].clone());
                }
            }
            (t, v) => self.write(st, a, t.size() as usize, v),
        }
    }

    /// load through a tabulated address where every entry addresses a constant
    fn lookup(&mut self, st: &State, a: &V, ty: &Ty) -> Option<V> {
        let V::T(t) = a else { return None };
        let n = match ty {
            Ty::Int(w) if *w > 1 && *w <= 64 => ty.size(),
            Ty::F64 => 8,
            _ => return None,
        };
        let mut m: HashMap<u64, u64> = HashMap::new();
        for &x in &t.vals {
            if !m.contains_key(&x) {
                self.locate(st, x, n)?;
                let V::C(c) = self.load_ty(st, x, ty) else { return None };
                m.insert(x, c);
            }
        }
        Some(map1(t, |x| m[&x]))
    }
    // ---------- scalar operations
    fn trunc(&mut self, v: &V, w: u32) -> V {
        match v {
            V::C(c) => V::C(c & m64(w)),
            V::W(x) => {
                if w > 64 {
                    V::W(Rc::new(**x & mask(w)))
                } else {
                    V::C((**x & mask(w)) as u64)
                }
            }
            V::T(t) => map1(t, |x| x & m64(w)),
            V::X(x) => {
                let bits = x.bits[..w as usize].to_vec();
                let v = Terms::mk_xor(Xor { w, bits });
                if w == 1 {
                    self.t.as_bool_tab(&v)
                } else {
                    v
                }
            }
            V::N(_) => {
                let n = self.t.node_of_int(v, 64);
                let r = self.t.wrap(n, w);
                if w == 1 {
                    let one = self.t.ic(1);
                    return self.t.icmp_nodes(Pred::Eq, r, one);
                }
                self.t.mk_int(r)
            }
            V::A(_) => V::C(0),
        }
    }
    fn to_w(v: &V) -> Option<u128> {
        match v {
            V::C(c) => Some(*c as u128),
            V::W(w) => Some(**w),
            _ => None,
        }
    }
    fn mk_w(x: u128, w: u32) -> V {
        if w > 64 {
            V::W(Rc::new(x & mask(w)))
        } else {
            V::C((x & mask(w)) as u64)
        }
    }
    fn bin_w(&mut self, op: B, w: u32, a: &V, b: &V) -> V {
        let (x, y) = match (Self::to_w(a), Self::to_w(b)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                self.abort("symbolic wide integer".into());
                return V::W(Rc::new(0));
            }
        };
        let r = match op {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::UDiv => x.checked_div(y).unwrap_or(0),
            B::URem => x.checked_rem(y).unwrap_or(0),
            B::SDiv => sext(x, w).checked_div(sext(y, w)).unwrap_or(0) as u128,
            B::SRem => sext(x, w).checked_rem(sext(y, w)).unwrap_or(0) as u128,
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => x.checked_shl(y as u32).unwrap_or(0),
            B::LShr => x.checked_shr(y as u32).unwrap_or(0),
            B::AShr => (sext(x, w) >> (y as u32).min(127)) as u128,
            _ => 0,
        };
        Self::mk_w(r, w)
    }
    fn bin(&mut self, op: B, w: u32, a: &V, b: &V, disj: bool) -> V {
        if w > 64 {
            return self.bin_w(op, w, a, b);
        }
        let m = m64(w);
        let g = |x: u64, y: u64| -> u64 {
            (match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::UDiv => x.checked_div(y).unwrap_or(0),
                B::URem => x.checked_rem(y).unwrap_or(0),
                B::SDiv => sx(x, w).checked_div(sx(y, w)).unwrap_or(0) as u64,
                B::SRem => sx(x, w).checked_rem(sx(y, w)).unwrap_or(0) as u64,
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx(x, w) >> y.min(63)) as u64,
                _ => 0,
            }) & m
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(g(*x, *y));
        }
        // wide unions: keep xor-linear words linear
        if w > 1 && matches!(op, B::Xor | B::Or | B::And | B::Shl | B::LShr) && self.t.wide(&[a, b]) {
            if let Some(v) = self.bin_xor(op, w, a, b) {
                return v;
            }
        }
        if !matches!(a, V::X(_)) && !matches!(b, V::X(_)) {
            if let Some(v) = mapn(self.t.kmax, &[a, b], |x| g(x[0], x[1])) {
                return v;
            }
        }
        // algebraic shortcuts
        match op {
            B::And => {
                for (x, y) in [(a, b), (b, a)] {
                    if let V::C(0) = x {
                        return V::C(0);
                    }
                    if matches!(x, V::C(c) if *c == m) {
                        return y.clone();
                    }
                }
            }
            B::Or | B::Xor | B::Add => {
                for (x, y) in [(a, b), (b, a)] {
                    if let V::C(0) = x {
                        return y.clone();
                    }
                }
            }
            B::Sub | B::Shl | B::LShr | B::AShr => {
                if let V::C(0) = b {
                    return a.clone();
                }
            }
            _ => {}
        }
        if w == 1 {
            let a = self.t.as_bool_tab(a);
            let b = self.t.as_bool_tab(b);
            return match op {
                B::And | B::Mul => self.t.and(&a, &b),
                B::Or => self.t.or(&a, &b),
                B::Xor | B::Add | B::Sub => self.t.xor_bool(&a, &b),
                _ => {
                    self.abort(format!("i1 {:?}", op));
                    V::C(0)
                }
            };
        }
        // xor-linear words
        let lin = matches!(op, B::Xor)
            || (matches!(op, B::And | B::Shl | B::LShr) && c64(b).is_some())
            || (op == B::And && c64(a).is_some())
            || op == B::Or;
        if lin && (matches!(a, V::X(_) | V::T(_) | V::C(_)) && matches!(b, V::X(_) | V::T(_) | V::C(_))) {
            if let Some(v) = self.bin_xor(op, w, a, b) {
                return v;
            }
        }
        // xor-linear over few marked atoms: tabulate
        if matches!(a, V::X(_)) || matches!(b, V::X(_)) {
            if let (Some(x), Some(y)) = (self.t.marked_v(a), self.t.marked_v(b)) {
                if let Some(v) = mapn(self.t.kmax, &[&x, &y], |x| g(x[0], x[1])) {
                    return v;
                }
            }
        }
        // a xor-linear word over atoms the other operand tabulates already
        if let (V::X(x), V::T(o)) | (V::T(o), V::X(x)) = (a, b) {
            let o = o.atoms.clone();
            if x.bits.iter().all(|f| f.1.iter().all(|k| o.contains(k))) && o.len() <= self.t.kmax {
                let (p, q) = (
                    if let V::X(x) = a { self.t.xor_tab(x) } else { Some(a.clone()) },
                    if let V::X(x) = b { self.t.xor_tab(x) } else { Some(b.clone()) },
                );
                if let (Some(p), Some(q)) = (p, q) {
                    if let Some(v) = mapn(self.t.kmax, &[&p, &q], |x| g(x[0], x[1])) {
                        return v;
                    }
                }
            }
        }
        // bit by bit, each bit a defined atom
        if matches!(op, B::Xor) && w <= 16 && matches!(a, V::X(_) | V::T(_)) && matches!(b, V::X(_) | V::T(_)) {
            let bit = |s: &mut Self, v: &V, i: u32| -> V {
                match v {
                    V::X(x) => match x.bits.get(i as usize) {
                        Some(f) => s.t.xor_bit(&f.clone()),
                        None => V::C(0),
                    },
                    _ => mapn(64, &[v], |x| x[0] >> i & 1).unwrap_or(V::C(0)),
                }
            };
            let mut acc = Some(V::C(0));
            for i in 0..w {
                let (p, q) = (bit(self, a, i), bit(self, b, i));
                let r = self.t.xor_def(&p, &q);
                acc = acc.and_then(|v| mapn(self.t.kmax.max(8), &[&v, &r], |x| x[0] | (x[1] & 1) << i));
            }
            if let Some(v) = acc {
                return v;
            }
        }
        // integer nodes
        let (x, y) = (self.t.node_of_int(a, w), self.t.node_of_int(b, w));
        let modw = 1i128 << w;
        let n = match op {
            B::Add => {
                let n = self.t.iadd(x, y);
                self.t.wrap(n, w)
            }
            B::Sub => {
                let n = self.t.isub(x, y);
                self.t.wrap(n, w)
            }
            B::Mul => {
                let n = self.t.imul(x, y);
                self.t.wrap(n, w)
            }
            B::UDiv | B::URem => {
                if self.t.irng(y).0 <= 0 {
                    self.abort("division by an integer that may be zero".into());
                }
                if op == B::UDiv {
                    self.t.idiv(x, y)
                } else {
                    self.t.irem(x, y)
                }
            }
            B::SDiv | B::SRem => {
                let h = modw / 2;
                if self.t.irng(x).1 < h && self.t.irng(y).1 < h && self.t.irng(y).0 > 0 {
                    if op == B::SDiv {
                        self.t.idiv(x, y)
                    } else {
                        self.t.irem(x, y)
                    }
                } else {
                    self.abort("signed division of symbolic integers".into());
                    x
                }
            }
            B::Shl => match c64(b) {
                Some(k) if k < w as u64 => {
                    let c = self.t.ic(1i128 << k);
                    let n = self.t.imul(x, c);
                    self.t.wrap(n, w)
                }
                _ => match tab_of(b) {
                    Some(t) if c64(a).is_some() || true => {
                        let mut p = t.clone();
                        for v in p.vals.iter_mut() {
                            *v = if *v >= w as u64 { 0 } else { 1 << *v };
                        }
                        let pv = p.reduce();
                        let pn = self.t.node_of_int(&pv, w);
                        let n = self.t.imul(x, pn);
                        self.t.wrap(n, w)
                    }
                    _ => {
                        self.abort("symbolic shift amount".into());
                        x
                    }
                },
            },
            B::LShr => match c64(b) {
                Some(k) if k < w as u64 => {
                    let c = self.t.ic(1i128 << k);
                    self.t.idiv(x, c)
                }
                _ => {
                    self.abort("symbolic shift amount".into());
                    x
                }
            },
            B::AShr => match c64(b) {
                Some(k) if self.t.irng(x).1 < modw / 2 => {
                    let c = self.t.ic(1i128 << k.min(62));
                    self.t.idiv(x, c)
                }
                _ => {
                    self.abort("arithmetic shift of a symbolic integer".into());
                    x
                }
            },
            B::And => {
                let (n, k) = if let Some(k) = c64(b) { (x, Some(k)) } else { (y, c64(a)) };
                match k {
                    Some(k) if k & (k.wrapping_add(1)) == 0 => {
                        let c = self.t.ic(k as i128 + 1);
                        self.t.irem(n, c)
                    }
                    Some(k) if (!k & m) & ((!k & m) + 1) == 0 => {
                        let c = self.t.ic((!k & m) as i128 + 1);
                        let r = self.t.irem(n, c);
                        let z = self.t.isub(n, r);
                        self.t.wrap(z, w)
                    }
                    Some(k) if k.count_ones() == 1 => {
                        let tz = k.trailing_zeros();
                        let c = self.t.ic(1i128 << tz);
                        let d = self.t.idiv(n, c);
                        let two = self.t.ic(2);
                        let r = self.t.irem(d, two);
                        self.t.imul(r, c)
                    }
                    _ => {
                        self.abort("bitwise and of symbolic integers".into());
                        n
                    }
                }
            }
            B::Or if disj => {
                let n = self.t.iadd(x, y);
                self.t.wrap(n, w)
            }
            B::Xor if matches!(c64(b), Some(k) if k == m) => {
                let c = self.t.ic(m as i128);
                let n = self.t.isub(c, x);
                n
            }
            _ => {
                if self.debug {
                    eprintln!("{:?} {} {:?} {:?} {:?} {:?}", op, w, a, b, self.t.nodes[x as usize], self.t.nodes[y as usize]);
                }
                self.abort(format!("{:?} of symbolic integers", op));
                x
            }
        };
        self.t.mk_int(n)
    }
    /// a table that is xor-linear except where all its atoms are clear, on a path that excludes that point:
    /// the linear table (the values agree wherever the path leads)
    fn care_linear(&self, st: &State, v: V) -> V {
        let V::T(t) = &v else { return v };
        let n = t.atoms.len();
        if n < 2 || n > 20 || t.vals.iter().all(|x| *x <= 1) {
            return v;
        }
        let conj: Vec<&Tab> = st
            .pc
            .iter()
            .filter_map(|c| match c {
                V::T(p) if p.atoms.iter().all(|a| t.atoms.contains(a)) => Some(&**p),
                _ => None,
            })
            .collect();
        if conj.is_empty() {
            return v;
        }
        let mut care = vec![true; t.vals.len()];
        for p in conj {
            let pos: Vec<usize> = p.atoms.iter().map(|a| t.atoms.binary_search(a).unwrap()).collect();
            for (j, c) in care.iter_mut().enumerate() {
                if *c {
                    let i = pos.iter().enumerate().fold(0usize, |i, (k, q)| i | (j >> q & 1) << k);
                    *c = p.vals[i] & 1 != 0;
                }
            }
        }
        // affine fit over the points the path allows
        let mut basis: Vec<(u64, u64)> = vec![];
        for (j, c) in care.iter().enumerate() {
            if !*c {
                continue;
            }
            let (mut x, mut y) = ((j as u64) | 1 << n, t.vals[j]);
            for (bx, by) in &basis {
                if x ^ bx < x && (x >> (63 - bx.leading_zeros())) & 1 != 0 {
                    x ^= bx;
                    y ^= by;
                }
            }
            if x == 0 {
                if y != 0 {
                    return v;
                }
                continue;
            }
            let top = 63 - x.leading_zeros();
            for (bx, by) in basis.iter_mut() {
                if *bx >> top & 1 != 0 {
                    *bx ^= x;
                    *by ^= y;
                }
            }
            basis.push((x, y));
        }
        let mut lin = vec![0u64; n + 1];
        for (bx, by) in &basis {
            // free unknowns are zero: each leading unknown is the reduced right-hand side
            lin[(63 - bx.leading_zeros()) as usize] = *by;
        }
        let mut r = (**t).clone();
        for (j, val) in r.vals.iter_mut().enumerate() {
            *val = (0..n).fold(lin[n], |e, k| if j >> k & 1 != 0 { e ^ lin[k] } else { e });
        }
        if r.vals == t.vals {
            return v;
        }
        r.reduce()
    }
    fn bin_xor(&mut self, op: B, w: u32, a: &V, b: &V) -> Option<V> {
        let conv = |s: &mut Self, v: &V| -> Option<Xor> {
            let mut x = s.t.to_xor(v, w)?;
            while x.bits.len() < w as usize {
                x.bits.push((false, Rc::new(vec![])));
            }
            x.w = w;
            Some(x)
        };
        let r = match op {
            B::Xor => {
                let (x, y) = (conv(self, a)?, conv(self, b)?);
                let bits = (0..w as usize)
                    .map(|i| (x.bits[i].0 ^ y.bits[i].0, Rc::new(Terms::symdiff(&x.bits[i].1, &y.bits[i].1))))
                    .collect();
                Xor { w, bits }
            }
            B::And => {
                let (v, k) = if let V::C(k) = b { (a, *k) } else { (b, c64(a)?) };
                let mut x = conv(self, v)?;
                for i in 0..w as usize {
                    if k >> i & 1 == 0 {
                        x.bits[i] = (false, Rc::new(vec![]));
                    }
                }
                x
            }
            B::Or => {
                let (x, y) = (conv(self, a)?, conv(self, b)?);
                let mut bits = vec![];
                for i in 0..w as usize {
                    let (p, q) = (&x.bits[i], &y.bits[i]);
                    let z = |b: &(bool, Rc<Vec<u32>>)| b.1.is_empty() && !b.0;
                    if z(p) {
                        bits.push(q.clone());
                    } else if z(q) {
                        bits.push(p.clone());
                    } else if (p.1.is_empty() && p.0) || (q.1.is_empty() && q.0) {
                        bits.push((true, Rc::new(vec![])));
                    } else if p == q {
                        bits.push(p.clone());
                    } else {
                        return None;
                    }
                }
                Xor { w, bits }
            }
            B::Shl => {
                let k = c64(b)? as usize;
                let x = conv(self, a)?;
                let mut bits = vec![(false, Rc::new(vec![])); k.min(w as usize)];
                bits.extend(x.bits.into_iter().take((w as usize).saturating_sub(k)));
                Xor { w, bits }
            }
            B::LShr => {
                let k = c64(b)? as usize;
                let x = conv(self, a)?;
                let mut bits: Vec<_> = x.bits.into_iter().skip(k).collect();
                while bits.len() < w as usize {
                    bits.push((false, Rc::new(vec![])));
                }
                Xor { w, bits }
            }
            _ => return None,
        };
        Some(Terms::mk_xor(r))
    }
    /// narrow table form of an xor word where other operations need it
    fn norm(&mut self, v: &V) -> V {
        if let V::X(x) = v {
            let x = (**x).clone();
            if let Some(t) = self.t.xor_tab(&x) {
                return t;
            }
        }
        v.clone()
    }
    fn icmp(&mut self, p: IP, w: u32, a: &V, b: &V) -> V {
        if w > 64 {
            return match (Self::to_w(a), Self::to_w(b)) {
                (Some(x), Some(y)) => {
                    let (sx_, sy) = (sext(x, w), sext(y, w));
                    V::C(match p {
                        IP::Eq => x == y,
                        IP::Ne => x != y,
                        IP::Ugt => x > y,
                        IP::Uge => x >= y,
                        IP::Ult => x < y,
                        IP::Ule => x <= y,
                        IP::Sgt => sx_ > sy,
                        IP::Sge => sx_ >= sy,
                        IP::Slt => sx_ < sy,
                        IP::Sle => sx_ <= sy,
                    } as u64)
                }
                _ => {
                    self.abort("compare of wide symbolic integers".into());
                    V::C(0)
                }
            };
        }
        let g = |x: u64, y: u64| -> u64 {
            (match p {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Sgt => sx(x, w) > sx(y, w),
                IP::Sge => sx(x, w) >= sx(y, w),
                IP::Slt => sx(x, w) < sx(y, w),
                IP::Sle => sx(x, w) <= sx(y, w),
            }) as u64
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(g(*x, *y));
        }
        let wide = w > 1 && matches!(p, IP::Eq | IP::Ne) && self.t.wide(&[a, b]);
        if wide {
        } else if let Some(v) = mapn(self.t.kmax, &[a, b], |x| g(x[0], x[1])) {
            return v;
        }
        // equality of xor-linear words / bools
        if matches!(p, IP::Eq | IP::Ne) && (matches!(a, V::X(_)) || matches!(b, V::X(_)) || (matches!(a, V::T(_)) && matches!(b, V::T(_)))) {
            if let (Some(x), Some(y)) = (self.t.to_xor(a, w), self.t.to_xor(b, w)) {
                let mut acc = V::C(1);
                let (mut x, mut y) = (x, y);
                while x.bits.len() < w as usize {
                    x.bits.push((false, Rc::new(vec![])));
                }
                while y.bits.len() < w as usize {
                    y.bits.push((false, Rc::new(vec![])));
                }
                for i in 0..w as usize {
                    let d = (
                        !(x.bits[i].0 ^ y.bits[i].0),
                        Rc::new(Terms::symdiff(&x.bits[i].1, &y.bits[i].1)),
                    );
                    let e = self.t.xor_bit(&d);
                    acc = self.t.and(&acc, &e);
                    if let V::C(0) = acc {
                        break;
                    }
                }
                return if p == IP::Eq { acc } else { self.t.not(&acc) };
            }
        }
        if w == 1 {
            let x = self.t.as_bool_tab(a);
            let y = self.t.as_bool_tab(b);
            let d = self.t.xor_bool(&x, &y);
            return match p {
                IP::Ne => d,
                IP::Eq => self.t.not(&d),
                _ => {
                    self.abort("i1 order".into());
                    d
                }
            };
        }
        // pointers or ints as tables too wide for one table
        let (na, nb) = (self.norm(a), self.norm(b));
        if let Some(v) = mapn(self.t.kmax, &[&na, &nb], |x| g(x[0], x[1])) {
            return v;
        }
        let (mut x, mut y) = (self.t.node_of_int(&na, w), self.t.node_of_int(&nb, w));
        let pred = match p {
            IP::Eq => Pred::Eq,
            IP::Ne => Pred::Ne,
            IP::Ugt | IP::Sgt => Pred::Gt,
            IP::Uge | IP::Sge => Pred::Ge,
            IP::Ult | IP::Slt => Pred::Lt,
            IP::Ule | IP::Sle => Pred::Le,
        };
        if matches!(p, IP::Sgt | IP::Sge | IP::Slt | IP::Sle) {
            let h = 1i128 << (w - 1);
            if self.t.irng(x).1 >= h || self.t.irng(y).1 >= h {
                let c = self.t.ic(h);
                let s = self.t.iadd(x, c);
                x = self.t.wrap(s, w);
                let s = self.t.iadd(y, c);
                y = self.t.wrap(s, w);
            }
        }
        self.t.icmp_nodes(pred, x, y)
    }
    fn fcmp(&mut self, p: FP, a: &V, b: &V) -> V {
        let nan = |v: &V| match v {
            V::C(c) => f64::from_bits(*c).is_nan(),
            _ => false,
        };
        // tables may contain NaN: exact evaluation
        let ex = |p: FP, x: f64, y: f64| -> bool {
            let r = |q: Pred| match q {
                Pred::Eq => x == y,
                Pred::Ne => x != y && !x.is_nan() && !y.is_nan(),
                Pred::Gt => x > y,
                Pred::Ge => x >= y,
                Pred::Lt => x < y,
                Pred::Le => x <= y,
            };
            let un = x.is_nan() || y.is_nan();
            match p {
                FP::False => false,
                FP::True => true,
                FP::Ord => !un,
                FP::Uno => un,
                FP::O(q) => !un && r(q),
                FP::U(q) => un || r(q),
            }
        };
        if let Some(v) =
            mapn(self.t.kmax, &[a, b], |x| ex(p, f64::from_bits(x[0]), f64::from_bits(x[1])) as u64)
        {
            return v;
        }
        if nan(a) || nan(b) {
            return V::C(ex(p, f64::NAN, 0.0) as u64);
        }
        match p {
            FP::False => V::C(0),
            FP::True | FP::Ord => V::C(1),
            FP::Uno => V::C(0),
            FP::O(q) | FP::U(q) => self.t.fcmp(q, a, b),
        }
    }
    fn cast(&mut self, k: &str, from: &Ty, to: &Ty, a: &V) -> V {
        if let V::A(v) = a {
            if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) {
                if n == m {
                    let r: Vec<V> = v.iter().map(|x| self.cast(k, f, t, x)).collect();
                    return V::A(Rc::new(r));
                }
            }
            if k == "bitcast" {
                return self.bitcast_agg(from, to, v);
            }
        }
        if k == "bitcast" && matches!(to, Ty::Vec(..)) {
            return self.bitcast_agg(from, to, &[a.clone()]);
        }
        match k {
            "bitcast" => a.clone(),
            "zext" => {
                let w = to.int_width();
                match a {
                    V::C(c) if w > 64 => V::W(Rc::new(*c as u128)),
                    V::X(x) => {
                        let mut x = (**x).clone();
                        while x.bits.len() < w as usize {
                            x.bits.push((false, Rc::new(vec![])));
                        }
                        x.w = w;
                        V::X(Rc::new(x))
                    }
                    _ => {
                        if w > 64 && !matches!(a, V::W(_)) {
                            self.abort("symbolic wide integer".into());
                        }
                        a.clone()
                    }
                }
            }
            "sext" => {
                let (f, w) = (from.int_width(), to.int_width());
                match a {
                    V::C(c) if w > 64 => Self::mk_w(sext(*c as u128, f) as u128, w),
                    V::C(c) => V::C(sx(*c, f) as u64 & m64(w)),
                    V::T(t) => map1(t, |x| sx(x, f) as u64 & m64(w)),
                    V::W(x) => Self::mk_w(sext(**x, f) as u128, w),
                    V::N(n) => {
                        let n = *n;
                        if self.t.irng(n).1 < 1i128 << (f - 1) {
                            return a.clone();
                        }
                        // ((x + h) mod 2^f) - h  mod 2^w
                        let h = self.t.ic(1i128 << (f - 1));
                        let s = self.t.iadd(n, h);
                        let s = self.t.wrap(s, f);
                        let s = self.t.isub(s, h);
                        let s = self.t.wrap(s, w);
                        self.t.mk_int(s)
                    }
                    _ => {
                        let v = self.norm(a);
                        if matches!(v, V::X(_)) {
                            self.abort("sext of a xor word".into());
                            return V::C(0);
                        }
                        self.cast(k, from, to, &v)
                    }
                }
            }
            "trunc" => self.trunc(a, to.int_width()),
            "uitofp" | "sitofp" => {
                let f = from.int_width();
                let sg = k == "sitofp";
                if *to == Ty::F32 {
                    return match a {
                        V::C(c) => V::C(if sg { (sx(*c, f) as f32).to_bits() } else { (*c as f32).to_bits() } as u64),
                        _ => {
                            self.abort("f32".into());
                            V::C(0)
                        }
                    };
                }
                let cv = |x: u64| if sg { sx(x, f) as f64 } else { x as f64 };
                match a {
                    V::C(c) => V::C(cv(*c).to_bits()),
                    V::T(t) => map1(t, |x| cv(x).to_bits()),
                    V::W(w) => V::C(if sg { sext(**w, f) as f64 } else { **w as f64 }.to_bits()),
                    V::X(_) => {
                        let v = self.norm(a);
                        let n = self.t.node_of_int(&v, f);
                        self.t.int_to_real(n)
                    }
                    V::N(n) => {
                        if sg && self.t.irng(*n).1 >= 1i128 << (f - 1) {
                            let h = self.t.ic(1i128 << (f - 1));
                            let s = self.t.iadd(*n, h);
                            let s = self.t.wrap(s, f);
                            let s = self.t.isub(s, h);
                            return self.t.int_to_real(s);
                        }
                        self.t.int_to_real(*n)
                    }
                    _ => V::C(0),
                }
            }
            "fpext" => match a {
                V::C(c) => V::C((f32::from_bits(*c as u32) as f64).to_bits()),
                _ => {
                    self.abort("f32".into());
                    V::C(0)
                }
            },
            "fptrunc" => match a {
                V::C(c) => V::C((f64::from_bits(*c) as f32).to_bits() as u64),
                _ => {
                    self.abort("f32".into());
                    V::C(0)
                }
            },
            "fptoui" | "fptosi" => self.fp_to_int(a, to.int_width(), k == "fptosi", *from == Ty::F32),
            k => {
                self.abort(format!("cast {}", k));
                V::C(0)
            }
        }
    }
    fn fp_to_int(&mut self, a: &V, w: u32, signed: bool, f32_: bool) -> V {
        let cv = |x: u64| -> u64 {
            let v = if f32_ { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
            if v.is_nan() {
                return 0;
            }
            if signed {
                let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
                if v <= lo {
                    (1u64 << (w - 1)) & m64(w)
                } else if v >= hi {
                    m64(w) >> 1
                } else {
                    (v as i64 as u64) & m64(w)
                }
            } else if v <= 0.0 {
                0
            } else if v >= 2f64.powi(w as i32) {
                m64(w)
            } else {
                v as u64
            }
        };
        match a {
            V::C(c) => V::C(cv(*c)),
            V::T(t) => map1(t, cv),
            V::N(n) => {
                let mut n = *n;
                if self.t.nodes[n as usize].is_int {
                    self.abort("fptoint of int".into());
                }
                let (lo, hi) = self.t.rng(n);
                if hi >= 2f64.powi(if signed { w as i32 - 1 } else { w as i32 }) {
                    self.abort("fptoint range".into());
                    return V::C(0);
                }
                if lo < 0.0 {
                    if signed {
                        let i = self.t.trunc_real(n);
                        let r = self.t.wrap(i, w);
                        return self.t.mk_int(r);
                    }
                    n = self.t.clamp0(n);
                }
                let i = self.t.trunc_real(n);
                self.t.mk_int(i)
            }
            _ => {
                self.abort("fptoint".into());
                V::C(0)
            }
        }
    }
    fn bitcast_agg(&mut self, from: &Ty, to: &Ty, v: &[V]) -> V {
        // via a scratch object
        let n = from.size().max(to.size());
        let mut o = Obj::new(n.max(8));
        let put = |s: &mut Self, o: &mut Obj, off: usize, t: &Ty, v: &V| {
            o.write(&mut s.t, off, t.size() as usize, v);
        };
        match from {
            Ty::Vec(k, e) => {
                if **e == Ty::Int(1) {
                    let mut acc = V::C(0);
                    for i in 0..*k as usize {
                        let s = self.bin(B::Shl, 64, &v[i], &V::C(i as u64), false);
                        acc = self.bin(B::Or, 64, &acc, &s, false);
                    }
                    o.write(&mut self.t, 0, n as usize, &acc);
                } else {
                    for i in 0..*k as usize {
                        put(self, &mut o, i * e.size() as usize, e, &v[i]);
                    }
                }
            }
            t => put(self, &mut o, 0, t, &v[0]),
        }
        match to {
            Ty::Vec(k, e) => {
                if **e == Ty::Int(1) {
                    let b = o.read(&mut self.t, 0, n as usize);
                    let r = (0..*k)
                        .map(|i| {
                            let s = self.bin(B::LShr, 64, &b, &V::C(i), false);
                            self.trunc(&s, 1)
                        })
                        .collect();
                    return V::A(Rc::new(r));
                }
                let s = e.size() as usize;
                V::A(Rc::new((0..*k as usize).map(|i| o.read(&mut self.t, i * s, s)).collect()))
            }
            t => o.read(&mut self.t, 0, t.size() as usize),
        }
    }
    fn select(&mut self, ty: &Ty, c: &V, a: &V, b: &V) -> V {
        if let V::A(cv) = c {
            if let (V::A(x), V::A(y), Ty::Vec(_, e)) = (a, b, ty) {
                let r = (0..cv.len()).map(|i| self.select(e, &cv[i], &x[i], &y[i])).collect();
                return V::A(Rc::new(r));
            }
        }
        if let V::C(x) = c {
            return if x & 1 != 0 { a.clone() } else { b.clone() };
        }
        self.ite_ty(ty, c, a, b)
    }
    fn ite_ty(&mut self, ty: &Ty, c: &V, a: &V, b: &V) -> V {
        if same(a, b) {
            return a.clone();
        }
        match ty {
            Ty::F64 => self.t.fite(c, a, b),
            Ty::Int(w) if *w <= 64 => {
                let r = self.t.merge_val(c, a, b, if *w == 64 { 8 } else { (*w as usize + 7) / 8 });
                r
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let r = (0..x.len()).map(|i| self.ite_ty(&ty.field(i).1, c, &x[i], &y[i])).collect();
                    V::A(Rc::new(r))
                }
                _ => self.t.merge_val(c, a, b, 8),
            },
            _ => self.t.merge_val(c, a, b, 8),
        }
    }

    fn fbin(&mut self, op: B, a: &V, b: &V, f32_: bool) -> V {
        if f32_ {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match op {
                    B::FAdd => x + y,
                    B::FSub => x - y,
                    B::FMul => x * y,
                    B::FDiv => x / y,
                    _ => x % y,
                };
                return V::C(r.to_bits() as u64);
            }
            self.abort("symbolic f32".into());
            return V::C(0);
        }
        match op {
            B::FAdd => self.t.fadd(a, b),
            B::FSub => self.t.fsub(a, b),
            B::FMul => self.t.fmul(a, b),
            B::FDiv => self.t.fdiv(a, b),
            _ => {
                if let Some(v) =
                    mapn(self.t.kmax, &[a, b], |x| (f64::from_bits(x[0]) % f64::from_bits(x[1])).to_bits())
                {
                    return v;
                }
                self.abort("frem".into());
                V::C(0)
            }
        }
    }
    fn bin_ty(&mut self, op: B, ty: &Ty, a: &V, b: &V, disj: bool) -> V {
        if let (V::A(x), V::A(y), Ty::Vec(_, e)) = (a, b, ty) {
            let r = (0..x.len()).map(|i| self.bin_ty(op, e, &x[i], &y[i], disj)).collect();
            return V::A(Rc::new(r));
        }
        match ty {
            Ty::F64 => self.fbin(op, a, b, false),
            Ty::F32 => self.fbin(op, a, b, true),
            t => {
                let w = t.int_width();
                self.bin(op, w, a, b, disj)
            }
        }
    }

    // ---------- paths
    fn fresh_only(&self, v: &V, pc: &[V]) -> bool {
        // a table over distinct input atoms none of which is constrained by the path
        let t = match v {
            V::T(t) => t,
            _ => return false,
        };
        for a in &t.atoms {
            if !matches!(self.t.atoms[*a as usize], ADef::In(..)) {
                return false;
            }
        }
        for p in pc {
            match p {
                V::T(q) => {
                    if q.atoms.iter().any(|a| {
                        t.atoms.contains(a) || !matches!(self.t.atoms[*a as usize], ADef::In(..))
                    }) {
                        return false;
                    }
                }
                V::C(_) => {}
                _ => return false,
            }
        }
        true
    }
    pub fn feasible(&mut self, pc: &[V], c: &V) -> bool {
        match c {
            V::C(x) => return x & 1 != 0,
            _ => {}
        }
        if self.fresh_only(c, pc) {
            return true;
        }
        let mut v = pc.to_vec();
        v.push(c.clone());
        let t0 = std::time::Instant::now();
        let r = solve(&mut self.t, &v, false).0 != Res::Unsat;
        if self.debug && t0.elapsed().as_secs_f64() > 0.2 {
            eprintln!("SLOW {:.2} s, {} conditions in {}", t0.elapsed().as_secs_f64(), v.len(), self.stack.last().map(|s| &s[s.len().saturating_sub(200)..]).unwrap_or(""));
            for x in &v {
                let s = format!("{:?}", x);
                eprintln!("   {}", &s[..s.len().min(200)]);
            }
        }
        r
    }
    /// execute a function call to completion
    pub fn call_fn(&mut self, name: &str, args: Vec<V>, st: State) -> Vec<(State, V)> {
        let f = self.func(name);
        if !self.called.contains(name) {
            self.called.insert(name.to_string());
        }
        if self.stack.len() > 4000 {
            self.abort("call depth".into());
            return vec![];
        }
        self.stack.push(name.to_string());
        let mut regs = vec![V::C(0); f.nregs];
        for (r, a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        let n = f.blocks.len();
        let fr = Frame { f, regs, allocas: vec![] };
        let out = self.run(fr, st, 0, 0, n);
        self.stack.pop();
        out.into_iter()
            .map(|(fr, mut st, e)| {
                for a in fr.allocas {
                    st.mem.set(a, None);
                }
                match e {
                    End::Ret(v) => (st, v),
                    End::Stop => (st, V::C(0)),
                }
            })
            .collect()
    }
    fn val(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn enter(&mut self, fr: &mut Frame, from: usize, to: usize) {
        let f = fr.f.clone();
        if let Some(ph) = f.blocks[to].phis.get(&from) {
            if ph.len() == 1 {
                let v = self.val(fr, &ph[0].1);
                fr.regs[ph[0].0 as usize] = v;
            } else {
                let vs: Vec<V> = ph.iter().map(|(_, o)| self.val(fr, o)).collect();
                for ((d, _), v) in ph.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
    }
    fn run(&mut self, fr: Frame, st: State, blk: usize, ip: usize, stop: usize) -> Out {
        let mut fr = fr;
        let mut st = st;
        let mut blk = blk;
        let mut ip = ip;
        let f = fr.f.clone();
        let exit = f.blocks.len();
        loop {
            if self.bad() {
                self.stop_pc.get_or_insert_with(|| st.pc.clone());
                return vec![];
            }
            self.steps += 1;
            if self.steps & 0xfff == 0 && std::time::Instant::now() > self.deadline {
                self.abort("time limit".into());
                self.stop_pc.get_or_insert_with(|| st.pc.clone());
                return vec![];
            }
            let b = &f.blocks[blk];
            while ip < b.ins.len() {
                let ins = &b.ins[ip];
                ip += 1;
                self.steps += 1;
                match self.step(&mut fr, &mut st, ins) {
                    Flow::Next => {}
                    Flow::Dead => return vec![],
                    Flow::Multi(list, dst) => {
                        // several continuations of this instruction
                        if list.is_empty() {
                            return vec![];
                        }
                        self.forks += 1;
                        let join = f.ipdom[blk];
                        let mut alts = vec![];
                        for (cond, s2, v) in list {
                            let mut f2 = fr.clone();
                            if let Some(d) = dst {
                                f2.regs[d as usize] = v;
                            }
                            let o = self.run(f2, s2, blk, ip, if self.reaches(&f, stop, blk, join) { join } else { stop });
                            alts.push((cond, o));
                            if self.stop.is_some() {
                                return vec![];
                            }
                        }
                        let j = if self.reaches(&f, stop, blk, join) { join } else { stop };
                        let base = st.pc.len();
                        let outs = self.join_alts(alts, base, j, &f);
                        match self.after_join(outs, j, stop, exit) {
                            Ok((f2, s2)) => {
                                fr = f2;
                                st = s2;
                                blk = j;
                                ip = 0;
                                break;
                            }
                            Err(o) => return o,
                        }
                    }
                }
                if self.stop.is_some() {
                    self.stop_pc.get_or_insert_with(|| st.pc.clone());
                    return vec![];
                }
                if ip == 0 {
                    break;
                }
            }
            if ip == 0 && !f.blocks[blk].ins.is_empty() {
                // re-entered after a join
                continue;
            }
            let b = &f.blocks[blk];
            if ip < b.ins.len() {
                continue;
            }
            match &b.term {
                Term::Br(t) => {
                    let t = *t;
                    self.enter(&mut fr, blk, t);
                    if t == stop {
                        return vec![(fr, st, End::Stop)];
                    }
                    blk = t;
                    ip = 0;
                }
                Term::Ret(o) => {
                    let v = match o {
                        Some(o) => self.val(&fr, o),
                        None => V::C(0),
                    };
                    return vec![(fr, st, End::Ret(v))];
                }
                Term::Unreach => {
                    // reached code the compiler assumes unreachable
                    if solve(&mut self.t, &st.pc, false).0 != Res::Unsat {
                        self.abort(format!("unreachable instruction reached in {}", f.name));
                    }
                    return vec![];
                }
                Term::CBr(o, x, y) => {
                    let (x, y) = (*x, *y);
                    let c = self.val(&fr, o);
                    let c = match c {
                        V::C(c) => {
                            let t = if c & 1 != 0 { x } else { y };
                            self.enter(&mut fr, blk, t);
                            if t == stop {
                                return vec![(fr, st, End::Stop)];
                            }
                            blk = t;
                            ip = 0;
                            continue;
                        }
                        c => self.t.as_bool_tab(&c),
                    };
                    if self.bad() {
                        return vec![];
                    }
                    self.branches += 1;
                    let nc = self.t.not(&c);
                    let fx = self.feasible(&st.pc, &c);
                    let fy = if !fx { true } else { self.feasible(&st.pc, &nc) };
                    if !fx || !fy {
                        let t = if fx { x } else { y };
                        self.enter(&mut fr, blk, t);
                        if t == stop {
                            return vec![(fr, st, End::Stop)];
                        }
                        blk = t;
                        ip = 0;
                        continue;
                    }
                    match self.split(fr, st, blk, vec![(c, x), (nc, y)], stop, &f) {
                        Ok((f2, s2, j)) => {
                            fr = f2;
                            st = s2;
                            blk = j;
                            ip = 0;
                        }
                        Err(o) => return o,
                    }
                }
                Term::Switch(w, o, d, cs) => {
                    let v = self.val(&fr, o);
                    let v = self.norm(&v);
                    if let V::C(c) = v {
                        let c = c & m64(*w);
                        let t = cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d);
                        self.enter(&mut fr, blk, t);
                        if t == stop {
                            return vec![(fr, st, End::Stop)];
                        }
                        blk = t;
                        ip = 0;
                        continue;
                    }
                    // group cases by target
                    let mut groups: Vec<(V, usize)> = vec![];
                    let mut rest = V::C(1);
                    for (k, t) in cs {
                        let e = self.icmp(IP::Eq, *w, &v, &V::C(*k));
                        let ne = self.t.not(&e);
                        rest = self.t.and(&rest, &ne);
                        match groups.iter_mut().find(|g| g.1 == *t) {
                            Some(g) => {
                                let q = self.t.or(&g.0, &e);
                                g.0 = q;
                            }
                            None => groups.push((e, *t)),
                        }
                    }
                    match groups.iter_mut().find(|g| g.1 == *d) {
                        Some(g) => {
                            let q = self.t.or(&g.0, &rest);
                            g.0 = q;
                        }
                        None => groups.push((rest, *d)),
                    }
                    let mut live = vec![];
                    for (c, t) in groups {
                        if self.feasible(&st.pc, &c) {
                            live.push((c, t));
                        }
                    }
                    self.branches += 1;
                    if live.is_empty() {
                        return vec![];
                    }
                    if live.len() == 1 {
                        let t = live[0].1;
                        self.enter(&mut fr, blk, t);
                        if t == stop {
                            return vec![(fr, st, End::Stop)];
                        }
                        blk = t;
                        ip = 0;
                        continue;
                    }
                    match self.split(fr, st, blk, live, stop, &f) {
                        Ok((f2, s2, j)) => {
                            fr = f2;
                            st = s2;
                            blk = j;
                            ip = 0;
                        }
                        Err(o) => return o,
                    }
                }
            }
        }
    }
    /// does the stop block lie strictly before the join (so that we must stop there)?
    fn reaches(&self, f: &Func, stop: usize, _blk: usize, join: usize) -> bool {
        // the join post-dominates the current block; stop post-dominates it as well, so they are ordered
        // on the post-dominator chain: join is used when it comes no later than stop
        let n = f.blocks.len();
        let mut j = join;
        loop {
            if j == stop {
                return true;
            }
            if j == n {
                return false;
            }
            let k = f.ipdom[j];
            if k == j {
                return false;
            }
            j = k;
        }
    }
    fn split(
        &mut self,
        fr: Frame,
        st: State,
        blk: usize,
        alts: Vec<(V, usize)>,
        stop: usize,
        f: &Rc<Func>,
    ) -> Result<(Frame, State, usize), Out> {
        let exit = f.blocks.len();
        let join = f.ipdom[blk];
        let j = if self.reaches(f, stop, blk, join) { join } else { stop };
        let base = st.pc.len();
        let mut res = vec![];
        let n = alts.len();
        let mut fr = Some(fr);
        let mut st = Some(st);
        for (i, (c, t)) in alts.into_iter().enumerate() {
            let (mut f2, mut s2) = if i + 1 == n {
                (fr.take().unwrap(), st.take().unwrap())
            } else {
                (fr.as_ref().unwrap().clone(), st.as_ref().unwrap().clone())
            };
            s2.pc.push(c.clone());
            self.enter(&mut f2, blk, t);
            let o = if t == j { vec![(f2, s2, End::Stop)] } else { self.run(f2, s2, t, 0, j) };
            if self.stop.is_some() {
                return Err(vec![]);
            }
            res.push((c, o));
        }
        let outs = self.join_alts(res, base, j, f);
        match self.after_join(outs, j, stop, exit) {
            Ok((a, b)) => Ok((a, b, j)),
            Err(o) => Err(o),
        }
    }
    fn after_join(&mut self, mut outs: Out, j: usize, stop: usize, exit: usize) -> Result<(Frame, State), Out> {
        if outs.is_empty() {
            return Err(vec![]);
        }
        if j == stop || j == exit {
            return Err(outs);
        }
        if outs.len() == 1 {
            let (f, s, _) = outs.pop().unwrap();
            return Ok((f, s));
        }
        // unmerged alternatives continue separately
        let mut all = vec![];
        for (f2, s2, _) in outs {
            let o = self.run(f2, s2, j, 0, stop);
            if self.stop.is_some() {
                return Err(vec![]);
            }
            all.extend(o);
        }
        Err(all)
    }
    fn join_alts(&mut self, alts: Vec<(V, Out)>, base: usize, j: usize, f: &Rc<Func>) -> Out {
        let total = alts.len();
        let alive = alts.iter().filter(|a| !a.1.is_empty()).count();
        if alts.iter().any(|a| a.1.len() > 1) {
            return alts.into_iter().flat_map(|a| a.1).collect();
        }
        let complete = alive == total;
        let mut it = alts.into_iter().filter(|a| !a.1.is_empty());
        let (c0, mut o0) = match it.next() {
            Some(x) => x,
            None => return vec![],
        };
        let (mut fa, mut sa, mut ea) = o0.pop().unwrap();
        if alive == 1 {
            return vec![(fa, sa, ea)];
        }
        let exit = f.blocks.len();
        // conditions beyond the split conditions
        let extra = |s: &mut Self, pc: &[V]| -> V {
            let mut acc = V::C(1);
            for c in &pc[(base + 1).min(pc.len())..] {
                acc = s.t.and(&acc, c);
            }
            acc
        };
        let mut guard = c0.clone(); // condition under which the accumulated side is valid
        let mut ex = extra(self, &sa.pc);
        for (c, mut o) in it {
            self.merges += 1;
            let (fb, sb, eb) = o.pop().unwrap();
            let xb = extra(self, &sb.pc);
            // ite(c, b, a)
            if j != exit {
                for &r in f.live[j].iter() {
                    let r = r as usize;
                    if !same(&fa.regs[r], &fb.regs[r]) {
                        let ty = f.tys[r].clone();
                        let v = self.ite_ty(&ty, &c, &fb.regs[r].clone(), &fa.regs[r].clone());
                        fa.regs[r] = v;
                    }
                }
                // keep dead registers from lingering
            }
            let mut m = sb.mem;
            m.merge(&mut self.t, &c, &sa.mem);
            sa.mem = m;
            let mut g = sb.gmem;
            // globals only written on one side: materialise
            self.merge_globals(&mut g, &mut sa.gmem);
            g.merge(&mut self.t, &c, &sa.gmem);
            sa.gmem = g;
            ea = match (ea, eb) {
                (End::Ret(x), End::Ret(y)) => {
                    let ty = f
                        .blocks
                        .iter()
                        .find_map(|b| match &b.term {
                            Term::Ret(Some(Op::R(r))) => Some(f.tys[*r as usize].clone()),
                            _ => None,
                        })
                        .unwrap_or(Ty::Int(64));
                    let ty = if matches!((&x, &y), (V::A(_), _)) && !ty.is_agg() { Ty::Void } else { ty };
                    End::Ret(self.ite_ty(&ty, &c, &y, &x))
                }
                (e, _) => e,
            };
            let q = self.t.ite_bool(&c, &xb, &ex);
            ex = q;
            let q = self.t.or(&guard, &c);
            guard = q;
            for a in fb.allocas {
                if !fa.allocas.contains(&a) {
                    fa.allocas.push(a);
                }
            }
        }
        sa.pc.truncate(base);
        if !complete && !matches!(guard, V::C(1)) {
            sa.pc.push(guard);
        }
        if !matches!(ex, V::C(1)) {
            sa.pc.push(ex);
        }
        vec![(fa, sa, ea)]
    }
    fn merge_globals(&mut self, a: &mut Mem, b: &mut Mem) {
        let n = self.lay.inner.borrow().globs.len() as u32;
        for i in 0..n {
            let (x, y) = (a.get(i).is_some(), b.get(i).is_some());
            if x != y {
                let o = self.glob_base(i);
                if x {
                    b.set(i, Some(o));
                } else {
                    a.set(i, Some(o));
                }
            }
        }
    }

    // ---------- instructions
    /// distinct concrete values a pointer/size may take: (condition, value)
    fn cases(&mut self, st: &State, v: &V) -> Vec<(V, u64)> {
        match v {
            V::C(c) => vec![(V::C(1), *c)],
            V::T(t) => {
                let mut vals: Vec<u64> = t.vals.clone();
                vals.sort();
                vals.dedup();
                let mut out = vec![];
                for x in vals {
                    let c = map1(t, |y| (y == x) as u64);
                    if self.feasible(&st.pc, &c) {
                        out.push((c, x));
                    }
                }
                out
            }
            V::X(_) => {
                let n = self.norm(v);
                if matches!(n, V::X(_)) {
                    let nn = self.t.node_of_int(&n, 64);
                    return self.cases(st, &V::N(nn));
                }
                self.cases(st, &n)
            }
            V::N(n) => {
                let n = *n;
                let mut out = vec![];
                let mut pc = st.pc.clone();
                if self.debug {
                    eprintln!("CASES {:?} in {}", self.t.nodes[n as usize], self.stack.last().map(|s| &s[s.len().saturating_sub(200)..]).unwrap_or(""));
                    for x in &pc {
                        let s = format!("{:?}", x);
                        eprintln!("   {}", &s[..s.len().min(200)]);
                    }
                }
                for _ in 0..4096 {
                    let (r, m) = solve(&mut self.t, &pc, true);
                    match r {
                        Res::Unsat => return out,
                        Res::Unknown => {
                            self.abort("undecided feasibility while enumerating a symbolic value".into());
                            return out;
                        }
                        Res::Sat => {
                            let mut a = Assign::new(m.unwrap());
                            let x = self.t.eval_i(n, &mut a);
                            let k = self.t.ic(x);
                            let e = self.t.icmp_nodes(Pred::Eq, n, k);
                            let ne = self.t.not(&e);
                            let mut pe = pc.clone();
                            pe.push(e.clone());
                            if solve(&mut self.t, &pe, false).0 == Res::Unsat {
                                // model does not evaluate exactly; give up rather than loop
                                self.abort("symbolic value cannot be enumerated".into());
                                return out;
                            }
                            out.push((e, x as u64));
                            pc.push(ne);
                        }
                    }
                }
                self.abort("too many values for a symbolic pointer or length".into());
                out
            }
            _ => {
                self.abort("case split on an aggregate".into());
                vec![]
            }
        }
    }
    fn step(&mut self, fr: &mut Frame, st: &mut State, ins: &Ins) -> Flow {
        macro_rules! v {
            ($o:expr) => {
                self.val(fr, $o)
            };
        }
        match ins {
            Ins::Bin(op, ty, d, a, b, disj) => {
                let (x, y) = (v!(a), v!(b));
                let r = match (ty, &x, &y) {
                    (Ty::Int(w), V::C(_), V::C(_)) if *w <= 64 => self.bin(*op, *w, &x, &y, *disj),
                    _ if *op == B::Xor && (matches!(x, V::X(_)) || matches!(y, V::X(_)) || self.t.wide(&[&x, &y])) => {
                        let (x, y) = (self.care_linear(st, x), self.care_linear(st, y));
                        self.bin_ty(*op, ty, &x, &y, *disj)
                    }
                    _ => self.bin_ty(*op, ty, &x, &y, *disj),
                };
                fr.regs[*d as usize] = r;
            }
            Ins::FNeg(ty, d, a) => {
                let x = v!(a);
                let r = match (&x, ty) {
                    (V::A(v), _) => {
                        let r = v.iter().map(|e| self.t.fneg(e)).collect();
                        V::A(Rc::new(r))
                    }
                    (V::C(c), Ty::F32) => V::C(c ^ (1 << 31)),
                    _ => self.t.fneg(&x),
                };
                fr.regs[*d as usize] = r;
            }
            Ins::ICmp(p, ty, d, a, b) => {
                let (x, y) = (v!(a), v!(b));
                let r = match (&x, &y) {
                    (V::A(p1), V::A(q)) => {
                        let w = ty.field(0).1.int_width();
                        let r = (0..p1.len()).map(|i| self.icmp(*p, w, &p1[i], &q[i])).collect();
                        V::A(Rc::new(r))
                    }
                    _ => self.icmp(*p, ty.int_width(), &x, &y),
                };
                fr.regs[*d as usize] = r;
            }
            Ins::FCmp(p, ty, d, a, b) => {
                let (x, y) = (v!(a), v!(b));
                let r = match (&x, &y) {
                    (V::A(p1), V::A(q)) => {
                        let r = (0..p1.len()).map(|i| self.fcmp(*p, &p1[i], &q[i])).collect();
                        V::A(Rc::new(r))
                    }
                    (V::C(a), V::C(b)) if *ty == Ty::F32 => {
                        let (a, b) = (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64);
                        self.fcmp(*p, &V::C(a.to_bits()), &V::C(b.to_bits()))
                    }
                    _ => self.fcmp(*p, &x, &y),
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Select(_, ty, d, c, a, b) => {
                let cv = v!(c);
                let r = match &cv {
                    V::C(x) => {
                        if x & 1 != 0 {
                            v!(a)
                        } else {
                            v!(b)
                        }
                    }
                    _ => {
                        let (x, y) = (v!(a), v!(b));
                        self.select(ty, &cv, &x, &y)
                    }
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Cast(k, f, t, d, a) => {
                let x = v!(a);
                let r = self.cast(k, f, t, &x);
                fr.regs[*d as usize] = r;
            }
            Ins::Load(ty, d, p) => {
                let a = v!(p);
                let r = match &a {
                    V::C(a) => self.load_ty(st, *a, ty),
                    a => {
                        let nv = self.norm(a);
                        if let Some(v) = self.lookup(st, &nv, ty) {
                            fr.regs[*d as usize] = v;
                            return Flow::Next;
                        }
                        let a = &nv;
                        let cs = self.cases(st, a);
                        let mut it = cs.into_iter().rev();
                        let mut acc = match it.next() {
                            Some((_, x)) => self.load_ty(st, x, ty),
                            None => return Flow::Dead,
                        };
                        for (c, x) in it {
                            let v = self.load_ty(st, x, ty);
                            acc = self.ite_ty(ty, &c, &v, &acc);
                        }
                        acc
                    }
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Store(ty, x, p) => {
                let a = v!(p);
                let x = v!(x);
                match &a {
                    V::C(a) => self.store_ty(st, *a, ty, &x),
                    a => {
                        let cs = self.cases(st, a);
                        for (c, ad) in cs {
                            let old = self.load_ty(st, ad, ty);
                            let v = self.ite_ty(ty, &c, &x, &old);
                            self.store_ty(st, ad, ty, &v);
                        }
                    }
                }
            }
            Ins::Gep(d, base, off, idx) => {
                let b = v!(base);
                let mut acc = match &b {
                    V::C(b) => V::C(b.wrapping_add(*off as u64)),
                    b => self.bin(B::Add, 64, b, &V::C(*off as u64), false),
                };
                for (o, sc, w) in idx {
                    let i = v!(o);
                    let i = match &i {
                        V::C(c) => V::C((sx(*c, *w)).wrapping_mul(*sc) as u64),
                        i => {
                            let i = if *w < 64 { self.cast("sext", &Ty::Int(*w), &Ty::Int(64), i) } else { i.clone() };
                            self.bin(B::Mul, 64, &i, &V::C(*sc as u64), false)
                        }
                    };
                    acc = self.bin(B::Add, 64, &acc, &i, false);
                }
                fr.regs[*d as usize] = acc;
            }
            Ins::Alloca(d, size, cnt) => {
                let n = match v!(cnt) {
                    V::C(c) => c,
                    _ => 1,
                };
                let a = self.alloc(st, size * n);
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*d as usize] = V::C(a);
            }
            Ins::ExtractV(d, a, path) => {
                let mut x = v!(a);
                for &k in path {
                    x = match &x {
                        V::A(v) => v[k].clone(),
                        _ => V::C(0),
                    };
                }
                fr.regs[*d as usize] = x;
            }
            Ins::InsertV(d, a, v, path) => {
                let x = v!(a);
                let n = v!(v);
                fn rec(x: &V, n: &V, path: &[usize]) -> V {
                    if path.is_empty() {
                        return n.clone();
                    }
                    match x {
                        V::A(v) => {
                            let mut v = (**v).clone();
                            v[path[0]] = rec(&v[path[0]].clone(), n, &path[1..]);
                            V::A(Rc::new(v))
                        }
                        _ => V::C(0),
                    }
                }
                fr.regs[*d as usize] = rec(&x, &n, path);
            }
            Ins::ExtElt(d, a, i) => {
                let x = v!(a);
                let i = v!(i);
                let r = match (&x, &i) {
                    (V::A(v), V::C(i)) => v.get(*i as usize).cloned().unwrap_or(V::C(0)),
                    _ => {
                        self.abort("symbolic vector index".into());
                        V::C(0)
                    }
                };
                fr.regs[*d as usize] = r;
            }
            Ins::InsElt(d, a, n, i) => {
                let x = v!(a);
                let i = v!(i);
                let n = v!(n);
                let r = match (&x, &i) {
                    (V::A(v), V::C(i)) => {
                        let mut v = (**v).clone();
                        if (*i as usize) < v.len() {
                            v[*i as usize] = n;
                        }
                        V::A(Rc::new(v))
                    }
                    _ => {
                        self.abort("symbolic vector index".into());
                        V::C(0)
                    }
                };
                fr.regs[*d as usize] = r;
            }
            Ins::Shuf(d, a, b, m) => {
                let (x, y) = (v!(a), v!(b));
                let r = match (&x, &y) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len() as i32;
                        m.iter()
                            .map(|&k| {
                                if k < 0 {
                                    V::C(0)
                                } else if k < n {
                                    x[k as usize].clone()
                                } else {
                                    y[(k - n) as usize].clone()
                                }
                            })
                            .collect()
                    }
                    _ => vec![],
                };
                fr.regs[*d as usize] = V::A(Rc::new(r));
            }
            Ins::Copy(d, a) => {
                let x = v!(a);
                fr.regs[*d as usize] = x;
            }
            Ins::Rmw(op, w, d, p, n) => {
                let a = v!(p);
                let n = v!(n);
                let a = match a {
                    V::C(a) => a,
                    _ => {
                        self.abort("atomic on symbolic address".into());
                        return Flow::Dead;
                    }
                };
                let sz = (*w as usize + 7) / 8;
                let old = self.read(st, a, sz);
                let new = match op.as_str() {
                    "add" => self.bin(B::Add, *w, &old, &n, false),
                    "sub" => self.bin(B::Sub, *w, &old, &n, false),
                    "or" => self.bin(B::Or, *w, &old, &n, false),
                    "and" => self.bin(B::And, *w, &old, &n, false),
                    "xor" => self.bin(B::Xor, *w, &old, &n, false),
                    "xchg" => n,
                    o => {
                        self.abort(format!("atomicrmw {}", o));
                        n
                    }
                };
                self.write(st, a, sz, &new);
                fr.regs[*d as usize] = old;
            }
            Ins::CmpXchg(w, d, p, c, n) => {
                let (a, c, n) = (v!(p), v!(c), v!(n));
                let a = match a {
                    V::C(a) => a,
                    _ => {
                        self.abort("atomic on symbolic address".into());
                        return Flow::Dead;
                    }
                };
                let sz = (*w as usize + 7) / 8;
                let old = self.read(st, a, sz);
                let eq = self.icmp(IP::Eq, *w, &old, &c);
                let new = self.t.merge_val(&eq, &n, &old, sz);
                self.write(st, a, sz, &new);
                fr.regs[*d as usize] = V::A(Rc::new(vec![old, eq]));
            }
            Ins::Nop => {}
            Ins::Call(d, callee, args, rt, nr) => {
                let av: Vec<V> = args.iter().map(|(_, o)| self.val(fr, o)).collect();
                return self.do_call(fr, st, *d, callee, args, av, rt, *nr);
            }
        }
        Flow::Next
    }
    fn panic_at(&mut self, st: &State, what: &str) {
        // the path reaches a panic: is it feasible and not expected?
        let mut pc = st.pc.clone();
        if let Some(ok) = &self.may_panic {
            let n = self.t.not(&ok.clone());
            pc.push(n);
        }
        self.checks += 1;
        let (r, m) = solve(&mut self.t, &pc, true);
        match r {
            Res::Unsat => {
                self.proved += 1;
                if self.may_panic.is_some() {
                    self.panics_ok += 1;
                }
            }
            Res::Sat => {
                if self.failures.len() < 16 {
                    self.failures.push(Failure { id: format!("panic: {}", what), inputs: m, kind: "panic" });
                }
                if self.failures.len() >= self.max_fail {
                    self.abort("enough failures".into());
                }
            }
            Res::Unknown => self.inconclusive.push(format!("panic: {}", what)),
        }
    }
    fn do_call(
        &mut self,
        fr: &mut Frame,
        st: &mut State,
        d: Option<u32>,
        callee: &Callee,
        args: &[(Ty, Op)],
        av: Vec<V>,
        rt: &Ty,
        nr: bool,
    ) -> Flow {
        let name: String = match callee {
            Callee::Fn(n) => n.clone(),
            Callee::Ptr(o) => {
                let p = self.val(fr, o);
                let p = match p {
                    V::C(p) => p,
                    p => {
                        // several possible targets
                        let cs = self.cases(st, &p);
                        let mut out = vec![];
                        for (c, a) in cs {
                            let mut s2 = st.clone();
                            s2.pc.push(c.clone());
                            let n = match self.fn_at(a) {
                                Some(n) => n,
                                None => {
                                    self.abort("call through a bad pointer".into());
                                    return Flow::Dead;
                                }
                            };
                            let r = self.call_fn(&n, av.clone(), s2);
                            for (s, v) in r {
                                out.push((c.clone(), s, v));
                            }
                        }
                        return Flow::Multi(out, d);
                    }
                };
                match self.fn_at(p) {
                    Some(n) => n,
                    None => {
                        self.oob(st, p, 1, "call");
                        return Flow::Dead;
                    }
                }
            }
            Callee::Asm(_) => {
                if let Some(d) = d {
                    fr.regs[d as usize] = zero_of(rt);
                }
                return Flow::Next;
            }
        };
        if nr {
            self.panic_at(st, &name);
            return Flow::Dead;
        }
        if name.ends_with("2io5stdio6__print") || name.ends_with("2io5stdio7__eprint") {
            return Flow::Next;
        }
        if self.m.funcs.contains_key(name.as_str()) {
            let f = self.func(&name);
            if f.noreturn {
                self.panic_at(st, &name);
                return Flow::Dead;
            }
            let s = std::mem::replace(st, State { mem: Mem::new(), gmem: Mem::new(), pc: vec![] });
            let pc0 = s.pc.clone();
            let mut r = self.call_fn(&name, av, s);
            if r.len() == 1 {
                let (s, v) = r.pop().unwrap();
                *st = s;
                if let Some(d) = d {
                    fr.regs[d as usize] = v;
                }
                return Flow::Next;
            }
            st.pc = pc0.clone();
            let mut out = vec![];
            for (s, v) in r {
                // the discriminating condition is what the callee added
                let mut acc = V::C(1);
                for c in &s.pc[pc0.len().min(s.pc.len())..] {
                    acc = self.t.and(&acc, c);
                }
                let mut s = s;
                s.pc.truncate(pc0.len());
                s.pc.push(acc.clone());
                out.push((acc, s, v));
            }
            return Flow::Multi(out, d);
        }
        match self.external(fr, st, &name, args, &av, rt) {
            Ext::Val(v) => {
                if let Some(d) = d {
                    fr.regs[d as usize] = v;
                }
                Flow::Next
            }
            Ext::Dead => Flow::Dead,
            Ext::Multi(l) => Flow::Multi(l, d),
        }
    }
    fn fn_at(&self, p: u64) -> Option<String> {
        if p >> 32 != 2 {
            return None;
        }
        let i = ((p & 0xffff_ffff) / 16) as usize;
        if i == 0 || i > self.lay.fnames.len() {
            return None;
        }
        Some(self.lay.fnames[i - 1].to_string())
    }
    fn conc(&mut self, v: &V, what: &str) -> u64 {
        match v {
            V::C(c) => *c,
            _ => {
                self.abort(format!("symbolic {}", what));
                0
            }
        }
    }
    /// run an operation with some argument replaced by each of its possible values
    fn fork_arg(&mut self, st: &State, v: &V) -> Vec<(V, State, u64)> {
        let cs = self.cases(st, v);
        cs.into_iter()
            .map(|(c, x)| {
                let mut s = st.clone();
                s.pc.push(c.clone());
                (c, s, x)
            })
            .collect()
    }
    pub fn check(&mut self, st: &State, c: &V, id: &str) {
        self.checks += 1;
        let c = self.t.as_bool_tab(c);
        if let V::C(x) = c {
            if x & 1 != 0 {
                self.proved += 1;
                self.trivially += 1;
                return;
            }
        }
        let n = self.t.not(&c);
        let mut pc = st.pc.clone();
        pc.push(n);
        let (r, m) = solve(&mut self.t, &pc, true);
        match r {
            Res::Unsat => self.proved += 1,
            Res::Sat => {
                if self.failures.len() < 16 {
                    self.failures.push(Failure { id: id.to_string(), inputs: m, kind: "check" });
                }
                if self.failures.len() >= self.max_fail {
                    self.abort("enough failures".into());
                }
            }
            Res::Unknown => self.inconclusive.push(id.to_string()),
        }
    }
    /// equalities that folded to `true` while executing are still handed to the solver, in batches
    pub fn finish(&mut self) {
        let pairs = std::mem::take(&mut self.batch);
        for ch in pairs.chunks(400) {
            let (r, m) = crate::smt::differ(&mut self.t, ch);
            match r {
                Res::Unsat => {}
                Res::Sat => self.failures.push(Failure { id: "check batch".into(), inputs: m, kind: "check" }),
                Res::Unknown => self.inconclusive.push("batch".into()),
            }
        }
    }
    fn near(&mut self, a: &V, b: &V, tol: f64) -> V {
        let g = |x: f64, y: f64| x.is_finite() && y.is_finite() && (x - y).abs() <= tol;
        if let Some(v) = mapn(self.t.kmax, &[a, b], |x| g(f64::from_bits(x[0]), f64::from_bits(x[1])) as u64) {
            return v;
        }
        self.t.near(a, b, tol)
    }

    fn external(&mut self, fr: &mut Frame, st: &mut State, name: &str, args: &[(Ty, Op)], av: &[V], rt: &Ty) -> Ext {
        let _ = fr;
        // ---- verification interface
        if let Some(n) = name.strip_prefix("sym_") {
            return self.sym_api(st, n, av);
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, args, av, rt);
        }
        let ok = |v: u64| Ext::Val(V::C(v));
        match name {
            "malloc" | "calloc" | "__rust_alloc" => {
                let sz = if name == "calloc" { self.bin(B::Mul, 64, &av[0], &av[1], false) } else { av[0].clone() };
                if let V::C(n) = sz {
                    let a = self.alloc(st, n);
                    return ok(a);
                }
                let mut out = vec![];
                for (c, mut s, n) in self.fork_arg(st, &sz) {
                    let a = self.alloc(&mut s, n);
                    out.push((c, s, V::C(a)));
                }
                Ext::Multi(out)
            }
            "realloc" => {
                let go = |e: &mut Self, s: &mut State, p: u64, n: u64| -> u64 {
                    let a = e.alloc(s, n);
                    if p != 0 {
                        let old = s.mem.get((p >> 32) as u32).map(|o| o.size).unwrap_or(0);
                        let k = old.min(n);
                        e.copy(s, a, p, k);
                        s.mem.set((p >> 32) as u32, None);
                    }
                    a
                };
                if let (V::C(p), V::C(n)) = (&av[0], &av[1]) {
                    let a = go(self, st, *p, *n);
                    return ok(a);
                }
                let mut out = vec![];
                for (c, s, p) in self.fork_arg(st, &av[0]) {
                    for (c2, mut s2, n) in self.fork_arg(&s, &av[1]) {
                        let a = go(self, &mut s2, p, n);
                        let cc = self.t.and(&c, &c2);
                        s2.pc.truncate(st.pc.len());
                        s2.pc.push(cc.clone());
                        out.push((cc, s2, V::C(a)));
                    }
                }
                Ext::Multi(out)
            }
            "free" => {
                if let V::C(p) = &av[0] {
                    if *p >> 32 >= 16 {
                        st.mem.set((*p >> 32) as u32, None);
                    }
                }
                ok(0)
            }
            "posix_memalign" => {
                let p = self.conc(&av[0], "pointer");
                let n = self.conc(&av[2], "size");
                let a = self.alloc(st, n);
                self.write(st, p, 8, &V::C(a));
                ok(0)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (self.conc(&av[0], "pointer"), self.conc(&av[1], "pointer"), self.conc(&av[2], "length"));
                if name == "memcmp" {
                    for i in 0..n {
                        let (x, y) = (self.read(st, a + i, 1), self.read(st, b + i, 1));
                        match (&x, &y) {
                            (V::C(x), V::C(y)) => {
                                if x != y {
                                    return ok(if x < y { 0xffff_ffff } else { 1 });
                                }
                            }
                            _ => {
                                self.abort("memcmp of symbolic bytes".into());
                                return Ext::Dead;
                            }
                        }
                    }
                    return ok(0);
                }
                let mut acc = V::C(0);
                for i in 0..n {
                    let (x, y) = (self.read(st, a + i, 1), self.read(st, b + i, 1));
                    let d = self.icmp(IP::Ne, 8, &x, &y);
                    acc = self.t.or(&acc, &d);
                }
                Ext::Val(acc)
            }
            "strlen" => {
                let a = self.conc(&av[0], "pointer");
                let mut n = 0;
                loop {
                    match self.read(st, a + n, 1) {
                        V::C(0) => return ok(n),
                        V::C(_) => n += 1,
                        _ => {
                            self.abort("strlen".into());
                            return Ext::Dead;
                        }
                    }
                    if n > 1 << 20 || self.stop.is_some() {
                        return Ext::Dead;
                    }
                }
            }
            "getrandom" => {
                let (p, n) = (self.conc(&av[0], "pointer"), self.conc(&av[1], "length"));
                self.fill_random(st, p, n);
                ok(n)
            }
            "syscall" => {
                // getrandom(318)
                if let V::C(318) = &av[0] {
                    let (p, n) = (self.conc(&av[1], "pointer"), self.conc(&av[2], "length"));
                    self.fill_random(st, p, n);
                    return ok(n);
                }
                ok(0)
            }
            "__errno_location" => {
                let a = match self.errno {
                    Some(a) if st.mem.get((a >> 32) as u32).is_some() => a,
                    _ => {
                        let a = self.alloc(st, 8);
                        self.errno = Some(a);
                        a
                    }
                };
                ok(a)
            }
            "__cxa_thread_atexit_impl" | "pthread_atfork" | "pthread_key_create" | "pthread_setspecific"
            | "pthread_mutex_lock" | "pthread_mutex_unlock" | "getenv" | "sched_yield" | "gettid" | "getauxval"
            | "pthread_key_delete" => ok(0),
            "pthread_self" => ok(0x1000),
            "sysconf" => ok(4096),
            "clock_gettime" => {
                let p = self.conc(&av[1], "pointer");
                self.write(st, p, 8, &V::C(1000));
                self.write(st, p + 8, 8, &V::C(0));
                ok(0)
            }
            "abort" => {
                self.panic_at(st, "abort");
                Ext::Dead
            }
            // printing changes nothing a property speaks of
            "write" if matches!(av[0], V::C(1) | V::C(2)) => Ext::Val(av[2].clone()),
            "writev" if matches!(av[0], V::C(1) | V::C(2)) => {
                let (p, n) = (self.conc(&av[1], "pointer"), self.conc(&av[2], "length"));
                let mut k = 0;
                for i in 0..n {
                    let l = self.read(st, p + 16 * i + 8, 8);
                    k += self.conc(&l, "length");
                }
                ok(k)
            }
            "write" | "writev" => {
                self.abort("output".into());
                Ext::Dead
            }
            "cos" => Ext::Val(self.t.ffun(Fun::Cos, &av[0])),
            "sin" => Ext::Val(self.t.ffun(Fun::Sin, &av[0])),
            "exp" => Ext::Val(self.t.ffun(Fun::Exp, &av[0])),
            "log" => Ext::Val(self.t.ffun(Fun::Log, &av[0])),
            "log10" => Ext::Val(self.t.ffun(Fun::Log10, &av[0])),
            n => match self.libm(n, av) {
                Some(v) => Ext::Val(v),
                None => {
                    self.abort(format!("external function {}", n));
                    Ext::Dead
                }
            },
        }
    }
    /// the mathematical library: exact on tables of concrete values, in terms of the known functions otherwise
    fn libm(&mut self, name: &str, av: &[V]) -> Option<V> {
        let k = self.t.kmax;
        let n1: Option<fn(f64) -> f64> = Some(match name {
            "tan" => f64::tan,
            "atan" => f64::atan,
            "asin" => f64::asin,
            "acos" => f64::acos,
            "sinh" => f64::sinh,
            "cosh" => f64::cosh,
            "tanh" => f64::tanh,
            "asinh" => f64::asinh,
            "acosh" => f64::acosh,
            "atanh" => f64::atanh,
            "exp2" => f64::exp2,
            "log2" => f64::log2,
            "log1p" => f64::ln_1p,
            "expm1" => f64::exp_m1,
            "cbrt" => f64::cbrt,
            "round" => f64::round,
            "roundeven" | "rint" | "nearbyint" => f64::round_ties_even,
            "trunc" => f64::trunc,
            _ => f64::abs,
        })
        .filter(|_| name.len() > 2 && !matches!(name, "hypot" | "pow" | "atan2" | "fmod" | "fmin" | "fmax" | "fma"));
        let known = ["tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp2", "log2", "log1p", "expm1", "cbrt", "round", "roundeven", "rint", "nearbyint", "trunc"];
        if let (Some(f), true) = (n1, known.contains(&name)) {
            if let Some(v) = mapn(k, &[&av[0]], |x| f(f64::from_bits(x[0])).to_bits()) {
                return Some(v);
            }
        }
        let n2: Option<fn(f64, f64) -> f64> = match name {
            "hypot" => Some(f64::hypot),
            "pow" => Some(f64::powf),
            "atan2" => Some(f64::atan2),
            "fmod" => Some(|a, b| a % b),
            "fmin" => Some(f64::min),
            "fmax" => Some(f64::max),
            _ => None,
        };
        if let Some(f) = n2 {
            if let Some(v) = mapn(k, &[&av[0], &av[1]], |x| f(f64::from_bits(x[0]), f64::from_bits(x[1])).to_bits()) {
                return Some(v);
            }
        }
        let c = |x: f64| V::C(x.to_bits());
        match name {
            "hypot" => {
                let a = self.t.fmul(&av[0], &av[0]);
                let b = self.t.fmul(&av[1], &av[1]);
                let s = self.t.fadd(&a, &b);
                Some(self.t.ffun(Fun::Sqrt, &s))
            }
            "tan" => {
                let s = self.t.ffun(Fun::Sin, &av[0]);
                let d = self.t.ffun(Fun::Cos, &av[0]);
                Some(self.t.fdiv(&s, &d))
            }
            "exp2" => {
                let x = self.t.fmul(&av[0], &c(std::f64::consts::LN_2));
                Some(self.t.ffun(Fun::Exp, &x))
            }
            "expm1" => {
                let x = self.t.ffun(Fun::Exp, &av[0]);
                Some(self.t.fsub(&x, &c(1.0)))
            }
            "log1p" => {
                let x = self.t.fadd(&av[0], &c(1.0));
                Some(self.t.ffun(Fun::Log, &x))
            }
            "log2" => {
                let x = self.t.ffun(Fun::Log, &av[0]);
                Some(self.t.fmul(&x, &c(std::f64::consts::LOG2_E)))
            }
            "round" => {
                let neg = self.fcmp(FP::O(Pred::Lt), &av[0], &c(0.0));
                let up = self.t.fadd(&av[0], &c(0.5));
                let up = self.t.ffun(Fun::Floor, &up);
                let dn = self.t.fsub(&av[0], &c(0.5));
                let dn = self.t.ffun(Fun::Ceil, &dn);
                Some(self.t.fite(&neg, &dn, &up))
            }
            "fmin" | "fmax" => {
                let p = if name == "fmin" { FP::O(Pred::Lt) } else { FP::O(Pred::Gt) };
                let q = self.fcmp(p, &av[0], &av[1]);
                Some(self.t.fite(&q, &av[0], &av[1]))
            }
            "fma" => {
                let p = self.t.fmul(&av[0], &av[1]);
                Some(self.t.fadd(&p, &av[2]))
            }
            "pow" => {
                if let V::C(e) = &av[1] {
                    let e = f64::from_bits(*e);
                    if e == e.trunc() && e.abs() <= 64.0 {
                        let mut acc = c(1.0);
                        for _ in 0..e.abs() as u32 {
                            acc = self.t.fmul(&acc, &av[0]);
                        }
                        return Some(if e < 0.0 { self.t.fdiv(&c(1.0), &acc) } else { acc });
                    }
                    if e == 0.5 {
                        return Some(self.t.ffun(Fun::Sqrt, &av[0]));
                    }
                }
                if let V::C(b) = &av[0] {
                    let b = f64::from_bits(*b);
                    if b > 0.0 {
                        let x = self.t.fmul(&av[1], &c(b.ln()));
                        return Some(self.t.ffun(Fun::Exp, &x));
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn fill_random(&mut self, st: &mut State, p: u64, n: u64) {
        for i in 0..n {
            self.seed ^= self.seed << 13;
            self.seed ^= self.seed >> 7;
            self.seed ^= self.seed << 17;
            let b = (self.seed >> 32) & 0xff;
            self.write(st, p + i, 1, &V::C(b));
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Op)], av: &[V], rt: &Ty) -> Ext {
        // element-wise over vectors
        if let (Ty::Vec(_, e), true) = (rt, !n.starts_with("load.relative") && !n.starts_with("x86")) {
            let lanes = rt.nfields();
            let mut r = vec![];
            for i in 0..lanes {
                let a2: Vec<V> = av
                    .iter()
                    .map(|v| match v {
                        V::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let t2: Vec<(Ty, Op)> = args
                    .iter()
                    .map(|(t, o)| match t {
                        Ty::Vec(_, e) => ((**e).clone(), o.clone()),
                        t => (t.clone(), o.clone()),
                    })
                    .collect();
                match self.intrinsic(st, n, &t2, &a2, e) {
                    Ext::Val(v) => r.push(v),
                    _ => return Ext::Dead,
                }
            }
            return Ext::Val(V::A(Rc::new(r)));
        }
        let w = match rt {
            Ty::Int(w) => *w,
            Ty::Struct(f, _) => match &f[0] {
                Ty::Int(w) => *w,
                _ => 64,
            },
            _ => 64,
        };
        let key = n.split('.').next().unwrap();
        let val = |v: V| Ext::Val(v);
        match key {
            "memcpy" | "memmove" => {
                if let (V::C(d), V::C(s), V::C(n)) = (&av[0], &av[1], &av[2]) {
                    self.copy(st, *d, *s, *n);
                    return val(V::C(0));
                }
                let mut out = vec![];
                for (c, s1, d) in self.fork_arg(st, &av[0]) {
                    for (c2, s2, s) in self.fork_arg(&s1, &av[1]) {
                        for (c3, mut s3, n) in self.fork_arg(&s2, &av[2]) {
                            self.copy(&mut s3, d, s, n);
                            let q = self.t.and(&c, &c2);
                            let cc = self.t.and(&q, &c3);
                            s3.pc.truncate(st.pc.len());
                            s3.pc.push(cc.clone());
                            out.push((cc, s3, V::C(0)));
                        }
                    }
                }
                Ext::Multi(out)
            }
            "memset" => {
                let go = |e: &mut Self, s: &mut State, d: u64, n: u64, b: &V| {
                    if n == 0 {
                        return;
                    }
                    let mut t = std::mem::replace(&mut e.t, Terms::dummy());
                    let ok = match e.obj_mut(s, d, n) {
                        Some((o, off)) => {
                            o.fill(&mut t, off, n as usize, b);
                            true
                        }
                        None => false,
                    };
                    e.t = t;
                    if !ok {
                        e.oob(s, d, n, "memset");
                    }
                };
                if let (V::C(d), V::C(n)) = (&av[0], &av[2]) {
                    go(self, st, *d, *n, &av[1]);
                    return val(V::C(0));
                }
                let mut out = vec![];
                for (c, s1, d) in self.fork_arg(st, &av[0]) {
                    for (c3, mut s3, n) in self.fork_arg(&s1, &av[2]) {
                        go(self, &mut s3, d, n, &av[1]);
                        let cc = self.t.and(&c, &c3);
                        s3.pc.truncate(st.pc.len());
                        s3.pc.push(cc.clone());
                        out.push((cc, s3, V::C(0)));
                    }
                }
                Ext::Multi(out)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &key[1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let signed = key.starts_with('s');
                if n.contains(".sat.") {
                    // saturating
                    let g = |x: u64, y: u64| -> u64 {
                        if signed {
                            let (a, b) = (sx(x, w) as i128, sx(y, w) as i128);
                            let r = match op {
                                B::Add => a + b,
                                _ => a - b,
                            };
                            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            (r.clamp(lo, hi) as u64) & m64(w)
                        } else {
                            match op {
                                B::Add => (x as u128 + y as u128).min(m64(w) as u128) as u64,
                                _ => x.saturating_sub(y),
                            }
                        }
                    };
                    let (a0, b0) = (self.norm(&av[0]), self.norm(&av[1]));
                    if let Some(v) = mapn(self.t.kmax, &[&a0, &b0], |x| g(x[0], x[1])) {
                        return val(v);
                    }
                    let (x, y) = (self.t.node_of_int(&a0, w), self.t.node_of_int(&b0, w));
                    if signed {
                        self.abort("signed saturation".into());
                        return Ext::Dead;
                    }
                    let (r, ovf, sat) = if op == B::Add {
                        let r = self.t.iadd(x, y);
                        let m = self.t.ic(m64(w) as i128);
                        let o = self.t.icmp_nodes(Pred::Gt, r, m);
                        (r, o, V::C(m64(w)))
                    } else {
                        let o = self.t.icmp_nodes(Pred::Lt, x, y);
                        let r = self.t.isub(x, y);
                        (r, o, V::C(0))
                    };
                    if let V::C(0) = ovf {
                        return val(self.t.mk_int(r));
                    }
                    let r = self.t.wrap(r, w);
                    let rv = self.t.mk_int(r);
                    return val(self.t.iite(&ovf, &sat, &rv, w));
                }
                // with.overflow
                if w > 64 {
                    if let (Some(x), Some(y)) = (Self::to_w(&av[0]), Self::to_w(&av[1])) {
                        let (r, o) = match op {
                            B::Add => x.overflowing_add(y),
                            B::Sub => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        return val(V::A(Rc::new(vec![V::W(Rc::new(r)), V::C(o as u64)])));
                    }
                    self.abort("wide overflow arithmetic".into());
                    return Ext::Dead;
                }
                let ovf = |x: u64, y: u64| -> u64 {
                    if signed {
                        let (a, b) = (sx(x, w) as i128, sx(y, w) as i128);
                        let r = match op {
                            B::Add => a + b,
                            B::Sub => a - b,
                            _ => a * b,
                        };
                        (r < -(1i128 << (w - 1)) || r >= 1i128 << (w - 1)) as u64
                    } else {
                        let (a, b) = (x as i128, y as i128);
                        match op {
                            B::Add => (a + b > m64(w) as i128) as u64,
                            B::Sub => (a < b) as u64,
                            _ => ((x as u128) * (y as u128) > m64(w) as u128) as u64,
                        }
                    }
                };
                let (a0, b0) = (self.norm(&av[0]), self.norm(&av[1]));
                let r = self.bin(op, w, &a0, &b0, false);
                if let Some(o) = mapn(self.t.kmax, &[&a0, &b0], |x| ovf(x[0], x[1])) {
                    return val(V::A(Rc::new(vec![r, o])));
                }
                let (x, y) = (self.t.node_of_int(&a0, w), self.t.node_of_int(&b0, w));
                let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, m64(w) as i128) };
                let (x, y) = if signed {
                    let f = |s: &mut Self, n: N| {
                        if s.t.irng(n).1 < 1i128 << (w - 1) {
                            return n;
                        }
                        let h = s.t.ic(1i128 << (w - 1));
                        let q = s.t.iadd(n, h);
                        let q = s.t.wrap(q, w);
                        s.t.isub(q, h)
                    };
                    (f(self, x), f(self, y))
                } else {
                    (x, y)
                };
                let z = match op {
                    B::Add => self.t.iadd(x, y),
                    B::Sub => self.t.isub(x, y),
                    _ => self.t.imul(x, y),
                };
                let (l, h) = (self.t.ic(lo), self.t.ic(hi));
                let o1 = self.t.icmp_nodes(Pred::Gt, z, h);
                let o2 = self.t.icmp_nodes(Pred::Lt, z, l);
                let o = self.t.or(&o1, &o2);
                val(V::A(Rc::new(vec![r, o])))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match key {
                    "umax" => IP::Ugt,
                    "umin" => IP::Ult,
                    "smax" => IP::Sgt,
                    _ => IP::Slt,
                };
                let c = self.icmp(p, w, &av[0], &av[1]);
                let r = self.ite_ty(rt, &c, &av[0], &av[1]);
                val(r)
            }
            "abs" => {
                let c = self.icmp(IP::Slt, w, &av[0], &V::C(0));
                let n = self.bin(B::Sub, w, &V::C(0), &av[0], false);
                val(self.ite_ty(rt, &c, &n, &av[0]))
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let g = |x: u64| -> u64 {
                    match key {
                        "ctlz" => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        "cttz" => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        "ctpop" => x.count_ones() as u64,
                        "bswap" => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                if w > 64 {
                    if let V::W(x) = &av[0] {
                        let r = match key {
                            "ctlz" => x.leading_zeros() as u128,
                            "cttz" => x.trailing_zeros() as u128,
                            "ctpop" => x.count_ones() as u128,
                            _ => x.swap_bytes(),
                        };
                        return val(V::W(Rc::new(r)));
                    }
                }
                let v = self.norm(&av[0]);
                match &v {
                    V::C(c) => val(V::C(g(*c))),
                    V::T(t) => val(map1(t, g)),
                    _ => {
                        self.abort(format!("{} of symbolic integer", key));
                        Ext::Dead
                    }
                }
            }
            "fshl" | "fshr" => {
                let s = self.conc(&av[2], "funnel shift") % w as u64;
                if key == "fshr" {
                    if s == 0 {
                        return val(av[1].clone());
                    }
                    let a = self.bin(B::Shl, w, &av[0], &V::C(w as u64 - s), false);
                    let b = self.bin(B::LShr, w, &av[1], &V::C(s), false);
                    return val(self.bin(B::Or, w, &a, &b, true));
                }
                if s == 0 {
                    return val(av[0].clone());
                }
                let a = self.bin(B::Shl, w, &av[0], &V::C(s), false);
                let b = self.bin(B::LShr, w, &av[1], &V::C(w as u64 - s), false);
                val(self.bin(B::Or, w, &a, &b, true))
            }
            "ucmp" | "scmp" => {
                let aw = args[0].0.int_width();
                let (gt, lt) = if key == "ucmp" { (IP::Ugt, IP::Ult) } else { (IP::Sgt, IP::Slt) };
                let g = self.icmp(gt, aw, &av[0], &av[1]);
                let l = self.icmp(lt, aw, &av[0], &av[1]);
                let r = self.t.merge_val(&l, &V::C(m64(w)), &V::C(0), 1);
                val(self.t.merge_val(&g, &V::C(1), &r, 1))
            }
            "is" => val(V::C(0)),
            "expect" => val(av[0].clone()),
            "threadlocal" => val(av[0].clone()),
            "load" => {
                // load.relative(ptr, offset)
                let (p, o) = (self.conc(&av[0], "pointer"), av[1].clone());
                let cs = self.cases(st, &o);
                let mut acc: Option<V> = None;
                for (c, o) in cs {
                    let v = self.read(st, p.wrapping_add(o), 4);
                    let r = match v {
                        V::C(x) => V::C(p.wrapping_add(sx(x, 32) as u64)),
                        _ => {
                            self.abort("load.relative".into());
                            V::C(0)
                        }
                    };
                    acc = Some(match acc {
                        None => r,
                        Some(a) => self.t.merge_val(&c, &r, &a, 8),
                    });
                }
                match acc {
                    Some(v) => val(v),
                    None => Ext::Dead,
                }
            }
            "trap" => {
                self.panic_at(st, "trap");
                Ext::Dead
            }
            "cos" => val(self.t.ffun(Fun::Cos, &av[0])),
            "sin" => val(self.t.ffun(Fun::Sin, &av[0])),
            "exp" => val(self.t.ffun(Fun::Exp, &av[0])),
            "log" => val(self.t.ffun(Fun::Log, &av[0])),
            "log10" => val(self.t.ffun(Fun::Log10, &av[0])),
            "sqrt" if *rt == Ty::F64 => val(self.t.ffun(Fun::Sqrt, &av[0])),
            "sqrt" => {
                let x = self.conc(&av[0], "f32");
                val(V::C(f32::from_bits(x as u32).sqrt().to_bits() as u64))
            }
            "floor" => val(self.t.ffun(Fun::Floor, &av[0])),
            "ceil" => val(self.t.ffun(Fun::Ceil, &av[0])),
            "fabs" => val(self.t.fabs(&av[0])),
            "trunc" => {
                // llvm.trunc.f64
                if let Some(v) = mapn(self.t.kmax, &[&av[0]], |x| f64::from_bits(x[0]).trunc().to_bits()) {
                    return val(v);
                }
                let n = self.t.node_of_real(&av[0]);
                let i = self.t.trunc_real(n);
                val(self.t.int_to_real(i))
            }
            "copysign" => {
                if let Some(v) = mapn(self.t.kmax, &[&av[0], &av[1]], |x| {
                    f64::from_bits(x[0]).copysign(f64::from_bits(x[1])).to_bits()
                }) {
                    return val(v);
                }
                self.abort("copysign".into());
                Ext::Dead
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let p = if key.starts_with("min") { FP::O(Pred::Lt) } else { FP::O(Pred::Gt) };
                let c = self.fcmp(p, &av[0], &av[1]);
                val(self.t.fite(&c, &av[0], &av[1]))
            }
            "fma" | "fmuladd" => {
                if let Some(v) = mapn(self.t.kmax, &[&av[0], &av[1], &av[2]], |x| {
                    f64::from_bits(x[0]).mul_add(f64::from_bits(x[1]), f64::from_bits(x[2])).to_bits()
                }) {
                    return val(v);
                }
                let p = self.t.fmul(&av[0], &av[1]);
                val(self.t.fadd(&p, &av[2]))
            }
            "powi" => {
                let k = sx(self.conc(&av[1], "exponent"), 32);
                let mut acc = V::C(1f64.to_bits());
                let mut n = k.unsigned_abs();
                let mut b = av[0].clone();
                // compiler-rt order
                loop {
                    if n & 1 != 0 {
                        acc = self.t.fmul(&acc, &b);
                    }
                    n /= 2;
                    if n == 0 {
                        break;
                    }
                    b = self.t.fmul(&b, &b.clone());
                }
                if k < 0 {
                    acc = self.t.fdiv(&V::C(1f64.to_bits()), &acc);
                }
                val(acc)
            }
            "fptoui" | "fptosi" => val(self.fp_to_int(&av[0], w, key == "fptosi", args[0].0 == Ty::F32)),
            "objectsize" => val(V::C(u64::MAX)),
            "x86" => {
                if n.contains("xgetbv") {
                    return val(V::C(0));
                }
                self.abort(format!("intrinsic {}", n));
                Ext::Dead
            }
            k if rt == &Ty::F64 && matches!(k, "pow" | "round" | "roundeven" | "rint" | "nearbyint" | "exp2" | "log2" | "tan" | "atan" | "atan2" | "asin" | "acos" | "sinh" | "cosh" | "tanh") => {
                match self.libm(k, av) {
                    Some(v) => val(v),
                    None => {
                        self.abort(format!("intrinsic {}", n));
                        Ext::Dead
                    }
                }
            }
            _ => {
                self.abort(format!("intrinsic {}", n));
                Ext::Dead
            }
        }
    }
    fn sym_api(&mut self, st: &mut State, n: &str, av: &[V]) -> Ext {
        let val = |v: V| Ext::Val(v);
        match n {
            "bool" => {
                let v = self.t.in_bool();
                val(v)
            }
            "u8" => {
                let v = self.t.in_byte();
                val(v)
            }
            "u64" => {
                let (lo, hi) = (self.conc(&av[0], "bound"), self.conc(&av[1], "bound"));
                val(self.t.in_u(lo, hi))
            }
            "f64" => {
                let (lo, hi) = (self.conc(&av[0], "bound"), self.conc(&av[1], "bound"));
                val(self.t.in_f(f64::from_bits(lo), f64::from_bits(hi)))
            }
            "base" => {
                // the value under one fixed assignment: a constant the replay records
                let ins = crate::smt::default_inputs(&self.t);
                let mut a = crate::term::Assign::new(ins);
                let x = self.t.eval_v(&av[0], true, &mut a);
                self.t.fixed_input(f64::from_bits(x));
                val(V::C(x))
            }
            "param" => {
                let i = self.conc(&av[0], "index") as usize;
                match self.params.get(i) {
                    Some(x) => val(V::C(*x)),
                    None => {
                        self.abort("missing parameter".into());
                        Ext::Dead
                    }
                }
            }
            "paramf" => {
                let i = self.conc(&av[0], "index") as usize;
                match self.fparams.get(i) {
                    Some(x) => val(V::C(x.to_bits())),
                    None => {
                        self.abort("missing parameter".into());
                        Ext::Dead
                    }
                }
            }
            "assume" => {
                let c = self.t.as_bool_tab(&av[0]);
                if !self.feasible(&st.pc, &c) {
                    return Ext::Dead;
                }
                if !matches!(c, V::C(_)) {
                    st.pc.push(c);
                }
                val(V::C(0))
            }
            "check" => {
                let id = self.conc(&av[1], "check id");
                self.check(st, &av[0], &format!("check {}", id));
                val(V::C(0))
            }
            "check_eq" => {
                let id = self.conc(&av[2], "check id");
                let c = self.icmp(IP::Eq, 64, &av[0], &av[1]);
                if let (V::C(1), V::T(_)) = (&c, &av[0]) {
                    self.batch.push((av[0].clone(), av[1].clone()));
                }
                self.check(st, &c, &format!("check {}", id));
                val(V::C(0))
            }
            "near" => {
                let tol = f64::from_bits(self.conc(&av[2], "tolerance"));
                let id = self.conc(&av[3], "check id");
                let c = self.near(&av[0], &av[1], tol);
                self.check(st, &c, &format!("check {}", id));
                val(V::C(0))
            }
            "observe_f64" | "observe_u64" => {
                self.obs.push(Obs { float: n == "observe_f64", v: av[0].clone(), pc: st.pc.clone() });
                val(V::C(0))
            }
            "may_panic" => {
                let c = self.t.as_bool_tab(&av[0]);
                self.may_panic = Some(c);
                val(V::C(0))
            }
            "reached" => {
                let id = self.conc(&av[0], "id");
                // the path must be feasible for the witness to count
                let (r, _) = solve(&mut self.t, &st.pc, false);
                if r == Res::Sat {
                    *self.reached.entry(id).or_insert(0) += 1;
                }
                val(V::C(0))
            }
            "mark" => {
                if let V::T(t) = &av[0] {
                    self.t.marked.extend(t.atoms.iter().cloned());
                }
                val(av[0].clone())
            }
            "concretize" => {
                let cs = self.fork_arg(st, &av[0]);
                Ext::Multi(cs.into_iter().map(|(c, s, x)| (c, s, V::C(x))).collect())
            }
            _ => {
                self.abort(format!("sym_{}", n));
                Ext::Dead
            }
        }
    }
}
enum Ext {
    Val(V),
    Dead,
    Multi(Vec<(V, State, V)>),
}
enum Flow {
    Next,
    Dead,
    Multi(Vec<(V, State, V)>, Option<u32>),
}
