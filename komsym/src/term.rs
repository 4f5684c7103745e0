//! Symbolic values: decision tables over boolean atoms, GF(2)-linear words, and a hash-consed DAG of
//! real-valued (IEEE double with rounding bounds) and integer nodes.
use std::collections::{BinaryHeap, HashMap};
use std::rc::Rc;

pub type N = u32;
pub const NOTAB: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Rc<u128>),
    T(Rc<Tab>),
    X(Rc<Xor>),
    N(N),
    A(Rc<Vec<V>>),
}

#[derive(Debug, PartialEq, Eq, Hash, Clone)]
pub struct Tab {
    pub atoms: Vec<u32>,
    pub vals: Vec<u64>,
}

#[derive(Debug, PartialEq, Eq, Hash, Clone)]
pub struct Xor {
    pub w: u32,
    pub bits: Vec<(bool, Rc<Vec<u32>>)>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Fun {
    Cos,
    Sin,
    Exp,
    Log10,
    Log,
    Sqrt,
    Floor,
    Ceil,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum K {
    RVar(u32),
    RC(u64),
    RT(u32),
    Add(N, N),
    Sub(N, N),
    Mul(N, N),
    Div(N, N),
    Neg(N),
    Abs(N),
    Fun(Fun, N),
    RIte(u32, N, N),
    FromI(N),
    /// fresh opaque base factor (trig of a table leaf), evaluated as fun of poly index
    Opaque(Fun, u32),
    IVar(u32),
    IC(i128),
    IT(u32),
    IAdd(N, N),
    ISub(N, N),
    IMul(N, N),
    IDiv(N, N),
    IRem(N, N),
    IIte(u32, N, N),
    /// truncation of a real towards zero
    Trunc(N),
    /// the bit pattern of a real
    Bits(N),
}

#[derive(Debug, Clone)]
pub struct NodeInfo {
    pub k: K,
    pub lo: f64,
    pub hi: f64,
    pub ilo: i128,
    pub ihi: i128,
    pub is_int: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Gt,
    Ge,
    Lt,
    Le,
}

#[derive(Debug, Clone)]
pub enum ADef {
    In(u32, u32),
    XorD(Rc<Vec<u32>>),
    RCmp(Pred, Rc<Poly>, N, N),
    ICmp(Pred, N, N),
    And(u32, u32),
    Or(u32, u32),
    Xor2(u32, u32),
    Ite(u32, u32, u32),
}

#[derive(Debug, Clone)]
pub enum InKind {
    Bool,
    Byte,
    U(u64, u64),
    F(f64, f64),
}

#[derive(Debug, Clone)]
pub struct Input {
    pub kind: InKind,
    pub base: u32, // atom or node
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Mono {
    pub tab: u32,
    pub f: Vec<(N, i32)>,
}

#[derive(Debug, Clone, Default)]
pub struct Poly {
    pub t: Vec<(Mono, f64)>, // sorted by Mono
    pub err: f64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum InVal {
    B(bool),
    U(u64),
    F(f64),
}

pub struct Assign {
    pub vals: Vec<InVal>,
    atoms: HashMap<u32, bool>,
    nodes: HashMap<N, EV>,
}
#[derive(Clone, Copy, Debug)]
pub enum EV {
    R(f64),
    I(i128),
}
impl Assign {
    pub fn new(vals: Vec<InVal>) -> Self {
        Assign { vals, atoms: HashMap::new(), nodes: HashMap::new() }
    }
}

const U: f64 = 1.1102230246251565e-16; // 2^-53
const TINY: f64 = 5e-324;
fn x_abs(x: f64) -> f64 {
    x.abs()
}
fn up(x: f64) -> f64 {
    x * (1.0 + 1e-9)
}

pub struct Terms {
    /// atoms worth tabulating over directly
    pub marked: std::collections::HashSet<u32>,
    pub kmax: usize,
    pub nodes: Vec<NodeInfo>,
    node_map: HashMap<K, N>,
    pub tabs: Vec<Rc<Tab>>,
    tab_map: HashMap<Rc<Tab>, u32>,
    pub atoms: Vec<ADef>,
    xor_map: HashMap<Rc<Vec<u32>>, u32>,
    def_map: HashMap<(u8, u32, u32, u32), u32>,
    cmp_map: HashMap<(Pred, N, N, bool), V>,
    pub inputs: Vec<Input>,
    poly_memo: HashMap<N, Rc<Poly>>,
    trig: HashMap<(u8, i64), Vec<(Rc<Poly>, N)>>,
    pub opaque_polys: Vec<Rc<Poly>>,
    pub solver: crate::smt::Solver,
    pub lemmas: u64,
    pub unsupported: Option<String>,
}

impl Tab {
    pub fn reduce(mut self) -> V {
        let mut k = 0;
        while k < self.atoms.len() {
            let b = 1usize << k;
            let n = self.vals.len();
            let mut dep = false;
            let mut j = 0;
            while j < n {
                if j & b == 0 && self.vals[j] != self.vals[j | b] {
                    dep = true;
                    break;
                }
                j += 1;
            }
            if dep {
                k += 1;
            } else {
                let mut nv = Vec::with_capacity(n / 2);
                for j in 0..n {
                    if j & b == 0 {
                        nv.push(self.vals[j]);
                    }
                }
                self.vals = nv;
                self.atoms.remove(k);
            }
        }
        if self.atoms.is_empty() {
            V::C(self.vals[0])
        } else {
            V::T(Rc::new(self))
        }
    }
    /// index of this table's row when the union's row is j
    fn proj(&self, un: &[u32]) -> Vec<u8> {
        self.atoms.iter().map(|a| un.iter().position(|b| b == a).unwrap() as u8).collect()
    }
}
#[inline]
fn pidx(p: &[u8], j: usize) -> usize {
    let mut r = 0;
    for (k, &b) in p.iter().enumerate() {
        r |= ((j >> b) & 1) << k;
    }
    r
}
pub fn union_atoms(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            v.push(a[i]);
            i += 1;
            j += 1;
        } else if a[i] < b[j] {
            v.push(a[i]);
            i += 1;
        } else {
            v.push(b[j]);
            j += 1;
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    v
}

pub fn map1(t: &Tab, f: impl Fn(u64) -> u64) -> V {
    Tab { atoms: t.atoms.clone(), vals: t.vals.iter().map(|&x| f(x)).collect() }.reduce()
}
pub fn tab_of(v: &V) -> Option<Tab> {
    match v {
        V::C(c) => Some(Tab { atoms: vec![], vals: vec![*c] }),
        V::T(t) => Some((**t).clone()),
        _ => None,
    }
}
/// Combine constants/tables row by row when the union of their atoms is small enough.
pub fn mapn(kmax: usize, vs: &[&V], f: impl Fn(&[u64]) -> u64) -> Option<V> {
    if vs.len() == 2 {
        // fast cases
        match (vs[0], vs[1]) {
            (V::T(a), V::C(c)) => return Some(map1(a, |x| f(&[x, *c]))),
            (V::C(c), V::T(b)) => return Some(map1(b, |x| f(&[*c, x]))),
            (V::T(a), V::T(b)) if a.atoms == b.atoms => {
                let vals = a.vals.iter().zip(b.vals.iter()).map(|(&x, &y)| f(&[x, y])).collect();
                return Some(Tab { atoms: a.atoms.clone(), vals }.reduce());
            }
            _ => {}
        }
    }
    let mut un: Vec<u32> = vec![];
    for v in vs {
        match v {
            V::C(_) => {}
            V::T(t) => {
                un = union_atoms(&un, &t.atoms);
                if un.len() > kmax {
                    return None;
                }
            }
            _ => return None,
        }
    }
    let projs: Vec<Option<(Vec<u8>, &Tab)>> = vs
        .iter()
        .map(|v| match v {
            V::T(t) => Some((t.proj(&un), &**t)),
            _ => None,
        })
        .collect();
    let mut args = vec![0u64; vs.len()];
    for (i, v) in vs.iter().enumerate() {
        if let V::C(c) = v {
            args[i] = *c;
        }
    }
    let n = 1usize << un.len();
    let mut vals = Vec::with_capacity(n);
    for j in 0..n {
        for (i, p) in projs.iter().enumerate() {
            if let Some((p, t)) = p {
                args[i] = t.vals[pidx(p, j)];
            }
        }
        vals.push(f(&args));
    }
    Some(Tab { atoms: un, vals }.reduce())
}

fn f(b: u64) -> f64 {
    f64::from_bits(b)
}

impl Terms {
    pub fn new(kmax: usize, solver: crate::smt::Solver) -> Self {
        Terms {
            kmax,
            marked: Default::default(),
            nodes: vec![],
            node_map: HashMap::new(),
            tabs: vec![],
            tab_map: HashMap::new(),
            atoms: vec![],
            xor_map: HashMap::new(),
            def_map: HashMap::new(),
            cmp_map: HashMap::new(),
            inputs: vec![],
            poly_memo: HashMap::new(),
            trig: HashMap::new(),
            opaque_polys: vec![],
            solver,
            lemmas: 0,
            unsupported: None,
        }
    }
    pub fn tab_id(&mut self, t: &Rc<Tab>) -> u32 {
        if let Some(&i) = self.tab_map.get(t) {
            return i;
        }
        let i = self.tabs.len() as u32;
        self.tabs.push(t.clone());
        self.tab_map.insert(t.clone(), i);
        i
    }
    pub fn bool_tab_id(&mut self, v: &V) -> u32 {
        match v {
            V::T(t) => self.tab_id(t),
            V::C(c) => {
                let t = Rc::new(Tab { atoms: vec![], vals: vec![*c] });
                self.tab_id(&t)
            }
            _ => panic!("bool_tab_id {:?}", v),
        }
    }
    pub fn tab_v(&self, id: u32) -> V {
        let t = &self.tabs[id as usize];
        if t.atoms.is_empty() {
            V::C(t.vals[0])
        } else {
            V::T(t.clone())
        }
    }
    pub fn new_atom(&mut self, d: ADef) -> u32 {
        self.atoms.push(d);
        (self.atoms.len() - 1) as u32
    }
    pub fn atom_v(a: u32) -> V {
        V::T(Rc::new(Tab { atoms: vec![a], vals: vec![0, 1] }))
    }
    fn def_atom(&mut self, key: (u8, u32, u32, u32), d: ADef) -> V {
        if let Some(&a) = self.def_map.get(&key) {
            return Self::atom_v(a);
        }
        let a = self.new_atom(d);
        self.def_map.insert(key, a);
        Self::atom_v(a)
    }
    // ---- inputs
    pub fn in_bool(&mut self) -> V {
        let i = self.inputs.len() as u32;
        let a = self.new_atom(ADef::In(i, 0));
        self.inputs.push(Input { kind: InKind::Bool, base: a });
        Self::atom_v(a)
    }
    pub fn in_byte(&mut self) -> V {
        let i = self.inputs.len() as u32;
        let base = self.atoms.len() as u32;
        for b in 0..8 {
            self.new_atom(ADef::In(i, b));
        }
        self.inputs.push(Input { kind: InKind::Byte, base });
        V::T(Rc::new(Tab { atoms: (base..base + 8).collect(), vals: (0..256).collect() }))
    }
    pub fn in_u(&mut self, lo: u64, hi: u64) -> V {
        let i = self.inputs.len() as u32;
        let n = self.raw_node(K::IVar(i), 0.0, 0.0, lo as i128, hi as i128, true);
        self.inputs.push(Input { kind: InKind::U(lo, hi), base: n });
        if lo == hi {
            return V::C(lo);
        }
        V::N(n)
    }
    /// an input that can take one value only
    pub fn fixed_input(&mut self, x: f64) {
        self.inputs.push(Input { kind: InKind::F(x, x), base: 0 });
    }
    pub fn in_f(&mut self, lo: f64, hi: f64) -> V {
        let i = self.inputs.len() as u32;
        let n = self.raw_node(K::RVar(i), lo, hi, 0, 0, false);
        self.inputs.push(Input { kind: InKind::F(lo, hi), base: n });
        V::N(n)
    }
    fn raw_node(&mut self, k: K, lo: f64, hi: f64, ilo: i128, ihi: i128, is_int: bool) -> N {
        if let Some(&n) = self.node_map.get(&k) {
            return n;
        }
        let n = self.nodes.len() as N;
        if !is_int && !(lo.is_finite() && hi.is_finite() && lo <= hi) {
            self.unsupp(format!("real node without finite range: {:?} [{},{}]", k, lo, hi));
        }
        self.nodes.push(NodeInfo { k: k.clone(), lo, hi, ilo, ihi, is_int });
        self.node_map.insert(k, n);
        n
    }
    pub fn unsupp(&mut self, m: String) {
        if self.unsupported.is_none() {
            self.unsupported = Some(m);
        }
    }

    // ---- booleans
    pub fn not(&mut self, a: &V) -> V {
        match a {
            V::C(c) => V::C(c ^ 1),
            V::T(t) => map1(t, |x| x ^ 1),
            V::X(x) => {
                let mut x = (**x).clone();
                x.bits[0].0 = !x.bits[0].0;
                V::X(Rc::new(x))
            }
            _ => {
                self.unsupp(format!("not of {:?}", a));
                V::C(0)
            }
        }
    }
    pub fn as_bool_tab(&mut self, a: &V) -> V {
        match a {
            V::C(c) => V::C(c & 1),
            V::T(_) => a.clone(),
            V::X(x) => {
                let b = x.bits[0].clone();
                self.xor_bit(&b)
            }
            V::N(n) => {
                // an i1 int node
                let z = self.ic(0);
                self.icmp_nodes(Pred::Ne, *n, z)
            }
            _ => {
                self.unsupp(format!("bool of {:?}", a));
                V::C(0)
            }
        }
    }
    pub fn and(&mut self, a: &V, b: &V) -> V {
        let a = self.as_bool_tab(a);
        let b = self.as_bool_tab(b);
        if let Some(v) = mapn(self.kmax, &[&a, &b], |x| x[0] & x[1]) {
            return v;
        }
        let (mut x, mut y) = (self.bool_tab_id(&a), self.bool_tab_id(&b));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        self.def_atom((0, x, y, 0), ADef::And(x, y))
    }
    pub fn or(&mut self, a: &V, b: &V) -> V {
        let a = self.as_bool_tab(a);
        let b = self.as_bool_tab(b);
        if let Some(v) = mapn(self.kmax, &[&a, &b], |x| x[0] | x[1]) {
            return v;
        }
        let (mut x, mut y) = (self.bool_tab_id(&a), self.bool_tab_id(&b));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        self.def_atom((1, x, y, 0), ADef::Or(x, y))
    }
    pub fn ite_bool(&mut self, c: &V, a: &V, b: &V) -> V {
        let c = self.as_bool_tab(c);
        let a = self.as_bool_tab(a);
        let b = self.as_bool_tab(b);
        if let Some(v) = mapn(self.kmax, &[&c, &a, &b], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
            return v;
        }
        let (x, y, z) = (self.bool_tab_id(&c), self.bool_tab_id(&a), self.bool_tab_id(&b));
        self.def_atom((3, x, y, z), ADef::Ite(x, y, z))
    }

    // ---- xor-linear words
    fn base_form(&self, a: u32) -> Option<Rc<Vec<u32>>> {
        if let ADef::XorD(f) = &self.atoms[a as usize] {
            Some(f.clone())
        } else {
            None
        }
    }
    pub fn symdiff(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i] == b[j] {
                i += 1;
                j += 1;
            } else if a[i] < b[j] {
                v.push(a[i]);
                i += 1;
            } else {
                v.push(b[j]);
                j += 1;
            }
        }
        v.extend_from_slice(&a[i..]);
        v.extend_from_slice(&b[j..]);
        v
    }
    pub fn to_xor(&self, v: &V, w: u32) -> Option<Xor> {
        match v {
            V::C(c) => Some(Xor {
                w,
                bits: (0..w).map(|i| ((c >> i) & 1 != 0, Rc::new(vec![]))).collect(),
            }),
            V::X(x) => Some((**x).clone()),
            V::T(t) => {
                let n = t.atoms.len();
                let c = t.vals[0];
                let cols: Vec<u64> = (0..n).map(|k| t.vals[1 << k] ^ c).collect();
                for j in 0..t.vals.len() {
                    let mut e = c;
                    for (k, col) in cols.iter().enumerate() {
                        if (j >> k) & 1 != 0 {
                            e ^= col;
                        }
                    }
                    if e != t.vals[j] {
                        return None;
                    }
                }
                let bits = (0..w)
                    .map(|i| {
                        let mut form: Vec<u32> = vec![];
                        for (k, col) in cols.iter().enumerate() {
                            if (col >> i) & 1 != 0 {
                                match self.base_form(t.atoms[k]) {
                                    Some(bf) => form = Self::symdiff(&form, &bf),
                                    None => form = Self::symdiff(&form, &[t.atoms[k]]),
                                }
                            }
                        }
                        ((c >> i) & 1 != 0, Rc::new(form))
                    })
                    .collect();
                Some(Xor { w, bits })
            }
            _ => None,
        }
    }
    /// table for one xor-linear bit (introduces a defined atom when it is not a single atom)
    pub fn xor_bit(&mut self, b: &(bool, Rc<Vec<u32>>)) -> V {
        if b.1.is_empty() {
            return V::C(b.0 as u64);
        }
        if b.1.len() > 1 && b.1.len() <= self.kmax && b.1.iter().all(|a| self.marked.contains(a)) {
            let vals = (0..1u64 << b.1.len()).map(|j| (j.count_ones() as u64 & 1) ^ b.0 as u64).collect();
            return V::T(Rc::new(Tab { atoms: b.1.to_vec(), vals }));
        }
        let a = self.xor_atom(&b.1);
        if b.0 {
            V::T(Rc::new(Tab { atoms: vec![a], vals: vec![1, 0] }))
        } else {
            Self::atom_v(a)
        }
    }
    fn xor_atom(&mut self, form: &Rc<Vec<u32>>) -> u32 {
        if form.len() == 1 {
            return form[0];
        }
        if let Some(&a) = self.xor_map.get(form) {
            return a;
        }
        let a = self.new_atom(ADef::XorD(form.clone()));
        self.xor_map.insert(form.clone(), a);
        a
    }
    /// exact table of a xor-linear word over (possibly defined) atoms, if few enough
    pub fn marked_v(&mut self, v: &V) -> Option<V> {
        match v {
            V::X(x) => self.marked_tab(x),
            V::T(_) | V::C(_) => Some(v.clone()),
            _ => None,
        }
    }
    pub fn marked_tab(&mut self, x: &Xor) -> Option<V> {
        let mut un: Vec<u32> = vec![];
        for b in &x.bits {
            un = union_atoms(&un, &b.1);
        }
        if un.len() <= self.kmax && un.iter().all(|a| self.marked.contains(a)) {
            self.xor_tab(x)
        } else {
            None
        }
    }
    pub fn xor_tab(&mut self, x: &Xor) -> Option<V> {
        // few underlying atoms: tabulate over those
        let mut un: Vec<u32> = vec![];
        for b in &x.bits {
            un = union_atoms(&un, &b.1);
            if un.len() > self.kmax {
                break;
            }
        }
        if un.len() <= self.kmax && (un.len() <= 8 || un.iter().all(|a| self.marked.contains(a))) {
            let col: Vec<u64> = un
                .iter()
                .map(|a| x.bits.iter().enumerate().fold(0, |c, (i, b)| c | (b.1.binary_search(a).is_ok() as u64) << i))
                .collect();
            let c = x.bits.iter().enumerate().fold(0, |c, (i, b)| c | (b.0 as u64) << i);
            let vals = (0..1usize << un.len())
                .map(|j| (0..un.len()).fold(c, |v, k| if j >> k & 1 != 0 { v ^ col[k] } else { v }))
                .collect();
            return Some(Tab { atoms: un, vals }.reduce());
        }
        // otherwise one atom per distinct non-constant form
        let mut acc = V::C(0);
        for i in 0..x.w as usize {
            let b = self.xor_bit(&x.bits[i]);
            acc = mapn(self.kmax.max(8), &[&acc, &b], |v| v[0] | (v[1] << i))?;
        }
        Some(acc)
    }
    /// tables that together span many unmarked atoms
    pub fn wide(&self, vs: &[&V]) -> bool {
        let mut un: Vec<u32> = vec![];
        for v in vs {
            if let V::T(t) = v {
                un = union_atoms(&un, &t.atoms);
            }
        }
        un.len() > 8 && !un.iter().all(|a| self.marked.contains(a))
    }
    /// a xor-linear word as a table over the given atoms, if it is one
    fn xor_over(&self, x: &Xor, atoms: &[u32]) -> Option<Tab> {
        let forms: Vec<Rc<Vec<u32>>> = atoms.iter().map(|&a| self.base_form(a).unwrap_or_else(|| Rc::new(vec![a]))).collect();
        // echelon basis: (form, combination of atoms)
        let mut basis: Vec<(Vec<u32>, u64)> = vec![];
        let red = |basis: &Vec<(Vec<u32>, u64)>, f: &[u32]| -> (Vec<u32>, u64) {
            let (mut f, mut m) = (f.to_vec(), 0u64);
            for (b, bm) in basis {
                if f.binary_search(&b[0]).is_ok() {
                    f = Self::symdiff(&f, b);
                    m ^= bm;
                }
            }
            (f, m)
        };
        for (k, fm) in forms.iter().enumerate() {
            let (f, m) = red(&basis, fm);
            if !f.is_empty() {
                let mm = m ^ (1 << k);
                // keep the basis reduced in its leading elements
                for e in basis.iter_mut() {
                    if e.0.binary_search(&f[0]).is_ok() {
                        e.0 = Self::symdiff(&e.0, &f);
                        e.1 ^= mm;
                    }
                }
                basis.push((f, mm));
            }
        }
        let mut cols = vec![0u64; atoms.len()];
        let mut c = 0u64;
        for (i, b) in x.bits.iter().enumerate() {
            let (r, m) = red(&basis, &b.1);
            if !r.is_empty() {
                return None;
            }
            c |= (b.0 as u64) << i;
            for (k, col) in cols.iter_mut().enumerate() {
                *col |= (m >> k & 1) << i;
            }
        }
        let vals = (0..1usize << atoms.len())
            .map(|j| (0..atoms.len()).fold(c, |v, k| if j >> k & 1 != 0 { v ^ cols[k] } else { v }))
            .collect();
        Some(Tab { atoms: atoms.to_vec(), vals })
    }
    /// if-then-else of xor-linear words whose difference depends on the condition's atoms only
    pub fn ite_xor(&mut self, c: &V, a: &V, b: &V, w: u32) -> Option<V> {
        let V::T(ct) = c else { return None };
        let (mut x, mut y) = (self.to_xor(a, w)?, self.to_xor(b, w)?);
        let z = || (false, Rc::new(vec![]));
        x.bits.resize_with(w as usize, z);
        y.bits.resize_with(w as usize, z);
        let d = Xor {
            w,
            bits: (0..w as usize)
                .map(|i| (x.bits[i].0 ^ y.bits[i].0, Rc::new(Self::symdiff(&x.bits[i].1, &y.bits[i].1))))
                .collect(),
        };
        let mut t = self.xor_over(&d, &ct.atoms)?;
        for (v, k) in t.vals.iter_mut().zip(&ct.vals) {
            if *k & 1 == 0 {
                *v = 0;
            }
        }
        let e = self.to_xor(&t.reduce(), w)?;
        Some(Self::mk_xor(Xor {
            w,
            bits: (0..w as usize)
                .map(|i| (y.bits[i].0 ^ e.bits[i].0, Rc::new(Self::symdiff(&y.bits[i].1, &e.bits[i].1))))
                .collect(),
        }))
    }
    pub fn mk_xor(x: Xor) -> V {
        if x.bits.iter().all(|b| b.1.is_empty()) {
            let mut c = 0u64;
            for (i, b) in x.bits.iter().enumerate() {
                if b.0 {
                    c |= 1 << i;
                }
            }
            V::C(c)
        } else {
            V::X(Rc::new(x))
        }
    }

    // ---- nodes
    pub fn node_of_real(&mut self, v: &V) -> N {
        match v {
            V::C(c) => {
                let x = f(*c);
                self.raw_node(K::RC(*c), x, x, 0, 0, false)
            }
            V::T(t) => {
                let id = self.tab_id(t);
                let mut lo = f64::INFINITY;
                let mut hi = f64::NEG_INFINITY;
                let mut nan = false;
                for &x in &t.vals {
                    let x = f(x);
                    if x.is_nan() {
                        nan = true;
                    }
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
                if nan {
                    lo = f64::NEG_INFINITY;
                }
                self.raw_node(K::RT(id), lo, hi, 0, 0, false)
            }
            V::N(n) => {
                if self.nodes[*n as usize].is_int {
                    self.unsupp("int node used as real".into());
                }
                *n
            }
            _ => {
                self.unsupp(format!("real of {:?}", v));
                self.raw_node(K::RC(0), 0.0, 0.0, 0, 0, false)
            }
        }
    }
    pub fn rng(&self, n: N) -> (f64, f64) {
        let i = &self.nodes[n as usize];
        (i.lo, i.hi)
    }
    fn rc(&self, n: N) -> Option<f64> {
        match self.nodes[n as usize].k {
            K::RC(c) => Some(f(c)),
            _ => None,
        }
    }
    fn konst(&mut self, x: f64) -> V {
        V::C(x.to_bits())
    }
    pub fn fadd(&mut self, a: &V, b: &V) -> V {
        if let Some(v) = mapn(self.kmax, &[a, b], |x| (f(x[0]) + f(x[1])).to_bits()) {
            return v;
        }
        let (x, y) = (self.node_of_real(a), self.node_of_real(b));
        if self.rc(x) == Some(0.0) {
            return V::N(y);
        }
        if self.rc(y) == Some(0.0) {
            return V::N(x);
        }
        let ((al, ah), (bl, bh)) = (self.rng(x), self.rng(y));
        V::N(self.raw_node(K::Add(x, y), al + bl, ah + bh, 0, 0, false))
    }
    pub fn fsub(&mut self, a: &V, b: &V) -> V {
        if let Some(v) = mapn(self.kmax, &[a, b], |x| (f(x[0]) - f(x[1])).to_bits()) {
            return v;
        }
        let (x, y) = (self.node_of_real(a), self.node_of_real(b));
        if x == y {
            return self.konst(0.0);
        }
        if self.rc(y) == Some(0.0) {
            return V::N(x);
        }
        let ((al, ah), (bl, bh)) = (self.rng(x), self.rng(y));
        V::N(self.raw_node(K::Sub(x, y), al - bh, ah - bl, 0, 0, false))
    }
    pub fn fmul(&mut self, a: &V, b: &V) -> V {
        if let Some(v) = mapn(self.kmax, &[a, b], |x| (f(x[0]) * f(x[1])).to_bits()) {
            return v;
        }
        let (mut x, mut y) = (self.node_of_real(a), self.node_of_real(b));
        for (p, q) in [(x, y), (y, x)] {
            match self.rc(p) {
                Some(c) if c == 0.0 => return self.konst(0.0),
                Some(c) if c == 1.0 => return V::N(q),
                Some(c) if c == -1.0 => return self.fneg(&V::N(q)),
                _ => {}
            }
        }
        if let (K::FromI(a), K::FromI(b)) = (self.nodes[x as usize].k.clone(), self.nodes[y as usize].k.clone()) {
            // exact below 2^53
            if self.irng(a).0 >= 0 && self.irng(b).0 >= 0 && self.irng(a).1.saturating_mul(self.irng(b).1) <= (1i128 << 53) {
                let m = self.imul(a, b);
                return self.int_to_real(m);
            }
        }
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let ((al, ah), (bl, bh)) = (self.rng(x), self.rng(y));
        let (lo, hi) = if x == y {
            let m = (al * al).max(ah * ah);
            let l = if al <= 0.0 && ah >= 0.0 { 0.0 } else { (al * al).min(ah * ah) };
            (l, m)
        } else {
            let c = [al * bl, al * bh, ah * bl, ah * bh];
            (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
        };
        V::N(self.raw_node(K::Mul(x, y), lo, hi, 0, 0, false))
    }
    pub fn fdiv(&mut self, a: &V, b: &V) -> V {
        if let Some(v) = mapn(self.kmax, &[a, b], |x| (f(x[0]) / f(x[1])).to_bits()) {
            return v;
        }
        let (x, y) = (self.node_of_real(a), self.node_of_real(b));
        if self.rc(y) == Some(1.0) {
            return V::N(x);
        }
        if self.rc(x) == Some(0.0) {
            return self.konst(0.0);
        }
        if x == y {
            let (l, h) = self.rng(x);
            if l > 0.0 || h < 0.0 {
                return self.konst(1.0);
            }
        }
        // exact integer quotients: (c*X)/X with everything below 2^53
        if let (K::FromI(p), K::FromI(q)) = (self.nodes[x as usize].k.clone(), self.nodes[y as usize].k.clone()) {
            if let K::IMul(c, r) = self.nodes[p as usize].k.clone() {
                let lim = 1i128 << 53;
                if self.nodes[p as usize].ihi <= lim && self.nodes[q as usize].ilo > 0 {
                    if r == q {
                        return self.int_to_real(c);
                    }
                    if c == q {
                        return self.int_to_real(r);
                    }
                }
            }
        }
        let ((al, ah), (bl, bh)) = (self.rng(x), self.rng(y));
        if bl <= 0.0 && bh >= 0.0 {
            self.unsupp(format!("division by a real that may be zero [{},{}]", bl, bh));
        }
        let c = [al / bl, al / bh, ah / bl, ah / bh];
        let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
        let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        V::N(self.raw_node(K::Div(x, y), lo, hi, 0, 0, false))
    }
    pub fn fneg(&mut self, a: &V) -> V {
        match a {
            V::C(c) => V::C(c ^ (1 << 63)),
            V::T(t) => map1(t, |x| x ^ (1 << 63)),
            _ => {
                let x = self.node_of_real(a);
                if let K::Neg(y) = self.nodes[x as usize].k {
                    return V::N(y);
                }
                let (l, h) = self.rng(x);
                V::N(self.raw_node(K::Neg(x), -h, -l, 0, 0, false))
            }
        }
    }
    pub fn fabs(&mut self, a: &V) -> V {
        match a {
            V::C(c) => V::C(c & !(1 << 63)),
            V::T(t) => map1(t, |x| x & !(1 << 63)),
            _ => {
                let x = self.node_of_real(a);
                let (l, h) = self.rng(x);
                if l >= 0.0 {
                    return V::N(x);
                }
                if h <= 0.0 {
                    return self.fneg(&V::N(x));
                }
                V::N(self.raw_node(K::Abs(x), 0.0, h.max(-l), 0, 0, false))
            }
        }
    }
    pub fn apply_fun(fu: Fun, x: f64) -> f64 {
        match fu {
            Fun::Cos => x.cos(),
            Fun::Sin => x.sin(),
            Fun::Exp => x.exp(),
            Fun::Log10 => x.log10(),
            Fun::Log => x.ln(),
            Fun::Sqrt => x.sqrt(),
            Fun::Floor => x.floor(),
            Fun::Ceil => x.ceil(),
        }
    }
    pub fn ffun(&mut self, fu: Fun, a: &V) -> V {
        match a {
            V::C(c) => V::C(Self::apply_fun(fu, f(*c)).to_bits()),
            V::T(t) => map1(t, |x| Self::apply_fun(fu, f(x)).to_bits()),
            _ => {
                let x = self.node_of_real(a);
                let (l, h) = self.rng(x);
                let (lo, hi) = match fu {
                    Fun::Cos | Fun::Sin => (-1.0, 1.0),
                    Fun::Exp | Fun::Log10 | Fun::Log => {
                        let (a, b) = (Self::apply_fun(fu, l), Self::apply_fun(fu, h));
                        (a - a.abs() * 1e-14, b + b.abs() * 1e-14)
                    }
                    _ => (Self::apply_fun(fu, l), Self::apply_fun(fu, h)),
                };
                V::N(self.raw_node(K::Fun(fu, x), lo, hi, 0, 0, false))
            }
        }
    }
    pub fn fite(&mut self, c: &V, a: &V, b: &V) -> V {
        let c = self.as_bool_tab(c);
        if let V::C(x) = c {
            return if x & 1 != 0 { a.clone() } else { b.clone() };
        }
        if let Some(v) = mapn(self.kmax, &[&c, a, b], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
            return v;
        }
        let (x, y) = (self.node_of_real(a), self.node_of_real(b));
        if x == y {
            return V::N(x);
        }
        let ct = self.bool_tab_id(&c);
        let ((al, ah), (bl, bh)) = (self.rng(x), self.rng(y));
        V::N(self.raw_node(K::RIte(ct, x, y), al.min(bl), ah.max(bh), 0, 0, false))
    }

    // ---- integers
    pub fn ic(&mut self, c: i128) -> N {
        self.raw_node(K::IC(c), 0.0, 0.0, c, c, true)
    }
    pub fn node_of_int(&mut self, v: &V, w: u32) -> N {
        match v {
            V::C(c) => self.ic(*c as i128),
            V::T(t) => {
                let id = self.tab_id(t);
                let lo = *t.vals.iter().min().unwrap() as i128;
                let hi = *t.vals.iter().max().unwrap() as i128;
                self.raw_node(K::IT(id), 0.0, 0.0, lo, hi, true)
            }
            V::N(n) => {
                if !self.nodes[*n as usize].is_int {
                    let h = 1i128 << 64;
                    return self.raw_node(K::Bits(*n), 0.0, 0.0, 0, h - 1, true);
                }
                *n
            }
            V::X(x) => {
                let x = (**x).clone();
                match self.xor_tab(&x) {
                    Some(t) => self.node_of_int(&t, w),
                    None => {
                        // sum of bits
                        let mut acc = self.ic(0);
                        for i in 0..x.w as usize {
                            let b = self.xor_bit(&x.bits[i]);
                            let nb = self.node_of_int(&b, 1);
                            let c = self.ic(1i128 << i);
                            let m = self.imul(nb, c);
                            acc = self.iadd(acc, m);
                        }
                        acc
                    }
                }
            }
            _ => {
                self.unsupp(format!("int of {:?}", v));
                self.ic(0)
            }
        }
    }
    pub fn irng(&self, n: N) -> (i128, i128) {
        let i = &self.nodes[n as usize];
        (i.ilo, i.ihi)
    }
    pub fn icst(&self, n: N) -> Option<i128> {
        match self.nodes[n as usize].k {
            K::IC(c) => Some(c),
            _ => None,
        }
    }
    pub fn iadd(&mut self, a: N, b: N) -> N {
        if self.icst(a) == Some(0) {
            return b;
        }
        if self.icst(b) == Some(0) {
            return a;
        }
        if let (Some(x), Some(y)) = (self.icst(a), self.icst(b)) {
            return self.ic(x + y);
        }
        // (x + c1) + c2
        if let (Some(c2), K::IAdd(x, y)) = (self.icst(b), self.nodes[a as usize].k.clone()) {
            if let Some(c1) = self.icst(y) {
                let c = self.ic(c1 + c2);
                return self.iadd(x, c);
            }
        }
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        self.raw_node(K::IAdd(a, b), 0.0, 0.0, al + bl, ah + bh, true)
    }
    pub fn isub(&mut self, a: N, b: N) -> N {
        if a == b {
            return self.ic(0);
        }
        if let Some(y) = self.icst(b) {
            let c = self.ic(-y);
            return self.iadd(a, c);
        }
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        self.raw_node(K::ISub(a, b), 0.0, 0.0, al - bh, ah - bl, true)
    }
    pub fn imul(&mut self, a: N, b: N) -> N {
        if let (Some(x), Some(y)) = (self.icst(a), self.icst(b)) {
            return self.ic(x * y);
        }
        for (p, q) in [(a, b), (b, a)] {
            if self.icst(p) == Some(0) {
                return self.ic(0);
            }
            if self.icst(p) == Some(1) {
                return q;
            }
        }
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        let c = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
        let (x, y) = if self.icst(b).is_some() { (b, a) } else { (a, b) };
        self.raw_node(K::IMul(x, y), 0.0, 0.0, *c.iter().min().unwrap(), *c.iter().max().unwrap(), true)
    }
    /// floor division, nonnegative operands
    pub fn idiv(&mut self, a: N, b: N) -> N {
        if let (Some(x), Some(y)) = (self.icst(a), self.icst(b)) {
            return self.ic(x / y);
        }
        if self.icst(b) == Some(1) {
            return a;
        }
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        if let K::IMul(c, r) = self.nodes[a as usize].k.clone() {
            if bl > 0 {
                if r == b {
                    return c;
                }
                if c == b {
                    return r;
                }
                if let (Some(x), Some(y)) = (self.icst(c), self.icst(b)) {
                    if x % y == 0 {
                        let k = self.ic(x / y);
                        return self.imul(k, r);
                    }
                }
            }
        }
        let (lo, hi) = (al / bh.max(1), ah / bl.max(1));
        if lo == hi {
            return self.ic(lo);
        }
        self.raw_node(K::IDiv(a, b), 0.0, 0.0, lo, hi, true)
    }
    pub fn irem(&mut self, a: N, b: N) -> N {
        if let (Some(x), Some(y)) = (self.icst(a), self.icst(b)) {
            return self.ic(x % y);
        }
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        if ah < bl && al >= 0 {
            return a;
        }
        if let K::IMul(c, r) = self.nodes[a as usize].k.clone() {
            if r == b || c == b {
                return self.ic(0);
            }
            if let (Some(x), Some(y)) = (self.icst(c), self.icst(b)) {
                if x % y == 0 {
                    return self.ic(0);
                }
            }
        }
        self.raw_node(K::IRem(a, b), 0.0, 0.0, 0, (bh - 1).min(ah), true)
    }
    /// reduce a mathematical integer node to its w-bit unsigned representation
    pub fn wrap(&mut self, n: N, w: u32) -> N {
        let (lo, hi) = self.irng(n);
        let m = 1i128 << w.min(100);
        if lo >= 0 && hi < m {
            return n;
        }
        if let Some(c) = self.icst(n) {
            return self.ic(c.rem_euclid(m));
        }
        if lo >= 0 {
            let mm = self.ic(m);
            return self.irem(n, mm);
        }
        // shift into the nonnegatives by a multiple of m
        let k = (-lo + m - 1) / m;
        let c = self.ic(k * m);
        let s = self.iadd(n, c);
        let mm = self.ic(m);
        self.irem(s, mm)
    }
    pub fn int_to_real(&mut self, n: N) -> V {
        if let Some(c) = self.icst(n) {
            return V::C((c as f64).to_bits());
        }
        if let K::IT(t) = self.nodes[n as usize].k {
            let tb = self.tabs[t as usize].clone();
            return map1(&tb, |x| (x as f64).to_bits());
        }
        let (lo, hi) = self.irng(n);
        V::N(self.raw_node(K::FromI(n), lo as f64, hi as f64, 0, 0, false))
    }
    pub fn mk_int(&mut self, n: N) -> V {
        match self.nodes[n as usize].k {
            K::IC(c) => V::C(c as u64),
            K::IT(t) => self.tab_v(t),
            _ => V::N(n),
        }
    }
    pub fn iite(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        let c = self.as_bool_tab(c);
        if let V::C(x) = c {
            return if x & 1 != 0 { a.clone() } else { b.clone() };
        }
        if w > 1 && w <= 64 && self.wide(&[&c, a, b]) {
            if let Some(v) = self.ite_xor(&c, a, b, w) {
                return v;
            }
        }
        if let Some(v) = mapn(self.kmax, &[&c, a, b], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
            return v;
        }
        if w == 1 {
            return self.ite_bool(&c, a, b);
        }
        if let Some(v) = self.ite_xor(&c, a, b, w) {
            return v;
        }
        if let (Some(x), Some(y)) = (self.marked_v(a), self.marked_v(b)) {
            if let Some(v) = mapn(self.kmax, &[&c, &x, &y], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
                return v;
            }
        }
        let (x, y) = (self.node_of_int(a, w), self.node_of_int(b, w));
        if x == y {
            return a.clone();
        }
        if std::env::var("KS_DBG").is_ok() {
            eprintln!("ITE {} {:?} ;; {:?} ;; {:?}", w, c, a, b);
        }
        let ct = self.bool_tab_id(&c);
        let ((al, ah), (bl, bh)) = (self.irng(x), self.irng(y));
        V::N(self.raw_node(K::IIte(ct, x, y), 0.0, 0.0, al.min(bl), ah.max(bh), true))
    }
    pub fn icmp_nodes(&mut self, p: Pred, a: N, b: N) -> V {
        let ((al, ah), (bl, bh)) = (self.irng(a), self.irng(b));
        let c = |x: bool| V::C(x as u64);
        if a == b {
            return c(matches!(p, Pred::Eq | Pred::Ge | Pred::Le));
        }
        match p {
            Pred::Eq | Pred::Ne => {
                if ah < bl || bh < al {
                    return c(p == Pred::Ne);
                }
                if al == ah && bl == bh && al == bl {
                    return c(p == Pred::Eq);
                }
            }
            Pred::Gt => {
                if al > bh {
                    return c(true);
                }
                if ah <= bl {
                    return c(false);
                }
            }
            Pred::Ge => {
                if al >= bh {
                    return c(true);
                }
                if ah < bl {
                    return c(false);
                }
            }
            Pred::Lt => return self.icmp_nodes(Pred::Gt, b, a),
            Pred::Le => return self.icmp_nodes(Pred::Ge, b, a),
        }
        // negative forms share the atom of the positive one
        if p == Pred::Ne {
            let v = self.icmp_nodes(Pred::Eq, a, b);
            return self.not(&v);
        }
        if p == Pred::Ge {
            let v = self.icmp_nodes(Pred::Gt, b, a);
            return self.not(&v);
        }
        if let Some(v) = self.cmp_map.get(&(p, a, b, true)) {
            return v.clone();
        }
        let at = self.new_atom(ADef::ICmp(p, a, b));
        let v = Self::atom_v(at);
        self.cmp_map.insert((p, a, b, true), v.clone());
        v
    }

    // ---- polynomials
    fn mono_range(&self, m: &Mono) -> (f64, f64) {
        let (mut lo, mut hi) = (1.0f64, 1.0f64);
        if m.tab != NOTAB {
            let t = &self.tabs[m.tab as usize];
            lo = t.vals.iter().map(|&x| f(x)).fold(f64::INFINITY, f64::min);
            hi = t.vals.iter().map(|&x| f(x)).fold(f64::NEG_INFINITY, f64::max);
        }
        for &(n, p) in &m.f {
            let info = &self.nodes[n as usize];
            let (mut a, mut b) = if info.is_int { (info.ilo as f64, info.ihi as f64) } else { (info.lo, info.hi) };
            if p < 0 {
                let (x, y) = (1.0 / b, 1.0 / a);
                a = x;
                b = y;
            }
            let q = p.unsigned_abs() as i32;
            let (pl, ph) = if q % 2 == 0 {
                let l = if a <= 0.0 && b >= 0.0 { 0.0 } else { a.abs().min(b.abs()).powi(q) };
                (l, a.abs().max(b.abs()).powi(q))
            } else {
                (a.powi(q), b.powi(q))
            };
            let c = [lo * pl, lo * ph, hi * pl, hi * ph];
            lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        (lo, hi)
    }
    pub fn mono_absmax(&self, m: &Mono) -> f64 {
        self.mono_abs(m)
    }
    fn mono_abs(&self, m: &Mono) -> f64 {
        let (a, b) = self.mono_range(m);
        a.abs().max(b.abs())
    }
    pub fn poly_range(&self, p: &Poly) -> (f64, f64) {
        let (mut lo, mut hi) = (-p.err, p.err);
        for (m, c) in &p.t {
            let (a, b) = self.mono_range(m);
            let (x, y) = if *c >= 0.0 { (c * a, c * b) } else { (c * b, c * a) };
            lo += x;
            hi += y;
        }
        let s = 1e-12 * (lo.abs().max(hi.abs()));
        (lo - s, hi + s)
    }
    fn poly_abs(&self, p: &Poly) -> f64 {
        let (a, b) = self.poly_range(p);
        a.abs().max(b.abs())
    }
    fn pconst(c: f64) -> Poly {
        if c == 0.0 {
            return Poly::default();
        }
        Poly { t: vec![(Mono { tab: NOTAB, f: vec![] }, c)], err: 0.0 }
    }
    fn add_into(&self, m: &mut HashMap<Mono, f64>, err: &mut f64, mono: &Mono, c: f64) {
        let e = m.entry(mono.clone()).or_insert(0.0);
        let old = *e;
        *e = old + c;
        if old != 0.0 {
            *err += up(e.abs() * U) * self.mono_abs(mono);
        }
    }
    fn from_map(m: HashMap<Mono, f64>, err: f64) -> Poly {
        let mut t: Vec<(Mono, f64)> = m.into_iter().filter(|(_, c)| *c != 0.0).collect();
        t.sort_by(|a, b| a.0.cmp(&b.0));
        Poly { t, err: up(err) }
    }
    fn mono_mul(&mut self, a: &Mono, b: &Mono) -> Option<(Mono, f64)> {
        // returns product monomial and relative error contribution
        let mut rel = 0.0;
        let tab = if a.tab == NOTAB {
            b.tab
        } else if b.tab == NOTAB {
            a.tab
        } else {
            let (x, y) = (self.tab_v(a.tab), self.tab_v(b.tab));
            let v = mapn(self.kmax, &[&x, &y], |z| (f(z[0]) * f(z[1])).to_bits())?;
            rel = U;
            match v {
                V::T(t) => self.tab_id(&t),
                V::C(c) => {
                    let t = Rc::new(Tab { atoms: vec![], vals: vec![c] });
                    self.tab_id(&t)
                }
                _ => unreachable!(),
            }
        };
        let mut fs: Vec<(N, i32)> = a.f.clone();
        for &(n, p) in &b.f {
            match fs.binary_search_by(|x| x.0.cmp(&n)) {
                Ok(i) => {
                    fs[i].1 += p;
                    if fs[i].1 == 0 {
                        fs.remove(i);
                    }
                }
                Err(i) => fs.insert(i, (n, p)),
            }
        }
        Some((Mono { tab, f: fs }, rel))
    }
    fn poly_mul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.t.len() * b.t.len() > 4096 {
            return None;
        }
        let (ra, rb) = (self.poly_abs(a), self.poly_abs(b));
        let mut err = up(ra * b.err + rb * a.err + a.err * b.err);
        let mut m = HashMap::new();
        for (ma, ca) in &a.t {
            for (mb, cb) in &b.t {
                let (mm, rel) = self.mono_mul(ma, mb)?;
                let c = ca * cb;
                let ab = self.mono_abs(&mm);
                err += up(c.abs() * ab * (U + rel));
                let mut mm = mm;
                let mut c = c;
                if mm.tab != NOTAB && self.tabs[mm.tab as usize].atoms.is_empty() {
                    let k = f(self.tabs[mm.tab as usize].vals[0]);
                    c *= k;
                    mm.tab = NOTAB;
                    err += up(c.abs() * U * self.mono_abs(&mm));
                }
                if c == 0.0 {
                    continue;
                }
                self.add_into(&mut m, &mut err, &mm, c);
            }
        }
        Some(Self::from_map(m, err))
    }
    fn is_pow2(c: f64) -> bool {
        c != 0.0 && (c.to_bits() & 0x000f_ffff_ffff_ffff) == 0
    }
    fn opaque(n: N) -> Poly {
        Poly { t: vec![(Mono { tab: NOTAB, f: vec![(n, 1)] }, 1.0)], err: 0.0 }
    }
    fn rnd(&self, n: N) -> f64 {
        let (l, h) = self.rng(n);
        l.abs().max(h.abs()) * U + TINY
    }
    /// Polynomial of a node: value = sum of terms + e with |e| <= err.
    pub fn poly(&mut self, root: N) -> Rc<Poly> {
        if let Some(p) = self.poly_memo.get(&root) {
            return p.clone();
        }
        // adjoint accumulation over the linear part of the DAG
        let mut heap: BinaryHeap<N> = BinaryHeap::new();
        let mut adj: HashMap<N, (f64, f64)> = HashMap::new(); // (coefficient, abs error of it)
        let mut m: HashMap<Mono, f64> = HashMap::new();
        let mut err = 0.0f64;
        adj.insert(root, (1.0, 0.0));
        heap.push(root);
        macro_rules! push {
            ($n:expr, $c:expr, $e:expr) => {{
                let n = $n;
                match adj.get_mut(&n) {
                    Some(x) => {
                        x.0 += $c;
                        x.1 += $e + x.0.abs() * U;
                    }
                    None => {
                        adj.insert(n, ($c, $e));
                        heap.push(n);
                    }
                }
            }};
        }
        while let Some(n) = heap.pop() {
            let (c, ce) = match adj.remove(&n) {
                Some(x) => x,
                None => continue,
            };
            let info = self.nodes[n as usize].clone();
            let mx = if info.is_int {
                (info.ilo.abs().max(info.ihi.abs())) as f64
            } else {
                info.lo.abs().max(info.hi.abs())
            };
            if ce > 0.0 {
                err += up(ce * mx);
            }
            if c == 0.0 {
                continue;
            }
            match info.k {
                K::RC(b) => {
                    let x = f(b);
                    let p = c * x;
                    if !Self::is_pow2(c) {
                        err += p.abs() * U;
                    }
                    self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![] }, p);
                }
                K::IC(x) => {
                    let p = c * x as f64;
                    err += p.abs() * U * 2.0;
                    self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![] }, p);
                }
                K::RT(t) => self.add_into(&mut m, &mut err, &Mono { tab: t, f: vec![] }, c),
                K::IT(t) => {
                    let tb = self.tabs[t as usize].clone();
                    let v = map1(&tb, |x| (x as f64).to_bits());
                    if let V::T(t2) = v {
                        let id = self.tab_id(&t2);
                        self.add_into(&mut m, &mut err, &Mono { tab: id, f: vec![] }, c);
                    }
                }
                K::RVar(_) | K::IVar(_) | K::Opaque(..) => {
                    self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![(n, 1)] }, c)
                }
                K::Add(a, b) => {
                    err += up(c.abs() * self.rnd(n));
                    push!(a, c, ce);
                    push!(b, c, ce);
                }
                K::Sub(a, b) => {
                    err += up(c.abs() * self.rnd(n));
                    push!(a, c, ce);
                    push!(b, -c, ce);
                }
                K::IAdd(a, b) => {
                    push!(a, c, ce);
                    push!(b, c, ce);
                }
                K::ISub(a, b) => {
                    push!(a, c, ce);
                    push!(b, -c, ce);
                }
                K::Neg(a) => push!(a, -c, ce),
                K::FromI(a) => {
                    if mx > 9007199254740992.0 {
                        err += up(c.abs() * self.rnd(n));
                    }
                    push!(a, c, ce);
                }
                K::Mul(a, b) | K::IMul(a, b)
                    if self.rc(a).is_some()
                        || self.rc(b).is_some()
                        || self.icst(a).is_some()
                        || self.icst(b).is_some() =>
                {
                    let ka = self.rc(a).or(self.icst(a).map(|x| x as f64));
                    let (k, o) = match ka {
                        Some(k) => (k, b),
                        None => (self.rc(b).or(self.icst(b).map(|x| x as f64)).unwrap(), a),
                    };
                    if !info.is_int && !Self::is_pow2(k) {
                        err += up(c.abs() * self.rnd(n));
                    }
                    let cc = c * k;
                    let e = ce * k.abs() + if Self::is_pow2(k) { 0.0 } else { cc.abs() * U };
                    push!(o, cc, e);
                }
                K::Div(a, b) if self.rc(b).is_some() => {
                    let k = self.rc(b).unwrap();
                    err += up(c.abs() * self.rnd(n));
                    let cc = c / k;
                    push!(a, cc, ce / k.abs() + cc.abs() * U);
                }
                K::Mul(a, b) | K::IMul(a, b) => {
                    let (pa, pb) = (self.poly(a), self.poly(b));
                    let p = match self.poly_mul(&pa, &pb) {
                        Some(p) => p,
                        None => Self::opaque(n),
                    };
                    if !info.is_int && !(p.t.len() == 1 && p.err == 0.0 && p.t[0].0.f == vec![(n, 1)]) {
                        err += up(c.abs() * self.rnd(n));
                    }
                    err += up(c.abs() * p.err);
                    for (mm, pc) in &p.t {
                        let k = c * pc;
                        err += up(k.abs() * U * self.mono_abs(mm));
                        self.add_into(&mut m, &mut err, mm, k);
                    }
                }
                K::Div(a, b) => {
                    let (pa, pb) = (self.poly(a), self.poly(b));
                    // single monomial denominator without table: invert
                    let p = if pb.t.len() == 1 && pb.t[0].0.tab == NOTAB && pb.err <= 1e-9 * pb.t[0].1.abs() {
                        let (mb, cb) = pb.t[0].clone();
                        let (bl, bh) = self.rng(b);
                        let bmin = bl.abs().min(bh.abs());
                        let relerr = pb.err / bmin * 1.001;
                        let inv = Poly {
                            t: vec![(Mono { tab: NOTAB, f: mb.f.iter().map(|&(n, p)| (n, -p)).collect() }, 1.0 / cb)],
                            err: up((U + relerr) * 2.0 / bmin),
                        };
                        self.poly_mul(&pa, &inv)
                    } else {
                        let inv = Poly { t: vec![(Mono { tab: NOTAB, f: vec![(b, -1)] }, 1.0)], err: 0.0 };
                        self.poly_mul(&pa, &inv)
                    };
                    let p = p.unwrap_or_else(|| Self::opaque(n));
                    err += up(c.abs() * (p.err + self.rnd(n)));
                    for (mm, pc) in &p.t {
                        let k = c * pc;
                        err += up(k.abs() * U * self.mono_abs(mm));
                        self.add_into(&mut m, &mut err, mm, k);
                    }
                }
                K::RIte(ct, a, b) | K::IIte(ct, a, b) => {
                    let (pa, pb) = (self.poly(a), self.poly(b));
                    let cond = self.tab_v(ct);
                    let (i1, i0) = match &cond {
                        V::T(t) => (
                            map1(t, |x| if x & 1 != 0 { 1f64.to_bits() } else { 0f64.to_bits() }),
                            map1(t, |x| if x & 1 != 0 { 0f64.to_bits() } else { 1f64.to_bits() }),
                        ),
                        _ => unreachable!(),
                    };
                    let mk = |s: &mut Self, v: &V| match v {
                        V::T(t) => s.tab_id(t),
                        _ => unreachable!(),
                    };
                    let (t1, t0) = (mk(self, &i1), mk(self, &i0));
                    let q1 = Poly { t: vec![(Mono { tab: t1, f: vec![] }, 1.0)], err: 0.0 };
                    let q0 = Poly { t: vec![(Mono { tab: t0, f: vec![] }, 1.0)], err: 0.0 };
                    let (x, y) = (self.poly_mul(&pa, &q1), self.poly_mul(&pb, &q0));
                    match (x, y) {
                        (Some(x), Some(y)) => {
                            for p in [x, y] {
                                err += up(c.abs() * p.err);
                                for (mm, pc) in &p.t {
                                    let k = c * pc;
                                    err += up(k.abs() * U * self.mono_abs(mm));
                                    self.add_into(&mut m, &mut err, mm, k);
                                }
                            }
                        }
                        _ => self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![(n, 1)] }, c),
                    }
                }
                K::Fun(fu @ (Fun::Cos | Fun::Sin), a) => {
                    let p = self.trig_poly(fu, n, a);
                    err += up(c.abs() * p.err);
                    for (mm, pc) in &p.t {
                        let k = c * pc;
                        self.add_into(&mut m, &mut err, mm, k);
                    }
                }
                K::Fun(fu @ (Fun::Log10 | Fun::Log), a) => {
                    let p = self.log_poly(fu, n, a);
                    err += up(c.abs() * p.err);
                    for (mm, pc) in &p.t {
                        let k = c * pc;
                        err += up(k.abs() * U * self.mono_abs(mm));
                        self.add_into(&mut m, &mut err, mm, k);
                    }
                }
                _ => self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![(n, 1)] }, c),
            }
        }
        let p = Rc::new(Self::from_map(m, err));
        self.poly_memo.insert(root, p.clone());
        p
    }
    /// the logarithm of a positive product: the sum of the logarithms, exponentials undone
    fn log_poly(&mut self, fu: Fun, n: N, a: N) -> Poly {
        let pa = self.poly(a);
        let (al, _) = self.rng(a);
        if pa.t.len() != 1 || pa.t[0].0.tab != NOTAB || pa.t[0].1 <= 0.0 || al <= 0.0 || pa.t[0].0.f.is_empty() || pa.err > 1e-9 * al {
            return Self::opaque(n);
        }
        let (mono, c) = pa.t[0].clone();
        let unit = if fu == Fun::Log10 { std::f64::consts::LOG10_E } else { 1.0 };
        let mut m: HashMap<Mono, f64> = HashMap::new();
        let c0 = c.ln() * unit;
        let mut err = self.rnd(n) * 4.0 + c0.abs() * 4.0 * U + 2.0 * pa.err / al;
        m.insert(Mono { tab: NOTAB, f: vec![] }, c0);
        for &(x, pw) in &mono.f {
            let k = pw as f64;
            if let K::Fun(Fun::Exp, z) = self.nodes[x as usize].k.clone() {
                let pz = self.poly(z);
                // the computed exponential is within a few ulps
                err += k.abs() * (8.0 * U + pz.err);
                for (mm, pc) in &pz.t {
                    let kk = k * pc * unit;
                    err += up(kk.abs() * 4.0 * U * self.mono_abs(mm));
                    self.add_into(&mut m, &mut err, mm, kk);
                }
                continue;
            }
            let (xl, xh) = self.rng(x);
            if xl <= 0.0 {
                return Self::opaque(n);
            }
            if mono.f.len() == 1 && pw == 1 && c == 1.0 && pa.err == 0.0 {
                return Self::opaque(n);
            }
            let (l, h) = (Self::apply_fun(fu, xl), Self::apply_fun(fu, xh));
            let g = self.raw_node(K::Fun(fu, x), l - l.abs() * 1e-14, h + h.abs() * 1e-14, 0, 0, false);
            err += k.abs() * self.rnd(g) * 4.0;
            self.add_into(&mut m, &mut err, &Mono { tab: NOTAB, f: vec![(g, 1)] }, k);
        }
        Self::from_map(m, err)
    }
    fn trig_poly(&mut self, fu: Fun, n: N, a: N) -> Poly {
        let pa = self.poly(a);
        // atoms of tables in the argument
        let mut un: Vec<u32> = vec![];
        for (m, _) in &pa.t {
            if m.tab != NOTAB {
                un = union_atoms(&un, &self.tabs[m.tab as usize].atoms.clone());
            }
        }
        if un.len() > self.kmax.min(6) {
            return Self::opaque(n);
        }
        let rows = 1usize << un.len();
        let mut out: HashMap<Mono, f64> = HashMap::new();
        let mut err: f64 = 0.0;
        for j in 0..rows {
            let mut m: HashMap<Mono, f64> = HashMap::new();
            let mut e = pa.err;
            for (mm, c) in &pa.t {
                let (k, mut m2) = if mm.tab == NOTAB {
                    (1.0, mm.clone())
                } else {
                    let t = self.tabs[mm.tab as usize].clone();
                    let p = t.proj(&un);
                    (f(t.vals[pidx(&p, j)]), mm.clone())
                };
                m2.tab = NOTAB;
                let cc = c * k;
                e += cc.abs() * U * self.mono_abs(&m2);
                self.add_into(&mut m, &mut e, &m2, cc);
            }
            let q = Self::from_map(m, e);
            let (base, sgn, kerr) = self.trig_atom(fu, q);
            let ind = if un.is_empty() {
                NOTAB
            } else {
                let mut vals = vec![0f64.to_bits(); rows];
                vals[j] = 1f64.to_bits();
                let t = Rc::new(Tab { atoms: un.clone(), vals });
                self.tab_id(&t)
            };
            match base {
                Ok(b) => {
                    let mm = Mono { tab: ind, f: vec![(b, 1)] };
                    *out.entry(mm).or_insert(0.0) += sgn;
                }
                Err(cst) => {
                    let mm = Mono { tab: ind, f: vec![] };
                    *out.entry(mm).or_insert(0.0) += cst * sgn;
                }
            }
            err = err.max(kerr);
        }
        Self::from_map(out, err)
    }
    /// canonical atom for fun(q): (Ok(base node) | Err(constant), sign, error)
    fn trig_atom(&mut self, fu: Fun, q: Poly) -> (Result<N, f64>, f64, f64) {
        let mut fu = fu;
        let mut sgn = 1.0;
        let mut q = q;
        let ulp = 2.3e-16;
        // strip multiples of pi/2
        let ci = q.t.iter().position(|(m, _)| m.f.is_empty());
        if let Some(ci) = ci {
            let c = q.t[ci].1;
            if q.t.len() == 1 {
                let v = if fu == Fun::Cos { c.cos() } else { c.sin() };
                return (Err(v), 1.0, q.err + ulp);
            }
            let k = (c / std::f64::consts::FRAC_PI_2).round();
            let r = c - k * std::f64::consts::FRAC_PI_2;
            if k.abs() < 1e6 && r.abs() < 1e-9 {
                q.err += r.abs() + k.abs() * 1e-16;
                q.t.remove(ci);
                let km = (k as i64).rem_euclid(4);
                let (nf, s) = match (fu, km) {
                    (x, 0) => (x, 1.0),
                    (Fun::Cos, 1) => (Fun::Sin, -1.0),
                    (x, 2) => (x, -1.0),
                    (Fun::Cos, 3) => (Fun::Sin, 1.0),
                    (Fun::Sin, 1) => (Fun::Cos, 1.0),
                    (Fun::Sin, 3) => (Fun::Cos, -1.0),
                    _ => unreachable!(),
                };
                fu = nf;
                sgn *= s;
            }
        }
        if q.t.is_empty() {
            let v = if fu == Fun::Cos { 1.0 } else { 0.0 };
            return (Err(v), sgn, q.err + ulp);
        }
        // sign normalisation on the first non-constant term
        let lead = q.t.iter().find(|(m, _)| !m.f.is_empty()).map(|x| x.1).unwrap_or(1.0);
        if lead < 0.0 {
            for t in q.t.iter_mut() {
                t.1 = -t.1;
            }
            if fu == Fun::Sin {
                sgn = -sgn;
            }
        }
        // bucket by value at a pseudo-random point
        let mut val = 0.0f64;
        for (m, c) in &q.t {
            let mut x = *c;
            for &(n, p) in &m.f {
                let h = (n as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
                let u = 0.3 + 0.5 * (h as f64 / 16777216.0);
                let info = &self.nodes[n as usize];
                let (a, b) = if info.is_int { (info.ilo as f64, info.ihi as f64) } else { (info.lo, info.hi) };
                x *= (a + (b - a) * u).powi(p);
            }
            val += x;
        }
        let key = (val * 1e4).floor() as i64;
        let fk = if fu == Fun::Cos { 0u8 } else { 1 };
        let mut best: Option<(N, f64)> = None;
        for k in [key, key - 1, key + 1] {
            if let Some(v) = self.trig.get(&(fk, k)) {
                for (p0, n) in v {
                    let d = self.poly_dist(&q, p0);
                    if d < 1e-5 && best.map(|b| d < b.1).unwrap_or(true) {
                        best = Some((*n, d));
                    }
                }
            }
        }
        if let Some((n, d)) = best {
            return (Ok(n), sgn, d + ulp);
        }
        let e = q.err;
        let rq = Rc::new(q);
        let idx = self.opaque_polys.len() as u32;
        self.opaque_polys.push(rq.clone());
        let n = self.raw_node(K::Opaque(fu, idx), -1.0, 1.0, 0, 0, false);
        self.trig.entry((fk, key)).or_default().push((rq, n));
        (Ok(n), sgn, e + ulp)
    }
    fn poly_dist(&self, a: &Poly, b: &Poly) -> f64 {
        let mut d = a.err + b.err;
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let o = if i >= a.t.len() {
                std::cmp::Ordering::Greater
            } else if j >= b.t.len() {
                std::cmp::Ordering::Less
            } else {
                a.t[i].0.cmp(&b.t[j].0)
            };
            match o {
                std::cmp::Ordering::Equal => {
                    let df = (a.t[i].1 - b.t[j].1).abs() + (a.t[i].1.abs()) * U;
                    d += df * self.mono_abs(&a.t[i].0);
                    i += 1;
                    j += 1;
                }
                std::cmp::Ordering::Less => {
                    d += a.t[i].1.abs() * self.mono_abs(&a.t[i].0);
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    d += b.t[j].1.abs() * self.mono_abs(&b.t[j].0);
                    j += 1;
                }
            }
        }
        up(d)
    }
    /// Merge table terms with the same real factors where the union stays small, fold negligible terms.
    pub fn finalize(&mut self, p: &Poly) -> Poly {
        let mut groups: HashMap<Vec<(N, i32)>, Vec<(u32, f64)>> = HashMap::new();
        for (m, c) in &p.t {
            groups.entry(m.f.clone()).or_default().push((m.tab, *c));
        }
        let mut out: Vec<(Mono, f64)> = vec![];
        let mut err = p.err;
        let mut keys: Vec<_> = groups.keys().cloned().collect();
        keys.sort();
        for k in keys {
            let list = groups.remove(&k).unwrap();
            let base = Mono { tab: NOTAB, f: k.clone() };
            let mabs = self.mono_abs(&base);
            let mut cst = 0.0;
            // cluster tables by shared atoms
            let mut clusters: Vec<(Vec<u32>, Vec<f64>)> = vec![];
            let mut single: std::collections::BTreeMap<u32, f64> = Default::default();
            for (t, c) in list {
                if t == NOTAB {
                    cst += c;
                    continue;
                }
                let tab = self.tabs[t as usize].clone();
                if tab.atoms.len() > 1 {
                    // tables that are affine in their atoms (up to rounding) become one table per atom
                    let v0 = f(tab.vals[0]);
                    let cols: Vec<f64> = (0..tab.atoms.len()).map(|k| f(tab.vals[1 << k]) - v0).collect();
                    let mut res: f64 = 0.0;
                    let mut big: f64 = 0.0;
                    for (j, &x) in tab.vals.iter().enumerate() {
                        let mut y = v0;
                        for (k, q) in cols.iter().enumerate() {
                            if j >> k & 1 != 0 {
                                y += q;
                            }
                        }
                        res = res.max((f(x) - y).abs());
                        big = big.max(x_abs(f(x)));
                    }
                    if res <= 1e-13 * big {
                        let n = tab.atoms.len() as f64;
                        let mut e = (res + (n + 2.0) * 4.0 * U * big) * c.abs();
                        cst += c * v0;
                        e += (cst.abs() + (c * v0).abs()) * U;
                        for (a, q) in tab.atoms.iter().zip(&cols) {
                            let x = single.entry(*a).or_insert(0.0);
                            *x += c * q;
                            e += (x.abs() + 2.0 * (c * q).abs()) * U;
                        }
                        err += up(e * mabs);
                        continue;
                    }
                }
                if tab.atoms.len() == 1 {
                    let (v0, v1) = (f(tab.vals[0]), f(tab.vals[1]));
                    let x = single.entry(tab.atoms[0]).or_insert(0.0);
                    *x += c * (v1 - v0);
                    cst += c * v0;
                    let e = (x.abs() + 4.0 * (c * (v1 - v0)).abs() + cst.abs() + 2.0 * (c * v0).abs()) * U;
                    err += up(e * mabs);
                    continue;
                }
                let pos = clusters.iter().position(|(a, _)| {
                    a.iter().any(|x| tab.atoms.contains(x)) && union_atoms(a, &tab.atoms).len() <= 6
                });
                match pos {
                    Some(i) => {
                        let (a, v) = clusters[i].clone();
                        let un = union_atoms(&a, &tab.atoms);
                        let pa = Tab { atoms: a.clone(), vals: vec![] }.proj(&un);
                        let pt = tab.proj(&un);
                        let mut nv = vec![0.0; 1 << un.len()];
                        let mut emax: f64 = 0.0;
                        for j in 0..nv.len() {
                            let y = c * f(tab.vals[pidx(&pt, j)]);
                            nv[j] = v[pidx(&pa, j)] + y;
                            emax = emax.max((nv[j].abs() + y.abs()) * U);
                        }
                        err += up(emax * mabs);
                        clusters[i] = (un, nv);
                    }
                    None => {
                        let v: Vec<f64> = tab.vals.iter().map(|&x| c * f(x)).collect();
                        let emax = v.iter().map(|x| x.abs() * U).fold(0.0, f64::max);
                        err += up(emax * mabs);
                        clusters.push((tab.atoms.clone(), v));
                    }
                }
            }
            for (a, x) in single {
                // centred, so that the constant is the mean
                clusters.push((vec![a], vec![-x / 2.0, x / 2.0]));
                cst += x / 2.0;
                err += up((cst.abs() + x.abs()) * U * mabs);
            }
            for (atoms, vals) in clusters {
                // pull the row mean out as constant, drop insignificant variation
                let lo = vals.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let mid = (lo + hi) / 2.0;
                if (hi - lo) / 2.0 * mabs < 1e-12 {
                    cst += mid;
                    err += up(((hi - lo) / 2.0 + (mid.abs() + cst.abs()) * 4.0 * U) * mabs);
                    continue;
                }
                let t = Tab { atoms, vals: vals.iter().map(|x| x.to_bits()).collect() }.reduce();
                if let V::T(t) = t {
                    let id = self.tab_id(&t);
                    out.push((Mono { tab: id, f: k.clone() }, 1.0));
                }
            }
            if cst.abs() * mabs < 1e-13 && !k.is_empty() {
                err += up(cst.abs() * mabs);
            } else if cst != 0.0 {
                out.push((base, cst));
            }
        }
        out.sort_by(|a, b| a.0.cmp(&b.0));
        Poly { t: out, err: up(err) }
    }
    /// Polynomial of a - b, finalized.
    pub fn diff_poly(&mut self, a: N, b: N) -> Poly {
        // exact difference of the two float values (no rounding of the subtraction itself)
        let (pa, pb) = (self.poly(a), self.poly(b));
        let mut m: HashMap<Mono, f64> = HashMap::new();
        let mut err = pa.err + pb.err;
        for (mm, c) in &pa.t {
            self.add_into(&mut m, &mut err, mm, *c);
        }
        for (mm, c) in &pb.t {
            self.add_into(&mut m, &mut err, mm, -*c);
        }
        let p = Self::from_map(m, err);
        self.finalize(&p)
    }
    pub fn fcmp(&mut self, p: Pred, a: &V, b: &V) -> V {
        let g = |p: Pred, x: f64, y: f64| match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Gt => x > y,
            Pred::Ge => x >= y,
            Pred::Lt => x < y,
            Pred::Le => x <= y,
        };
        if let Some(v) = mapn(self.kmax, &[a, b], |x| g(p, f(x[0]), f(x[1])) as u64) {
            return v;
        }
        // comparisons against infinity
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let V::C(c) = y {
                let c = f(*c);
                if c.is_infinite() || c.is_nan() {
                    let _ = x;
                    let r = if sw { g(p, c, 0.0) } else { g(p, 0.0, c) };
                    return V::C(r as u64);
                }
            }
        }
        let (x, y) = (self.node_of_real(a), self.node_of_real(b));
        let (p, x, y) = match p {
            Pred::Lt => (Pred::Gt, y, x),
            Pred::Le => (Pred::Ge, y, x),
            _ => (p, x, y),
        };
        if let Some(v) = self.cmp_map.get(&(p, x, y, false)) {
            return v.clone();
        }
        // the opposite comparison of the same two values
        let opp = match p {
            Pred::Gt => Some((Pred::Ge, y, x)),
            Pred::Ge => Some((Pred::Gt, y, x)),
            Pred::Eq => Some((Pred::Ne, x, y)),
            Pred::Ne => Some((Pred::Eq, x, y)),
            _ => None,
        };
        if let Some((q, u, w)) = opp {
            let o = match self.cmp_map.get(&(q, u, w, false)) {
                Some(V::C(c)) => Some(V::C(c ^ 1)),
                Some(V::T(t)) => Some(map1(t, |x| x ^ 1)),
                _ => None,
            };
            if let Some(o) = o {
                return o;
            }
        }
        let v = self.fcmp_nodes(p, x, y);
        self.cmp_map.insert((p, x, y, false), v.clone());
        v
    }
    fn fcmp_nodes(&mut self, p: Pred, x: N, y: N) -> V {
        if x == y {
            return V::C(matches!(p, Pred::Eq | Pred::Ge) as u64);
        }
        // node ranges bound the double values exactly (monotone rounding)
        let ((xl, xh), (yl, yh)) = (self.rng(x), self.rng(y));
        match p {
            Pred::Gt if xh <= yl => return V::C(0),
            Pred::Gt if xl > yh => return V::C(1),
            Pred::Ge if xl >= yh => return V::C(1),
            Pred::Ge if xh < yl => return V::C(0),
            Pred::Eq if xh < yl || yh < xl => return V::C(0),
            Pred::Ne if xh < yl || yh < xl => return V::C(1),
            _ => {}
        }
        if matches!(p, Pred::Eq | Pred::Ne) {
            for (u, v) in [(x, y), (y, x)] {
                if let (Some((a, b)), Some(q)) = (self.int_quotient(u), self.exact_int(v)) {
                    let is_div = match self.nodes[q as usize].k {
                        K::IDiv(c, d) => c == a && d == b,
                        _ => false,
                    };
                    let (l, r) = if is_div {
                        (self.irem(a, b), self.ic(0))
                    } else {
                        (a, self.imul(b, q))
                    };
                    return self.icmp_nodes(p, l, r);
                }
            }
        }
        let d = self.diff_poly(x, y);
        let (lo, hi) = self.poly_range(&d);
        let cand: Option<V> = if lo > 0.0 {
            Some(V::C(matches!(p, Pred::Gt | Pred::Ge | Pred::Ne) as u64))
        } else if hi < 0.0 {
            Some(V::C(matches!(p, Pred::Ne) as u64))
        } else {
            self.dominant(&d, p)
        };
        let d = Rc::new(d);
        if let Some(c) = cand {
            // the solver decides whether the comparison equals the candidate for all values
            self.lemmas += 1;
            let r = crate::smt::lemma_rcmp(self, p, &d, &c);
            if r {
                return c;
            }
        }
        let at = self.new_atom(ADef::RCmp(p, d, x, y));
        Self::atom_v(at)
    }
    /// guess a table over the few atoms that dominate the sign of the polynomial
    fn dominant(&mut self, d: &Poly, p: Pred) -> Option<V> {
        if matches!(p, Pred::Eq | Pred::Ne) {
            return None;
        }
        let mut cst = 0.0;
        let mut tabs: Vec<(Rc<Tab>, f64, f64)> = vec![]; // table, coefficient, half range
        let mut resid = d.err;
        for (m, c) in &d.t {
            if m.f.is_empty() {
                if m.tab == NOTAB {
                    cst += c;
                } else {
                    let t = self.tabs[m.tab as usize].clone();
                    let lo = t.vals.iter().map(|&x| c * f(x)).fold(f64::INFINITY, f64::min);
                    let hi = t.vals.iter().map(|&x| c * f(x)).fold(f64::NEG_INFINITY, f64::max);
                    tabs.push((t, *c, (hi - lo) / 2.0));
                }
            } else {
                resid += c.abs() * self.mono_abs(m);
            }
        }
        tabs.sort_by(|a, b| b.2.partial_cmp(&a.2).unwrap());
        let mut acc = V::C(cst.to_bits());
        let mut rest: f64 = 0.0;
        let mut full = false;
        let mut midsum = 0.0;
        for (t, c, h) in &tabs {
            if !full {
                let tv = V::T(t.clone());
                match mapn(self.kmax.min(8), &[&acc, &tv], |x| (f(x[0]) + c * f(x[1])).to_bits()) {
                    Some(v) => {
                        acc = v;
                        continue;
                    }
                    None => full = true,
                }
            }
            let lo = t.vals.iter().map(|&x| c * f(x)).fold(f64::INFINITY, f64::min);
            midsum += lo + h;
            rest += h;
        }
        let lim = (resid + rest) * (1.0 + 1e-9) + 1e-300;
        // first try the smallest prefix of tables that decides
        let mut acc2 = V::C(cst.to_bits());
        let mut rem: f64 = tabs.iter().map(|x| x.2).sum();
        let mut mids: f64 = tabs
            .iter()
            .map(|(t, c, h)| t.vals.iter().map(|&x| c * f(x)).fold(f64::INFINITY, f64::min) + h)
            .sum();
        for (t, c, h) in &tabs {
            let lo = t.vals.iter().map(|&x| c * f(x)).fold(f64::INFINITY, f64::min);
            mids -= lo + h;
            rem -= h;
            let tv = V::T(t.clone());
            match mapn(self.kmax.min(8), &[&acc2, &tv], |x| (f(x[0]) + c * f(x[1])).to_bits()) {
                Some(v) => acc2 = v,
                None => break,
            }
            let l2 = (resid + rem.max(0.0)) * (1.0 + 1e-9) + 1e-300;
            if let Some(tb) = tab_of(&acc2) {
                if tb.vals.iter().all(|&x| (f(x) + mids).abs() > l2) {
                    return Some(
                        Tab { atoms: tb.atoms, vals: tb.vals.iter().map(|&x| (f(x) + mids > 0.0) as u64).collect() }
                            .reduce(),
                    );
                }
            }
        }
        let tb = tab_of(&acc)?;
        if tb.vals.iter().all(|&x| (f(x) + midsum).abs() > lim) {
            Some(Tab { atoms: tb.atoms, vals: tb.vals.iter().map(|&x| (f(x) + midsum > 0.0) as u64).collect() }.reduce())
        } else {
            None
        }
    }

    // ---- concrete evaluation under an assignment
    pub fn eval_atom(&self, a: u32, s: &mut Assign) -> bool {
        if let Some(&b) = s.atoms.get(&a) {
            return b;
        }
        let r = match &self.atoms[a as usize] {
            ADef::In(i, b) => match &s.vals[*i as usize] {
                InVal::B(x) => *x,
                InVal::U(x) => (x >> b) & 1 != 0,
                _ => false,
            },
            ADef::XorD(f) => {
                let f = f.clone();
                f.iter().fold(false, |x, &y| x ^ self.eval_atom(y, s))
            }
            ADef::RCmp(p, _, x, y) => {
                let (x, y) = (self.eval_r(*x, s), self.eval_r(*y, s));
                match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Gt => x > y,
                    Pred::Ge => x >= y,
                    Pred::Lt => x < y,
                    Pred::Le => x <= y,
                }
            }
            ADef::ICmp(p, x, y) => {
                let (x, y) = (self.eval_i(*x, s), self.eval_i(*y, s));
                match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Gt => x > y,
                    Pred::Ge => x >= y,
                    Pred::Lt => x < y,
                    Pred::Le => x <= y,
                }
            }
            ADef::And(x, y) => self.eval_tab(*x, s) & self.eval_tab(*y, s) & 1 != 0,
            ADef::Or(x, y) => (self.eval_tab(*x, s) | self.eval_tab(*y, s)) & 1 != 0,
            ADef::Xor2(x, y) => (self.eval_tab(*x, s) ^ self.eval_tab(*y, s)) & 1 != 0,
            ADef::Ite(c, x, y) => {
                if self.eval_tab(*c, s) & 1 != 0 {
                    self.eval_tab(*x, s) & 1 != 0
                } else {
                    self.eval_tab(*y, s) & 1 != 0
                }
            }
        };
        s.atoms.insert(a, r);
        r
    }
    pub fn eval_t(&self, t: &Tab, s: &mut Assign) -> u64 {
        let mut j = 0;
        for (k, &a) in t.atoms.iter().enumerate() {
            if self.eval_atom(a, s) {
                j |= 1 << k;
            }
        }
        t.vals[j]
    }
    fn eval_tab(&self, id: u32, s: &mut Assign) -> u64 {
        let t = self.tabs[id as usize].clone();
        self.eval_t(&t, s)
    }
    pub fn eval_r(&self, n: N, s: &mut Assign) -> f64 {
        match self.eval_n(n, s) {
            EV::R(x) => x,
            EV::I(x) => x as f64,
        }
    }
    pub fn eval_i(&self, n: N, s: &mut Assign) -> i128 {
        match self.eval_n(n, s) {
            EV::I(x) => x,
            EV::R(x) => x as i128,
        }
    }
    pub fn eval_n(&self, root: N, s: &mut Assign) -> EV {
        // iterative post-order
        let mut st = vec![root];
        while let Some(&n) = st.last() {
            if s.nodes.contains_key(&n) {
                st.pop();
                continue;
            }
            let k = &self.nodes[n as usize].k;
            let ch: Vec<N> = match k {
                K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b) | K::Div(a, b) => vec![*a, *b],
                K::IAdd(a, b) | K::ISub(a, b) | K::IMul(a, b) | K::IDiv(a, b) | K::IRem(a, b) => vec![*a, *b],
                K::Neg(a) | K::Abs(a) | K::Fun(_, a) | K::FromI(a) | K::Trunc(a) | K::Bits(a) => vec![*a],
                K::RIte(_, a, b) | K::IIte(_, a, b) => vec![*a, *b],
                _ => vec![],
            };
            let mut ready = true;
            for c in ch {
                if !s.nodes.contains_key(&c) {
                    st.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = |s: &Assign, n: &N| match s.nodes[n] {
                EV::R(x) => x,
                EV::I(x) => x as f64,
            };
            let i = |s: &Assign, n: &N| match s.nodes[n] {
                EV::I(x) => x,
                EV::R(x) => x as i128,
            };
            let v = match k {
                K::RVar(x) => match s.vals[*x as usize] {
                    InVal::F(v) => EV::R(v),
                    _ => EV::R(0.0),
                },
                K::IVar(x) => match s.vals[*x as usize] {
                    InVal::U(v) => EV::I(v as i128),
                    _ => EV::I(0),
                },
                K::RC(c) => EV::R(f(*c)),
                K::RT(t) => EV::R(f(self.eval_tab(*t, s))),
                K::IT(t) => EV::I(self.eval_tab(*t, s) as i128),
                K::IC(c) => EV::I(*c),
                K::Add(a, b) => EV::R(r(s, a) + r(s, b)),
                K::Sub(a, b) => EV::R(r(s, a) - r(s, b)),
                K::Mul(a, b) => EV::R(r(s, a) * r(s, b)),
                K::Div(a, b) => EV::R(r(s, a) / r(s, b)),
                K::Neg(a) => EV::R(-r(s, a)),
                K::Abs(a) => EV::R(r(s, a).abs()),
                K::Fun(fu, a) => EV::R(Self::apply_fun(*fu, r(s, a))),
                K::RIte(c, a, b) => {
                    if self.eval_tab(*c, s) & 1 != 0 {
                        EV::R(r(s, a))
                    } else {
                        EV::R(r(s, b))
                    }
                }
                K::FromI(a) => EV::R(i(s, a) as f64),
                K::Opaque(..) => EV::R(0.0),
                K::IAdd(a, b) => EV::I(i(s, a) + i(s, b)),
                K::ISub(a, b) => EV::I(i(s, a) - i(s, b)),
                K::IMul(a, b) => EV::I(i(s, a) * i(s, b)),
                K::IDiv(a, b) => EV::I(i(s, a).checked_div(i(s, b)).unwrap_or(0)),
                K::IRem(a, b) => EV::I(i(s, a).checked_rem(i(s, b)).unwrap_or(0)),
                K::IIte(c, a, b) => {
                    if self.eval_tab(*c, s) & 1 != 0 {
                        EV::I(i(s, a))
                    } else {
                        EV::I(i(s, b))
                    }
                }
                K::Trunc(a) => EV::I(r(s, a).trunc() as i128),
                K::Bits(a) => EV::I(r(s, a).to_bits() as i128),
            };
            s.nodes.insert(n, v);
            st.pop();
        }
        s.nodes[&root]
    }
    /// value of v as raw bits under the assignment; int or float by flag
    pub fn eval_v(&self, v: &V, float: bool, s: &mut Assign) -> u64 {
        match v {
            V::C(c) => *c,
            V::T(t) => self.eval_t(t, s),
            V::X(x) => {
                let mut r = 0u64;
                for (i, b) in x.bits.iter().enumerate() {
                    let mut q = b.0;
                    for &a in b.1.iter() {
                        q ^= self.eval_atom(a, s);
                    }
                    if q {
                        r |= 1 << i;
                    }
                }
                r
            }
            V::N(n) => {
                if float {
                    self.eval_r(*n, s).to_bits()
                } else if self.nodes[*n as usize].is_int {
                    self.eval_i(*n, s) as u64
                } else {
                    self.eval_r(*n, s).to_bits()
                }
            }
            _ => 0,
        }
    }
    /// a real that is exactly an integer
    fn exact_int(&mut self, n: N) -> Option<N> {
        match self.nodes[n as usize].k {
            K::FromI(i) if self.irng(i).1 <= (1i128 << 52) && self.irng(i).0 >= 0 => Some(i),
            K::RC(c) if f(c) == f(c).trunc() && f(c) >= 0.0 && f(c) <= 4503599627370496.0 => Some(self.ic(f(c) as i128)),
            K::Mul(x, y) => {
                let (a, b) = (self.exact_int(x)?, self.exact_int(y)?);
                let m = self.imul(a, b);
                (self.irng(m).1 <= (1i128 << 52)).then_some(m)
            }
            _ => None,
        }
    }
    /// the rounded quotient of two nonnegative integers below 2^52: rounding never reaches another integer,
    /// so the quotient is an integer exactly when the division leaves no remainder
    fn int_quotient(&mut self, n: N) -> Option<(N, N)> {
        if let K::Div(x, y) = self.nodes[n as usize].k {
            if let (Some(a), Some(b)) = (self.exact_int(x), self.exact_int(y)) {
                if self.irng(b).0 > 0 {
                    return Some((a, b));
                }
            }
        }
        None
    }
    pub fn trunc_real(&mut self, n: N) -> N {
        let (lo, hi) = self.rng(n);
        if let K::FromI(i) = self.nodes[n as usize].k {
            if self.irng(i).1 <= (1i128 << 53) {
                return i;
            }
        }
        let (l, h) = (lo.trunc() as i128, hi.trunc() as i128);
        if l == h {
            return self.ic(l);
        }
        if let Some((a, b)) = self.int_quotient(n) {
            return self.idiv(a, b);
        }
        self.raw_node(K::Trunc(n), 0.0, 0.0, l, h, true)
    }
    /// cheap placeholder used while the real table is borrowed elsewhere
    pub fn dummy() -> Terms {
        Terms::new(10, crate::smt::Solver::new("", 0))
    }
    pub fn xor_bool(&mut self, a: &V, b: &V) -> V {
        if let Some(v) = mapn(self.kmax, &[a, b], |x| x[0] ^ x[1]) {
            return v;
        }
        if let (Some(x), Some(y)) = (self.to_xor(a, 1), self.to_xor(b, 1)) {
            let d = (x.bits[0].0 ^ y.bits[0].0, Rc::new(Self::symdiff(&x.bits[0].1, &y.bits[0].1)));
            return self.xor_bit(&d);
        }
        let (mut x, mut y) = (self.bool_tab_id(a), self.bool_tab_id(b));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        self.def_atom((2, x, y, 0), ADef::Xor2(x, y))
    }
    /// the same as one defined atom
    pub fn xor_def(&mut self, a: &V, b: &V) -> V {
        if matches!(a, V::C(_)) || matches!(b, V::C(_)) {
            return self.xor_bool(a, b);
        }
        let (mut x, mut y) = (self.bool_tab_id(a), self.bool_tab_id(b));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        self.def_atom((2, x, y, 0), ADef::Xor2(x, y))
    }
    /// max(n, 0) of a real node
    pub fn clamp0(&mut self, n: N) -> N {
        let z = V::C(0);
        let c = self.fcmp(Pred::Gt, &V::N(n), &z);
        let r = self.fite(&c, &V::N(n), &z);
        let r = self.node_of_real(&r);
        let (lo, hi) = self.rng(n);
        if lo < 0.0 {
            self.nodes[r as usize].lo = 0.0;
            self.nodes[r as usize].hi = hi.max(0.0);
        }
        r
    }
    /// |a - b| <= tol
    pub fn near(&mut self, a: &V, b: &V, tol: f64) -> V {
        let t = V::C(tol.to_bits());
        let (h, l) = (self.fadd(b, &t), self.fsub(b, &t));
        let x = self.fcmp(Pred::Le, a, &h);
        let y = self.fcmp(Pred::Le, &l, a);
        self.and(&x, &y)
    }
}
