//! Byte-addressed memory with symbolic slots; persistent (clone is O(1)).
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const CH: usize = 512;
const FAN: usize = 64;

#[derive(Clone)]
pub struct Sym {
    mask: [u64; CH / 64],
    slots: BTreeMap<u16, (V, u8)>,
}
#[derive(Clone)]
pub struct Chunk {
    b: [u8; CH],
    s: Option<Box<Sym>>,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub ch: Vec<Rc<Chunk>>,
}

fn zero_chunk() -> Rc<Chunk> {
    thread_local! { static Z: Rc<Chunk> = Rc::new(Chunk { b: [0; CH], s: None }); }
    Z.with(|z| z.clone())
}

impl Sym {
    fn any(&self, o: usize, n: usize) -> bool {
        for k in o..o + n {
            if self.mask[k / 64] >> (k % 64) & 1 != 0 {
                return true;
            }
        }
        false
    }
    fn set(&mut self, o: usize, n: usize, v: bool) {
        for k in o..o + n {
            if v {
                self.mask[k / 64] |= 1 << (k % 64);
            } else {
                self.mask[k / 64] &= !(1 << (k % 64));
            }
        }
    }
}

/// byte k of a value of `size` bytes
pub fn byte_of(t: &mut Terms, v: &V, size: usize, k: usize) -> V {
    match v {
        V::C(c) => V::C((c >> (8 * k)) & 0xff),
        V::W(w) => V::C(((**w >> (8 * k)) & 0xff) as u64),
        V::T(tb) => map1(tb, |x| (x >> (8 * k)) & 0xff),
        V::X(x) => {
            let mut bits = vec![];
            for i in 0..8 {
                bits.push(x.bits.get(8 * k + i).cloned().unwrap_or((false, Rc::new(vec![]))));
            }
            Terms::mk_xor(Xor { w: 8, bits })
        }
        V::N(n) => {
            if size == 1 {
                return v.clone();
            }
            if t.nodes[*n as usize].is_int {
                let m = t.ic(1i128 << (8 * k));
                let d = t.idiv(*n, m);
                let m = t.ic(256);
                let r = t.irem(d, m);
                t.mk_int(r)
            } else {
                t.unsupp("byte of a symbolic real".into());
                V::C(0)
            }
        }
        V::A(_) => {
            t.unsupp("byte of aggregate".into());
            V::C(0)
        }
    }
}
/// compose bytes (little endian) into a value
pub fn compose(t: &mut Terms, bs: &[(V, usize)]) -> V {
    // pieces (value, bytes)
    if bs.len() == 1 {
        return bs[0].0.clone();
    }
    let refs: Vec<&V> = bs.iter().map(|x| &x.0).collect();
    let sh: Vec<u32> = {
        let mut s = 0;
        bs.iter()
            .map(|x| {
                let r = s;
                s += 8 * x.1 as u32;
                r
            })
            .collect()
    };
    if let Some(v) = mapn(t.kmax.max(16), &refs, |x| {
        x.iter().zip(&sh).fold(0u64, |a, (v, s)| a | (v << s))
    }) {
        return v;
    }
    // all xor-linear?
    let mut bits = vec![];
    let mut ok = true;
    for (v, n) in bs {
        match t.to_xor(v, 8 * *n as u32) {
            Some(x) => bits.extend(x.bits),
            None => {
                ok = false;
                break;
            }
        }
    }
    if ok {
        return Terms::mk_xor(Xor { w: bits.len() as u32, bits });
    }
    let mut acc = t.ic(0);
    for ((v, n), s) in bs.iter().zip(&sh) {
        let nd = t.node_of_int(v, 8 * *n as u32);
        let m = t.ic(1i128 << s);
        let p = t.imul(nd, m);
        acc = t.iadd(acc, p);
    }
    t.mk_int(acc)
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        let n = (size as usize + CH - 1) / CH;
        Obj { size, ch: vec![zero_chunk(); n] }
    }
    pub fn from_bytes(b: &[u8]) -> Obj {
        let mut o = Obj::new(b.len() as u64);
        for (i, c) in b.chunks(CH).enumerate() {
            let mut k = Chunk { b: [0; CH], s: None };
            k.b[..c.len()].copy_from_slice(c);
            o.ch[i] = Rc::new(k);
        }
        o
    }
    fn get8(&self, o: usize) -> u8 {
        self.ch[o / CH].b[o % CH]
    }
    pub fn conc_bytes(&self, o: usize, n: usize) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n);
        for k in o..o + n {
            let c = &self.ch[k / CH];
            if let Some(s) = &c.s {
                if s.any(k % CH, 1) {
                    return None;
                }
            }
            v.push(c.b[k % CH]);
        }
        Some(v)
    }
    pub fn read(&self, t: &mut Terms, o: usize, n: usize) -> V {
        let c = &self.ch[o / CH];
        let i = o % CH;
        if i + n <= CH && n <= 8 {
            match &c.s {
                None => return V::C(le(&c.b[i..i + n])),
                Some(s) => {
                    if let Some((v, sz)) = s.slots.get(&(i as u16)) {
                        if *sz as usize == n {
                            return v.clone();
                        }
                    }
                    if !s.any(i, n) {
                        return V::C(le(&c.b[i..i + n]));
                    }
                }
            }
        }
        if n > 8 {
            // only concrete wide integers
            return match self.conc_bytes(o, n) {
                Some(b) => V::W(Rc::new(b.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128))),
                None => {
                    t.unsupp("wide symbolic load".into());
                    V::W(Rc::new(0))
                }
            };
        }
        // pieces
        let mut ps: Vec<(V, usize)> = vec![];
        let mut k = o;
        while k < o + n {
            let c = &self.ch[k / CH];
            let i = k % CH;
            let piece = match &c.s {
                Some(s) if s.any(i, 1) => {
                    let (so, (v, sz)) = s.slots.range(..=(i as u16)).next_back().unwrap();
                    let so = *so as usize;
                    let sz = *sz as usize;
                    let left = so + sz - i;
                    if so == i && sz <= o + n - k {
                        Some((v.clone(), sz))
                    } else {
                        let _ = left;
                        let v = v.clone();
                        Some((byte_of(t, &v, sz, i - so), 1))
                    }
                }
                _ => None,
            };
            match piece {
                Some((v, z)) => {
                    ps.push((v, z));
                    k += z;
                }
                None => {
                    ps.push((V::C(c.b[i] as u64), 1));
                    k += 1;
                }
            }
        }
        compose(t, &ps)
    }
    /// make the slots inside [o,o+n) disappear; slots overlapping the edges are split into bytes
    fn clear(&mut self, t: &mut Terms, o: usize, n: usize) {
        let mut k = o;
        while k < o + n {
            let ci = k / CH;
            let end = ((ci + 1) * CH).min(o + n);
            let (i, m) = (k % CH, end - k);
            if let Some(s) = &self.ch[ci].s {
                if s.any(i, m) {
                    let c = Rc::make_mut(&mut self.ch[ci]);
                    let s = c.s.as_mut().unwrap();
                    let lo = i.saturating_sub(8) as u16;
                    let keys: Vec<(u16, V, u8)> = s
                        .slots
                        .range(lo..(i + m) as u16)
                        .filter(|(k, (_, z))| (**k as usize) < i + m && **k as usize + *z as usize > i)
                        .map(|(k, (v, z))| (*k, v.clone(), *z))
                        .collect();
                    for (ko, v, z) in keys {
                        s.slots.remove(&ko);
                        let (ko, z) = (ko as usize, z as usize);
                        s.set(ko, z, false);
                        for b in 0..z {
                            if ko + b < i || ko + b >= i + m {
                                let bv = byte_of(t, &v, z, b);
                                match bv {
                                    V::C(x) => c.b[ko + b] = x as u8,
                                    bv => {
                                        s.slots.insert((ko + b) as u16, (bv, 1));
                                        s.set(ko + b, 1, true);
                                    }
                                }
                            }
                        }
                    }
                    if s.slots.is_empty() {
                        c.s = None;
                    }
                }
            }
            k = end;
        }
    }
    pub fn write(&mut self, t: &mut Terms, o: usize, n: usize, v: &V) {
        if self.ch[o / CH].s.is_some() || self.ch[(o + n - 1) / CH].s.is_some() {
            self.clear(t, o, n);
        }
        match v {
            V::C(c) => {
                if o % CH + n <= CH {
                    let k = Rc::make_mut(&mut self.ch[o / CH]);
                    let i = o % CH;
                    k.b[i..i + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    for j in 0..n {
                        let k = Rc::make_mut(&mut self.ch[(o + j) / CH]);
                        k.b[(o + j) % CH] = (c >> (8 * j)) as u8;
                    }
                }
            }
            V::W(w) => {
                for j in 0..n {
                    let k = Rc::make_mut(&mut self.ch[(o + j) / CH]);
                    k.b[(o + j) % CH] = (**w >> (8 * j)) as u8;
                }
            }
            V::A(_) => t.unsupp("raw aggregate store".into()),
            v => {
                if o % CH + n <= CH {
                    let k = Rc::make_mut(&mut self.ch[o / CH]);
                    let s = k.s.get_or_insert_with(|| {
                        Box::new(Sym { mask: [0; CH / 64], slots: BTreeMap::new() })
                    });
                    s.slots.insert((o % CH) as u16, (v.clone(), n as u8));
                    s.set(o % CH, n, true);
                } else {
                    for j in 0..n {
                        let b = byte_of(t, v, n, j);
                        self.write(t, o + j, 1, &b);
                    }
                }
            }
        }
    }
    pub fn fill(&mut self, t: &mut Terms, o: usize, n: usize, b: &V) {
        match b {
            V::C(c) => {
                self.clear(t, o, n);
                let mut k = o;
                while k < o + n {
                    let end = ((k / CH + 1) * CH).min(o + n);
                    let c0 = Rc::make_mut(&mut self.ch[k / CH]);
                    for x in &mut c0.b[k % CH..k % CH + (end - k)] {
                        *x = *c as u8;
                    }
                    k = end;
                }
            }
            b => {
                for j in 0..n {
                    self.write(t, o + j, 1, b);
                }
            }
        }
    }
    /// pieces covering [o,o+n): (relative offset, value, size); concrete runs as bytes
    fn pieces(&self, t: &mut Terms, o: usize, n: usize) -> Vec<(usize, Piece)> {
        let mut out = vec![];
        let mut k = o;
        while k < o + n {
            let c = &self.ch[k / CH];
            let i = k % CH;
            let end = ((k / CH + 1) * CH).min(o + n);
            match &c.s {
                None => {
                    out.push((k - o, Piece::B(c.b[i..i + end - k].to_vec())));
                    k = end;
                }
                Some(s) => {
                    if s.any(i, 1) {
                        let (so, (v, sz)) = s.slots.range(..=(i as u16)).next_back().unwrap();
                        let (so, sz) = (*so as usize, *sz as usize);
                        if so == i && k + sz <= o + n {
                            out.push((k - o, Piece::V(v.clone(), sz)));
                            k += sz;
                        } else {
                            let v = v.clone();
                            out.push((k - o, Piece::V(byte_of(t, &v, sz, i - so), 1)));
                            k += 1;
                        }
                    } else {
                        let st = k;
                        while k < end && !s.any(k % CH, 1) {
                            k += 1;
                        }
                        out.push((st - o, Piece::B(c.b[i..i + k - st].to_vec())));
                    }
                }
            }
        }
        out
    }
    pub fn copy_in(&mut self, t: &mut Terms, o: usize, src: &Obj, so: usize, n: usize) {
        let ps = src.pieces(t, so, n);
        self.clear(t, o, n);
        for (r, p) in ps {
            match p {
                Piece::B(b) => {
                    let mut k = 0;
                    while k < b.len() {
                        let a = o + r + k;
                        let m = (CH - a % CH).min(b.len() - k);
                        let c = Rc::make_mut(&mut self.ch[a / CH]);
                        c.b[a % CH..a % CH + m].copy_from_slice(&b[k..k + m]);
                        k += m;
                    }
                }
                Piece::V(v, z) => self.write(t, o + r, z, &v),
            }
        }
    }
    /// ite(c, self, other) in place
    pub fn merge(&mut self, t: &mut Terms, c: &V, other: &Obj) {
        if self.size != other.size {
            t.unsupp("merging objects of different size".into());
            return;
        }
        for ci in 0..self.ch.len() {
            if Rc::ptr_eq(&self.ch[ci], &other.ch[ci]) {
                continue;
            }
            let (a, b) = (self.ch[ci].clone(), other.ch[ci].clone());
            let base = ci * CH;
            let len = (self.size as usize - base).min(CH);
            let mut i = 0;
            while i < len {
                let sa = a.s.as_ref().map_or(false, |s| s.any(i, 1));
                let sb = b.s.as_ref().map_or(false, |s| s.any(i, 1));
                if !sa && !sb {
                    if a.b[i] == b.b[i] {
                        i += 1;
                        continue;
                    }
                    // concrete on both sides: whole aligned word when possible
                    let w = i & !7;
                    let free = w + 8 <= len
                        && !a.s.as_ref().map_or(false, |s| s.any(w, 8))
                        && !b.s.as_ref().map_or(false, |s| s.any(w, 8));
                    let small = free && (w..w + 8).all(|k| a.b[k] == b.b[k] || (a.b[k] <= 1 && b.b[k] <= 1));
                    if free && !small {
                        let (x, y) = (V::C(le(&a.b[w..w + 8])), V::C(le(&b.b[w..w + 8])));
                        let v = t.merge_val(c, &x, &y, 8);
                        self.write(t, base + w, 8, &v);
                        i = w + 8;
                    } else {
                        let v = t.merge_val(c, &V::C(a.b[i] as u64), &V::C(b.b[i] as u64), 1);
                        self.write(t, base + i, 1, &v);
                        i += 1;
                    }
                    continue;
                }
                // a symbolic slot on some side starts here (or we are inside one: go bytewise)
                let slot = |k: &Chunk| -> Option<(usize, V)> {
                    k.s.as_ref().and_then(|s| s.slots.get(&(i as u16))).map(|(v, z)| (*z as usize, v.clone()))
                };
                let (pa, pb) = (slot(&a), slot(&b));
                let z = match (&pa, &pb) {
                    (Some((x, _)), Some((y, _))) => *x.max(y),
                    (Some((x, _)), None) if !sb => *x,
                    (None, Some((y, _))) if !sa => *y,
                    _ => 1,
                };
                // the other side must not have a slot crossing the end
                let crosses = |k: &Chunk| -> bool {
                    k.s.as_ref().map_or(false, |s| {
                        s.slots.range(..(i + z) as u16).next_back().map_or(false, |(o, (_, q))| {
                            *o as usize + *q as usize > i + z
                        })
                    })
                };
                let z = if crosses(&a) || crosses(&b) || i + z > len { 1 } else { z };
                if let (Some((x, va)), Some((y, vb))) = (&pa, &pb) {
                    if x == y && *x == z && same(va, vb) {
                        i += z;
                        continue;
                    }
                }
                let oa = Obj { size: CH as u64, ch: vec![a.clone()] };
                let ob = Obj { size: CH as u64, ch: vec![b.clone()] };
                let (x, y) = (oa.read(t, i, z), ob.read(t, i, z));
                let v = t.merge_val(c, &x, &y, z);
                self.write(t, base + i, z, &v);
                i += z;
            }
        }
    }
}
enum Piece {
    B(Vec<u8>),
    V(V, usize),
}
pub fn le(b: &[u8]) -> u64 {
    let mut a = [0u8; 8];
    a[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(a)
}
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::W(x), V::W(y)) => x == y,
        (V::T(x), V::T(y)) => Rc::ptr_eq(x, y) || x == y,
        (V::X(x), V::X(y)) => Rc::ptr_eq(x, y) || x == y,
        (V::N(x), V::N(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
        _ => false,
    }
}

impl Terms {
    /// ite(c, a, b) for an untyped value of n bytes
    pub fn merge_val(&mut self, c: &V, a: &V, b: &V, n: usize) -> V {
        if same(a, b) {
            return a.clone();
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let v: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.merge_val(c, p, q, n)).collect();
            return V::A(Rc::new(v));
        }
        if let V::C(x) = c {
            return if x & 1 != 0 { a.clone() } else { b.clone() };
        }
        let c = self.as_bool_tab(c);
        if n == 1 && self.wide(&[&c, a, b]) {
            if let Some(v) = self.ite_xor(&c, a, b, 8) {
                return v;
            }
        }
        if let Some(v) = mapn(self.kmax, &[&c, a, b], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
            return v;
        }
        if matches!(a, V::X(_)) || matches!(b, V::X(_)) {
            if let Some(v) = self.ite_xor(&c, a, b, n as u32 * 8) {
                return v;
            }
            if let (Some(x), Some(y)) = (self.marked_v(a), self.marked_v(b)) {
                if let Some(v) = mapn(self.kmax, &[&c, &x, &y], |x| if x[0] & 1 != 0 { x[1] } else { x[2] }) {
                    return v;
                }
            }
        }
        let bit = |v: &V| match v {
            V::C(x) => *x <= 1,
            V::T(t) => t.vals.iter().all(|x| *x <= 1),
            _ => false,
        };
        if bit(a) && bit(b) {
            return self.ite_bool(&c, a, b);
        }
        let real = |s: &Self, v: &V| match v {
            V::N(k) => !s.nodes[*k as usize].is_int,
            V::C(x) => *x >> 60 != 0,
            V::T(t) => t.vals.iter().any(|x| *x >> 60 != 0),
            _ => false,
        };
        let int = |s: &Self, v: &V| matches!(v, V::N(k) if s.nodes[*k as usize].is_int) || matches!(v, V::X(_));
        if n == 8 && (real(self, a) || real(self, b)) && !int(self, a) && !int(self, b) {
            self.fite(&c, a, b)
        } else if matches!((a, b), (V::W(_), _) | (_, V::W(_))) {
            self.unsupp("merging wide integers".into());
            a.clone()
        } else {
            self.iite(&c, a, b, 8 * n as u32)
        }
    }
}

// ---- persistent object table
#[derive(Clone)]
enum Nd {
    In(Rc<Vec<Option<Nd>>>),
    Leaf(Rc<Obj>),
}
#[derive(Clone)]
pub struct Mem {
    root: Option<Nd>,
}
const LEVELS: u32 = 4;
impl Mem {
    pub fn new() -> Mem {
        Mem { root: None }
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let mut n = self.root.as_ref()?;
        let mut sh = 6 * (LEVELS - 1);
        loop {
            match n {
                Nd::In(v) => {
                    n = v[(id >> sh) as usize & (FAN - 1)].as_ref()?;
                    sh = sh.saturating_sub(6);
                }
                Nd::Leaf(o) => return Some(o),
            }
        }
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let mut n = self.root.as_mut()?;
        let mut sh = 6 * (LEVELS - 1);
        loop {
            match n {
                Nd::In(v) => {
                    n = Rc::make_mut(v)[(id >> sh) as usize & (FAN - 1)].as_mut()?;
                    sh = sh.saturating_sub(6);
                }
                Nd::Leaf(o) => return Some(Rc::make_mut(o)),
            }
        }
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        assert!(id < 1 << (6 * LEVELS), "too many objects");
        fn rec(n: &mut Option<Nd>, id: u32, lvl: u32, o: Option<Rc<Obj>>) {
            if lvl == 0 {
                *n = o.map(Nd::Leaf);
                return;
            }
            if n.is_none() {
                if o.is_none() {
                    return;
                }
                *n = Some(Nd::In(Rc::new(vec![None; FAN])));
            }
            let del = o.is_none();
            if let Some(Nd::In(v)) = n {
                let v = Rc::make_mut(v);
                rec(&mut v[(id >> (6 * (lvl - 1))) as usize & (FAN - 1)], id, lvl - 1, o);
                if del && v.iter().all(|x| x.is_none()) {
                    *n = None;
                }
            }
        }
        rec(&mut self.root, id, LEVELS, o)
    }
    /// ite(c, self, other)
    pub fn merge(&mut self, t: &mut Terms, c: &V, other: &Mem) {
        fn rec(t: &mut Terms, c: &V, a: &mut Option<Nd>, b: &Option<Nd>) {
            match (a.as_mut(), b) {
                (_, None) => {}
                (None, Some(y)) => *a = Some(y.clone()),
                (Some(Nd::In(x)), Some(Nd::In(y))) => {
                    if Rc::ptr_eq(x, y) {
                        return;
                    }
                    let x = Rc::make_mut(x);
                    for i in 0..FAN {
                        rec(t, c, &mut x[i], &y[i]);
                    }
                }
                (Some(Nd::Leaf(x)), Some(Nd::Leaf(y))) => {
                    if Rc::ptr_eq(x, y) {
                        return;
                    }
                    Rc::make_mut(x).merge(t, c, y);
                }
                _ => unreachable!(),
            }
        }
        rec(t, c, &mut self.root, &other.root)
    }
}
#[allow(dead_code)]
fn _u(o: &Obj) -> u8 {
    o.get8(0)
}
