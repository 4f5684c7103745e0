//! Compile the text of one LLVM function to a compact form for the executor.
use crate::ll::*;
use crate::term::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IP {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FP {
    False,
    True,
    O(crate::term::Pred),
    U(crate::term::Pred),
    Ord,
    Uno,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(String),
    Ptr(Op),
    Asm(String),
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(B, Ty, u32, Op, Op, bool),
    FNeg(Ty, u32, Op),
    ICmp(IP, Ty, u32, Op, Op),
    FCmp(FP, Ty, u32, Op, Op),
    Select(Ty, Ty, u32, Op, Op, Op),
    Cast(&'static str, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, i64, u32)>),
    Alloca(u32, u64, Op),
    Call(Option<u32>, Callee, Vec<(Ty, Op)>, Ty, bool),
    ExtractV(u32, Op, Vec<usize>),
    InsertV(u32, Op, Op, Vec<usize>),
    ExtElt(u32, Op, Op),
    InsElt(u32, Op, Op, Op),
    Shuf(u32, Op, Op, Vec<i32>),
    Rmw(String, u32, u32, Op, Op),
    CmpXchg(u32, u32, Op, Op, Op),
    Copy(u32, Op),
    Nop,
}
#[derive(Clone, Debug)]
pub enum Term {
    Br(usize),
    CBr(Op, usize, usize),
    Switch(u32, Op, usize, Vec<(u64, usize)>),
    Ret(Option<Op>),
    Unreach,
}
pub struct Block {
    pub phis: HashMap<usize, Vec<(u32, Op)>>,
    pub ins: Vec<Ins>,
    pub term: Term,
}
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub tys: Vec<Ty>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator; blocks.len() = the function's return
    pub ipdom: Vec<usize>,
    /// registers live after the phis of each block
    pub live: Vec<Rc<Vec<u32>>>,
    pub has_alloca: bool,
    pub noreturn: bool,
}

pub trait Addr {
    fn addr(&self, name: &str) -> u64;
}

pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => V::C(0),
    }
}
pub fn cst_u64(c: &Cst, t: &Ty, ad: &dyn Addr) -> u128 {
    match c {
        Cst::Int(x) => *x,
        Cst::F64(b) => *b as u128,
        Cst::F32(b) => *b as u128,
        Cst::Null | Cst::Undef | Cst::Zero => 0,
        Cst::Global(g) => ad.addr(g) as u128,
        Cst::Gep(bt, base, idx) => {
            let mut a = cst_u64(base, &Ty::Ptr, ad) as i128;
            let mut cur = bt.clone();
            for (k, (it, ic)) in idx.iter().enumerate() {
                let w = it.int_width();
                let v = cst_u64(ic, it, ad);
                let v = sext(v, w);
                if k == 0 {
                    a += v * cur.size() as i128;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let (o, f) = cur.field(v as usize);
                            a += o as i128;
                            cur = f;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            let e = (**e).clone();
                            a += v * e.size() as i128;
                            cur = e;
                        }
                        _ => panic!("gep const"),
                    }
                }
            }
            (a as u128) & mask(64)
        }
        Cst::Cast(_, t1, c, t2) => {
            let v = cst_u64(c, t1, ad);
            v & mask(t2.int_width())
        }
        Cst::Bin(op, t, a, b) => {
            let (x, y) = (cst_u64(a, t, ad), cst_u64(b, t, ad));
            let r = match op.as_str() {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "xor" => x ^ y,
                "and" => x & y,
                "or" => x | y,
                "mul" => x.wrapping_mul(y),
                "shl" => x << y,
                _ => panic!("cst bin"),
            };
            r & mask(t.int_width())
        }
        _ => panic!("cst scalar {:?} {:?}", c, t),
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let v = v & mask(w);
    if w > 0 && v >> (w - 1) & 1 != 0 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}
pub fn cst_v(c: &Cst, t: &Ty, ad: &dyn Addr) -> V {
    match (c, t) {
        (Cst::Zero | Cst::Undef, t) => zero_of(t),
        (Cst::Agg(v), _) => V::A(Rc::new(v.iter().map(|(t, c)| cst_v(c, t, ad)).collect())),
        (Cst::Splat(b), Ty::Vec(n, _)) => {
            let v = cst_v(&b.1, &b.0, ad);
            V::A(Rc::new(vec![v; *n as usize]))
        }
        (Cst::Bytes(b), _) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        (c, Ty::Int(w)) if *w > 64 => V::W(Rc::new(cst_u64(c, t, ad))),
        (c, t) => V::C(cst_u64(c, t, ad) as u64),
    }
}
/// write a constant into bytes
pub fn cst_bytes(c: &Cst, t: &Ty, ad: &dyn Addr, out: &mut [u8]) {
    match (c, t) {
        (Cst::Zero | Cst::Undef, _) => {}
        (Cst::Bytes(b), _) => out[..b.len()].copy_from_slice(b),
        (Cst::Agg(v), t) => {
            for (i, (et, ec)) in v.iter().enumerate() {
                let (o, _) = t.field(i);
                let o = o as usize;
                cst_bytes(ec, et, ad, &mut out[o..o + et.size() as usize]);
            }
        }
        (Cst::Splat(b), Ty::Vec(n, _)) => {
            let s = b.0.size() as usize;
            for i in 0..*n as usize {
                cst_bytes(&b.1, &b.0, ad, &mut out[i * s..(i + 1) * s]);
            }
        }
        (c, t) => {
            let v = cst_u64(c, t, ad);
            let n = t.size() as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
    }
}

struct P<'a> {
    m: &'a Module,
    lx: Lex<'a>,
    regs: HashMap<&'a str, u32>,
    tys: Vec<Ty>,
    ad: &'a dyn Addr,
    labels: HashMap<&'a str, usize>,
}

const SKIPW: &[&str] = &[
    "nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw",
    "nneg", "disjoint", "samesign", "volatile", "tail", "notail", "musttail", "fastcc", "coldcc", "ccc", "weak",
    "monotonic", "acquire", "release", "acq_rel", "seq_cst", "preserve_mostcc", "preserve_nonecc", "preserve_allcc",
];
const ATTRS: &[&str] = &[
    "noundef", "noalias", "nofree", "nonnull", "readonly", "writeonly", "readnone", "signext", "zeroext", "inreg",
    "returned", "nocapture", "dead_on_unwind", "writable", "noext", "immarg", "allocalign", "allocptr", "nest",
    "dead_on_return", "inalloca", "local_unnamed_addr", "unnamed_addr", "nofpclass",
];

impl<'a> P<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.tys.len() as u32;
        self.regs.insert(n, r);
        self.tys.push(Ty::Void);
        r
    }
    fn def(&mut self, n: Option<u32>, t: Ty) -> u32 {
        let r = n.expect("missing destination");
        self.tys[r as usize] = t;
        r
    }
    fn skipw(&mut self) {
        loop {
            match self.lx.peek() {
                Tok::Word(w) if SKIPW.contains(&w) => {
                    self.lx.next();
                    if w == "nofpclass" {
                        self.lx.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn attrs(&mut self) {
        loop {
            match self.lx.peek() {
                Tok::Word(w) if ATTRS.contains(&w) || SKIPW.contains(&w) => {
                    self.lx.next();
                    if self.lx.peek() == Tok::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                Tok::Word("align") => {
                    self.lx.next();
                    if self.lx.peek() == Tok::P(b'(') {
                        self.lx.skip_parens();
                    } else {
                        self.lx.next();
                    }
                }
                Tok::Word(
                    "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval"
                    | "elementtype" | "initializes" | "byref" | "preallocated" | "memory",
                ) => {
                    self.lx.next();
                    if self.lx.peek() == Tok::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.m.parse_ty(&mut self.lx)
    }
    fn op(&mut self, t: &Ty) -> Op {
        if let Tok::Local(n) = self.lx.peek() {
            self.lx.next();
            return Op::R(self.reg(n));
        }
        let c = self.m.parse_cst(&mut self.lx, t);
        Op::K(cst_v(&c, t, self.ad))
    }
    fn tyop(&mut self) -> (Ty, Op) {
        let t = self.ty();
        self.attrs();
        let o = self.op(&t);
        (t, o)
    }
    fn comma(&mut self) {
        self.lx.expect(b',');
    }
    fn label(&mut self) -> usize {
        assert_eq!(self.lx.next(), Tok::Word("label"));
        match self.lx.next() {
            Tok::Local(n) => *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn num(&mut self) -> u64 {
        num_u64(self.lx.next())
    }
    fn tail(&mut self) {
        // trailing ", align 8", ", !dbg !1", attribute groups, up to the end of the line
        let b = self.m.src.as_bytes();
        let _ = b;
        self.lx_skip_line();
    }
    fn lx_skip_line(&mut self) {
        self.lx.to_eol();
    }
}

pub fn compile(m: &Module, name: &str, ad: &dyn Addr) -> Func {
    let (p, e) = *m.funcs.get(name).unwrap_or_else(|| panic!("no function {}", name));
    let src: &'static str = &m.src[p..e];
    // labels first
    let mut labels: HashMap<&str, usize> = HashMap::new();
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut entry_named = false;
    let first_nl = src.find('\n').unwrap() + 1;
    {
        let mut pos = first_nl;
        let mut cur: Option<(&str, usize)> = None;
        for line in src[first_nl..].split_inclusive('\n') {
            let t = line.trim_end();
            if !t.is_empty() && !t.starts_with(' ') && !t.starts_with('}') && !t.starts_with(';') {
                // label
                let mut lx = Lex::new(t);
                let n = lx.label_name();
                if let Some((nm, st)) = cur {
                    let _ = nm;
                    bodies.push((st, pos));
                } else {
                    entry_named = true;
                }
                labels.insert(n, bodies.len());
                cur = Some((n, pos + line.len()));
            } else if cur.is_none() && !t.is_empty() && !t.starts_with(';') {
                cur = Some(("", pos));
            }
            pos += line.len();
        }
        let (_, st) = cur.unwrap();
        bodies.push((st, src.len()));
    }
    let head = &src[..first_nl];
    let at = head.find(&format!("@{}(", name)).or_else(|| head.find(&format!("@\"{}\"(", name))).unwrap();
    let mut ps = P { m, lx: Lex::new(&head[at..]), regs: HashMap::new(), tys: vec![], ad, labels };
    ps.lx.next();
    ps.lx.expect(b'(');
    let mut params = vec![];
    let mut param_names: Vec<&str> = vec![];
    if !ps.lx.eat(b')') {
        loop {
            if ps.lx.eat_word("...") {
                ps.lx.expect(b')');
                break;
            }
            let t = ps.ty();
            ps.attrs();
            let n = match ps.lx.next() {
                Tok::Local(n) => n,
                t => panic!("param {:?} in {}", t, name),
            };
            param_names.push(n);
            let r = ps.reg(n);
            ps.tys[r as usize] = t;
            params.push(r);
            if ps.lx.eat(b',') {
                continue;
            }
            ps.lx.expect(b')');
            break;
        }
    }
    if !entry_named {
        // the entry block takes the next unnamed value number
        let k = param_names.iter().filter(|n: &&&str| n.bytes().all(|c| c.is_ascii_digit())).count();
        ps.labels.insert(Box::leak(k.to_string().into_boxed_str()), 0);
    }
    let mut noreturn = false;
    loop {
        match ps.lx.next() {
            Tok::Attr(n) => {
                if m.noreturn_groups.contains(&n) {
                    noreturn = true
                }
            }
            Tok::Word("noreturn") => noreturn = true,
            Tok::Eof => break,
            Tok::P(b'{') => break,
            _ => {}
        }
    }
    let nb = bodies.len();
    let mut blocks: Vec<Block> = vec![];
    let mut has_alloca = false;
    for bi in 0..nb {
        let (s, e) = bodies[bi];
        let mut phis: HashMap<usize, Vec<(u32, Op)>> = HashMap::new();
        let mut ins = vec![];
        let mut term: Option<Term> = None;
        ps.lx = Lex::new(&src[s..e]);
        while term.is_none() {
            let mut dst: Option<u32> = None;
            let mut tk = ps.lx.next();
            if let Tok::Local(n) = tk {
                ps.lx.expect(b'=');
                dst = Some(ps.reg(n));
                tk = ps.lx.next();
            }
            let mut w = match tk {
                Tok::Word(w) => w,
                Tok::Eof => panic!("no terminator in {}", name),
                t => panic!("instruction {:?} in {}", t, name),
            };
            while matches!(w, "tail" | "notail" | "musttail") {
                w = match ps.lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
            }
            match w {
                "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
                | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    let op = match w {
                        "add" => B::Add,
                        "sub" => B::Sub,
                        "mul" => B::Mul,
                        "udiv" => B::UDiv,
                        "urem" => B::URem,
                        "sdiv" => B::SDiv,
                        "srem" => B::SRem,
                        "and" => B::And,
                        "or" => B::Or,
                        "xor" => B::Xor,
                        "shl" => B::Shl,
                        "lshr" => B::LShr,
                        "ashr" => B::AShr,
                        "fadd" => B::FAdd,
                        "fsub" => B::FSub,
                        "fmul" => B::FMul,
                        "fdiv" => B::FDiv,
                        _ => B::FRem,
                    };
                    let mut disj = false;
                    if let Tok::Word("disjoint") = ps.lx.peek() {
                        disj = true;
                    }
                    ps.skipw();
                    let t = ps.ty();
                    let a = ps.op(&t);
                    ps.comma();
                    let b = ps.op(&t);
                    let d = ps.def(dst, t.clone());
                    ins.push(Ins::Bin(op, t, d, a, b, disj));
                }
                "fneg" => {
                    ps.skipw();
                    let t = ps.ty();
                    let a = ps.op(&t);
                    let d = ps.def(dst, t.clone());
                    ins.push(Ins::FNeg(t, d, a));
                }
                "icmp" | "fcmp" => {
                    ps.skipw();
                    let p = match ps.lx.next() {
                        Tok::Word(p) => p,
                        t => panic!("{:?}", t),
                    };
                    ps.skipw();
                    let t = ps.ty();
                    let a = ps.op(&t);
                    ps.comma();
                    let b = ps.op(&t);
                    let rt = match &t {
                        Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                        _ => Ty::Int(1),
                    };
                    let d = ps.def(dst, rt);
                    if w == "icmp" {
                        let p = match p {
                            "eq" => IP::Eq,
                            "ne" => IP::Ne,
                            "ugt" => IP::Ugt,
                            "uge" => IP::Uge,
                            "ult" => IP::Ult,
                            "ule" => IP::Ule,
                            "sgt" => IP::Sgt,
                            "sge" => IP::Sge,
                            "slt" => IP::Slt,
                            "sle" => IP::Sle,
                            p => panic!("icmp {}", p),
                        };
                        ins.push(Ins::ICmp(p, t, d, a, b));
                    } else {
                        use crate::term::Pred::*;
                        let p = match p {
                            "oeq" => FP::O(Eq),
                            "ogt" => FP::O(Gt),
                            "oge" => FP::O(Ge),
                            "olt" => FP::O(Lt),
                            "ole" => FP::O(Le),
                            "one" => FP::O(Ne),
                            "ueq" => FP::U(Eq),
                            "ugt" => FP::U(Gt),
                            "uge" => FP::U(Ge),
                            "ult" => FP::U(Lt),
                            "ule" => FP::U(Le),
                            "une" => FP::U(Ne),
                            "ord" => FP::Ord,
                            "uno" => FP::Uno,
                            "false" => FP::False,
                            _ => FP::True,
                        };
                        ins.push(Ins::FCmp(p, t, d, a, b));
                    }
                }
                "select" => {
                    ps.skipw();
                    let (ct, c) = ps.tyop();
                    ps.comma();
                    let (t, a) = ps.tyop();
                    ps.comma();
                    let (_, b) = ps.tyop();
                    let d = ps.def(dst, t.clone());
                    ins.push(Ins::Select(ct, t, d, c, a, b));
                }
                "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui"
                | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                    ps.skipw();
                    let (t, a) = ps.tyop();
                    assert_eq!(ps.lx.next(), Tok::Word("to"));
                    let t2 = ps.ty();
                    let d = ps.def(dst, t2.clone());
                    let k: &'static str = match w {
                        "zext" => "zext",
                        "sext" => "sext",
                        "trunc" => "trunc",
                        "uitofp" => "uitofp",
                        "sitofp" => "sitofp",
                        "fptoui" => "fptoui",
                        "fptosi" => "fptosi",
                        "fpext" => "fpext",
                        "fptrunc" => "fptrunc",
                        _ => "bitcast",
                    };
                    ins.push(Ins::Cast(k, t, t2, d, a));
                }
                "load" => {
                    if ps.lx.eat_word("atomic") {}
                    ps.skipw();
                    let t = ps.ty();
                    ps.comma();
                    let (_, p) = ps.tyop();
                    let d = ps.def(dst, t.clone());
                    ins.push(Ins::Load(t, d, p));
                }
                "store" => {
                    if ps.lx.eat_word("atomic") {}
                    ps.skipw();
                    let (t, v) = ps.tyop();
                    ps.comma();
                    let (_, p) = ps.tyop();
                    ins.push(Ins::Store(t, v, p));
                }
                "getelementptr" => {
                    loop {
                        match ps.lx.peek() {
                            Tok::Word(w) if SKIPW.contains(&w) => {
                                ps.lx.next();
                            }
                            Tok::Word("inrange") => {
                                ps.lx.next();
                                ps.lx.skip_parens();
                            }
                            _ => break,
                        }
                    }
                    let mut cur = ps.ty();
                    ps.comma();
                    let (_, base) = ps.tyop();
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut k = 0;
                    while ps.lx.eat(b',') {
                        if let Tok::Meta = ps.lx.peek() {
                            break;
                        }
                        let (it, io) = ps.tyop();
                        let w = it.int_width();
                        let esz;
                        if k == 0 {
                            esz = cur.size() as i64;
                        } else {
                            match &cur.clone() {
                                Ty::Struct(..) => {
                                    if let Op::K(V::C(c)) = io {
                                        let (o, f) = cur.field(c as usize);
                                        off += o as i64;
                                        cur = f;
                                        k += 1;
                                        continue;
                                    } else {
                                        panic!("struct gep");
                                    }
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    cur = (**e).clone();
                                    esz = cur.size() as i64;
                                }
                                _ => panic!("gep"),
                            }
                        }
                        match io {
                            Op::K(V::C(c)) => off += sext(c as u128, w) as i64 * esz,
                            o => idx.push((o, esz, w)),
                        }
                        k += 1;
                    }
                    let d = ps.def(dst, Ty::Ptr);
                    ins.push(Ins::Gep(d, base, off, idx));
                }
                "alloca" => {
                    has_alloca = true;
                    let t = ps.ty();
                    let mut cnt = Op::K(V::C(1));
                    if ps.lx.eat(b',') {
                        if let Tok::Word("align") = ps.lx.peek() {
                        } else if let Tok::Meta = ps.lx.peek() {
                        } else {
                            cnt = ps.tyop().1;
                        }
                    }
                    let d = ps.def(dst, Ty::Ptr);
                    ins.push(Ins::Alloca(d, t.size(), cnt));
                }
                "call" | "invoke" => {
                    ps.skipw();
                    ps.attrs();
                    let rt = ps.ty();
                    // function type form: ret (args...) callee
                    if ps.lx.peek() == Tok::P(b'(') {
                        ps.lx.skip_parens();
                    }
                    let mut args = vec![];
                    let callee = match ps.lx.next() {
                        Tok::Global(g) => Callee::Fn(g.to_string()),
                        Tok::Local(n) => Callee::Ptr(Op::R(ps.reg(n))),
                        Tok::Word("asm") => {
                            let mut s = String::new();
                            loop {
                                match ps.lx.next() {
                                    Tok::Str(x) => {
                                        s = x.to_string();
                                        break;
                                    }
                                    Tok::Word(_) => {}
                                    t => panic!("asm {:?}", t),
                                }
                            }
                            ps.comma();
                            ps.lx.next();
                            Callee::Asm(s)
                        }
                        Tok::Word("inttoptr") => {
                            ps.lx.skip_parens();
                            Callee::Asm("indirect constant".into())
                        }
                        t => panic!("callee {:?} in {}", t, name),
                    };
                    ps.lx.expect(b'(');
                    if !ps.lx.eat(b')') {
                        loop {
                            if let Tok::Word("metadata") = ps.lx.peek() {
                                ps.lx.next();
                                ps.lx.next();
                            } else {
                                args.push(ps.tyop());
                            }
                            if ps.lx.eat(b',') {
                                continue;
                            }
                            ps.lx.expect(b')');
                            break;
                        }
                    }
                    let mut nr = false;
                    loop {
                        match ps.lx.peek() {
                            Tok::Attr(n) => {
                                ps.lx.next();
                                if m.noreturn_groups.contains(&n) {
                                    nr = true;
                                }
                            }
                            Tok::P(b'[') => {
                                // operand bundle
                                while ps.lx.next() != Tok::P(b']') {}
                            }
                            _ => break,
                        }
                    }
                    let d = match dst {
                        Some(_) => Some(ps.def(dst, rt.clone())),
                        None => None,
                    };
                    let skip = match &callee {
                        Callee::Fn(g) => {
                            g.starts_with("llvm.lifetime")
                                || g.starts_with("llvm.experimental.noalias")
                                || g == "llvm.assume"
                                || g.starts_with("llvm.dbg")
                                || g.starts_with("llvm.x86.avx.vzero")
                                || g.starts_with("llvm.x86.sse2.pause")
                        }
                        _ => false,
                    };
                    if w == "invoke" {
                        assert_eq!(ps.lx.next(), Tok::Word("to"));
                        let l = ps.label();
                        ins.push(Ins::Call(d, callee, args, rt, nr));
                        term = Some(if nr { Term::Unreach } else { Term::Br(l) });
                    } else if !skip {
                        ins.push(Ins::Call(d, callee, args, rt, nr));
                        if nr {
                            term = Some(Term::Unreach);
                        }
                    }
                }
                "extractvalue" => {
                    let (t, a) = ps.tyop();
                    let mut path = vec![];
                    let mut cur = t;
                    while ps.lx.eat(b',') {
                        if let Tok::Num(_) = ps.lx.peek() {
                            let k = ps.num() as usize;
                            cur = cur.field(k).1;
                            path.push(k);
                        } else {
                            break;
                        }
                    }
                    let d = ps.def(dst, cur);
                    ins.push(Ins::ExtractV(d, a, path));
                }
                "insertvalue" => {
                    let (t, a) = ps.tyop();
                    ps.comma();
                    let (_, v) = ps.tyop();
                    let mut path = vec![];
                    while ps.lx.eat(b',') {
                        if let Tok::Num(_) = ps.lx.peek() {
                            path.push(ps.num() as usize);
                        } else {
                            break;
                        }
                    }
                    let d = ps.def(dst, t);
                    ins.push(Ins::InsertV(d, a, v, path));
                }
                "extractelement" => {
                    let (t, a) = ps.tyop();
                    ps.comma();
                    let (_, i) = ps.tyop();
                    let et = t.field(0).1;
                    let d = ps.def(dst, et);
                    ins.push(Ins::ExtElt(d, a, i));
                }
                "insertelement" => {
                    let (t, a) = ps.tyop();
                    ps.comma();
                    let (_, v) = ps.tyop();
                    ps.comma();
                    let (_, i) = ps.tyop();
                    let d = ps.def(dst, t);
                    ins.push(Ins::InsElt(d, a, v, i));
                }
                "shufflevector" => {
                    let (t, a) = ps.tyop();
                    ps.comma();
                    let (_, b) = ps.tyop();
                    ps.comma();
                    let (mt, mo) = ps.tyop();
                    let mask: Vec<i32> = match mo {
                        Op::K(V::A(v)) => v
                            .iter()
                            .map(|x| match x {
                                V::C(c) => *c as i32,
                                _ => 0,
                            })
                            .collect(),
                        _ => panic!("shuffle mask"),
                    };
                    let et = t.field(0).1;
                    let d = ps.def(dst, Ty::Vec(mt.nfields() as u64, Rc::new(et)));
                    ins.push(Ins::Shuf(d, a, b, mask));
                }
                "freeze" => {
                    let (t, a) = ps.tyop();
                    let d = ps.def(dst, t);
                    ins.push(Ins::Copy(d, a));
                }
                "fence" => {}
                "atomicrmw" => {
                    ps.skipw();
                    let op = match ps.lx.next() {
                        Tok::Word(o) => o.to_string(),
                        t => panic!("{:?}", t),
                    };
                    let (_, p) = ps.tyop();
                    ps.comma();
                    let (t, v) = ps.tyop();
                    let w = t.int_width();
                    let d = ps.def(dst, t);
                    ins.push(Ins::Rmw(op, w, d, p, v));
                }
                "cmpxchg" => {
                    ps.skipw();
                    let (_, p) = ps.tyop();
                    ps.comma();
                    let (t, c) = ps.tyop();
                    ps.comma();
                    let (_, n) = ps.tyop();
                    let w = t.int_width();
                    let d = ps.def(dst, Ty::Struct(Rc::new(vec![t, Ty::Int(1)]), false));
                    ins.push(Ins::CmpXchg(w, d, p, c, n));
                }
                "landingpad" => {
                    ins.push(Ins::Nop);
                    if let Some(d) = dst {
                        ps.tys[d as usize] = Ty::Struct(Rc::new(vec![Ty::Ptr, Ty::Int(32)]), false);
                    }
                    term = Some(Term::Unreach);
                }
                "phi" => {
                    ps.skipw();
                    let t = ps.ty();
                    let d = ps.def(dst, t.clone());
                    loop {
                        ps.lx.expect(b'[');
                        let o = ps.op(&t);
                        ps.comma();
                        let l = match ps.lx.next() {
                            Tok::Local(n) => *ps.labels.get(n).unwrap_or_else(|| panic!("phi label {}", n)),
                            t => panic!("{:?}", t),
                        };
                        ps.lx.expect(b']');
                        phis.entry(l).or_default().push((d, o));
                        if ps.lx.peek() == Tok::P(b',') {
                            let save = ps.lx.pos;
                            ps.lx.next();
                            if ps.lx.peek() == Tok::P(b'[') {
                                continue;
                            }
                            ps.lx.pos = save;
                        }
                        break;
                    }
                }
                "br" => {
                    if let Tok::Word("label") = ps.lx.peek() {
                        term = Some(Term::Br(ps.label()));
                    } else {
                        let (_, c) = ps.tyop();
                        ps.comma();
                        let a = ps.label();
                        ps.comma();
                        let b = ps.label();
                        term = Some(match c {
                            Op::K(V::C(x)) => Term::Br(if x & 1 != 0 { a } else { b }),
                            c => Term::CBr(c, a, b),
                        });
                    }
                }
                "switch" => {
                    let (t, c) = ps.tyop();
                    ps.comma();
                    let d = ps.label();
                    ps.lx.expect(b'[');
                    let mut cs = vec![];
                    while !ps.lx.eat(b']') {
                        let (_, k) = ps.tyop();
                        ps.comma();
                        let l = ps.label();
                        match k {
                            Op::K(V::C(x)) => cs.push((x, l)),
                            Op::K(V::W(x)) => cs.push((*x as u64, l)),
                            _ => panic!("switch"),
                        }
                    }
                    term = Some(Term::Switch(t.int_width(), c, d, cs));
                }
                "ret" => {
                    let t = ps.ty();
                    if t == Ty::Void {
                        term = Some(Term::Ret(None));
                    } else {
                        let o = ps.op(&t);
                        term = Some(Term::Ret(Some(o)));
                    }
                }
                "unreachable" | "resume" => term = Some(Term::Unreach),
                w => panic!("unknown instruction {} in {}", w, name),
            }
            if term.is_none() {
                ps.tail();
            }
        }
        blocks.push(Block { phis, ins, term: term.unwrap() });
    }
    let n = blocks.len();
    let succ = |b: &Block| -> Vec<usize> {
        match &b.term {
            Term::Br(x) => vec![*x],
            Term::CBr(_, x, y) => vec![*x, *y],
            Term::Switch(_, _, d, cs) => {
                let mut v: Vec<usize> = cs.iter().map(|x| x.1).collect();
                v.push(*d);
                v
            }
            Term::Ret(_) => vec![n],
            Term::Unreach => vec![],
        }
    };
    let succs: Vec<Vec<usize>> = blocks.iter().map(succ).collect();
    // blocks from which the return is reachable
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, s) in succs.iter().enumerate() {
        for &j in s {
            if !preds[j].contains(&i) {
                preds[j].push(i);
            }
        }
    }
    let mut can = vec![false; n + 1];
    let mut st = vec![n];
    can[n] = true;
    while let Some(x) = st.pop() {
        for &p in &preds[x] {
            if !can[p] {
                can[p] = true;
                st.push(p);
            }
        }
    }
    // post order on the reverse graph from the exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = stack.pop() {
        if k < preds[x].len() {
            stack.push((x, k + 1));
            let p = preds[x][k];
            if !seen[p] {
                seen[p] = true;
                stack.push((p, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().skip(1) {
            let mut ni = usize::MAX;
            for &s in &succs[x] {
                if !can[s] || idom[s] == usize::MAX {
                    continue;
                }
                if ni == usize::MAX {
                    ni = s;
                } else {
                    let (mut a, mut b) = (ni, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    ni = a;
                }
            }
            if ni != usize::MAX && idom[x] != ni {
                idom[x] = ni;
                changed = true;
            }
        }
    }
    for x in 0..n {
        if idom[x] == usize::MAX {
            idom[x] = n;
        }
    }
    idom.truncate(n);
    // liveness
    let nregs = ps.tys.len();
    let words = (nregs + 63) / 64;
    let mut gen: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut kill: Vec<Vec<u64>> = vec![vec![0; words]; n];
    for (i, b) in blocks.iter().enumerate() {
        let (g, k) = (&mut gen[i], &mut kill[i]);
        for inn in &b.ins {
            ins_ops(inn, &mut |o| {
                if let Op::R(r) = o {
                    let r = *r as usize;
                    if k[r / 64] >> (r % 64) & 1 == 0 {
                        g[r / 64] |= 1 << (r % 64);
                    }
                }
            });
            if let Some(d) = ins_def(inn) {
                let d = d as usize;
                k[d / 64] |= 1 << (d % 64);
            }
        }
        let mut use_ = |o: &Op| {
            if let Op::R(r) = o {
                let r = *r as usize;
                if k[r / 64] >> (r % 64) & 1 == 0 {
                    g[r / 64] |= 1 << (r % 64);
                }
            }
        };
        match &b.term {
            Term::CBr(o, _, _) | Term::Switch(_, o, _, _) | Term::Ret(Some(o)) => use_(o),
            _ => {}
        }
    }
    // live-in after phis
    let mut live: Vec<Vec<u64>> = gen.clone();
    let mut work: Vec<usize> = (0..n).collect();
    let mut inw = vec![true; n];
    while let Some(i) = work.pop() {
        inw[i] = false;
        let mut out = vec![0u64; words];
        for &s in &succs[i] {
            if s == n {
                continue;
            }
            let mut l = live[s].clone();
            if let Some(ph) = blocks[s].phis.get(&i) {
                for (d, _) in ph {
                    let d = *d as usize;
                    l[d / 64] &= !(1 << (d % 64));
                }
                for (_, o) in ph {
                    if let Op::R(r) = o {
                        let r = *r as usize;
                        l[r / 64] |= 1 << (r % 64);
                    }
                }
            }
            for k in 0..words {
                out[k] |= l[k];
            }
        }
        let mut ch = false;
        for k in 0..words {
            let v = gen[i][k] | (out[k] & !kill[i][k]);
            if v != live[i][k] {
                live[i][k] = v;
                ch = true;
            }
        }
        if ch {
            for &p in &preds[i] {
                if !inw[p] {
                    inw[p] = true;
                    work.push(p);
                }
            }
        }
    }
    let live = live
        .iter()
        .map(|l| {
            let mut v = vec![];
            for r in 0..nregs {
                if l[r / 64] >> (r % 64) & 1 != 0 {
                    v.push(r as u32);
                }
            }
            Rc::new(v)
        })
        .collect();
    Func { name: name.to_string(), params, nregs, tys: ps.tys, blocks, ipdom: idom, live, has_alloca, noreturn }
}

fn ins_def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Bin(_, _, d, ..) | Ins::FNeg(_, d, _) | Ins::ICmp(_, _, d, ..) | Ins::FCmp(_, _, d, ..) => Some(*d),
        Ins::Select(_, _, d, ..) | Ins::Cast(_, _, _, d, _) | Ins::Load(_, d, _) | Ins::Gep(d, ..) => Some(*d),
        Ins::Alloca(d, ..) | Ins::ExtractV(d, ..) | Ins::InsertV(d, ..) | Ins::ExtElt(d, ..) => Some(*d),
        Ins::InsElt(d, ..) | Ins::Shuf(d, ..) | Ins::Rmw(_, _, d, ..) | Ins::CmpXchg(_, d, ..) => Some(*d),
        Ins::Copy(d, _) => Some(*d),
        Ins::Call(d, ..) => *d,
        Ins::Store(..) | Ins::Nop => None,
    }
}
fn ins_ops(i: &Ins, f: &mut dyn FnMut(&Op)) {
    match i {
        Ins::Bin(_, _, _, a, b, _) | Ins::ICmp(_, _, _, a, b) | Ins::FCmp(_, _, _, a, b) => {
            f(a);
            f(b)
        }
        Ins::FNeg(_, _, a) | Ins::Cast(_, _, _, _, a) | Ins::Load(_, _, a) | Ins::Alloca(_, _, a) => f(a),
        Ins::Copy(_, a) | Ins::ExtractV(_, a, _) => f(a),
        Ins::Select(_, _, _, a, b, c) | Ins::InsElt(_, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        Ins::Store(_, a, b) | Ins::InsertV(_, a, b, _) | Ins::ExtElt(_, a, b) | Ins::Shuf(_, a, b, _) => {
            f(a);
            f(b)
        }
        Ins::Rmw(_, _, _, a, b) => {
            f(a);
            f(b)
        }
        Ins::Gep(_, a, _, v) => {
            f(a);
            for x in v {
                f(&x.0)
            }
        }
        Ins::Call(_, c, v, _, _) => {
            if let Callee::Ptr(o) = c {
                f(o)
            }
            for x in v {
                f(&x.1)
            }
        }
        Ins::Nop => {}
    }
}
