//! Parser for the textual LLVM IR that rustc emits: types, globals, functions (lazily).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    FOther(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                w => ((w as u64 + 127) / 128) * 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::FOther(b) => *b as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                (off + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Offset and type of the i-th element of an aggregate.
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if j == i {
                        return (off, f.clone());
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field of non-aggregate {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn int_width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("int_width of {:?}", self),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Word(&'a str),
    P(u8),
    Meta,
    Attr(u32),
    Label(&'a str),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    pub pos: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Self {
        Lex { s: src.as_bytes(), src, pos: 0 }
    }
    fn name(&mut self) -> &'a str {
        if self.s[self.pos] == b'"' {
            let st = self.pos + 1;
            let mut p = st;
            while self.s[p] != b'"' {
                p += 1;
            }
            self.pos = p + 1;
            &self.src[st..p]
        } else {
            let st = self.pos;
            while self.pos < self.s.len() && idch(self.s[self.pos]) {
                self.pos += 1;
            }
            &self.src[st..self.pos]
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.pos >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.pos];
            match c {
                b' ' | b'\t' | b'\r' | b'\n' => {
                    self.pos += 1;
                    if c == b'\n' && self.pos < self.s.len() {
                        // A label starts in column 0.
                        let d = self.s[self.pos];
                        if idch(d) || d == b'"' {
                            let save = self.pos;
                            let n = self.name();
                            if self.pos < self.s.len() && self.s[self.pos] == b':' {
                                self.pos += 1;
                                return Tok::Label(n);
                            }
                            self.pos = save;
                        }
                    }
                }
                b';' => {
                    while self.pos < self.s.len() && self.s[self.pos] != b'\n' {
                        self.pos += 1;
                    }
                }
                b'%' => {
                    self.pos += 1;
                    return Tok::Local(self.name());
                }
                b'@' => {
                    self.pos += 1;
                    return Tok::Global(self.name());
                }
                b'!' => {
                    // metadata reference: swallow !name, !123, !{...}, !"..."
                    self.pos += 1;
                    if self.s[self.pos] == b'{' {
                        let mut d = 0;
                        loop {
                            match self.s[self.pos] {
                                b'{' => d += 1,
                                b'}' => {
                                    d -= 1;
                                    if d == 0 {
                                        self.pos += 1;
                                        break;
                                    }
                                }
                                _ => {}
                            }
                            self.pos += 1;
                        }
                    } else {
                        self.name();
                        if self.pos < self.s.len() && self.s[self.pos] == b'(' {
                            let mut d = 0;
                            loop {
                                match self.s[self.pos] {
                                    b'(' => d += 1,
                                    b')' => {
                                        d -= 1;
                                        if d == 0 {
                                            self.pos += 1;
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                                self.pos += 1;
                            }
                        }
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.pos += 1;
                    let n = self.name();
                    return Tok::Attr(n.parse().unwrap_or(0));
                }
                b'"' => {
                    return Tok::Str(self.name());
                }
                b'c' if self.pos + 1 < self.s.len() && self.s[self.pos + 1] == b'"' => {
                    self.pos += 1;
                    return Tok::CStr(self.name());
                }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.pos;
                    self.pos += 1;
                    while self.pos < self.s.len() {
                        let d = self.s[self.pos];
                        if d.is_ascii_alphanumeric()
                            || d == b'.'
                            || ((d == b'+' || d == b'-')
                                && matches!(self.s[self.pos - 1], b'e' | b'E'))
                        {
                            self.pos += 1;
                        } else {
                            break;
                        }
                    }
                    return Tok::Num(&self.src[st..self.pos]);
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                    if c == b'.' && self.s[self.pos..].starts_with(b"...") {
                        self.pos += 3;
                        return Tok::Word("...");
                    }
                    let st = self.pos;
                    while self.pos < self.s.len()
                        && (self.s[self.pos].is_ascii_alphanumeric()
                            || matches!(self.s[self.pos], b'_' | b'.' | b'-'))
                    {
                        self.pos += 1;
                    }
                    let w = &self.src[st..self.pos];
                    if w.len() > 3
                        && w.starts_with("f0x")
                        && w[3..].bytes().all(|b| b.is_ascii_hexdigit())
                    {
                        return Tok::Num(w);
                    }
                    return Tok::Word(w);
                }
                c => {
                    self.pos += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    pub fn to_eol(&mut self) {
        while self.pos < self.s.len() && self.s[self.pos] != b'\n' {
            self.pos += 1;
        }
    }
    pub fn label_name(&mut self) -> &'a str {
        self.name()
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.pos;
        let t = self.next();
        self.pos = p;
        t
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            let a = self.pos.saturating_sub(120);
            let b = (self.pos + 80).min(self.s.len());
            panic!("parse: expected {:?} got {:?} near {}", c as char, t, String::from_utf8_lossy(&self.s[a..b]));
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let p = self.pos;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.pos = p;
            false
        }
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let p = self.pos;
        if self.next() == Tok::Word(w) {
            true
        } else {
            self.pos = p;
            false
        }
    }
    pub fn skip_parens(&mut self) {
        // assumes next token is '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

#[derive(Debug, Clone)]
pub enum Cst {
    Int(u128),
    F64(u64),
    F32(u32),
    Null,
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    Splat(Box<(Ty, Cst)>),
}

pub struct Module {
    pub src: &'static str,
    pub types: HashMap<&'static str, &'static str>,
    pub globals: HashMap<&'static str, (usize, usize)>, // line range
    pub funcs: HashMap<&'static str, (usize, usize)>,   // byte range of definition
    pub decls: HashMap<&'static str, usize>,
    pub noreturn_groups: Vec<u32>,
    tycache: std::cell::RefCell<HashMap<&'static str, Ty>>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).unwrap().into_boxed_str());
        let mut m = Module {
            src,
            types: HashMap::new(),
            globals: HashMap::new(),
            funcs: HashMap::new(),
            decls: HashMap::new(),
            noreturn_groups: vec![],
            tycache: Default::default(),
        };
        let b = src.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = match b[p..].iter().position(|&c| c == b'\n') {
                Some(k) => p + k,
                None => b.len(),
            };
            match b[p..].first() {
                Some(b'@') => {
                    let mut lx = Lex::new(&src[p..e]);
                    if let Tok::Global(n) = lx.next() {
                        m.globals.insert(n, (p, e));
                    }
                    p = e + 1;
                }
                Some(b'%') => {
                    let mut lx = Lex::new(&src[p..e]);
                    if let Tok::Local(n) = lx.next() {
                        m.types.insert(n, &src[p..e]);
                    }
                    p = e + 1;
                }
                Some(b'd') if src[p..].starts_with("define ") => {
                    // until a line that is exactly "}"
                    let k = src[p..].find("\n}\n").map(|k| p + k + 2).unwrap_or(b.len());
                    let line = &src[p..e];
                    let at = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[at..]);
                    if let Tok::Global(n) = lx.next() {
                        m.funcs.insert(n, (p, k));
                    }
                    p = k + 1;
                }
                Some(b'd') if src[p..].starts_with("declare ") => {
                    let line = &src[p..e];
                    let at = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[at..]);
                    if let Tok::Global(n) = lx.next() {
                        m.decls.insert(n, p);
                    }
                    p = e + 1;
                }
                Some(b'a') if src[p..].starts_with("attributes #") => {
                    let line = &src[p..e];
                    let n: u32 = line[12..].split(' ').next().unwrap().parse().unwrap();
                    if line.contains(" noreturn") {
                        m.noreturn_groups.push(n);
                    }
                    p = e + 1;
                }
                _ => p = e + 1,
            }
        }
        m
    }

    pub fn parse_ty(&self, lx: &mut Lex) -> Ty {
        match lx.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(16),
                "x86_fp80" => Ty::FOther(128),
                "fp128" => Ty::FOther(128),
                "ptr" => {
                    if lx.eat_word("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "label" | "metadata" | "token" => Ty::Other,
                w if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                w => panic!("type word {}", w),
            },
            Tok::P(b'[') => {
                let n = num_u64(lx.next());
                assert_eq!(lx.next(), Tok::Word("x"));
                let t = self.parse_ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.parse_fields(lx);
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = num_u64(lx.next());
                    assert_eq!(lx.next(), Tok::Word("x"));
                    let t = self.parse_ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'{') => {
                let f = self.parse_fields(lx);
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => {
                if let Some(t) = self.tycache.borrow().get(n) {
                    return t.clone();
                }
                let line = self.types.get(n).unwrap_or_else(|| panic!("no type {}", n));
                let mut l2 = Lex::new(line);
                l2.next();
                l2.expect(b'=');
                assert_eq!(l2.next(), Tok::Word("type"));
                let t = if l2.peek() == Tok::Word("opaque") { Ty::Other } else { self.parse_ty(&mut l2) };
                let (k, _) = self.types.get_key_value(n).unwrap();
                self.tycache.borrow_mut().insert(k, t.clone());
                t
            }
            t => panic!("type token {:?}", t),
        }
    }
    fn parse_fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(b'}') {
            return v;
        }
        loop {
            v.push(self.parse_ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(b'}');
            return v;
        }
    }

    /// Parse a constant of type ty.
    pub fn parse_cst(&self, lx: &mut Lex, ty: &Ty) -> Cst {
        match lx.next() {
            Tok::Num(n) => match ty {
                Ty::F64 => Cst::F64(parse_f64(n)),
                Ty::F32 => Cst::F32(parse_f32(n)),
                Ty::Int(w) => Cst::Int(parse_int(n, *w)),
                Ty::FOther(_) => Cst::Undef,
                t => panic!("number of type {:?}", t),
            },
            Tok::Global(g) => Cst::Global(g.to_string()),
            Tok::CStr(s) => Cst::Bytes(unescape(s)),
            Tok::Word(w) => match w {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" => Cst::Null,
                "undef" | "poison" | "none" => Cst::Undef,
                "zeroinitializer" => Cst::Zero,
                "getelementptr" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                        if lx.peek() == Tok::P(b'(') {
                            // inrange(...) or start of operands: operands start with a type
                            break;
                        }
                    }
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    lx.expect(b',');
                    let pt = self.parse_ty(lx);
                    let base = self.parse_cst(lx, &pt);
                    let mut idx = vec![];
                    while lx.eat(b',') {
                        let it = self.parse_ty(lx);
                        let c = self.parse_cst(lx, &it);
                        idx.push((it, c));
                    }
                    lx.expect(b')');
                    Cst::Gep(t, Box::new(base), idx)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let c = self.parse_cst(lx, &t);
                    assert_eq!(lx.next(), Tok::Word("to"));
                    let t2 = self.parse_ty(lx);
                    lx.expect(b')');
                    Cst::Cast(w.to_string(), t, Box::new(c), t2)
                }
                "add" | "sub" | "xor" | "and" | "or" | "shl" | "mul" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let a = self.parse_cst(lx, &t);
                    lx.expect(b',');
                    let t2 = self.parse_ty(lx);
                    let b = self.parse_cst(lx, &t2);
                    lx.expect(b')');
                    Cst::Bin(w.to_string(), t, Box::new(a), Box::new(b))
                }
                "splat" => {
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let c = self.parse_cst(lx, &t);
                    lx.expect(b')');
                    Cst::Splat(Box::new((t, c)))
                }
                w => panic!("constant word {}", w),
            },
            Tok::P(b'[') => Cst::Agg(self.parse_cst_list(lx, b']')),
            Tok::P(b'{') => Cst::Agg(self.parse_cst_list(lx, b'}')),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.parse_cst_list(lx, b'}');
                    lx.expect(b'>');
                    Cst::Agg(v)
                } else {
                    Cst::Agg(self.parse_cst_list(lx, b'>'))
                }
            }
            t => panic!("constant token {:?}", t),
        }
    }
    fn parse_cst_list(&self, lx: &mut Lex, end: u8) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            let t = self.parse_ty(lx);
            let c = self.parse_cst(lx, &t);
            v.push((t, c));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(end);
            return v;
        }
    }

    /// (type, initializer or None when external, align)
    pub fn parse_global(&self, name: &str) -> Option<(Ty, Option<Cst>)> {
        let &(p, e) = self.globals.get(name)?;
        let mut lx = Lex::new(&self.src[p..e]);
        lx.next();
        lx.expect(b'=');
        let mut external = false;
        loop {
            match lx.next() {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::Word("external") => external = true,
                Tok::Word("alias") => {
                    // @a = alias T, ptr @b : treat as unsupported unless used
                    return None;
                }
                Tok::Word("thread_local") | Tok::Word("addrspace") => {
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Eof => return None,
                _ => {}
            }
        }
        let t = self.parse_ty(&mut lx);
        if external {
            return Some((t, None));
        }
        let c = self.parse_cst(&mut lx, &t);
        Some((t, Some(c)))
    }
}

pub fn num_u64(t: Tok) -> u64 {
    match t {
        Tok::Num(n) => n.parse().unwrap(),
        t => panic!("expected number, got {:?}", t),
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn parse_int(n: &str, w: u32) -> u128 {
    if let Some(h) = n.strip_prefix("u0x").or(n.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).unwrap() & mask(w);
    }
    let v = if n.starts_with('-') {
        n.parse::<i128>().unwrap() as u128
    } else {
        n.parse::<u128>().unwrap()
    };
    v & mask(w)
}

pub fn parse_f64(n: &str) -> u64 {
    if let Some(h) = n.strip_prefix("f0x").or(n.strip_prefix("0x")) {
        u64::from_str_radix(h, 16).unwrap()
    } else {
        match n {
            "+inf" => f64::INFINITY.to_bits(),
            "-inf" => f64::NEG_INFINITY.to_bits(),
            "+qnan" => f64::NAN.to_bits(),
            "-qnan" => (-f64::NAN).to_bits(),
            _ => n.parse::<f64>().unwrap_or_else(|_| panic!("float {}", n)).to_bits(),
        }
    }
}

pub fn parse_f32(n: &str) -> u32 {
    if let Some(h) = n.strip_prefix("f0x") {
        u32::from_str_radix(h, 16).unwrap()
    } else if let Some(h) = n.strip_prefix("0x") {
        (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits()
    } else {
        match n {
            "+inf" => f32::INFINITY.to_bits(),
            "-inf" => f32::NEG_INFINITY.to_bits(),
            "+qnan" => f32::NAN.to_bits(),
            _ => n.parse::<f32>().unwrap().to_bits(),
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}
