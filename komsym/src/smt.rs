//! SMT-LIB encoding of the symbolic values and a pipe to the solver.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    Unsat,
    Sat,
    Unknown,
}

/// (deadline, process) of the query under way; a solver past its own limit is ended from outside
type Watch = std::sync::Arc<std::sync::Mutex<Option<(Instant, u32)>>>;

struct Proc {
    child: Child,
    si: ChildStdin,
    so: BufReader<ChildStdout>,
}

pub struct Solver {
    prog: String,
    timeout_ms: u64,
    set_ms: u64,
    pub deadline: Option<Instant>,
    proc_: Option<Proc>,
    pub queries: u64,
    pub cached: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    cache: HashMap<String, Res>,
    pub last_error: Option<String>,
    pub dump: Option<String>,
    watch: Watch,
    watched: bool,
}

impl Solver {
    pub fn new(prog: &str, timeout_ms: u64) -> Solver {
        let watch: Watch = Default::default();
        Solver {
            watch,
            watched: false,
            prog: prog.to_string(),
            timeout_ms,
            set_ms: 0,
            deadline: None,
            proc_: None,
            queries: 0,
            cached: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            cache: HashMap::new(),
            last_error: None,
            dump: std::env::var("KOMSYM_DUMP").ok(),
        }
    }
    fn start(&mut self) {
        if self.proc_.is_some() {
            return;
        }
        if !self.watched {
            self.watched = true;
            let w2 = self.watch.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                if let Ok(mut g) = w2.lock() {
                    if let Some((d, p)) = *g {
                        if Instant::now() > d {
                            let _ = Command::new("kill").args(["-9", &p.to_string()]).status();
                            *g = None;
                        }
                    }
                }
            });
        }
        let mut child = Command::new(&self.prog)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the solver");
        let mut si = child.stdin.take().unwrap();
        let so = BufReader::new(child.stdout.take().unwrap());
        writeln!(
            si,
            "(set-option :print-success false)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)",
            self.timeout_ms
        )
        .unwrap();
        self.set_ms = self.timeout_ms;
        self.proc_ = Some(Proc { child, si, so });
    }
    fn read_sexp(so: &mut BufReader<ChildStdout>) -> Option<String> {
        // one balanced s-expression or a word
        let mut out = String::new();
        let mut depth = 0i32;
        loop {
            let mut line = String::new();
            if so.read_line(&mut line).ok()? == 0 {
                return None;
            }
            for c in line.chars() {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            out.push_str(&line);
            if depth <= 0 && !out.trim().is_empty() {
                return Some(out.trim().to_string());
            }
        }
    }
    /// check the script; vars: expressions to evaluate in a model
    pub fn check(&mut self, script: &str, vars: Option<&[String]>) -> (Res, Vec<String>) {
        self.check_ms(script, vars, self.timeout_ms)
    }
    pub fn check_ms(&mut self, script: &str, vars: Option<&[String]>, ms: u64) -> (Res, Vec<String>) {
        if vars.is_none() {
            if let Some(r) = self.cache.get(script) {
                self.cached += 1;
                return (*r, vec![]);
            }
        }
        let mut ms = ms;
        if let Some(d) = self.deadline {
            let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
            if left == 0 {
                self.unknown += 1;
                return (Res::Unknown, vec![]);
            }
            ms = ms.min(left.max(100));
        }
        let mut tries = 0;
        loop {
            self.start();
            let t0 = Instant::now();
            self.queries += 1;
            let p = self.proc_.as_mut().unwrap();
            let limit = t0 + std::time::Duration::from_millis(ms * 3 / 2 + 2000);
            *self.watch.lock().unwrap() = Some((limit, p.child.id()));
            let mut ok = true;
            if self.set_ms != ms {
                ok = writeln!(p.si, "(set-option :timeout {})", ms).is_ok();
                self.set_ms = ms;
            }
            let ok = ok && p
                .si
                .write_all(b"(push)\n")
                .and_then(|_| p.si.write_all(script.as_bytes()))
                .and_then(|_| p.si.write_all(b"(check-sat)\n"))
                .and_then(|_| p.si.flush())
                .is_ok();
            let ans = if ok { Self::read_sexp(&mut p.so) } else { None };
            let late = self.watch.lock().unwrap().take().is_none();
            let res = match ans.as_deref() {
                Some("unsat") => Res::Unsat,
                Some("sat") => Res::Sat,
                Some("unknown") => Res::Unknown,
                other => {
                    self.last_error = Some(format!("solver answered {:?}", other));
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                    self.proc_ = None;
                    tries += 1;
                    if tries < 2 && other.is_none() && !late {
                        continue;
                    }
                    Res::Unknown
                }
            };
            let mut vals = vec![];
            if res == Res::Sat {
                if let (Some(vs), Some(p)) = (vars, self.proc_.as_mut()) {
                    if !vs.is_empty() {
                        let _ = write!(p.si, "(get-value (");
                        for v in vs {
                            let _ = write!(p.si, "{} ", v);
                        }
                        let _ = writeln!(p.si, "))");
                        let _ = p.si.flush();
                        if let Some(s) = Self::read_sexp(&mut p.so) {
                            vals = split_values(&s, vs.len());
                        }
                    }
                }
            }
            if let Some(p) = self.proc_.as_mut() {
                let _ = p.si.write_all(b"(pop)\n");
            }
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            if let Some(d) = &self.dump {
                if dt > 1.0 || d.ends_with("all") {
                    let _ = std::fs::write(format!("{}.{}.smt2", d, self.queries), format!("{}(check-sat)\n", script));
                }
            }
            match res {
                Res::Unsat => self.unsat += 1,
                Res::Sat => self.sat += 1,
                Res::Unknown => self.unknown += 1,
            }
            if res != Res::Unknown && script.len() < 20000 {
                self.cache.insert(script.to_string(), res);
            }
            return (res, vals);
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}

fn split_values(s: &str, n: usize) -> Vec<String> {
    // ((expr val) (expr val) ...)
    let toks = tokenize(s);
    let mut out = vec![];
    let mut i = 1;
    while out.len() < n && i < toks.len() {
        // "(" expr val ")"
        if toks[i] != "(" {
            break;
        }
        i += 1;
        i = skip(&toks, i);
        let st = i;
        i = skip(&toks, i);
        out.push(toks[st..i].join(" "));
        i += 1;
    }
    out
}
fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                v.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn skip(t: &[String], mut i: usize) -> usize {
    if i >= t.len() {
        return i;
    }
    if t[i] != "(" {
        return i + 1;
    }
    let mut d = 0;
    while i < t.len() {
        if t[i] == "(" {
            d += 1
        } else if t[i] == ")" {
            d -= 1;
            if d == 0 {
                return i + 1;
            }
        }
        i += 1;
    }
    i
}
fn value_f64(s: &str) -> f64 {
    let t = tokenize(s);
    fn ev(t: &[String], i: &mut usize) -> f64 {
        if *i >= t.len() {
            return 0.0;
        }
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].clone();
            *i += 1;
            let mut a = vec![];
            while *i < t.len() && t[*i] != ")" {
                a.push(ev(t, i));
            }
            *i += 1;
            match op.as_str() {
                "-" if a.len() == 1 => -a[0],
                "-" => a[0] - a[1],
                "/" => a[0] / a[1],
                "+" => a.iter().sum(),
                "*" => a.iter().product(),
                _ => 0.0,
            }
        } else {
            let s = t[*i].trim_end_matches('?');
            *i += 1;
            s.parse().unwrap_or(0.0)
        }
    }
    ev(&t, &mut 0)
}
fn value_i128(s: &str) -> i128 {
    let t = tokenize(s);
    if t.len() == 1 {
        t[0].parse().unwrap_or(0)
    } else if t.len() == 4 && t[1] == "-" {
        -t[2].parse::<i128>().unwrap_or(0)
    } else {
        0
    }
}

/// exact decimal/rational text of a double
pub fn rat(x: f64) -> String {
    if x == 0.0 {
        return "0.0".into();
    }
    let neg = x < 0.0;
    let b = x.abs().to_bits();
    let mut e = (b >> 52) as i64;
    let mut m = b & ((1 << 52) - 1);
    if e == 0 {
        e = 1;
    } else {
        m |= 1 << 52;
    }
    let mut k = e - 1075;
    while m & 1 == 0 {
        m >>= 1;
        k += 1;
    }
    let s = if k >= 0 {
        format!("(* {}.0 {}.0)", m, pow2(k as u32))
    } else {
        format!("(/ {}.0 {}.0)", m, pow2((-k) as u32))
    };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(k: u32) -> String {
    if k < 127 {
        return format!("{}", 1u128 << k);
    }
    // schoolbook doubling
    let mut d = vec![1u8];
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let y = *x * 2 + c;
            *x = y % 10;
            c = y / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
fn round_up_pow2(x: f64) -> f64 {
    // round up to 8 significant bits
    if x == 0.0 {
        return 0.0;
    }
    let b = x.to_bits();
    let mask = (1u64 << 44) - 1;
    if b & mask == 0 {
        x
    } else {
        f64::from_bits((b | mask) + 1)
    }
}
fn int_s(x: i128) -> String {
    if x < 0 {
        format!("(- {})", x.unsigned_abs())
    } else {
        format!("{}", x)
    }
}

pub struct Enc<'a> {
    t: &'a mut Terms,
    decl: String,
    body: String,
    names: HashMap<u32, usize>,
    nnames: HashMap<N, usize>,
    inv: HashMap<N, usize>,
    aq: Vec<u32>,
    nq: Vec<N>,
    ne: usize,
    free_atoms: bool,
    exact: bool,
    pub lossy: bool,
    ins: Vec<(u32, u32, String)>, // input index, bit, name
    trigs: HashMap<u32, (Option<N>, Option<N>)>,
}

impl<'a> Enc<'a> {
    pub fn new(t: &'a mut Terms, free_atoms: bool, exact: bool) -> Self {
        Enc {
            t,
            decl: String::new(),
            body: String::new(),
            names: HashMap::new(),
            nnames: HashMap::new(),
            inv: HashMap::new(),
            aq: vec![],
            nq: vec![],
            ne: 0,
            free_atoms,
            exact,
            lossy: false,
            ins: vec![],
            trigs: HashMap::new(),
        }
    }
    fn atom(&mut self, a: u32) -> String {
        if let Some(k) = self.names.get(&a) {
            return format!("a{}", k);
        }
        let k = self.names.len();
        self.names.insert(a, k);
        let _ = writeln!(self.decl, "(declare-const a{} Bool)", k);
        if let ADef::In(i, b) = self.t.atoms[a as usize] {
            self.ins.push((i, b, format!("a{}", k)));
        } else if !self.free_atoms {
            self.aq.push(a);
        }
        format!("a{}", k)
    }
    fn node(&mut self, n: N) -> String {
        if let Some(k) = self.nnames.get(&n) {
            return format!("n{}", k);
        }
        let k = self.nnames.len();
        self.nnames.insert(n, k);
        let info = self.t.nodes[n as usize].clone();
        if info.is_int {
            let _ = writeln!(self.decl, "(declare-const n{} Int)", k);
            let _ = writeln!(self.decl, "(assert (<= {} n{} {}))", int_s(info.ilo), k, int_s(info.ihi));
        } else {
            let _ = writeln!(self.decl, "(declare-const n{} Real)", k);
            let _ = writeln!(self.decl, "(assert (<= {} n{} {}))", rat(info.lo), k, rat(info.hi));
        }
        match info.k {
            K::RVar(i) | K::IVar(i) => self.ins.push((i, 0, format!("n{}", k))),
            _ => self.nq.push(n),
        }
        format!("n{}", k)
    }
    fn rnode(&mut self, n: N) -> String {
        let s = self.node(n);
        if self.t.nodes[n as usize].is_int {
            format!("(to_real {})", s)
        } else {
            s
        }
    }
    /// ite tree over the atoms of a table
    fn tree(&mut self, atoms: &[u32], leaves: &[String]) -> String {
        if leaves.iter().all(|l| *l == leaves[0]) {
            return leaves[0].clone();
        }
        let k = atoms.len() - 1;
        let h = leaves.len() / 2;
        let (lo, hi) = (&leaves[..h], &leaves[h..]);
        if lo == hi {
            return self.tree(&atoms[..k], lo);
        }
        let l = self.tree(&atoms[..k], lo);
        let r = self.tree(&atoms[..k], hi);
        let a = self.atom(atoms[k]);
        match (r.as_str(), l.as_str()) {
            ("true", "false") => a,
            ("false", "true") => format!("(not {})", a),
            _ => format!("(ite {} {} {})", a, r, l),
        }
    }
    pub fn boolv(&mut self, v: &V) -> String {
        match v {
            V::C(c) => (if c & 1 != 0 { "true" } else { "false" }).into(),
            V::T(t) => {
                let l: Vec<String> =
                    t.vals.iter().map(|x| (if x & 1 != 0 { "true" } else { "false" }).to_string()).collect();
                // sorted registration keeps the text canonical
                for &a in &t.atoms {
                    self.atom(a);
                }
                self.tree(&t.atoms, &l)
            }
            V::X(_) | V::N(_) => {
                let b = self.t.as_bool_tab(v);
                self.boolv(&b)
            }
            _ => "true".into(),
        }
    }
    fn tab(&mut self, id: u32) -> String {
        let v = self.t.tab_v(id);
        self.boolv(&v)
    }
    /// sum expression of a polynomial; returns (expr, error bound), scaled by a positive constant
    fn poly(&mut self, p: &Poly, scale_ok: bool) -> (String, f64, f64) {
        let mut err = p.err;
        let mx = p.t.iter().map(|x| x.1.abs()).fold(0.0, f64::max);
        let mut exact = self.exact || !scale_ok || mx == 0.0;
        if !exact && p.t.iter().any(|(m, _)| self.t.mono_absmax(m) > 1e5) {
            exact = true;
        }
        let mut scale = 1.0;
        if !exact {
            let e = mx.log2().floor() as i32;
            if e.abs() > 900 {
                exact = true;
            } else {
                scale = 2f64.powi(36 - e);
                err *= scale;
            }
        }
        let mut terms: Vec<String> = vec![];
        for (m, c) in &p.t {
            let mut fs = vec![];
            let base = Mono { tab: NOTAB, f: m.f.clone() };
            let babs = self.t.mono_absmax(&base);
            let mut q = |s: &mut Self, x: f64| -> String {
                if exact {
                    rat(x)
                } else {
                    let y = x * scale;
                    let r = y.round();
                    if r != y {
                        s.lossy = true;
                    }
                    let ri = r as i64;
                    if ri < 0 {
                        format!("(- {}.0)", -ri)
                    } else {
                        format!("{}.0", ri)
                    }
                }
            };
            if m.tab != NOTAB {
                let t = self.t.tabs[m.tab as usize].clone();
                let mut e: f64 = 0.0;
                let mut leaves = vec![];
                for &v in &t.vals {
                    let x = c * f64::from_bits(v);
                    leaves.push(q(self, x));
                    if !exact {
                        let y = x * scale;
                        e = e.max((y - y.round()).abs() + y.abs() * 2.3e-16);
                    } else {
                        e = e.max(x.abs() * 2.3e-16);
                    }
                }
                err += e * babs * 1.0001;
                for &a in &t.atoms {
                    self.atom(a);
                }
                fs.push(self.tree(&t.atoms, &leaves));
            } else {
                let s = q(self, *c);
                if !exact {
                    let y = c * scale;
                    err += (y - y.round()).abs() * babs * 1.0001;
                }
                fs.push(s);
            }
            for &(n, pw) in &m.f {
                let s = if pw > 0 {
                    self.rnode(n)
                } else {
                    let nn = self.inv_node(n);
                    nn
                };
                for _ in 0..pw.abs() {
                    fs.push(s.clone());
                }
            }
            terms.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        let s = match terms.len() {
            0 => "0.0".to_string(),
            1 => terms.pop().unwrap(),
            _ => format!("(+ {})", terms.join(" ")),
        };
        (s, err, scale)
    }
    fn inv_node(&mut self, n: N) -> String {
        let s = self.rnode(n);
        if let Some(k) = self.inv.get(&n) {
            return format!("i{}", k);
        }
        let k = self.inv.len();
        self.inv.insert(n, k);
        let info = self.t.nodes[n as usize].clone();
        let (a, b) = if info.is_int { (info.ilo as f64, info.ihi as f64) } else { (info.lo, info.hi) };
        let _ = writeln!(self.decl, "(declare-const i{} Real)", k);
        let _ = writeln!(self.body, "(assert (= (* i{} {}) 1.0))", k, s);
        if a > 0.0 || b < 0.0 {
            let (l, h) = (1.0 / b, 1.0 / a);
            let (l, h) = (l - l.abs() * 1e-15, h + h.abs() * 1e-15);
            let _ = writeln!(self.body, "(assert (<= {} i{} {}))", rat(l), k, rat(h));
        }
        format!("i{}", k)
    }
    fn with_err(&mut self, s: String, err: f64) -> String {
        if err == 0.0 {
            return s;
        }
        let k = self.ne;
        self.ne += 1;
        let e = rat(round_up_pow2(err));
        let _ = writeln!(self.decl, "(declare-const e{} Real)", k);
        let _ = writeln!(self.decl, "(assert (<= (- {}) e{} {}))", e, k, e);
        format!("(+ {} e{})", s, k)
    }
    pub fn rcmp(&mut self, p: Pred, d: &Poly) -> String {
        let (s, err, _) = self.poly(d, true);
        let s = self.with_err(s, err);
        let op = match p {
            Pred::Eq => return format!("(= {} 0.0)", s),
            Pred::Ne => return format!("(not (= {} 0.0))", s),
            Pred::Gt => ">",
            Pred::Ge => ">=",
            Pred::Lt => "<",
            Pred::Le => "<=",
        };
        format!("({} {} 0.0)", op, s)
    }
    fn drain(&mut self) {
        loop {
            if let Some(a) = self.aq.pop() {
                self.def_atom(a);
                continue;
            }
            if let Some(n) = self.nq.pop() {
                self.def_node(n);
                continue;
            }
            break;
        }
        // trig identities for atoms sharing an argument
        let pairs: Vec<(N, N)> = {
            let mut v: Vec<(u32, N, N)> =
                self.trigs.iter().filter_map(|(k, x)| Some((*k, x.0?, x.1?))).collect();
            v.sort();
            v.into_iter().map(|x| (x.1, x.2)).collect()
        };
        for (c, s) in pairs {
            let (c, s) = (self.node(c), self.node(s));
            let _ = writeln!(self.body, "(assert (= (+ (* {c} {c}) (* {s} {s})) 1.0))");
        }
    }
    fn def_atom(&mut self, a: u32) {
        let s = self.atom(a);
        let d = self.t.atoms[a as usize].clone();
        let e = match d {
            ADef::In(..) => return,
            ADef::XorD(fm) => {
                let mut parts = vec![];
                for &x in fm.iter() {
                    parts.push(self.atom(x));
                }
                format!("(xor {})", parts.join(" "))
            }
            ADef::RCmp(p, poly, _, _) => self.rcmp(p, &poly),
            ADef::ICmp(p, x, y) => {
                let (x, y) = (self.node(x), self.node(y));
                match p {
                    Pred::Eq => format!("(= {} {})", x, y),
                    Pred::Ne => format!("(not (= {} {}))", x, y),
                    Pred::Gt => format!("(> {} {})", x, y),
                    Pred::Ge => format!("(>= {} {})", x, y),
                    Pred::Lt => format!("(< {} {})", x, y),
                    Pred::Le => format!("(<= {} {})", x, y),
                }
            }
            ADef::And(x, y) => format!("(and {} {})", self.tab(x), self.tab(y)),
            ADef::Or(x, y) => format!("(or {} {})", self.tab(x), self.tab(y)),
            ADef::Xor2(x, y) => format!("(xor {} {})", self.tab(x), self.tab(y)),
            ADef::Ite(c, x, y) => format!("(ite {} {} {})", self.tab(c), self.tab(x), self.tab(y)),
        };
        let _ = writeln!(self.body, "(assert (= {} {}))", s, e);
    }
    fn pol(&mut self, n: N) -> String {
        let p = self.t.poly(n);
        let p = self.t.finalize(&p);
        let (s, err, _) = self.poly(&p, false);
        self.with_err(s, err)
    }
    fn def_node(&mut self, n: N) {
        let s = self.node(n);
        let info = self.t.nodes[n as usize].clone();
        let rnd = info.lo.abs().max(info.hi.abs()) * 1.2e-16;
        let e = match info.k {
            K::RVar(_) | K::IVar(_) => return,
            K::IC(c) => int_s(c),
            K::IT(t) => {
                let tb = self.t.tabs[t as usize].clone();
                let l: Vec<String> = tb.vals.iter().map(|x| format!("{}", x)).collect();
                for &a in &tb.atoms {
                    self.atom(a);
                }
                if tb.atoms.is_empty() {
                    l[0].clone()
                } else {
                    self.tree(&tb.atoms, &l)
                }
            }
            K::IAdd(a, b) => format!("(+ {} {})", self.node(a), self.node(b)),
            K::ISub(a, b) => format!("(- {} {})", self.node(a), self.node(b)),
            K::IMul(a, b) => format!("(* {} {})", self.node(a), self.node(b)),
            K::IDiv(a, b) => format!("(div {} {})", self.node(a), self.node(b)),
            K::IRem(a, b) => format!("(mod {} {})", self.node(a), self.node(b)),
            K::IIte(c, a, b) => format!("(ite {} {} {})", self.tab(c), self.node(a), self.node(b)),
            K::Trunc(a) => {
                let p = self.pol(a);
                let _ = writeln!(
                    self.body,
                    "(assert (ite (>= {p} 0.0) (and (<= (to_real {s}) {p}) (< {p} (+ (to_real {s}) 1.0))) (and (>= (to_real {s}) {p}) (> {p} (- (to_real {s}) 1.0)))))"
                );
                return;
            }
            K::Abs(a) => {
                let p = self.pol(a);
                let _ = writeln!(self.body, "(assert (or (= {s} {p}) (= {s} (- {p}))))");
                return;
            }
            K::Fun(Fun::Sqrt, a) => {
                let p = self.pol(a);
                let sq = self.with_err(format!("(* {s} {s})"), rnd * info.hi.abs() * 4.0);
                let _ = writeln!(self.body, "(assert (= {sq} {p}))");
                return;
            }
            K::Fun(Fun::Floor, a) => {
                let p = self.pol(a);
                let _ = writeln!(self.body, "(assert (and (is_int {s}) (<= {s} {p}) (< {p} (+ {s} 1.0))))");
                return;
            }
            K::Fun(Fun::Ceil, a) => {
                let p = self.pol(a);
                let _ = writeln!(self.body, "(assert (and (is_int {s}) (>= {s} {p}) (> {p} (- {s} 1.0))))");
                return;
            }
            K::Opaque(fu, pi) => {
                let e = self.trigs.entry(pi).or_insert((None, None));
                if fu == Fun::Cos {
                    e.0 = Some(n)
                } else {
                    e.1 = Some(n)
                }
                return;
            }
            K::Mul(a, b) => {
                let (x, y) = (self.pol(a), self.pol(b));
                let e = self.with_err(format!("(* {} {})", x, y), rnd);
                e
            }
            K::Div(a, b) => {
                let (x, y) = (self.pol(a), self.pol(b));
                let e = self.with_err(s.clone(), rnd);
                let _ = writeln!(self.body, "(assert (= (* {e} {y}) {x}))");
                return;
            }
            K::RIte(c, a, b) => {
                let (x, y) = (self.pol(a), self.pol(b));
                format!("(ite {} {} {})", self.tab(c), x, y)
            }
            K::Add(..) | K::Sub(..) | K::Neg(_) | K::RC(_) | K::RT(_) | K::FromI(_) => self.pol(n),
            // exp, log, raw bit patterns: only their range is known
            _ => return,
        };
        let _ = writeln!(self.body, "(assert (= {} {}))", s, e);
    }
    pub fn assert(&mut self, s: &str) {
        let _ = writeln!(self.body, "(assert {})", s);
    }
    pub fn finish(&mut self) -> String {
        self.drain();
        format!("{}{}", self.decl, self.body)
    }
}

/// For all values: (poly + e) pred 0  <=>  cand ?
pub fn lemma_rcmp(t: &mut Terms, p: Pred, d: &Rc<Poly>, cand: &V) -> bool {
    for exact in [false, true] {
        let mut e = Enc::new(t, true, exact);
        let c = e.rcmp(p, d);
        let v = e.boolv(cand);
        e.assert(&format!("(not (= {} {}))", c, v));
        let s = e.finish();
        let lossy = e.lossy;
        let (r, _) = t.solver.check(&s, None);
        match r {
            Res::Unsat => return true,
            _ if lossy => continue,
            _ => return false,
        }
    }
    false
}

/// Are the conditions jointly satisfiable?  With `model`, also return input values.
pub fn solve(t: &mut Terms, conds: &[V], model: bool) -> (Res, Option<Vec<InVal>>) {
    if conds.iter().any(|c| matches!(c, V::C(x) if x & 1 == 0)) {
        return (Res::Unsat, None);
    }
    let mut last = (Res::Unknown, None);
    for exact in [false, true] {
        let mut e = Enc::new(t, false, exact);
        for c in conds {
            if let V::C(_) = c {
                continue;
            }
            let s = e.boolv(c);
            e.assert(&s);
        }
        let s = e.finish();
        let lossy = e.lossy;
        let ins = std::mem::take(&mut e.ins);
        let vars: Vec<String> = ins.iter().map(|x| x.2.clone()).collect();
        let ask = |t: &mut Terms, s: &str, ms: u64| {
            if !model {
                (t.solver.check_ms(s, None, ms).0, None)
            } else {
                let (r, vals) = t.solver.check_ms(s, Some(&vars), ms);
                let m = if r == Res::Sat { Some(model_inputs(t, &ins, &vals)) } else { None };
                (r, m)
            }
        };
        let full = t.solver.timeout_ms;
        let short = full.min(4000);
        last = ask(t, &s, short);
        if last.0 == Res::Unknown && full > short {
            // look for a model among the inputs with some bits fixed, then at all inputs again
            for k in 0..3u64 {
                let mut x = 0x9e3779b97f4a7c15u64.wrapping_mul(k + 1);
                let mut f = s.clone();
                for (i, _, v) in &ins {
                    let i = &t.inputs[*i as usize];
                    if matches!(i.kind, InKind::Bool) && !t.marked.contains(&i.base) {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        let _ = if k > 0 && x & 1 != 0 { writeln!(f, "(assert {})", v) } else { writeln!(f, "(assert (not {}))", v) };
                    }
                }
                let r = ask(t, &f, short);
                if r.0 == Res::Sat {
                    last = r;
                    break;
                }
            }
            if last.0 == Res::Unknown {
                last = ask(t, &s, full);
            }
        }
        if last.0 == Res::Unsat || !lossy {
            return last;
        }
    }
    last
}
pub fn default_inputs(t: &Terms) -> Vec<InVal> {
    t.inputs
        .iter()
        .map(|i| match i.kind {
            InKind::Bool => InVal::B(false),
            InKind::Byte => InVal::U(0),
            InKind::U(l, _) => InVal::U(l),
            InKind::F(l, h) => InVal::F(if l == h { l } else if l <= 0.0 && h >= 0.0 { 0.0 } else { l }),
        })
        .collect()
}
fn model_inputs(t: &Terms, ins: &[(u32, u32, String)], vals: &[String]) -> Vec<InVal> {
    let mut v = default_inputs(t);
    for ((i, b, _), s) in ins.iter().zip(vals) {
        let i = *i as usize;
        match (&t.inputs[i].kind, &mut v[i]) {
            (InKind::Bool, x) => *x = InVal::B(s == "true"),
            (InKind::Byte, InVal::U(x)) => {
                if s == "true" {
                    *x |= 1 << b
                }
            }
            (InKind::U(..), x) => *x = InVal::U(value_i128(s) as u64),
            (InKind::F(l, h), x) => *x = InVal::F(value_f64(s).clamp(*l, *h)),
            _ => {}
        }
    }
    v
}
/// is there an assignment under which some pair of tables differs?
pub fn differ(t: &mut Terms, pairs: &[(V, V)]) -> (Res, Option<Vec<InVal>>) {
    let mut e = Enc::new(t, false, true);
    let mut ors = vec![];
    for (a, b) in pairs {
        let mut ex = |v: &V| match v {
            V::T(t) => {
                for &a in &t.atoms {
                    e.atom(a);
                }
                let l: Vec<String> = t.vals.iter().map(|x| x.to_string()).collect();
                e.tree_int(&t.atoms, &l)
            }
            V::C(c) => c.to_string(),
            _ => "0".to_string(),
        };
        let (x, y) = (ex(a), ex(b));
        ors.push(format!("(not (= {} {}))", x, y));
    }
    e.assert(&format!("(or false {})", ors.join(" ")));
    let s = e.finish();
    let ins = std::mem::take(&mut e.ins);
    let vars: Vec<String> = ins.iter().map(|x| x.2.clone()).collect();
    let (r, vals) = t.solver.check(&s, Some(&vars));
    let m = if r == Res::Sat { Some(model_inputs(t, &ins, &vals)) } else { None };
    (r, m)
}
impl<'a> Enc<'a> {
    fn tree_int(&mut self, atoms: &[u32], leaves: &[String]) -> String {
        if leaves.iter().all(|l| *l == leaves[0]) {
            return leaves[0].clone();
        }
        let k = atoms.len() - 1;
        let h = leaves.len() / 2;
        let l = self.tree_int(&atoms[..k], &leaves[..h]);
        let r = self.tree_int(&atoms[..k], &leaves[h..]);
        let a = self.atom(atoms[k]);
        format!("(ite {} {} {})", a, r, l)
    }
}
