//! komsym: symbolic execution of the LLVM IR of a harness, deciding every assertion with an SMT solver.
mod bc;
mod exec;
mod ll;
mod mem;
mod smt;
mod term;
use std::fmt::Write;
use smt::default_inputs;
use term::*;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
struct Cfg {
    ll: String,
    f: String,
    p: Vec<u64>,
    fp: Vec<f64>,
    secs: u64,
    seed: u64,
    samples: usize,
    prefix: String,
    solver: String,
    qms: u64,
    kmax: usize,
}
fn replay(c: &Cfg, ins: &[InVal]) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "fn {}", c.f);
    let _ = writeln!(s, "s {}", c.seed);
    for x in &c.p {
        let _ = writeln!(s, "p {}", x);
    }
    for x in &c.fp {
        let _ = writeln!(s, "f {:016x} {}", x.to_bits(), x);
    }
    for i in ins {
        let _ = match i {
            InVal::B(b) => writeln!(s, "i {:016x} bool {}", *b as u64, b),
            InVal::U(b) => writeln!(s, "i {:016x} int {}", b, b),
            InVal::F(b) => writeln!(s, "i {:016x} real {:e}", b.to_bits(), b),
        };
    }
    s
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
fn random_inputs(t: &Terms, r: &mut Rng) -> Vec<InVal> {
    t.inputs
        .iter()
        .map(|i| match i.kind {
            InKind::Bool => InVal::B(r.next() & 1 != 0),
            InKind::Byte => InVal::U(r.next() & 255),
            InKind::U(l, h) => InVal::U(if h - l == u64::MAX { r.next() } else { l + r.next() % (h - l + 1) }),
            InKind::F(l, h) => InVal::F((l + (h - l) * r.unit()).clamp(l, h)),
        })
        .collect()
}

fn run(c: Cfg) {
    let t0 = std::time::Instant::now();
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::load(&c.ll)));
    let load = t0.elapsed().as_secs_f64();
    let terms = Terms::new(c.kmax, smt::Solver::new(&c.solver, c.qms));
    let mut e = exec::Exec::new(m, terms, c.secs);
    e.t.solver.deadline = Some(e.deadline);
    e.params = c.p.clone();
    e.fparams = c.fp.clone();
    e.set_seed(0x2545F4914F6CDD1D ^ c.seed);
    if !m.funcs.contains_key(c.f.as_str()) {
        println!("{{\"error\":\"no function {}\"}}", esc(&c.f));
        return;
    }
    let st = exec::State { mem: mem::Mem::new(), gmem: mem::Mem::new(), pc: vec![] };
    let outs = e.call_fn(&c.f, vec![], st);
    if let Some(u) = e.t.unsupported.take() {
        if e.stop.is_none() {
            e.stop = Some(u);
        }
    }
    e.finish();
    let exec_t = t0.elapsed().as_secs_f64();
    // failures -> replay files
    let mut fails = String::new();
    for (k, f) in e.failures.iter().enumerate() {
        let ins = f.inputs.clone().unwrap_or_else(|| default_inputs(&e.t));
        let mut all = default_inputs(&e.t);
        for (i, v) in ins.into_iter().enumerate() {
            if i < all.len() {
                all[i] = v;
            }
        }
        let path = format!("{}.f{}", c.prefix, k);
        let _ = std::fs::write(&path, replay(&c, &all));
        let _ = write!(
            fails,
            "{}{{\"id\":\"{}\",\"kind\":\"{}\",\"replay\":\"{}\"}}",
            if k > 0 { "," } else { "" },
            esc(&f.id),
            f.kind,
            path
        );
    }
    // samples for differential validation
    let mut samples = String::new();
    let mut nobs = 0;
    if e.stop.is_none() {
        let mut r = Rng(c.seed);
        for k in 0..c.samples {
            let ins = random_inputs(&e.t, &mut r);
            let mut s = replay(&c, &ins);
            let mut a = Assign::new(ins);
            'o: for o in &e.obs {
                for p in &o.pc {
                    if e.t.eval_v(p, false, &mut a) & 1 == 0 {
                        continue 'o;
                    }
                }
                nobs += 1;
                let v = e.t.eval_v(&o.v, o.float, &mut a);
                let _ = writeln!(s, "o {:016x} {}", v, if o.float { "f" } else { "u" });
            }
            let path = format!("{}.s{}", c.prefix, k);
            let _ = std::fs::write(&path, s);
            let _ = write!(samples, "{}\"{}\"", if k > 0 { "," } else { "" }, path);
        }
    }
    // where no verdict was reached: inputs of the path the execution stopped on, for the real code to show what it does
    let mut tries = String::new();
    if e.stop.is_some() {
        let mut all = vec![];
        if let Some(pc) = e.stop_pc.take() {
            e.t.solver.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(20));
            if let (smt::Res::Sat, Some(m)) = smt::solve(&mut e.t, &pc, true) {
                let mut v = default_inputs(&e.t);
                let n = v.len();
                v[..n.min(m.len())].clone_from_slice(&m[..n.min(m.len())]);
                all.push(v);
            }
        }
        let mut r = Rng(c.seed);
        for _ in 0..2 {
            all.push(random_inputs(&e.t, &mut r));
        }
        for (k, v) in all.iter().enumerate() {
            let path = format!("{}.t{}", c.prefix, k);
            let _ = std::fs::write(&path, replay(&c, v));
            let _ = write!(tries, "{}\"{}\"", if k > 0 { "," } else { "" }, path);
        }
    }
    let mut called: Vec<&String> = e.called.iter().collect();
    called.sort();
    let called: Vec<String> = called.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    let inc: Vec<String> = e.inconclusive.iter().take(20).map(|x| format!("\"{}\"", esc(x))).collect();
    let reached: Vec<String> = e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let s = &e.t.solver;
    println!(
        "{{\"tries\":[{}],\"stop\":{},\"returned\":{},\"checks\":{},\"proved\":{},\"folded\":{},\"inconclusive\":[{}],\"n_inconclusive\":{},\"failures\":[{}],\"steps\":{},\"branches\":{},\"merges\":{},\"forks\":{},\"panics_expected\":{},\"inputs\":{},\"lemmas\":{},\"queries\":{},\"cached\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"reached\":{{{}}},\"samples\":[{}],\"observations\":{},\"load_s\":{:.2},\"exec_s\":{:.2},\"nodes\":{},\"atoms\":{},\"called\":[{}]}}",
        tries,
        match &e.stop { Some(x) => format!("\"{}\"", esc(x)), None => "null".into() },
        outs.len(), e.checks, e.proved, e.trivially, inc.join(","), e.inconclusive.len(), fails,
        e.steps, e.branches, e.merges, e.forks, e.panics_ok, e.t.inputs.len(), e.t.lemmas,
        s.queries, s.cached, s.unsat, s.sat, s.unknown, s.time, s.max_time,
        reached.join(","), samples, nobs, load, exec_t, e.t.nodes.len(), e.t.atoms.len(), called.join(",")
    );
}

fn main() {
    let mut c = Cfg {
        ll: String::new(), f: String::new(), p: vec![], fp: vec![], secs: 600, seed: 1, samples: 2,
        prefix: "/tmp/komsym".into(), solver: "z3-new".into(), qms: 20000, kmax: 10,
    };
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => c.ll = v,
            "--fn" => c.f = v,
            "--p" => c.p = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("p")).collect(),
            "--f" => c.fp = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("f")).collect(),
            "--secs" => c.secs = v.parse().unwrap(),
            "--seed" => c.seed = v.parse().unwrap(),
            "--samples" => c.samples = v.parse().unwrap(),
            "--out" => c.prefix = v,
            "--solver" => c.solver = v,
            "--qms" => c.qms = v.parse().unwrap(),
            "--kmax" => c.kmax = v.parse().unwrap(),
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    std::thread::Builder::new().stack_size(6 << 30).spawn(move || run(c)).unwrap().join().unwrap();
}
