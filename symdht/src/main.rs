//! Worker: reads job lines on stdin, answers one JSON line per job.
//! `symdht native FILE` replays a recorded counterexample on the native element type, without any symbolic machinery.
mod job;
mod nf;
mod smt;
mod spec;
mod sym;

use job::*;
use nf::{Ctx, Nf};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;
use sym::{cas_table, Arena, Cond, HNum, Node, Sym, ARENA};

const NGARBAGE: usize = 3;
const WDIRTY: f64 = (1u64 << 20) as f64;
const MAX_PATHS: usize = 96;

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

struct PathRun {
    arena: Arena,
    classes: Vec<Class>,
    outs: Vec<u32>,
    refs: Option<Vec<u32>>,
    panicked: Option<String>,
}

fn symbolic<const P: u8>(job: &Job, prefix: Vec<bool>) -> PathRun {
    sym::reset(prefix);
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        a.garbage = (0..NGARBAGE).map(|_| a.var()).collect();
    });
    let mut src: Source<Sym<P>> = Source::new(job.pool, Box::new(|_| Sym::var()));
    let r = catch_unwind(AssertUnwindSafe(|| exec::<Sym<P>>(job, &mut src)));
    spec::HOOK.with(|h| *h.borrow_mut() = None);
    let arena = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
    let (outs, refs, panicked) = match r {
        Ok(o) => (
            o.outs.iter().map(|s| s.0).collect(),
            o.refs.map(|r| r.iter().map(|s| s.0).collect()),
            None,
        ),
        Err(_) => (vec![], None, Some(PANIC.with(|p| p.borrow().clone()))),
    };
    PathRun { arena, classes: src.classes, outs, refs, panicked }
}

pub struct NativeOut {
    pub outs: Vec<f64>,
    pub refs: Option<Vec<f64>>,
    pub panicked: Option<String>,
}

/// runs the real library on the native element type
fn native<T: HNum>(job: &Job, vals: &[f64], garbage: &[f64]) -> NativeOut {
    sym::set_native_garbage(garbage.to_vec());
    let v = vals.to_vec();
    let mut src: Source<T> = Source::new(job.pool, Box::new(move |i| T::of(*v.get(i).unwrap_or(&0.5))));
    let r = catch_unwind(AssertUnwindSafe(|| exec::<T>(job, &mut src)));
    spec::HOOK.with(|h| *h.borrow_mut() = None);
    match r {
        Ok(o) => NativeOut {
            outs: o.outs.iter().map(|x| x.to()).collect(),
            refs: o.refs.map(|r| r.iter().map(|x| x.to()).collect()),
            panicked: None,
        },
        Err(_) => NativeOut { outs: vec![], refs: None, panicked: Some(PANIC.with(|p| p.borrow().clone())) },
    }
}
fn native_any(job: &Job, vals: &[f64], garbage: &[f64]) -> NativeOut {
    if job.prec == 32 {
        native::<f32>(job, vals, garbage)
    } else {
        native::<f64>(job, vals, garbage)
    }
}

/// what the outputs should be, for concrete inputs
fn reference(job: &Job, x: &[f64]) -> Vec<f64> {
    let n = job.n();
    if n == 0 {
        return vec![];
    }
    match job.kind.as_str() {
        "inv" => x.iter().map(|v| v * n as f64).collect(),
        _ => x.chunks(n).flat_map(|c| reference_dht(c)).collect(),
    }
}

/// Judges a native run: Some(description) if the claim is violated.
fn judge(job: &Job, vals: &[f64], o: &NativeOut) -> Option<(String, f64)> {
    if let Some(p) = &o.panicked {
        return Some((format!("panicked: {}", p), f64::INFINITY));
    }
    let total = job.n() * job.chunks;
    let x: Vec<f64> = (0..total).map(|i| if job.prec == 32 { vals[i] as f32 as f64 } else { vals[i] }).collect();
    let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let expect = match &o.refs {
        Some(r) => r.clone(),
        None => reference(job, &x),
    };
    if o.outs.len() != expect.len() {
        return Some(("wrong number of outputs".into(), f64::INFINITY));
    }
    let mut worst = (0usize, 0.0f64);
    for (k, (a, b)) in o.outs.iter().zip(&expect).enumerate() {
        let e = (a - b).abs();
        let e = if e.is_finite() { e } else { f64::INFINITY };
        if e > worst.1 {
            worst = (k, e)
        }
    }
    if worst.1 > job.tol() * m {
        return Some((
            format!(
                "output[{}] = {:e}, expected {:e}, |error| {:e} > allowed {:e}",
                worst.0,
                o.outs[worst.0],
                expect[worst.0],
                worst.1,
                job.tol() * m
            ),
            worst.1,
        ));
    }
    None
}

/// numeric value of the DAG in the machine arithmetic of the element type
fn eval_dag(a: &Arena, prec: u8, vars: &dyn Fn(u32) -> f64) -> Vec<f64> {
    let mut v = vec![0.0f64; a.nodes.len()];
    let mut gcache: HashMap<u32, Vec<f64>> = HashMap::new();
    let f32op = |op: u8, x: f64, y: f64| -> f64 {
        let (x, y) = (x as f32, y as f32);
        (match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        }) as f64
    };
    for i in 0..a.nodes.len() {
        v[i] = match a.nodes[i] {
            Node::Const(c) => c,
            Node::Var(k) => vars(k),
            Node::Neg(p) => -v[p as usize],
            Node::Add(p, q) if prec == 32 => f32op(0, v[p as usize], v[q as usize]),
            Node::Sub(p, q) if prec == 32 => f32op(1, v[p as usize], v[q as usize]),
            Node::Mul(p, q) if prec == 32 => f32op(2, v[p as usize], v[q as usize]),
            Node::Div(p, q) if prec == 32 => f32op(3, v[p as usize], v[q as usize]),
            Node::Add(p, q) => v[p as usize] + v[q as usize],
            Node::Sub(p, q) => v[p as usize] - v[q as usize],
            Node::Mul(p, q) => v[p as usize] * v[q as usize],
            Node::Div(p, q) => v[p as usize] / v[q as usize],
            Node::Ideal(g, k) => {
                let e = gcache.entry(g).or_insert_with(|| {
                    let x: Vec<f64> = a.groups[g as usize].iter().map(|i| v[*i as usize]).collect();
                    sym::direct_dht(&x)
                });
                let r = e[k as usize];
                if prec == 32 {
                    r as f32 as f64
                } else {
                    r
                }
            }
        }
    }
    v
}

#[derive(Default)]
struct Stats {
    queries: u64,
    solver_ms: f64,
    bytes: u64,
    nodes: u64,
    rounded: u64,
    vars: u64,
    paths: u64,
    outputs: u64,
    margin: f64,
    inner_calls: u64,
    validated: u64,
    truncated: bool,
}

enum Verdict {
    Holds,
    Violation { detail: String, vals: Vec<f64>, garbage: Vec<f64> },
    Inconclusive(String),
}

fn holds_decision(c: Cond, v: f64) -> bool {
    match c {
        Cond::EqZero => v == 0.0,
        Cond::GtZero => v > 0.0,
        Cond::LtZero => v < 0.0,
    }
}

struct Q<'a> {
    solver: &'a mut smt::Solver,
    st: &'a mut Stats,
}
impl<'a> Q<'a> {
    fn check(&mut self, text: &str) -> String {
        let t = Instant::now();
        let r = self.solver.answer(text);
        self.st.solver_ms += t.elapsed().as_secs_f64() * 1e3;
        self.st.queries += 1;
        r
    }
}

/// scaled linear form: integer coefficients over the basis, residual moved into the radius
struct Lin {
    c: Vec<(usize, i128)>,
    c0: i128,
    /// residual in units of M and absolute
    res: f64,
    res0: f64,
}
fn scale(c: &[f64], c0: f64, w: &[f64], k: i32) -> Lin {
    let s = 2f64.powi(k);
    let mut l = Lin { c: vec![], c0: 0, res: 0.0, res0: 0.0 };
    for (i, x) in c.iter().enumerate() {
        if *x == 0.0 {
            continue;
        }
        let y = x * s;
        let r = y.round();
        l.res += (y - r).abs() / s * w[i];
        if r != 0.0 {
            l.c.push((i, r as i128));
        }
    }
    let y = c0 * s;
    let r = y.round();
    l.res0 = (y - r).abs() / s;
    l.c0 = r as i128;
    l
}
fn num(i: i128) -> String {
    if i < 0 {
        format!("(- {})", -i)
    } else {
        format!("{}", i)
    }
}
fn lin_text(l: &Lin) -> String {
    let mut t: Vec<String> = l.c.iter().map(|(i, c)| if *c == 1 { format!("x{}", i) } else { format!("(* {} x{})", num(*c), i) }).collect();
    if l.c0 != 0 {
        t.push(num(l.c0));
    }
    match t.len() {
        0 => "0.0".into(),
        1 => t.pop().unwrap(),
        _ => format!("(+ {})", t.join(" ")),
    }
}
fn ceil_scaled(v: f64, k: i32) -> i128 {
    (v * 2f64.powi(k) * (1.0 + 1e-12)).ceil() as i128
}
fn floor_scaled(v: f64, k: i32) -> i128 {
    let y = v * 2f64.powi(k);
    (y - y.abs() * 1e-12).floor() as i128
}
fn pow2_decimal(e: u32) -> String {
    let mut d = vec![1u8];
    for _ in 0..e {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c)
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
fn rat(x: f64) -> String {
    // exact rational of a finite f64
    if x == 0.0 {
        return "0.0".into();
    }
    let bits = x.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let man = (bits & ((1 << 52) - 1)) | if exp == 0 { 0 } else { 1 << 52 };
    let mut e = if exp == 0 { -1074 } else { exp - 1075 };
    let mut m = man;
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    let s = if e >= 0 {
        format!("{}.0", (m as u128) << e.min(70))
    } else {
        format!("(/ {}.0 {}.0)", m, pow2_decimal((-e) as u32))
    };
    if x < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

fn run_job(job: &Job, solver: &mut smt::Solver, st: &mut Stats) -> Verdict {
    let mut todo: Vec<Vec<bool>> = vec![vec![]];
    let mut verdict = Verdict::Holds;
    while let Some(prefix) = todo.pop() {
        st.paths += 1;
        if st.paths as usize > MAX_PATHS {
            st.paths -= 1;
            st.truncated = true;
            break;
        }
        let plen = prefix.len();
        let run = if job.prec == 32 { symbolic::<32>(job, prefix) } else { symbolic::<64>(job, prefix) };
        let dec: Vec<bool> = run.arena.log.iter().map(|l| l.2).collect();
        for i in plen..dec.len() {
            let mut p = dec[..i].to_vec();
            p.push(true);
            todo.push(p);
        }
        if let Some(u) = &run.arena.unsupported {
            return Verdict::Inconclusive(u.clone());
        }
        match decide_path(job, &run, solver, st) {
            Verdict::Holds => {}
            v @ Verdict::Violation { .. } => return v,
            v => verdict = v,
        }
    }
    verdict
}

fn decide_path(job: &Job, run: &PathRun, solver: &mut smt::Solver, st: &mut Stats) -> Verdict {
    let a = &run.arena;
    let n = job.n();
    let total = n * job.chunks;
    st.nodes += a.nodes.len() as u64;
    st.inner_calls += a.inner_calls;
    if run.panicked.is_none() && run.outs.len() != total {
        return Verdict::Inconclusive("output count".into());
    }
    // ---- basis ----
    let sub = if job.sub > 0 { subspace(job) } else { vec![] };
    let nin = if job.sub > 0 { job.sub } else { total };
    let mut w: Vec<f64> = vec![1.0; nin];
    // arena var id -> basis coordinate(s); ids 0..NGARBAGE are garbage
    let gbase = nin;
    for _ in 0..NGARBAGE {
        w.push(WDIRTY)
    }
    let mut coord: Vec<usize> = vec![usize::MAX; run.classes.len()];
    for (i, c) in run.classes.iter().enumerate() {
        match c {
            Class::Input(j) => {
                if job.sub == 0 {
                    coord[i] = *j
                }
            }
            Class::Other => {
                coord[i] = w.len();
                w.push(1.0)
            }
            Class::Dirty => {
                coord[i] = w.len();
                w.push(WDIRTY)
            }
        }
    }
    let dim = w.len();
    st.vars = st.vars.max(dim as u64);
    let u = if job.prec == 32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
    let classes = &run.classes;
    let subr = &sub;
    let ctx = Ctx {
        arena: a,
        dim,
        w: w.clone(),
        varmap: Box::new(move |v| {
            let v = v as usize;
            if v < NGARBAGE {
                return vec![(gbase + v, 1.0)];
            }
            let i = v - NGARBAGE;
            match classes[i] {
                Class::Input(j) if !subr.is_empty() => subr.iter().enumerate().map(|(d, b)| (d, b[j])).collect(),
                _ => vec![(coord[i], 1.0)],
            }
        }),
        u,
    };
    let mut roots: Vec<u32> = run.outs.clone();
    if let Some(r) = &run.refs {
        roots.extend(r)
    }
    let path_nodes: Vec<u32> = a.log.iter().map(|l| l.1).collect();
    roots.extend(&path_nodes);
    let res = ctx.run(&roots);
    st.rounded += res.rounded_ops;

    // model (basis values) -> values of the source variables
    let expand = |b: &[f64]| -> (Vec<f64>, Vec<f64>) {
        let vals = (0..classes.len())
            .map(|i| (ctx.varmap)((i + NGARBAGE) as u32).iter().map(|(k, c)| b[*k] * c).sum::<f64>())
            .collect();
        (vals, b[gbase..gbase + NGARBAGE].to_vec())
    };

    let validate = |st: &mut Stats| -> Verdict {
    // ---- encoding validation: DAG and native library must agree exactly on a concrete input of this path ----
    {
        let mut rng = Rng(job.seed.wrapping_mul(77) ^ (total as u64) ^ 0x51);
        let b: Vec<f64> = (0..dim).map(|i| if i < nin || w[i] == 1.0 { rng.unit() } else { rng.unit() * 64.0 }).collect();
        let (vals, garb) = expand(&b);
        let rd = |x: f64| if job.prec == 32 { x as f32 as f64 } else { x };
        let dag = eval_dag(a, job.prec, &|v| {
            if (v as usize) < NGARBAGE {
                rd(garb[v as usize])
            } else {
                rd(vals[v as usize - NGARBAGE])
            }
        });
        let on_path = a.log.iter().all(|(c, id, d)| holds_decision(*c, dag[*id as usize]) == *d);
        if on_path {
            let nat = native_any(job, &vals, &garb);
            st.validated += 1;
            if let Some((d, _)) = judge(job, &vals, &nat) {
                return Verdict::Violation { detail: d, vals, garbage: garb };
            }
            for (k, o) in run.outs.iter().enumerate() {
                if dag[*o as usize] != nat.outs[k] {
                    return Verdict::Inconclusive(format!(
                        "the symbolic run and the {}-bit run disagree at output {}: {:e} vs {:e}",
                        job.prec, k, dag[*o as usize], nat.outs[k]
                    ));
                }
            }
            // stale NaN in scratch and output must not reach the result
            let vals2: Vec<f64> = vals.iter().enumerate().map(|(i, v)| if classes[i] == Class::Dirty { f64::NAN } else { *v }).collect();
            let nat2 = native_any(job, &vals2, &[f64::NAN; NGARBAGE]);
            if let Some((d, _)) = judge(job, &vals2, &nat2) {
                return Verdict::Violation { detail: format!("with NaN left in scratch/output: {}", d), vals: vals2, garbage: vec![f64::NAN; NGARBAGE] };
            }
        }
    }
        Verdict::Holds
    };

    // ---- solver context ----
    let k: i32 = if job.prec == 32 { if dim <= 96 { 40 } else { 30 } } else if dim <= 96 { 60 } else { 52 };
    let homogeneous = a.log.is_empty() && run.outs.iter().all(|o| res.nf[o].c0 == 0.0 && res.nf[o].r0 == 0.0);
    let mut pre = String::from("(reset)(set-option :timeout 30000)");
    let ssa = job.enc == "ssa" || res.nonlinear;
    pre.push_str(if res.nonlinear { "(set-logic QF_NRA)" } else { "(set-logic QF_LRA)" });
    pre.push_str("(declare-const M Real)");
    if homogeneous {
        pre.push_str("(assert (= M 1.0))");
    } else {
        pre.push_str("(assert (and (<= (/ 1.0 1048576.0) M) (<= M 1048576.0)))");
    }
    for i in 0..dim {
        pre.push_str(&format!("(declare-const x{} Real)", i));
        if w[i] == 1.0 {
            pre.push_str(&format!("(assert (and (<= x{0} M) (<= (- M) x{0})))", i));
        } else {
            pre.push_str(&format!("(assert (and (<= x{0} (* {1} M)) (<= (* (- {1}) M) x{0})))", i, w[i] as i64));
        }
    }
    // path condition, weakened by the rounding radius
    for (c, id, d) in &a.log {
        let f = &res.nf[id];
        let l = scale(&f.c, f.c0, &w, k);
        let (r, r0) = (ceil_scaled(f.r + l.res, k), ceil_scaled(f.r0 + l.res0, k));
        let t = lin_text(&l);
        let bound = format!("(+ (* {} M) {})", r, r0);
        let exact = r == 0 && r0 == 0;
        let s = match (c, *d) {
            (Cond::EqZero, true) => format!("(and (<= {0} {1}) (<= (- {1}) {0}))", t, bound),
            (Cond::EqZero, false) if exact => format!("(not (= {} 0.0))", t),
            (Cond::EqZero, false) => "true".into(),
            (Cond::GtZero, true) => format!("({} {} (- {}))", if exact { ">" } else { ">=" }, t, bound),
            (Cond::LtZero, true) => format!("({} {} {})", if exact { "<" } else { "<=" }, t, bound),
            (Cond::GtZero, false) => format!("(<= {} {})", t, bound),
            (Cond::LtZero, false) => format!("(>= {} (- {}))", t, bound),
        };
        pre.push_str(&format!("(assert {})", s));
    }
    let all_x: String = (0..dim).map(|i| format!("x{} ", i)).collect();
    let get = format!("(get-value ({}))\n", all_x);

    if let Some(p) = &run.panicked {
        // the call panicked on this path: any input of the path is a counterexample
        solver.send(&pre);
        let mut q = Q { solver, st };
        let mut r = q.check("(push)(assert (= M 1.0))(check-sat)\n");
        if r != "sat" {
            q.solver.send("(pop)");
            r = q.check("(check-sat)\n");
        }
        return match r.as_str() {
            "unsat" => Verdict::Holds,
            "sat" => {
                let b = smt::parse_values(&q.solver.sexpr(&get));
                let (vals, garb) = expand(&b);
                let nat = native_any(job, &vals, &garb);
                match judge(job, &vals, &nat) {
                    Some((d, _)) => Verdict::Violation { detail: d, vals, garbage: garb },
                    None => Verdict::Inconclusive(format!("symbolic run panicked ({}), native run did not", p)),
                }
            }
            _ => Verdict::Inconclusive(format!("solver: {}", r)),
        };
    }

    // ---- expected values ----
    let tol = job.tol();
    let exp: Option<Vec<Vec<f64>>> = if job.sub > 0 { Some(sub.iter().map(|b| reference(job, b)).collect()) } else { None };
    let tab = cas_table(n.max(1));
    let expected = |o: usize| -> (Vec<f64>, f64) {
        let mut e = vec![0.0; dim];
        let slack;
        if let Some(x) = &exp {
            for (d, r) in x.iter().enumerate() {
                e[d] = r[o];
            }
            slack = 1e-14 * n as f64 * job.sub as f64 * if job.kind == "inv" { n as f64 } else { 1.0 };
        } else {
            let (ch, kk) = (o / n, o % n);
            if job.kind == "inv" {
                e[o] = n as f64;
            } else {
                let mut idx = 0;
                for i in 0..n {
                    e[ch * n + i] = tab[idx];
                    idx += kk;
                    if idx >= n {
                        idx -= n
                    }
                }
            }
            slack = 4e-16 * n as f64;
        }
        (e, slack)
    };

    // ---- the claim, output by output ----
    st.outputs += run.outs.len() as u64;
    let mut worst_rows: Vec<(f64, usize)> = vec![];
    if !ssa {
        solver.send(&pre);
        let mut q = Q { solver, st };
        // one disjunctive query for batches of outputs
        let batch = (4096 / dim.max(1)).clamp(1, 64);
        let mut o = 0;
        while o < run.outs.len() {
            let hi = (o + batch).min(run.outs.len());
            let mut parts: Vec<String> = vec![];
            for k_out in o..hi {
                let f: &Nf = &res.nf[&run.outs[k_out]];
                let (e, mut r, mut c0, mut r0, slack);
                match &run.refs {
                    Some(rf) => {
                        let g = &res.nf[&rf[k_out]];
                        e = g.c.clone();
                        r = g.r;
                        c0 = f.c0 - g.c0;
                        r0 = g.r0;
                        slack = 0.0;
                    }
                    None => {
                        let (ee, s) = expected(k_out);
                        e = ee;
                        slack = s;
                        r = 0.0;
                        c0 = f.c0;
                        r0 = 0.0;
                    }
                }
                let diff: Vec<f64> = f.c.iter().zip(&e).map(|(a, b)| a - b).collect();
                let l = scale(&diff, c0, &w, k);
                c0 = 0.0;
                let _ = c0;
                r += f.r + slack + l.res;
                r0 += f.r0 + l.res0;
                let nrm: f64 = diff.iter().zip(&w).map(|(a, b)| a.abs() * b).sum();
                q.st.margin = q.st.margin.max((nrm + r + r0) / tol);
                worst_rows.push((nrm, k_out));
                let t = floor_scaled(tol - r, k);
                let t0 = -ceil_scaled(r0, k);
                let thr = if homogeneous { num(t) } else { format!("(+ (* {} M) {})", num(t), num(t0)) };
                let lt = lin_text(&l);
                parts.push(format!("(> {0} {1})", lt, thr));
                parts.push(format!("(< {0} (- {1}))", lt, thr));
            }
            let r = q.check(&format!("(set-option :timeout 2000)(push)(assert (or {}))(check-sat)\n", parts.join(" ")));
            q.solver.send("(set-option :timeout 30000)");
            if r == "sat" {
                let b0 = smt::parse_values(&q.solver.sexpr(&get));
                q.solver.send("(pop)");
                let v = refine(job, run, &res.nf, &expected, &w, k, &mut q, &get, &expand, &b0);
                return v;
            }
            q.solver.send("(pop)");
            if r != "unsat" {
                // undecided batch: decide its claims one by one (each is a single linear inequality over a box)
                for c in &parts {
                    let r = q.check(&format!("(push)(assert {})(check-sat)\n", c));
                    if r == "sat" {
                        let b0 = smt::parse_values(&q.solver.sexpr(&get));
                        q.solver.send("(pop)");
                        return refine(job, run, &res.nf, &expected, &w, k, &mut q, &get, &expand, &b0);
                    }
                    if r != "unsat" {
                        return Verdict::Inconclusive(format!("solver: {}", r));
                    }
                    q.solver.send("(pop)");
                }
            }
            o = hi;
        }
        return validate(q.st);
    }

    // ---- SSA encoding: one equation and one rounding-error variable per operation of the run ----
    let mark = nf::reachable(a, &roots);
    let mut t = pre;
    let rd = |x: f64| if x.is_finite() { rat(x * (1.0 + 1e-12)) } else { "1000000.0".into() };
    // magnitudes for the rounding errors (only meaningful for linear runs)
    let all: Vec<u32> = (0..a.nodes.len() as u32).filter(|i| mark[*i as usize]).collect();
    let full = if res.nonlinear { None } else { Some(ctx.run(&all)) };
    for &i in &all {
        let mut err = false;
        let e = match a.nodes[i as usize] {
            Node::Const(c) => rat(c),
            Node::Var(v) => {
                let m = (ctx.varmap)(v);
                let parts: Vec<String> = m.iter().map(|(k, c)| if *c == 1.0 { format!("x{}", k) } else { format!("(* {} x{})", rat(*c), k) }).collect();
                if parts.len() == 1 {
                    parts[0].clone()
                } else {
                    format!("(+ {})", parts.join(" "))
                }
            }
            Node::Add(p, q) => {
                err = true;
                format!("(+ n{} n{})", p, q)
            }
            Node::Sub(p, q) => {
                err = true;
                format!("(- n{} n{})", p, q)
            }
            Node::Mul(p, q) => {
                err = true;
                let s = |p: u32| match a.nodes[p as usize] {
                    Node::Const(c) => rat(c),
                    _ => format!("n{}", p),
                };
                format!("(* {} {})", s(p), s(q))
            }
            Node::Div(p, q) => {
                err = true;
                match a.nodes[q as usize] {
                    Node::Const(c) => format!("(/ n{} {})", p, rat(c)),
                    _ => format!("(/ n{} n{})", p, q),
                }
            }
            Node::Neg(p) => format!("(- n{})", p),
            Node::Ideal(g, kk) => {
                err = true;
                let grp = &a.groups[g as usize];
                let tb = cas_table(grp.len());
                let parts: Vec<String> = grp.iter().enumerate().map(|(i, s)| format!("(* {} n{})", rat(tb[i * kk as usize % grp.len()]), s)).collect();
                format!("(+ 0.0 {})", parts.join(" "))
            }
        };
        t.push_str(&format!("(declare-const n{} Real)", i));
        match (&full, err) {
            (Some(f), true) => {
                let f = &f.nf[&i];
                let h = if let Node::Ideal(g, _) = a.nodes[i as usize] { 8.0 * a.groups[g as usize].len() as f64 } else { 1.0 };
                let b = (f.n + f.c0.abs() + f.r + f.r0) * u * h;
                t.push_str(&format!("(declare-const e{0} Real)(assert (and (<= e{0} (* {1} M)) (<= (- (* {1} M)) e{0})))(assert (= n{0} (+ {2} e{0})))", i, rd(b), e));
            }
            _ => t.push_str(&format!("(assert (= n{} {}))", i, e)),
        }
    }
    solver.send(&t);
    let mut q = Q { solver, st };
    for (o, id) in run.outs.iter().enumerate() {
        let (want, slack) = match &run.refs {
            Some(r) => (format!("n{}", r[o]), 0.0),
            None => {
                let (e, s) = expected(o);
                let parts: Vec<String> = e.iter().enumerate().filter(|(_, c)| **c != 0.0).map(|(i, c)| format!("(* {} x{})", rat(*c), i)).collect();
                (format!("(+ 0.0 {})", parts.join(" ")), s)
            }
        };
        let thr = if res.nonlinear { tol } else { tol - slack };
        let cs = format!("(push)(assert (or (> (- n{0} {1}) (* {2} M)) (< (- n{0} {1}) (* {3} M))))(check-sat)\n", id, want, rat(thr), rat(-thr));
        let r = q.check(&cs);
        if r == "sat" {
            let b = smt::parse_values(&q.solver.sexpr(&get));
            let (vals, garb) = expand(&b);
            let nat = native_any(job, &vals, &garb);
            if let Some((d, _)) = judge(job, &vals, &nat) {
                return Verdict::Violation { detail: d, vals, garbage: garb };
            }
            if !res.nonlinear {
                q.solver.send("(pop)");
                return refine(job, run, &res.nf, &expected, &w, k, &mut q, &get, &expand, &b);
            }
            if let v @ Verdict::Violation { .. } = validate(q.st) {
                return v;
            }
            return Verdict::Inconclusive("counterexample of the SSA encoding does not replay".into());
        }
        if r != "unsat" {
            return Verdict::Inconclusive(format!("solver: {}", r));
        }
        q.solver.send("(pop)");
    }
    validate(q.st)
}

/// A satisfiable claim: ask the solver for inputs that break it by as large a factor as it can, and replay them.
#[allow(clippy::too_many_arguments)]
fn refine(
    job: &Job,
    run: &PathRun,
    nfs: &HashMap<u32, Nf>,
    expected: &dyn Fn(usize) -> (Vec<f64>, f64),
    w: &[f64],
    k: i32,
    q: &mut Q,
    get: &str,
    expand: &dyn Fn(&[f64]) -> (Vec<f64>, Vec<f64>),
    b0: &[f64],
) -> Verdict {
    // rank outputs by how far they can be off
    let mut rows: Vec<(f64, usize)> = (0..run.outs.len())
        .map(|o| {
            let f = &nfs[&run.outs[o]];
            let e = match &run.refs {
                Some(r) => nfs[&r[o]].c.clone(),
                None => expected(o).0,
            };
            let s: f64 = f.c.iter().zip(&e).zip(w).map(|((a, b), w)| (a - b).abs() * w).sum();
            (if s.is_finite() { s } else { f64::MAX }, o)
        })
        .collect();
    rows.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    for &(nrm, o) in rows.iter().take(3) {
        let f = &nfs[&run.outs[o]];
        let (e, c0) = match &run.refs {
            Some(r) => (nfs[&r[o]].c.clone(), f.c0 - nfs[&r[o]].c0),
            None => (expected(o).0, f.c0),
        };
        let diff: Vec<f64> = f.c.iter().zip(&e).map(|(a, b)| a - b).collect();
        let l = lin_text(&scale(&diff, c0, w, k));
        for frac in [0.9, 0.25, 0.05, 0.001] {
            let thr = floor_scaled(nrm * frac, k);
            for side in 0..2 {
                let cmp = if side == 0 { format!("(> {} (* {} M))", l, num(thr)) } else { format!("(< {} (* {} M))", l, num(-thr)) };
                let r = q.check(&format!("(push)(assert {})(check-sat)\n", cmp));
                let mut hit = None;
                if r == "sat" {
                    let b = smt::parse_values(&q.solver.sexpr(get));
                    let (vals, garb) = expand(&b);
                    let nat = native_any(job, &vals, &garb);
                    if let Some((d, _)) = judge(job, &vals, &nat) {
                        hit = Some(Verdict::Violation { detail: d, vals, garbage: garb });
                    }
                }
                q.solver.send("(pop)");
                if let Some(v) = hit {
                    return v;
                }
            }
        }
    }
    let (vals, garb) = expand(b0);
    let nat = native_any(job, &vals, &garb);
    match judge(job, &vals, &nat) {
        Some((d, _)) => Verdict::Violation { detail: d, vals, garbage: garb },
        None => Verdict::Inconclusive("the solver's counterexample does not replay on the native library".into()),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn jnum(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else if x.is_nan() {
        "\"nan\"".into()
    } else if x > 0.0 {
        "\"inf\"".into()
    } else {
        "\"-inf\"".into()
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let args: Vec<String> = std::env::args().collect();
    // big stacks: library recursion on large sizes
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || real_main(args)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main(args: Vec<String>) -> i32 {
    if args.len() >= 3 && args[1] == "native" {
        // file: first line job, second line garbage values, third line values (bit patterns, hex)
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let mut it = t.lines().filter(|l| !l.starts_with('#'));
        let job = Job::parse(it.next().unwrap());
        let hex = |l: &str| -> Vec<f64> { l.split_whitespace().map(|h| f64::from_bits(u64::from_str_radix(h, 16).unwrap())).collect() };
        let garb = hex(it.next().unwrap());
        let vals = hex(it.next().unwrap_or(""));
        let o = native_any(&job, &vals, &garb);
        return match judge(&job, &vals, &o) {
            Some((d, _)) => {
                println!("REPRODUCED {}", d);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    if args.len() >= 3 && args[1] == "random" {
        // native run of a job on a seeded input: used when the symbolic process died
        let job = Job::parse(&args[2]);
        let mut rng = Rng(job.seed ^ 99);
        let vals: Vec<f64> = (0..job.n() * job.chunks * 2 + 4096).map(|_| rng.unit()).collect();
        let o = native_any(&job, &vals, &[1.0]);
        return match judge(&job, &vals, &o) {
            Some((d, _)) => {
                println!("REPRODUCED {}", d);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    let solver_cmd = args.get(1).cloned().unwrap_or("z3-new -in".into());
    let mut solver = smt::Solver::new(&solver_cmd);
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let job = Job::parse(&line);
        let t = Instant::now();
        let mut st = Stats::default();
        let b0 = solver.bytes;
        let v = run_job(&job, &mut solver, &mut st);
        st.bytes = solver.bytes - b0;
        let (status, detail, extra) = match v {
            Verdict::Holds => ("holds", String::new(), String::new()),
            Verdict::Inconclusive(d) => ("inconclusive", d, String::new()),
            Verdict::Violation { detail, vals, garbage } => {
                let hex = |v: &[f64]| v.iter().map(|x| format!("\"{:016x}\"", x.to_bits())).collect::<Vec<_>>().join(",");
                ("violation", detail, format!(",\"garbage\":[{}],\"vals\":[{}]", hex(&garbage), hex(&vals)))
            }
        };
        if status == "inconclusive" {
            solver = smt::Solver::new(&solver_cmd);
        }
        let _ = writeln!(
            out,
            "{{\"job\":\"{}\",\"status\":\"{}\",\"detail\":\"{}\",\"n\":{},\"queries\":{},\"solver_ms\":{},\"smt_bytes\":{},\"nodes\":{},\"rounded\":{},\"vars\":{},\"paths\":{},\"outputs\":{},\"margin\":{},\"inner_calls\":{},\"validated\":{},\"truncated\":{},\"ms\":{}{}}}",
            esc(&job.text), status, esc(&detail), job.n(), st.queries, jnum(st.solver_ms), st.bytes, st.nodes, st.rounded, st.vars, st.paths,
            st.outputs, jnum(st.margin), st.inner_calls, st.validated, st.truncated, jnum(t.elapsed().as_secs_f64() * 1e3), extra
        );
        let _ = out.flush();
    }
    0
}
