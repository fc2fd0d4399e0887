//! Normal forms: value = sum c_i*b_i + c0 + err, |b_i| <= w_i*M, |err| <= r*M + r0.
//! Every rounded operation of the element type contributes its worst case to err.
use crate::sym::{cas_table, Arena, Node};

#[derive(Clone, Debug)]
pub struct Nf {
    pub c: Vec<f64>,
    pub c0: f64,
    pub r: f64,
    pub r0: f64,
    /// magnitude bound of the exact part: |sum c_i b_i| <= n*M
    pub n: f64,
}

pub struct Ctx<'a> {
    pub arena: &'a Arena,
    pub dim: usize,
    pub w: Vec<f64>,
    /// var -> vector over the basis
    pub varmap: Box<dyn Fn(u32) -> Vec<(usize, f64)> + 'a>,
    pub u: f64,
}

pub struct NfResult {
    pub nf: std::collections::HashMap<u32, Nf>,
    pub rounded_ops: u64,
    pub nonlinear: bool,
}

const A: f64 = 1.0 / (1u64 << 52) as f64; // error of the analysis' own f64 arithmetic
const INF: f64 = 1.0 + 1e-9;

fn pow2(c: f64) -> bool {
    c == 0.0 || (c.to_bits() & ((1u64 << 52) - 1)) == 0
}

pub fn reachable(a: &Arena, roots: &[u32]) -> Vec<bool> {
    let mut mark = vec![false; a.nodes.len()];
    let mut st: Vec<u32> = vec![];
    for &r in roots {
        if !mark[r as usize] {
            mark[r as usize] = true;
            st.push(r)
        }
    }
    let mut gdone = vec![false; a.groups.len()];
    while let Some(x) = st.pop() {
        let go = |y: u32, st: &mut Vec<u32>, mark: &mut Vec<bool>| {
            if !mark[y as usize] {
                mark[y as usize] = true;
                st.push(y)
            }
        };
        match a.nodes[x as usize] {
            Node::Add(p, q) | Node::Sub(p, q) | Node::Mul(p, q) | Node::Div(p, q) => {
                go(p, &mut st, &mut mark);
                go(q, &mut st, &mut mark);
            }
            Node::Neg(p) => go(p, &mut st, &mut mark),
            Node::Ideal(g, _) => {
                if !gdone[g as usize] {
                    gdone[g as usize] = true;
                    for &i in &a.groups[g as usize] {
                        go(i, &mut st, &mut mark)
                    }
                }
            }
            _ => {}
        }
    }
    mark
}

impl<'a> Ctx<'a> {
    fn norm(&self, c: &[f64]) -> f64 {
        let mut s = 0.0;
        for (x, w) in c.iter().zip(&self.w) {
            s += x.abs() * w
        }
        s * INF
    }
    fn finish(&self, c: Vec<f64>, c0: f64, rin: f64, r0in: f64, rounded: bool) -> Nf {
        let n = self.norm(&c);
        let u = if rounded { self.u } else { 0.0 };
        Nf {
            r: (rin + (u + A) * (n + rin)) * INF,
            r0: (r0in + (u + A) * (c0.abs() + r0in)) * INF,
            c,
            c0,
            n,
        }
    }
    pub fn run(&self, roots: &[u32]) -> NfResult {
        let a = self.arena;
        let mark = reachable(a, roots);
        // use counts, to free vectors early
        let mut uses = vec![0u32; a.nodes.len()];
        let mut group_uses = vec![0u32; a.groups.len()];
        for (i, nd) in a.nodes.iter().enumerate() {
            if !mark[i] {
                continue;
            }
            match *nd {
                Node::Add(p, q) | Node::Sub(p, q) | Node::Mul(p, q) | Node::Div(p, q) => {
                    uses[p as usize] += 1;
                    uses[q as usize] += 1;
                }
                Node::Neg(p) => uses[p as usize] += 1,
                Node::Ideal(g, _) => {
                    if group_uses[g as usize] == 0 {
                        for &i in &a.groups[g as usize] {
                            uses[i as usize] += 1;
                        }
                    }
                    group_uses[g as usize] += 1;
                }
                _ => {}
            }
        }
        for &r in roots {
            uses[r as usize] += 1;
        }
        let mut val: std::collections::HashMap<u32, Nf> = Default::default();
        let mut tabs: std::collections::HashMap<usize, std::rc::Rc<Vec<f64>>> = Default::default();
        let mut rounded_ops = 0;
        let mut nonlinear = false;
        let zero = |s: &Self| vec![0.0; s.dim];
        for i in 0..a.nodes.len() {
            if !mark[i] {
                continue;
            }
            let release = |val: &mut std::collections::HashMap<u32, Nf>, uses: &mut Vec<u32>, p: u32| {
                uses[p as usize] -= 1;
                if uses[p as usize] == 0 {
                    val.remove(&p);
                }
            };
            let nf = match a.nodes[i] {
                Node::Const(c) => Nf { c: zero(self), c0: c, r: 0.0, r0: 0.0, n: 0.0 },
                Node::Var(v) => {
                    let mut c = zero(self);
                    for (k, x) in (self.varmap)(v) {
                        c[k] += x;
                    }
                    let n = self.norm(&c);
                    // inputs of a subspace are rounded to the element type once
                    let r = if c.iter().filter(|x| **x != 0.0).count() > 1 { self.u * n } else { 0.0 };
                    Nf { c, c0: 0.0, r, r0: 0.0, n }
                }
                Node::Add(p, q) | Node::Sub(p, q) => {
                    let sg = if let Node::Add(..) = a.nodes[i] { 1.0 } else { -1.0 };
                    let (x, y) = (&val[&p], &val[&q]);
                    let c: Vec<f64> = x.c.iter().zip(&y.c).map(|(s, t)| s + sg * t).collect();
                    let r = self.finish(c, x.c0 + sg * y.c0, x.r + y.r, x.r0 + y.r0, true);
                    rounded_ops += 1;
                    release(&mut val, &mut uses, p);
                    release(&mut val, &mut uses, q);
                    r
                }
                Node::Neg(p) => {
                    let x = &val[&p];
                    let r = Nf { c: x.c.iter().map(|s| -s).collect(), c0: -x.c0, ..*x };
                    release(&mut val, &mut uses, p);
                    r
                }
                Node::Mul(p, q) => {
                    let (k, s) = match (a.nodes[p as usize], a.nodes[q as usize]) {
                        (Node::Const(k), _) => (k, q),
                        (_, Node::Const(k)) => (k, p),
                        _ => {
                            nonlinear = true;
                            (0.0, p)
                        }
                    };
                    let x = &val[&s];
                    let rounded = !pow2(k);
                    if rounded {
                        rounded_ops += 1
                    }
                    let r = self.finish(x.c.iter().map(|t| t * k).collect(), x.c0 * k, x.r * k.abs(), x.r0 * k.abs(), rounded);
                    release(&mut val, &mut uses, p);
                    release(&mut val, &mut uses, q);
                    r
                }
                Node::Div(p, q) => {
                    let k = match a.nodes[q as usize] {
                        Node::Const(k) => k,
                        _ => {
                            nonlinear = true;
                            1.0
                        }
                    };
                    let x = &val[&p];
                    rounded_ops += 1;
                    let r = self.finish(x.c.iter().map(|t| t / k).collect(), x.c0 / k, x.r / k.abs(), x.r0 / k.abs(), true);
                    release(&mut val, &mut uses, p);
                    release(&mut val, &mut uses, q);
                    r
                }
                Node::Ideal(g, k) => {
                    let grp = &a.groups[g as usize];
                    let h = grp.len();
                    let tab = tabs.entry(h).or_insert_with(|| std::rc::Rc::new(cas_table(h))).clone();
                    // compensated sums: only the products' own rounding (and the table's) remains
                    let mut c = zero(self);
                    let mut comp = zero(self);
                    let (mut c0, mut r, mut r0, mut nn) = (0.0, 0.0, 0.0, 0.0);
                    let mut idx = 0usize;
                    for &s in grp {
                        let t = tab[idx];
                        let x = &val[&s];
                        if t != 0.0 {
                            for ((d, k), e) in c.iter_mut().zip(comp.iter_mut()).zip(&x.c) {
                                let p = t * e;
                                let s = *d + p;
                                let bb = s - *d;
                                *k += (*d - (s - bb)) + (p - bb);
                                *d = s;
                            }
                        }
                        c0 += t * x.c0;
                        r += t.abs() * x.r;
                        r0 += t.abs() * x.r0;
                        nn += (t.abs() + 1.0) * (x.n + x.c0.abs());
                        idx = (idx + k as usize) % h;
                    }
                    for (d, k) in c.iter_mut().zip(&comp) {
                        *d += k
                    }
                    // analysis error of the products and the table, plus the contract's own rounding (1 ulp of the result)
                    let mut f = self.finish(c, c0, r, r0, true);
                    f.r += 2.0 * A * nn;
                    f.r0 += A * (h as f64 + 2.0) * c0.abs();
                    group_uses[g as usize] -= 1;
                    if group_uses[g as usize] == 0 {
                        for s in grp.clone() {
                            release(&mut val, &mut uses, s);
                        }
                    }
                    f
                }
            };
            val.insert(i as u32, nf);
        }
        NfResult { nf: val, rounded_ops, nonlinear }
    }
}
