//! A job = one symbolic run of the real library plus the claim to decide about it.
use crate::spec::{self, Spec};
use crate::sym::HNum;
use rustdht::Dht;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Job {
    pub text: String,
    pub spec: Spec,
    pub prec: u8,
    pub kind: String,
    pub entry: String,
    pub entry2: String,
    pub chunks: usize,
    pub extra: usize,
    pub sub: usize, // 0: every input is its own variable, D>0: inputs range over a D-dimensional subspace
    pub eps: f64,
    pub pw: i32,
    pub enc: String,
    pub pool: usize,
    pub seed: u64,
}

impl Job {
    pub fn parse(line: &str) -> Job {
        let mut j = Job {
            text: line.to_string(),
            spec: Spec { head: String::new(), num: 0, args: vec![] },
            prec: 64,
            kind: "dht".into(),
            entry: "p".into(),
            entry2: "p".into(),
            chunks: 1,
            extra: 0,
            sub: 0,
            eps: 1e-9,
            pw: 1,
            enc: "nf".into(),
            pool: 3,
            seed: 1,
        };
        for tok in line.split_whitespace() {
            let (k, v) = tok.split_once('=').expect("k=v");
            match k {
                "spec" => j.spec = spec::parse(v),
                "prec" => j.prec = v.parse().unwrap(),
                "kind" => j.kind = v.into(),
                "entry" => j.entry = v.into(),
                "entry2" => j.entry2 = v.into(),
                "chunks" => j.chunks = v.parse().unwrap(),
                "extra" => j.extra = v.parse().unwrap(),
                "sub" => j.sub = v.parse().unwrap(),
                "eps" => j.eps = v.parse().unwrap(),
                "pw" => j.pw = v.parse().unwrap(),
                "enc" => j.enc = v.into(),
                "pool" => j.pool = v.parse().unwrap(),
                "seed" => j.seed = v.parse().unwrap(),
                _ => panic!("unknown key {}", k),
            }
        }
        j
    }
    pub fn n(&self) -> usize {
        spec::spec_len(&self.spec)
    }
    pub fn tol(&self) -> f64 {
        self.eps * (self.n() as f64).powi(self.pw)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Input(usize),
    Other,
    Dirty,
}

/// Supplies values in a fixed order: symbolic variables, or the values of a model.
pub struct Source<T> {
    pub make: Box<dyn FnMut(usize) -> T>,
    pub classes: Vec<Class>,
    pub pool: usize,
    dirty_pool: Vec<T>,
    dirty_ctr: usize,
}
impl<T: HNum> Source<T> {
    pub fn new(pool: usize, make: Box<dyn FnMut(usize) -> T>) -> Self {
        Source { make, classes: vec![], pool, dirty_pool: vec![], dirty_ctr: 0 }
    }
    fn fresh(&mut self, c: Class) -> T {
        let i = self.classes.len();
        self.classes.push(c);
        (self.make)(i)
    }
    pub fn input(&mut self, i: usize) -> T {
        self.fresh(Class::Input(i))
    }
    pub fn other(&mut self) -> T {
        self.fresh(Class::Other)
    }
    pub fn dirty(&mut self) -> T {
        if self.dirty_pool.len() < self.pool {
            let v = self.fresh(Class::Dirty);
            self.dirty_pool.push(v);
            v
        } else {
            self.dirty_ctr += 1;
            self.dirty_pool[self.dirty_ctr % self.pool]
        }
    }
}

pub struct ExecOut<T> {
    pub outs: Vec<T>,
    pub refs: Option<Vec<T>>,
}

fn call<T: HNum>(d: &Arc<dyn Dht<T>>, entry: &str, x: &[T], extra: usize, src: &mut Source<T>) -> Vec<T> {
    match entry {
        "p" => {
            let mut b = x.to_vec();
            d.process(&mut b);
            b
        }
        "ip" => {
            let mut b = x.to_vec();
            let s = d.get_inplace_scratch_len() + extra;
            let mut scratch: Vec<T> = (0..s).map(|_| src.dirty()).collect();
            d.process_with_scratch(&mut b, &mut scratch);
            b
        }
        "oop" => {
            let mut b = x.to_vec();
            let s = d.get_outofplace_scratch_len() + extra;
            let mut scratch: Vec<T> = (0..s).map(|_| src.dirty()).collect();
            let mut out: Vec<T> = (0..x.len()).map(|_| src.dirty()).collect();
            d.process_outofplace_with_scratch(&mut b, &mut out, &mut scratch);
            out
        }
        e => panic!("bad entry {}", e),
    }
}

pub fn exec<T: HNum>(job: &Job, src: &mut Source<T>) -> ExecOut<T> {
    let n = job.n();
    let total = n * job.chunks;
    spec::HOOK.with(|h| *h.borrow_mut() = None);
    let x: Vec<T> = (0..total).map(|i| src.input(i)).collect();
    let d = spec::build::<T>(&job.spec);
    assert_eq!(d.len(), n, "transform reports the wrong length");
    match job.kind.as_str() {
        "dht" => ExecOut { outs: call(&d, &job.entry, &x, job.extra, src), refs: None },
        "agree" => {
            let r = call(&d, &job.entry2, &x, 0, src);
            let o = call(&d, &job.entry, &x, job.extra, src);
            ExecOut { outs: o, refs: Some(r) }
        }
        "hist" => {
            let y: Vec<T> = (0..total).map(|_| src.other()).collect();
            for e in ["p", "ip", "oop"] {
                call(&d, e, &y, 1, src);
            }
            // failed calls, from which the caller recovers
            let mut short: Vec<T> = y.clone();
            short.push(y[0]);
            let mut sc: Vec<T> = (0..d.get_inplace_scratch_len()).map(|_| src.dirty()).collect();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_with_scratch(&mut short, &mut sc)));
            let (mut i2, mut o2) = (y.clone(), y.clone());
            o2.push(y[0]);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                d.process_outofplace_with_scratch(&mut i2, &mut o2, &mut [])
            }));
            call(&d, "p", &y[..n], 0, src);
            ExecOut { outs: call(&d, &job.entry, &x, job.extra, src), refs: None }
        }
        "reent" => {
            let y: Vec<T> = (0..total).map(|_| src.other()).collect();
            let d2 = Arc::clone(&d);
            let mut turn = 0;
            let n_ip = d.get_inplace_scratch_len();
            let n_oop = d.get_outofplace_scratch_len();
            spec::HOOK.with(|h| {
                *h.borrow_mut() = Some(Box::new(move || {
                    turn += 1;
                    let mut b = y.clone();
                    if turn % 2 == 0 {
                        let mut s = vec![T::garbage(); n_ip];
                        d2.process_with_scratch(&mut b, &mut s);
                    } else {
                        let mut o = y.clone();
                        let mut s = vec![T::garbage(); n_oop];
                        d2.process_outofplace_with_scratch(&mut b, &mut o, &mut s);
                    }
                }))
            });
            let outs = call(&d, &job.entry, &x, job.extra, src);
            spec::HOOK.with(|h| *h.borrow_mut() = None);
            ExecOut { outs, refs: None }
        }
        "inv" => {
            let y = call(&d, &job.entry, &x, job.extra, src);
            ExecOut { outs: call(&d, &job.entry2, &y, job.extra, src), refs: None }
        }
        k => panic!("bad kind {}", k),
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        // multiples of 2^-20 in [-1,1]: exact in f32 and f64
        ((self.next() % (1 << 21)) as f64 - (1 << 20) as f64) / (1 << 20) as f64
    }
}

/// basis vectors of the input subspace: params[d][i] = coefficient of parameter d in input i
pub fn subspace(job: &Job) -> Vec<Vec<f64>> {
    let total = job.n() * job.chunks;
    let mut r = Rng(job.seed ^ 0xABCDEF ^ (total as u64) << 20);
    (0..job.sub)
        .map(|d| {
            if d % 3 == 2 {
                let mut v = vec![0.0; total];
                v[(r.next() % total as u64) as usize] = 1.0;
                v
            } else {
                (0..total).map(|_| r.unit()).collect()
            }
        })
        .collect()
}

/// exact-as-possible DHT for references: direct for short lengths, rustfft (independent of rustdht) for long ones
pub fn reference_dht(v: &[f64]) -> Vec<f64> {
    use rustfft::num_complex::Complex;
    if v.len() <= 2048 {
        return crate::sym::direct_dht(v);
    }
    let mut planner = rustfft::FftPlanner::<f64>::new();
    let f = planner.plan_fft_forward(v.len());
    let mut b: Vec<Complex<f64>> = v.iter().map(|x| Complex { re: *x, im: 0.0 }).collect();
    f.process(&mut b);
    b.iter().map(|c| c.re - c.im).collect()
}
