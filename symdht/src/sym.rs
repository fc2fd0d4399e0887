//! A symbolic number. Instantiating the library with `Sym` executes the real, compiled library code symbolically:
//! every arithmetic operation on a symbolic value appends a node to a DAG, every operation on constants is folded with
//! the machine arithmetic of the element type it stands for (f32 or f64), and every question asked about a symbolic
//! value (==, is_zero, is_negative, ...) forks the path.
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::cell::RefCell;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

#[derive(Clone, Copy, Debug)]
pub enum Node {
    Const(f64),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    /// k-th output of the contract-only inner transform applied to group g
    Ideal(u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond {
    EqZero,
    GtZero,
    LtZero,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub groups: Vec<Vec<u32>>,
    pub nvars: u32,
    pub garbage: Vec<u32>,
    pub garbage_ctr: usize,
    pub prefix: Vec<bool>,
    pub log: Vec<(Cond, u32, bool)>,
    pub unsupported: Option<String>,
    pub inner_calls: u64,
}

pub const MAX_NODES: usize = 60_000_000;

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn reset(prefix: Vec<bool>) {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        *a = Arena::default();
        a.prefix = prefix;
        a.nodes.push(Node::Const(0.0));
        a.nodes.push(Node::Const(1.0));
    })
}

impl Arena {
    fn push(&mut self, n: Node) -> u32 {
        if self.nodes.len() >= MAX_NODES {
            self.unsupported = Some("expression DAG too large".into());
            panic!("SYMDHT-LIMIT");
        }
        self.nodes.push(n);
        (self.nodes.len() - 1) as u32
    }
    pub fn konst(&mut self, v: f64) -> u32 {
        if v == 0.0 {
            0
        } else if v == 1.0 {
            1
        } else {
            self.push(Node::Const(v))
        }
    }
    pub fn var(&mut self) -> u32 {
        let v = self.nvars;
        self.nvars += 1;
        self.push(Node::Var(v))
    }
    fn cval(&self, id: u32) -> Option<f64> {
        match self.nodes[id as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    fn decide(&mut self, c: Cond, id: u32) -> bool {
        if let Some(v) = self.cval(id) {
            return match c {
                Cond::EqZero => v == 0.0,
                Cond::GtZero => v > 0.0,
                Cond::LtZero => v < 0.0,
            };
        }
        for (c2, id2, d) in &self.log {
            if *c2 == c && *id2 == id {
                return *d;
            }
        }
        let pos = self.log.len();
        let d = if pos < self.prefix.len() { self.prefix[pos] } else { false };
        self.log.push((c, id, d));
        d
    }
}

#[derive(Clone, Copy)]
pub struct Sym<const P: u8>(pub u32);

impl<const P: u8> fmt::Debug for Sym<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Sym#{}", self.0)
    }
}

pub fn round_to<const P: u8>(v: f64) -> f64 {
    if P == 32 {
        (v as f32) as f64
    } else {
        v
    }
}

fn fold<const P: u8>(op: u8, a: f64, b: f64) -> f64 {
    if P == 32 {
        let (a, b) = (a as f32, b as f32);
        (match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            _ => a % b,
        }) as f64
    } else {
        match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            _ => a % b,
        }
    }
}

fn bin<const P: u8>(op: u8, x: u32, y: u32) -> u32 {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let (cx, cy) = (a.cval(x), a.cval(y));
        if let (Some(u), Some(v)) = (cx, cy) {
            let r = fold::<P>(op, u, v);
            return a.konst(r);
        }
        match op {
            0 => {
                if x == 0 {
                    return y;
                }
                if y == 0 {
                    return x;
                }
                a.push(Node::Add(x, y))
            }
            1 => {
                if y == 0 {
                    return x;
                }
                if x == 0 {
                    return a.push(Node::Neg(y));
                }
                a.push(Node::Sub(x, y))
            }
            2 => {
                // 0*x is kept: a zero coefficient still propagates NaN/inf of stale memory
                if x == 1 {
                    return y;
                }
                if y == 1 {
                    return x;
                }
                a.push(Node::Mul(x, y))
            }
            3 => {
                if y == 1 {
                    return x;
                }
                a.push(Node::Div(x, y))
            }
            _ => {
                a.unsupported = Some("remainder of a symbolic value".into());
                panic!("SYMDHT-UNSUPPORTED");
            }
        }
    })
}

impl<const P: u8> Sym<P> {
    pub fn konst(v: f64) -> Self {
        let v = round_to::<P>(v);
        Sym(ARENA.with(|a| a.borrow_mut().konst(v)))
    }
    pub fn var() -> Self {
        Sym(ARENA.with(|a| a.borrow_mut().var()))
    }
    fn decide(c: Cond, id: u32) -> bool {
        ARENA.with(|a| a.borrow_mut().decide(c, id))
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $op:expr) => {
        impl<const P: u8> $tr for Sym<P> {
            type Output = Self;
            fn $m(self, o: Self) -> Self {
                Sym(bin::<P>($op, self.0, o.0))
            }
        }
    };
}
binop!(Add, add, 0);
binop!(Sub, sub, 1);
binop!(Mul, mul, 2);
binop!(Div, div, 3);
binop!(Rem, rem, 4);

impl<const P: u8> Neg for Sym<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Sym(ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            match a.nodes[self.0 as usize] {
                Node::Const(c) => a.konst(-c),
                Node::Neg(x) => x,
                _ => a.push(Node::Neg(self.0)),
            }
        }))
    }
}
impl<const P: u8> PartialEq for Sym<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        let d = *self - *o;
        Self::decide(Cond::EqZero, d.0)
    }
}
impl<const P: u8> Zero for Sym<P> {
    fn zero() -> Self {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        Self::decide(Cond::EqZero, self.0)
    }
}
impl<const P: u8> One for Sym<P> {
    fn one() -> Self {
        Sym(1)
    }
}
impl<const P: u8> Num for Sym<P> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const P: u8> Signed for Sym<P> {
    fn abs(&self) -> Self {
        if Self::decide(Cond::LtZero, self.0) {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        let d = *self - *o;
        if Self::decide(Cond::GtZero, d.0) {
            d
        } else {
            Sym(0)
        }
    }
    fn signum(&self) -> Self {
        if Self::decide(Cond::LtZero, self.0) {
            Self::konst(-1.0)
        } else {
            Sym(1)
        }
    }
    fn is_positive(&self) -> bool {
        Self::decide(Cond::GtZero, self.0)
    }
    fn is_negative(&self) -> bool {
        Self::decide(Cond::LtZero, self.0)
    }
}
impl<const P: u8> FromPrimitive for Sym<P> {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Self::konst(if P == 32 { (n as f32) as f64 } else { n as f64 }))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Self::konst(if P == 32 { (n as f32) as f64 } else { n as f64 }))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Some(Self::konst(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Self::konst(n))
    }
}

/// What the harness needs from an element type (symbolic or native).
pub trait HNum: rustfft::FftNum {
    /// The contract of a correct inner transform: outputs = exact DHT of inputs.
    fn ideal_dht(inp: &[Self]) -> Vec<Self>;
    /// What a legal inner transform may leave behind in scratch (and in its out-of-place input).
    fn garbage() -> Self;
    fn of(v: f64) -> Self;
    fn to(self) -> f64;
}

thread_local! {
    /// native counterpart of the symbolic garbage variables
    pub static GARBAGE: RefCell<(Vec<f64>, usize)> = RefCell::new((vec![-7.25e5], 0));
}
pub fn set_native_garbage(v: Vec<f64>) {
    GARBAGE.with(|g| *g.borrow_mut() = (v, 0));
}
fn native_garbage() -> f64 {
    GARBAGE.with(|g| {
        let g = &mut *g.borrow_mut();
        g.1 += 1;
        g.0[g.1 % g.0.len()]
    })
}

pub fn cas(n: usize, len: usize) -> f64 {
    // cos(t)+sin(t), t = 2*pi*n/len, after exact octant reduction of the index
    let n = n % len;
    let (c, s) = cos_sin(n, len);
    c + s
}
pub fn cos_sin(n: usize, len: usize) -> (f64, f64) {
    // exact quadrant/octant reduction: t = 2*pi*n/len ; work with 8n vs len
    let n8 = 8 * n as u128;
    let l = len as u128;
    let oct = (n8 / l) as u32; // 0..7
    // angle within [0, pi/4] measured from nearest multiple of pi/2
    let pi2 = std::f64::consts::PI * 2.0;
    let f = |num: i128| -> f64 { pi2 * (num as f64) / (len as f64) };
    let n = n as i128;
    let li = len as i128;
    // helper: 4n - q*len over 4len
    let g = |q: i128| -> f64 { f(4 * n - q * li) / 4.0 };
    match oct {
        0 => (f(n).cos(), f(n).sin()),
        1 | 2 => {
            let t = g(1);
            (-t.sin(), t.cos())
        }
        3 | 4 => {
            let t = g(2);
            (-t.cos(), -t.sin())
        }
        5 | 6 => {
            let t = g(3);
            (t.sin(), -t.cos())
        }
        _ => {
            let t = g(4);
            (t.cos(), t.sin())
        }
    }
}

pub fn cas_table(len: usize) -> Vec<f64> {
    (0..len).map(|i| cas(i, len)).collect()
}

impl<const P: u8> HNum for Sym<P> {
    fn ideal_dht(inp: &[Self]) -> Vec<Self> {
        let n = inp.len();
        let consts: Option<Vec<f64>> = ARENA.with(|a| {
            let a = a.borrow();
            inp.iter().map(|s| a.cval(s.0)).collect()
        });
        if let Some(v) = consts {
            return direct_dht(&v).into_iter().map(|x| Sym::konst(x)).collect();
        }
        ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            a.inner_calls += 1;
            a.groups.push(inp.iter().map(|s| s.0).collect());
            let g = (a.groups.len() - 1) as u32;
            (0..n).map(|k| Sym(a.push(Node::Ideal(g, k as u32)))).collect()
        })
    }
    fn garbage() -> Self {
        ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            if a.garbage.is_empty() {
                return Sym(0);
            }
            a.garbage_ctr += 1;
            Sym(a.garbage[a.garbage_ctr % a.garbage.len()])
        })
    }
    fn of(v: f64) -> Self {
        Self::konst(v)
    }
    fn to(self) -> f64 {
        f64::NAN
    }
}

pub fn direct_dht(v: &[f64]) -> Vec<f64> {
    let n = v.len();
    let tab = cas_table(n);
    (0..n)
        .map(|k| {
            let mut idx = 0;
            let (mut s, mut comp) = (0.0f64, 0.0f64);
            for x in v {
                // compensated product sum
                let p = x * tab[idx];
                let t = s + p;
                comp += if s.abs() >= p.abs() { (s - t) + p } else { (p - t) + s };
                s = t;
                idx += k;
                if idx >= n {
                    idx -= n
                }
            }
            s + comp
        })
        .collect()
}

impl HNum for f64 {
    fn ideal_dht(inp: &[f64]) -> Vec<f64> {
        direct_dht(inp)
    }
    fn garbage() -> f64 {
        native_garbage()
    }
    fn of(v: f64) -> f64 {
        v
    }
    fn to(self) -> f64 {
        self
    }
}
impl HNum for f32 {
    fn ideal_dht(inp: &[f32]) -> Vec<f32> {
        let v: Vec<f64> = inp.iter().map(|x| *x as f64).collect();
        direct_dht(&v).into_iter().map(|x| x as f32).collect()
    }
    fn garbage() -> f32 {
        native_garbage() as f32
    }
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}
