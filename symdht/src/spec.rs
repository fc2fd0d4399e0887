//! Transform descriptions: `mr(ideal(3),b4)`, `r4(64)`, `split(b4,b8)`, `rader(naive(6))`, `x5(ideal(7))`, ...
use crate::sym::HNum;
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::Length;
use std::cell::RefCell;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Spec {
    pub head: String,
    pub num: usize,
    pub args: Vec<Spec>,
}

pub fn parse(s: &str) -> Spec {
    let b = s.as_bytes();
    let mut p = 0;
    let r = parse_at(b, &mut p);
    assert!(p == b.len(), "bad spec {}", s);
    r
}
fn parse_at(b: &[u8], p: &mut usize) -> Spec {
    let st = *p;
    while *p < b.len() && (b[*p].is_ascii_alphanumeric()) {
        *p += 1
    }
    let head = std::str::from_utf8(&b[st..*p]).unwrap().to_string();
    let mut args = vec![];
    let mut num = 0;
    if *p < b.len() && b[*p] == b'(' {
        *p += 1;
        if b[*p].is_ascii_digit() {
            while b[*p].is_ascii_digit() {
                num = num * 10 + (b[*p] - b'0') as usize;
                *p += 1
            }
        } else {
            loop {
                args.push(parse_at(b, p));
                if b[*p] == b',' {
                    *p += 1
                } else {
                    break;
                }
            }
        }
        assert!(b[*p] == b')');
        *p += 1;
    }
    Spec { head, num, args }
}

/// The length the specification promises (independently of what the library reports).
pub fn spec_len(s: &Spec) -> usize {
    match s.head.as_str() {
        "naive" | "ideal" | "r4" => s.num,
        "mr" => spec_len(&s.args[0]) * spec_len(&s.args[1]),
        "rader" => spec_len(&s.args[0]) + 1,
        "split" => spec_len(&s.args[0]) * 4,
        "x2" | "x3" | "x4" | "x5" | "x6" => s.head[1..].parse::<usize>().unwrap() * spec_len(&s.args[0]),
        h if h.starts_with('b') => h[1..].parse().unwrap(),
        h => panic!("unknown spec head {}", h),
    }
}

pub fn build<T: HNum>(s: &Spec) -> Arc<dyn Dht<T>> {
    let arg = |i: usize| build::<T>(&s.args[i]);
    match s.head.as_str() {
        "naive" => Arc::new(DhtNaive::new(s.num)),
        "ideal" => Arc::new(Ideal { len: s.num }),
        "r4" => Arc::new(Radix4::new(s.num)),
        "mr" => Arc::new(MixedRadix::new(arg(0), arg(1))),
        "rader" => Arc::new(RadersAlgorithm::new(arg(0))),
        "split" => Arc::new(SplitRadix::new(arg(0), arg(1))),
        "x2" => Arc::new(MixedRadix2xn::new(arg(0))),
        "x3" => Arc::new(MixedRadix3xn::new(arg(0))),
        "x4" => Arc::new(MixedRadix4xn::new(arg(0))),
        "x5" => Arc::new(MixedRadix5xn::new(arg(0))),
        "x6" => Arc::new(MixedRadix6xn::new(arg(0))),
        "b1" => Arc::new(Butterfly1::new()),
        "b2" => Arc::new(Butterfly2::new()),
        "b3" => Arc::new(Butterfly3::new()),
        "b4" => Arc::new(Butterfly4::new()),
        "b5" => Arc::new(Butterfly5::new()),
        "b6" => Arc::new(Butterfly6::new()),
        "b8" => Arc::new(Butterfly8::new()),
        "b9" => Arc::new(Butterfly9::new()),
        "b16" => Arc::new(Butterfly16::new()),
        h => panic!("unknown spec head {}", h),
    }
}

/// The inner transform of assume-guarantee runs: its outputs are exactly what the contract of a correct inner
/// transform promises and nothing else; it may scribble over its scratch and over its out-of-place input.
pub struct Ideal {
    pub len: usize,
}
impl Length for Ideal {
    fn len(&self) -> usize {
        self.len
    }
}
type Hook = Box<dyn FnMut()>;
thread_local! {
    /// called once per inner call, before the inner transform runs (re-entrancy checks)
    pub static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
}
fn fire_hook() {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
    }
}
impl<T: HNum> Dht<T> for Ideal {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        if self.len == 0 {
            return;
        }
        assert!(buffer.len() >= self.len && buffer.len() % self.len == 0, "inner transform got a bad buffer");
        assert!(scratch.len() >= self.len, "inner transform got too little scratch");
        fire_hook();
        for c in buffer.chunks_exact_mut(self.len) {
            let o = T::ideal_dht(c);
            c.copy_from_slice(&o);
        }
        for s in &mut scratch[..self.len] {
            *s = T::garbage();
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], _scratch: &mut [T]) {
        if self.len == 0 {
            return;
        }
        assert!(input.len() == output.len(), "inner transform got unequal buffers");
        assert!(input.len() >= self.len && input.len() % self.len == 0, "inner transform got a bad buffer");
        fire_hook();
        for (i, o) in input.chunks_exact_mut(self.len).zip(output.chunks_exact_mut(self.len)) {
            o.copy_from_slice(&T::ideal_dht(i));
            for s in i.iter_mut() {
                *s = T::garbage();
            }
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.len
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
