//! Entry points for the IR executor. Everything that is symbolic comes in through the sym_* functions.
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::Length;
use std::sync::Arc;

extern "C" {
    /// i-th number of the concrete configuration
    fn sym_param(i: usize) -> usize;
    /// symbolic number
    fn sym_usize(id: usize) -> usize;
    /// slice of `len` elements with unknown contents (exactly that long: anything outside is out of bounds)
    fn sym_slice(id: usize, len: usize) -> *mut f64;
    fn sym_note(what: usize, a: usize, b: usize);
    fn sym_assert(id: usize, cond: bool);
    fn sym_phase(p: usize);
}

pub type D = Arc<dyn Dht<f64>>;

/// An inner transform with a symbolic appetite for scratch: it only checks what it is handed.
pub struct Probe {
    len: usize,
    ip: usize,
    oop: usize,
}
impl Length for Probe {
    fn len(&self) -> usize {
        self.len
    }
}
impl Dht<f64> for Probe {
    fn process_with_scratch(&self, buffer: &mut [f64], scratch: &mut [f64]) {
        unsafe {
            sym_assert(1, buffer.len() >= self.len && buffer.len() > 0);
            sym_assert(2, buffer.len() % self.len == 0);
            sym_assert(3, scratch.len() >= self.ip);
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [f64], output: &mut [f64], scratch: &mut [f64]) {
        unsafe {
            sym_assert(4, input.len() == output.len());
            sym_assert(5, input.len() >= self.len && input.len() > 0);
            sym_assert(6, input.len() % self.len == 0);
            sym_assert(7, scratch.len() >= self.oop);
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.ip
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.oop
    }
}

/// builds the transform described in postfix notation from parameter `pos` on
#[inline(never)]
fn build(pos: &mut usize) -> D {
    let mut st: Vec<D> = Vec::with_capacity(16);
    let mut probes = 0;
    loop {
        let op = unsafe { sym_param(*pos) };
        let num = unsafe { sym_param(*pos + 1) };
        *pos += 2;
        let d: D = match op {
            0 => return st.pop().unwrap(),
            1 => Arc::new(DhtNaive::new(num)),
            2 => match num {
                1 => Arc::new(Butterfly1::new()),
                2 => Arc::new(Butterfly2::new()),
                3 => Arc::new(Butterfly3::new()),
                4 => Arc::new(Butterfly4::new()),
                5 => Arc::new(Butterfly5::new()),
                6 => Arc::new(Butterfly6::new()),
                8 => Arc::new(Butterfly8::new()),
                9 => Arc::new(Butterfly9::new()),
                _ => Arc::new(Butterfly16::new()),
            },
            3 => Arc::new(Radix4::new(num)),
            4 => {
                let b = st.pop().unwrap();
                let a = st.pop().unwrap();
                Arc::new(MixedRadix::new(a, b))
            }
            5 => {
                let a = st.pop().unwrap();
                Arc::new(RadersAlgorithm::new(a))
            }
            6 => {
                let b = st.pop().unwrap();
                let a = st.pop().unwrap();
                Arc::new(SplitRadix::new(a, b))
            }
            7 => {
                let a = st.pop().unwrap();
                match num {
                    2 => Arc::new(MixedRadix2xn::new(a)),
                    3 => Arc::new(MixedRadix3xn::new(a)),
                    4 => Arc::new(MixedRadix4xn::new(a)),
                    5 => Arc::new(MixedRadix5xn::new(a)),
                    _ => Arc::new(MixedRadix6xn::new(a)),
                }
            }
            // probe of concrete length, symbolic scratch requirements 10+2k, 11+2k
            8 => {
                let k = probes;
                probes += 1;
                unsafe { Arc::new(Probe { len: num, ip: sym_usize(10 + 2 * k), oop: sym_usize(11 + 2 * k) }) }
            }
            // probe of symbolic length (variable `num`), no scratch requirements
            9 => unsafe { Arc::new(Probe { len: sym_usize(num), ip: 0, oop: 0 }) },
            // inner transform of concrete length without scratch requirements
            12 => Arc::new(Probe { len: num, ip: 0, oop: 0 }),
            // Radix4 / naive of symbolic length
            10 => unsafe { Arc::new(Radix4::new(sym_usize(num))) },
            _ => unsafe { Arc::new(DhtNaive::new(sym_usize(num))) },
        };
        st.push(d);
    }
}

/// constructs a transform, reports its length
#[no_mangle]
pub extern "C" fn h_new() {
    let mut pos = 0;
    let d = build(&mut pos);
    unsafe {
        sym_note(1, d.len(), 0);
        sym_phase(3);
    }
    std::mem::forget(d);
}

/// one call with symbolic buffer lengths. First parameter: entry point (0 process, 1 in-place, 2 out-of-place)
#[no_mangle]
pub extern "C" fn h_call() {
    let entry = unsafe { sym_param(0) };
    let mut pos = 1;
    let d = build(&mut pos);
    unsafe {
        sym_note(1, d.len(), 0);
        let req = match entry {
            0 => d.get_inplace_scratch_len(),
            1 => d.get_inplace_scratch_len(),
            _ => d.get_outofplace_scratch_len(),
        };
        sym_note(2, req, 0);
        let blen = sym_usize(0);
        let b = std::slice::from_raw_parts_mut(sym_slice(0, blen), blen);
        match entry {
            0 => {
                sym_phase(1);
                d.process(b);
            }
            1 => {
                let slen = sym_usize(1);
                let s = std::slice::from_raw_parts_mut(sym_slice(1, slen), slen);
                sym_phase(1);
                d.process_with_scratch(b, s);
            }
            _ => {
                let olen = sym_usize(2);
                let slen = sym_usize(1);
                let o = std::slice::from_raw_parts_mut(sym_slice(2, olen), olen);
                let s = std::slice::from_raw_parts_mut(sym_slice(1, slen), slen);
                sym_phase(1);
                d.process_outofplace_with_scratch(b, o, s);
            }
        }
        sym_phase(2);
    }
    std::mem::forget(d);
}
