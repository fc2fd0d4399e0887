//! Native twin: the same harness, with concrete values for everything symbolic. Reads one case per line on stdin:
//!   <fn> <align> params... ; id=value ...
//! and runs it in this process (one case per process). Slices end (align=0) or start (align=1) at a guard page.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static PHASE: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static ALLOC_BYTES: AtomicUsize = AtomicUsize::new(0);
static ALIGN: AtomicUsize = AtomicUsize::new(0);

/// with IRH_RO=1 everything allocated before the call lives in an arena that is read-only while the call runs
static ARENA: AtomicUsize = AtomicUsize::new(0);
static ARENA_POS: AtomicUsize = AtomicUsize::new(0);
const ARENA_SIZE: usize = 256 << 20;

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let base = ARENA.load(SeqCst);
        if base != 0 && PHASE.load(SeqCst) == 0 {
            let pos = (ARENA_POS.load(SeqCst) + 63) / 64 * 64;
            if pos + l.size() <= ARENA_SIZE {
                ARENA_POS.store(pos + l.size(), SeqCst);
                return (base + pos) as *mut u8;
            }
        }
        if PHASE.load(SeqCst) == 1 {
            ALLOCS.fetch_add(1, SeqCst);
            ALLOC_BYTES.fetch_add(l.size(), SeqCst);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = ARENA.load(SeqCst);
        if base != 0 && (p as usize) >= base && (p as usize) < base + ARENA_SIZE {
            return;
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

static mut PARAMS: Vec<usize> = Vec::new();
static mut VALS: Option<HashMap<usize, usize>> = None;

#[no_mangle]
pub extern "C" fn sym_param(i: usize) -> usize {
    unsafe { (&*std::ptr::addr_of!(PARAMS)).get(i).copied().unwrap_or(0) }
}
#[no_mangle]
pub extern "C" fn sym_usize(id: usize) -> usize {
    unsafe { (&*std::ptr::addr_of!(VALS)).as_ref().unwrap().get(&id).copied().unwrap_or(0) }
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
#[no_mangle]
pub extern "C" fn sym_slice(_id: usize, len: usize) -> *mut f64 {
    let bytes = len * 8;
    let guard = 1usize << 20;
    let body = (bytes + 4095) / 4096 * 4096;
    unsafe {
        let p = mmap(std::ptr::null_mut(), body + 2 * guard, 3, 0x4022, -1, 0);
        if p as isize == -1 {
            println!("NOMEM");
            std::process::exit(9);
        }
        mprotect(p, guard, 0);
        mprotect(p.add(guard + body), guard, 0);
        let s = if ALIGN.load(SeqCst) == 0 { p.add(guard + body - bytes) } else { p.add(guard) } as *mut f64;
        for i in (0..len.min(1 << 16)).chain(len.max(1 << 17) - (1 << 16)..len) {
            *s.add(i) = (i % 17) as f64 - 8.0;
        }
        s
    }
}
#[no_mangle]
pub extern "C" fn sym_note(what: usize, a: usize, _b: usize) {
    if PHASE.load(SeqCst) != 1 {
        println!("NOTE {} {}", what, a);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(id: usize, cond: bool) {
    if !cond && std::env::var("IRH_NOASSERT").is_err() {
        PHASE.store(5, SeqCst);
        println!("ASSERT {}", id);
        std::process::exit(7);
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
static SNAP: AtomicUsize = AtomicUsize::new(0);

fn data_segment() -> &'static [u8] {
    unsafe {
        let a = std::ptr::addr_of!(__data_start) as usize;
        let b = std::ptr::addr_of!(_end) as usize;
        std::slice::from_raw_parts(a as *const u8, b - a)
    }
}

#[no_mangle]
pub extern "C" fn sym_phase(p: usize) {
    let ro = ARENA.load(SeqCst);
    if ro != 0 && p == 1 {
        let d = data_segment();
        unsafe {
            let s = mmap(std::ptr::null_mut(), d.len() + 4096, 3, 0x22, -1, 0);
            SNAP.store(s as usize, SeqCst);
            PHASE.store(p, SeqCst);
            std::ptr::copy_nonoverlapping(d.as_ptr(), s, d.len());
            mprotect(ro as *mut u8, ARENA_SIZE, 1);
        }
    }
    if ro != 0 && p == 2 {
        let d = data_segment();
        let s = SNAP.load(SeqCst) as *const u8;
        let mut diff = 0;
        unsafe {
            mprotect(ro as *mut u8, ARENA_SIZE, 3);
            for i in 0..d.len() {
                let at = d.as_ptr().add(i) as usize;
                let own = [&ALLOCS, &ALLOC_BYTES, &PHASE, &ARENA_POS, &SNAP].iter().any(|x| at >= *x as *const _ as usize && at < *x as *const _ as usize + 8);
                if !own && std::ptr::read_volatile(d.as_ptr().add(i)) != *s.add(i) {
                    diff += 1;
                }
            }
        }
        println!("STATICS-CHANGED {}", diff);
    }
    PHASE.store(p, SeqCst);
    if p == 2 {
        println!("ALLOCS {} {}", ALLOCS.load(SeqCst), ALLOC_BYTES.load(SeqCst));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let p = PHASE.swap(6, SeqCst);
        println!("PANIC phase={} {}", p, i.to_string().replace('\n', " "));
        // panics that only exist because of debug assertions inside unsafe code abort; ordinary ones exit
        let s = i.to_string();
        std::process::exit(if s.contains("unsafe precondition") { 6 } else { 101 });
    }));
    if std::env::var("IRH_RO").is_ok() {
        unsafe {
            ARENA.store(mmap(std::ptr::null_mut(), ARENA_SIZE, 3, 0x4022, -1, 0) as usize, SeqCst);
        }
    }
    ALIGN.store(a[2].parse().unwrap(), SeqCst);
    let mut it = a[3..].iter();
    let mut params = vec![];
    for x in it.by_ref() {
        if x == ";" {
            break;
        }
        params.push(x.parse().unwrap());
    }
    let mut vals = HashMap::new();
    for x in it {
        let (k, v) = x.split_once('=').unwrap();
        vals.insert(k.parse().unwrap(), v.parse().unwrap());
    }
    unsafe {
        PARAMS = params;
        VALS = Some(vals);
    }
    match a[1].as_str() {
        "h_new" => irh::h_new(),
        "h_call" => irh::h_call(),
        _ => panic!("unknown harness"),
    }
    PHASE.store(4, SeqCst);
    println!("RETURNED");
}
