//! Symbolic inputs.  Under the symbolic executor (cfg symex) every draw is an
//! unconstrained value; natively the draws return the recorded values of a
//! counterexample.

#[cfg(symex)]
mod imp {
    extern "C" {
        fn sx_draw(bits: u32) -> u64;
        fn sx_assume(c: bool);
        fn sx_witness(p: *const u8, n: usize);
        fn sx_fail(p: *const u8, n: usize) -> !;
        fn sx_heap_limit(n: usize);
        fn sx_shard(n: u64) -> u64;
    }
    pub fn u8() -> u8 {
        unsafe { sx_draw(8) as u8 }
    }
    pub fn u16() -> u16 {
        unsafe { sx_draw(16) as u16 }
    }
    pub fn u32() -> u32 {
        unsafe { sx_draw(32) as u32 }
    }
    pub fn u64() -> u64 {
        unsafe { sx_draw(64) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    /// One of `0..n`, explored as separate runs.
    pub fn pick(n: usize) -> usize {
        unsafe { sx_shard(n as u64) as usize }
    }
    pub fn reach(m: &str) {
        unsafe { sx_witness(m.as_ptr(), m.len()) }
    }
    #[inline(never)]
    #[cold]
    pub fn fail(m: &str) -> ! {
        unsafe { sx_fail(m.as_ptr(), m.len()) }
    }
    /// From here on more than `n` further octets on the heap are a violation.
    pub fn heap_limit(n: usize) {
        unsafe { sx_heap_limit(n) }
    }
}

#[cfg(not(symex))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local!(pub static QUEUE: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new()));

    /// Panic payload for an input outside the assumptions of a harness.
    pub struct AssumptionViolated;

    pub fn load(values: Vec<u64>) {
        QUEUE.with(|q| *q.borrow_mut() = values.into())
    }
    fn next() -> u64 {
        QUEUE.with(|q| q.borrow_mut().pop_front().unwrap_or(0))
    }
    pub fn u8() -> u8 {
        next() as u8
    }
    pub fn u16() -> u16 {
        next() as u16
    }
    pub fn u32() -> u32 {
        next() as u32
    }
    pub fn u64() -> u64 {
        next()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumptionViolated)
        }
    }
    pub fn pick(n: usize) -> usize {
        let v = next() as usize;
        assume(v < n);
        v
    }
    pub fn reach(_: &str) {}
    pub fn fail(m: &str) -> ! {
        std::panic::panic_any(std::string::String::from(m))
    }
    pub fn heap_limit(n: usize) {
        super::peak::limit(n)
    }
}

/// Heap limit of the native replay.
#[cfg(not(symex))]
pub mod peak {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};

    pub struct Peak;
    static USE: AtomicUsize = AtomicUsize::new(0);
    static LIMIT: AtomicUsize = AtomicUsize::new(usize::max_value());

    pub fn limit(n: usize) {
        LIMIT.store(USE.load(Ordering::Relaxed).saturating_add(n), Ordering::Relaxed)
    }
    fn more(n: usize) {
        if USE.fetch_add(n, Ordering::Relaxed).saturating_add(n) > LIMIT.load(Ordering::Relaxed) {
            LIMIT.store(usize::max_value(), Ordering::Relaxed);
            println!("panicked: heap use above the stated bound, by a request of {} bytes", n);
            std::process::exit(1);
        }
    }
    fn less(n: usize) {
        USE.fetch_sub(n, Ordering::Relaxed);
    }
    unsafe impl GlobalAlloc for Peak {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            more(l.size());
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            less(l.size());
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            less(l.size());
            more(n);
            System.realloc(p, l, n)
        }
    }
}

pub use imp::{heap_limit, assume, fail, pick, reach};
#[cfg(not(symex))]
pub use imp::{load, AssumptionViolated};
use std::sync::atomic::{AtomicBool, Ordering};

static PLAIN: AtomicBool = AtomicBool::new(false);

/// While `f` runs, draws are set instead of free values.
pub fn plain<T>(f: fn() -> T) -> T {
    PLAIN.store(true, Ordering::Relaxed);
    let v = f();
    PLAIN.store(false, Ordering::Relaxed);
    v
}
fn is_plain() -> bool {
    PLAIN.load(Ordering::Relaxed)
}
pub fn u8() -> u8 {
    if is_plain() { 1 } else { imp::u8() }
}
pub fn u16() -> u16 {
    if is_plain() { 0x101 } else { imp::u16() }
}
pub fn u32() -> u32 {
    if is_plain() { 0x101 } else { imp::u32() }
}
pub fn u64() -> u64 {
    if is_plain() { 0x101 } else { imp::u64() }
}

pub fn i8() -> i8 {
    u8() as i8
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn i64() -> i64 {
    u64() as i64
}
pub fn bool() -> bool {
    let v = u8();
    assume(v < 2);
    v == 1
}
/// A symbolic value below `n`.
pub fn below(n: usize) -> usize {
    if is_plain() {
        return 0;
    }
    let v = u32();
    assume((v as usize) < n);
    v as usize
}
/// A symbolic value in `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    if is_plain() {
        return lo;
    }
    let v = u32();
    assume(v as usize >= lo && v as usize <= hi);
    v as usize
}
pub fn fill(b: &mut [u8]) {
    let mut i = 0;
    while i < b.len() {
        b[i] = u8();
        i += 1;
    }
}
pub fn octets(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    fill(&mut b);
    b
}
/// An ASCII octet.
pub fn ascii() -> u8 {
    let v = u8();
    assume(v < 0x80);
    v
}
/// An ASCII string of `n` octets.
pub fn text(n: usize) -> std::string::String {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(ascii())
    }
    unsafe { std::string::String::from_utf8_unchecked(b) }
}
pub fn char() -> char {
    let v = u32();
    assume(v < 0x11_0000 && !(v >= 0xd800 && v < 0xe000));
    unsafe { std::char::from_u32_unchecked(v) }
}

macro_rules! assert {
    ($c:expr, $m:literal $(,)?) => {
        if !$c {
            $crate::sym::fail($m)
        }
    };
}
macro_rules! panic {
    ($m:literal) => {
        $crate::sym::fail($m)
    };
}

/// Reachability witness: the driver reports a witness that no path reaches.
macro_rules! witness {
    ($c:expr, $m:literal) => {
        if $c {
            $crate::sym::reach($m)
        }
    };
    ($m:literal) => {
        $crate::sym::reach($m)
    };
}

/// Declares harnesses: `name { body }`.
macro_rules! harnesses {
    ($( $name:ident $body:block )*) => {
        $(
            #[cfg_attr(symex, export_name = concat!("sx_", stringify!($name)))]
            pub extern "C-unwind" fn $name() {
                let () = $body;
                $crate::sym::reach("end of harness");
            }
        )*
        pub const ALL: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name as extern "C-unwind" fn()) ),* ];
    }
}
/// A symbolic value below `n`, known to be so by its form: `n` <= 2^bits.
pub fn term(bits: u32, n: i64) -> i64 {
    let v = u32() & ((1 << bits) - 1);
    (v % n as u32) as i64
}
