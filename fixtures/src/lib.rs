//! Examples of what the rules must report. Each run analyses them together with the repository: a rule
//! that finds nothing here is broken. Functions ending in `_ok` must not be reported.
#![allow(dead_code)]
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{LazyLock, Mutex, OnceLock};

// ---- unchecked memory operations
pub fn unchecked(x: &[u8]) -> u8 {
    unsafe { *x.get_unchecked(0) }
}
pub unsafe fn declared(x: *const u8) -> u8 {
    *x
}
pub struct Shared(*const u8);
unsafe impl Send for Shared {}
static mut GLOBAL: u8 = 0;
pub union Bits {
    pub a: u32,
    pub b: f32,
}
extern "C" {
    fn getpid() -> i32;
}
macro_rules! hidden {
    ($x:expr) => {
        unsafe { *$x.as_ptr() }
    };
}
pub fn through_macro(x: &[u8]) -> u8 {
    hidden!(x)
}

// ---- results that depend on more than the arguments
static CALLS: AtomicUsize = AtomicUsize::new(0);
pub mod impure {
    use super::*;
    pub fn counter(x: u8) -> usize {
        CALLS.fetch_add(1, Ordering::Relaxed) + x as usize
    }
    pub fn memo(x: u8) -> u8 {
        static LAST: Mutex<u8> = Mutex::new(0);
        let mut g = LAST.lock().unwrap_or_else(|e| e.into_inner());
        let r = *g;
        *g = x;
        r
    }
    pub fn first_call(x: u8) -> u8 {
        static FIRST: OnceLock<u8> = OnceLock::new();
        *FIRST.get_or_init(|| x)
    }
    pub fn first_set(x: u8) -> u8 {
        static FIRST: OnceLock<u8> = OnceLock::new();
        let _ = FIRST.set(x);
        FIRST.get().copied().unwrap_or(0)
    }
    pub fn cached_lock(x: u8) -> u8 {
        static LAST: LazyLock<Mutex<u8>> = LazyLock::new(|| Mutex::new(0));
        LAST.lock().map(|mut g| std::mem::replace(&mut *g, x)).unwrap_or(0)
    }
    thread_local! {
        static SEEN: Cell<u8> = const { Cell::new(0) };
        static GROWN: Cell<Vec<u8>> = Cell::new(vec![]);
    }
    pub fn per_thread(x: u8) -> u8 {
        SEEN.with(|s| s.replace(x))
    }
    pub fn per_thread_lazy(x: u8) -> usize {
        GROWN.with(|s| {
            let mut v = s.take();
            v.push(x);
            let n = v.len();
            s.set(v);
            n
        })
    }
    pub fn clock() -> u64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
    }
    pub fn elapsed(x: std::time::Instant) -> bool {
        x.elapsed().as_secs() > 1
    }
    pub fn environment() -> bool {
        std::env::var("NO_COLOR").is_ok()
    }
    pub fn file() -> Option<String> {
        std::fs::read_to_string("x").ok()
    }
    pub fn prints(x: u8) {
        println!("{x}");
    }
    pub fn hash_order(x: &[u8]) -> Vec<u8> {
        let m: HashMap<u8, u8> = x.iter().map(|b| (*b, 1)).collect();
        m.keys().copied().collect()
    }
    pub fn address(x: &[u8]) -> usize {
        x.as_ptr() as usize
    }
    pub fn shown_address(x: &u8) -> String {
        format!("{x:p}")
    }
    pub fn thread() -> bool {
        std::thread::current().name().is_some()
    }
    pub fn process() -> u32 {
        std::process::id()
    }
}
pub mod pure {
    use super::*;
    static TABLE: LazyLock<HashMap<u8, u8>> = LazyLock::new(|| HashMap::from([(1, 2)]));
    static ONCE: OnceLock<Vec<u8>> = OnceLock::new();
    static NAMES: [&str; 2] = ["a", "b"];
    pub fn table_ok(x: u8) -> u8 {
        TABLE.get(&x).copied().unwrap_or(0)
    }
    pub fn once_ok(x: usize) -> u8 {
        ONCE.get_or_init(|| vec![1, 2]).get(x).copied().unwrap_or(0)
    }
    pub fn names_ok(x: usize) -> &'static str {
        NAMES.get(x).copied().unwrap_or("")
    }
    pub fn sorted_ok(x: &[u8]) -> String {
        let mut v = x.to_vec();
        v.sort();
        format!("{v:?} {:.3} {:>9}", 1.5f64.powi(2), "x")
    }
    pub fn lookup_ok(x: u8, y: u8) -> Option<u8> {
        let mut m = HashMap::new();
        m.insert(x, y);
        m.get(&y).copied()
    }
}

// ---- secrets that leave, and uses that do not let them
pub struct Options {
    pub key: Option<[u8; 16]>,
    pub width: usize,
}
#[derive(Debug)]
pub enum Failure {
    Short,
    Text(String),
    Code(u8),
}
pub mod leak {
    use super::*;
    pub fn shown(o: &Options) -> String {
        format!("{:?}", o.key)
    }
    pub fn in_error(data: &[u8], o: &Options) -> Result<usize, Failure> {
        let Some(k) = o.key.as_ref() else { return Ok(0) };
        if data.is_empty() {
            return Err(Failure::Text(format!("no data for key {:02x}", k[0])));
        }
        Ok(data.len())
    }
    pub fn one_byte(o: &Options) -> Result<(), Failure> {
        o.key.map_or(Ok(()), |k| Err(Failure::Code(k[15] >> 4)))
    }
    pub fn branch(o: &Options) -> bool {
        o.key.is_some_and(|k| k[0] == 0)
    }
    pub fn all_zero(o: &Options) -> usize {
        if o.key == Some([0; 16]) {
            1
        } else {
            2
        }
    }
    pub fn pushed(o: &Options, out: &mut Vec<u8>) {
        if let Some(k) = &o.key {
            out.extend_from_slice(&k[4..6]);
        }
    }
    pub fn through_iterator(o: &Options) -> u32 {
        o.key.iter().flatten().map(|b| u32::from(*b)).sum()
    }
    pub fn through_struct(o: &Options) -> Vec<(u64, u8)> {
        let mut table = [(0u64, [0u8; 16]); 2];
        if let (Some(slot), Some(k)) = (table.get_mut(1), o.key) {
            slot.1 = k;
        }
        table.iter().map(|e| (e.0, e.1[3])).collect()
    }
    pub fn panics(o: &Options) -> usize {
        let v: Vec<u8> = o.key.map(|k| k.to_vec()).unwrap_or_default();
        let a: [u8; 3] = v.try_into().expect("three bytes");
        a.len()
    }
    pub fn printed(o: &Options) {
        eprintln!("{:?}", o.key);
    }
    pub fn as_index(o: &Options, t: &[u8; 256]) -> u8 {
        o.key.map(|k| t[k[0] as usize]).unwrap_or(0)
    }
    pub fn wide(k: [u8; 16]) -> u128 {
        u128::from_le_bytes(k).rotate_left(3)
    }
    pub fn dynamic(o: &Options, w: &mut dyn std::fmt::Write) {
        if let Some(k) = o.key {
            let _ = write!(w, "{}", k[1]);
        }
    }
    pub fn boxed(k: [u8; 16]) -> Box<dyn Fn() -> u8> {
        Box::new(move || k[0])
    }
}
pub mod kept {
    use super::*;
    pub fn given_ok(o: &Options) -> bool {
        o.key.is_some()
    }
    pub fn width_ok(o: &Options) -> String {
        format!("{}", o.width)
    }
    pub fn length_ok(o: &Options) -> usize {
        o.key.as_ref().map(|k| k.len()).unwrap_or(0)
    }
    pub fn table_ok(id: u64, k: [u8; 16]) -> Result<u64, Failure> {
        let mut table = [(0u64, [0u8; 16]); 4];
        let e = table.get_mut(2).ok_or(Failure::Short)?;
        *e = (id, k);
        table.iter().find(|e| e.0 == id).map(|e| e.0).ok_or(Failure::Code(1))
    }
    pub fn copied_ok(o: &Options, data: &[u8]) -> Vec<u8> {
        let mut all = data.to_vec();
        let mut own = Vec::new();
        own.extend_from_slice(o.key.as_ref().map(|k| &k[..]).unwrap_or(&[]));
        all.push(0);
        if own.is_empty() {
            all.push(1);
        }
        all
    }
}
