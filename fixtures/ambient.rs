//! Constructs the determinism and ownership rules must report; each function is named after the rule.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};

static COUNT: Mutex<u64> = Mutex::new(0);
static FIRST: OnceLock<f64> = OnceLock::new();
static FINE: [f64; 2] = [1.0, 2.0];
thread_local! { static SPARE: Cell<Option<f64>> = const { Cell::new(None) }; }

pub struct Hidden { pub calls: RefCell<u32>, pub inner: Vec<Cell<f64>> }
pub struct Plain { pub body: Vec<f64>, pub shape: [usize; 2] }

pub fn clock() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
pub fn environment() -> bool { std::env::var("SEED").is_ok() }
pub fn process() -> u32 { std::process::id() }
pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) }
pub fn address(x: &f64) -> usize { x as *const f64 as usize }
pub fn hash_order(m: HashMap<u32, f64>) -> f64 { m.values().sum() }
pub fn hash_order_into(m: HashSet<u32>) -> Vec<u32> { m.into_iter().collect() }
pub fn state() -> u64 { let mut g = COUNT.lock().unwrap(); *g += 1; *g }
pub fn state_thread() -> Option<f64> { SPARE.with(|s| s.take()) }
pub fn state_once(x: f64) -> f64 { *FIRST.get_or_init(|| x) }
pub fn fine(m: &HashMap<u32, f64>) -> f64 { FINE[0] + m.get(&1).copied().unwrap_or(0.0) }
pub fn order(v: &[f64]) -> f64 { rayon::iter::ParallelIterator::reduce(rayon::It(v.len()), || 0.0, |a, b| a + b) }
pub fn order_sum(v: &[f64]) -> f64 { rayon::iter::ParallelIterator::sum(rayon::It(v.len())) }
pub fn order_any(v: &[f64]) -> Option<f64> { rayon::iter::ParallelIterator::find_any(rayon::It(v.len()), |x| *x > 0.0) }
pub fn fine_count(v: &[f64]) -> usize { rayon::iter::ParallelIterator::sum(rayon::It(v.len())) }
pub fn fine_largest(v: &[f64]) -> f64 { rayon::iter::ParallelIterator::reduce(rayon::It(v.len()), || 0.0, |a, b| if a > b { a } else { b }) }

pub fn through_pointer(p: &Plain) { unsafe { *(p.body.as_ptr() as *mut f64) = 1.0; } }
pub struct Bypass(pub *mut f64);
unsafe impl Send for Bypass {}

/// Stand-in with the paths of the real crate.
pub mod rayon {
    pub struct It(pub usize);
    impl iter::ParallelIterator for It {}
    pub mod iter {
        pub trait ParallelIterator: Sized {
            fn reduce<T, I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, f: F) -> T { f(id(), id()) }
            fn sum<S: Default>(self) -> S { S::default() }
            fn find_any<T, F: Fn(&T) -> bool>(self, _f: F) -> Option<T> { None }
        }
    }
}
