//! Runs cases: each has a reproducible name; the first failing one ends the search.
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } };
}

static NOW: Mutex<String> = Mutex::new(String::new());
static COUNT: AtomicU64 = AtomicU64::new(0);
static mut NAME: [u8; 512] = [0; 512];
static NAME_LEN: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn signal(n: i32, f: extern "C" fn(i32)) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

extern "C" fn died(n: i32) {
    unsafe {
        let a = b"\nFAIL ";
        write(1, a.as_ptr(), a.len());
        write(1, std::ptr::addr_of!(NAME).cast(), NAME_LEN.load(Ordering::Relaxed) as usize);
        let b = b" :: the process was killed by signal ";
        write(1, b.as_ptr(), b.len());
        let d = [b'0' + (n / 10) as u8, b'0' + (n % 10) as u8, b'\n'];
        write(1, d.as_ptr(), 3);
        _exit(3)
    }
}

pub fn install() {
    for n in [4, 6, 7, 8, 11] {
        unsafe { signal(n, died); }
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, 0u32);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let c = COUNT.load(Ordering::Relaxed);
            if c == last { since += 1 } else { last = c; since = 0 }
            if since >= 60 {
                println!("\nFAIL {} :: did not terminate within 60 s", NOW.lock().unwrap());
                std::process::exit(3);
            }
        }
    });
}

pub struct Ctx {
    pub only: Option<String>,
    pub shard: (u64, u64),
    pub thin: u64,
    pub thorough: bool,
    pub seed: u64,
    pub deadline: std::time::Instant,
    pub evals: u64,
    pub nontrivial: u64,
    seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub stopped: bool,
}

fn fnv(id: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in id.bytes() { h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3); }
    h ^ (h >> 29)
}

impl Ctx {
    pub fn new(only: Option<String>, thorough: bool, seed: u64, secs: u64) -> Self {
        Ctx { only, shard: (0, 1), thin: 1, thorough, seed, deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
              evals: 0, nontrivial: 0, seen: HashSet::new(), samples: vec![], stopped: false }
    }
    /// whether a case with this name should run (cheap prefilter for replay)
    pub fn wants(&mut self, id: &str) -> bool {
        if std::time::Instant::now() > self.deadline { self.stopped = true; return false; }
        match &self.only {
            Some(o) => o == id,
            None => self.shard.1 <= 1 || (fnv(id) >> 20) % self.shard.1 == self.shard.0,
        }
    }
    pub fn case(&mut self, id: &str, size: usize, f: impl FnOnce() -> R) {
        if !self.wants(id) { return; }
        // larger cases are sampled where every one of them is expensive
        if self.only.is_none() && self.thin > 1 && size > 12 && ((fnv(id) >> 33) ^ self.seed) % self.thin != 0 { return; }
        *NOW.lock().unwrap() = id.to_string();
        COUNT.fetch_add(1, Ordering::Relaxed);
        unsafe {
            let n = id.len().min(512);
            std::ptr::copy_nonoverlapping(id.as_ptr(), std::ptr::addr_of_mut!(NAME).cast(), n);
            NAME_LEN.store(n as u64, Ordering::Relaxed);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", msg(&*e))),
        };
        self.evals += 1;
        if size >= 1 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            id.hash(&mut h);
            if self.seen.insert(h.finish()) { self.nontrivial += 1; }
        }
        if self.evals % 997 == 3 && self.samples.len() < 12 { self.samples.push(id.to_string()); }
        if let Err(m) = r {
            println!("\nFAIL {id} :: {}", m.replace('\n', " "));
            let _ = std::io::stdout().flush();
            unsafe { _exit(3) }
        }
    }
}

pub fn msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else { "?".into() }
}

/// runs f, Ok(None) if it panicked
pub fn panics<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}
