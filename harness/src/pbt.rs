//! A small property-based-testing engine.
//!
//! Every random decision of a test case is a *draw* below a bound; the sequence of draws (the
//! *tape*) determines the case completely, so a failing case is shrunk by shrinking its tape
//! (deleting, zeroing and lowering draws) and replayed from it. A draw past the end of a tape is 0,
//! and 0 is by convention the simplest choice.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// A violated property.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the kind of failure; known findings are matched by it.
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::pbt::fail($sig, format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::pbt::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// Where draws are mirrored, so that they survive a crash of the process.
pub struct Mirror {
    ptr: *mut u64,
    cap: usize,
}

impl Mirror {
    /// Layout: [case index + 1, number of draws, draws...]
    pub const WORDS: usize = 1 << 17;

    pub fn open(path: &Path) -> Self {
        use std::os::unix::io::AsRawFd;
        let file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .open(path)
            .expect("mirror file");
        file.set_len((Self::WORDS * 8) as u64).expect("mirror size");
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED, "mmap");
        Mirror {
            ptr: ptr as *mut u64,
            cap: Self::WORDS - 2,
        }
    }

    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.ptr.add(i), v) }
    }

    pub fn start_case(&self, index: u64) {
        self.set(1, 0);
        self.set(0, index + 1);
    }

    fn push(&self, pos: usize, v: u64) {
        if pos < self.cap {
            self.set(2 + pos, v);
            self.set(1, pos as u64 + 1);
        }
    }

    pub fn read(path: &Path) -> Option<(u64, Vec<u64>)> {
        let bytes = std::fs::read(path).ok()?;
        let word = |i: usize| {
            let mut w = [0; 8];
            w.copy_from_slice(&bytes[i * 8..i * 8 + 8]);
            u64::from_ne_bytes(w)
        };
        if bytes.len() < 16 || word(0) == 0 {
            return None;
        }
        let len = word(1) as usize;
        Some((word(0) - 1, (0..len).map(|i| word(2 + i)).collect()))
    }
}

pub struct Ctx<'a> {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    index: u64,
    mirror: Option<&'a Mirror>,
    scratch_root: PathBuf,
    pub tier_thorough: bool,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub digest: u64,
    pub sample: Option<String>,
    pub verbose: bool,
}

impl<'a> Ctx<'a> {
    pub fn generate(seed: u64, index: u64, mirror: Option<&'a Mirror>, scratch: &Path) -> Self {
        let mut me = Self::replay(Vec::new(), mirror, scratch);
        me.rng = Some(Rng::new(seed));
        me.index = index;
        me
    }

    pub fn replay(tape: Vec<u64>, mirror: Option<&'a Mirror>, scratch: &Path) -> Self {
        Ctx {
            tape,
            pos: 0,
            rng: None,
            index: 0,
            mirror,
            scratch_root: scratch.to_path_buf(),
            tier_thorough: false,
            labels: BTreeMap::new(),
            nontrivial: false,
            digest: 0xcbf2_9ce4_8422_2325,
            sample: None,
            verbose: false,
        }
    }

    /// The draws made so far.
    pub fn tape(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }

    fn forced(&mut self, bound: u64, value: impl FnOnce(&mut Rng, u64) -> u64) -> u64 {
        let index = self.index;
        let v = match &mut self.rng {
            Some(rng) => {
                let v = value(rng, index);
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if bound == 0 {
                    v
                } else {
                    v.min(bound - 1)
                }
            }
        };
        if let Some(m) = self.mirror {
            m.push(self.pos, v);
        }
        self.pos += 1;
        v
    }

    /// A number below `bound` (any `u64` if `bound` is 0).
    pub fn draw(&mut self, bound: u64) -> u64 {
        self.forced(bound, |rng, _| {
            let v = rng.next();
            if bound == 0 {
                v
            } else {
                v % bound
            }
        })
    }

    /// The index of the case modulo `bound`: enumerates a small space across cases.
    pub fn indexed(&mut self, bound: u64) -> u64 {
        self.forced(bound, |_, index| index % bound)
    }

    pub fn below(&mut self, bound: usize) -> usize {
        self.draw(bound as u64) as usize
    }

    /// Inclusive on both ends.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }

    /// True once in `n` (false is the simplest).
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }

    pub fn flip(&mut self) -> bool {
        self.draw(2) == 1
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }

    /// Picks an index with the given relative weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let mut v = self.draw(weights.iter().sum());
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    /// Sizes biased towards small ones, now and then as large as `max`.
    pub fn size(&mut self, max: usize) -> usize {
        match self.draw(8) {
            0..=3 => self.below(max.min(4) + 1),
            4..=5 => self.below(max.min(16) + 1),
            6 => self.below(max + 1),
            _ => max - self.below(max.min(3) + 1),
        }
    }

    /// An integer of `bits` bits with boundary values over-represented.
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        match self.draw(8) {
            0..=1 => self.draw(4),
            2 => max - self.draw(3),
            3 => {
                // around powers of two
                let p = 1u64 << self.draw(u64::from(bits));
                p.wrapping_add(self.draw(3)).wrapping_sub(1) & max
            }
            4 => {
                let shift = self.draw(u64::from(bits));
                self.draw(0) & max >> shift
            }
            5 => self.draw(256) & max,
            _ => self.draw(0) & max,
        }
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        match self.draw(4) {
            0 => {
                let b = self.draw(256) as u8;
                vec![b; len]
            }
            _ => {
                let mut rng = Rng::new(self.draw(0));
                (0..len).map(|_| rng.next() as u8).collect()
            }
        }
    }

    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }

    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l)
        }
    }

    /// Mixes `bytes` into the digest by which distinct cases are told apart.
    pub fn mix(&mut self, bytes: &[u8]) {
        self.digest = (self.digest ^ fnv(bytes)).wrapping_mul(0x0000_0100_0000_01B3);
    }

    /// What the case was, for the evidence; also distinguishes it from others.
    pub fn describe(&mut self, s: String) {
        self.mix(s.as_bytes());
        if self.verbose {
            eprintln!("case: {}", s);
        }
        let mut s = s;
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        self.sample = Some(s);
    }

    /// A fresh empty directory of this case. Its path is never used again by this process: a
    /// database that is still being closed removes its log by path.
    pub fn scratch(&mut self) -> PathBuf {
        use std::sync::atomic::{AtomicU64, Ordering};
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        if n >= 16 {
            let _ = std::fs::remove_dir_all(self.scratch_root.join(format!("case{}", n - 16)));
        }
        let dir = self.scratch_root.join(format!("case{}", n));
        std::fs::create_dir_all(&dir).expect("env: scratch dir");
        dir
    }
}

/// Shrinks a failing tape. `fails` says whether a tape still fails in the same way.
pub fn shrink(tape: Vec<u64>, budget: std::time::Duration, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    // Not an `Instant`: cases put that clock forward.
    let start = std::time::SystemTime::now();
    let mut best = tape;
    while best.last() == Some(&0) {
        best.pop();
    }
    let mut improved = true;
    let mut try_tape = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if start.elapsed().map_or(true, |t| t > budget) {
            return false;
        }
        if fails(cand) {
            *best = cand.to_vec();
            while best.last() == Some(&0) {
                best.pop();
            }
            true
        } else {
            false
        }
    };
    while improved && start.elapsed().map_or(false, |t| t < budget) {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && start.elapsed().map_or(false, |t| t < budget) {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(lo..i);
                    if try_tape(&cand, &mut best) {
                        improved = true;
                    }
                }
                i = lo;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && start.elapsed().map_or(false, |t| t < budget) {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|v| *v = 0);
                    if try_tape(&cand, &mut best) {
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single draws
        let mut i = 0;
        while i < best.len() && start.elapsed().map_or(false, |t| t < budget) {
            let v = best[i];
            let mut lo = 0;
            let mut hi = v;
            while lo < hi && start.elapsed().map_or(false, |t| t < budget) {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                if i >= cand.len() {
                    break;
                }
                cand[i] = mid;
                if try_tape(&cand, &mut best) {
                    improved = true;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    best
}
