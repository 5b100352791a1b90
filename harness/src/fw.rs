//! A small property-based testing engine.
//!
//! A case is the sequence of choices its generator drew (`Src`). Generators are plain functions
//! over `Src`, so a failing case shrinks by editing its choice sequence (delete, zero, lower) and
//! a replay file is that sequence. Choice 0 is always the simplest alternative.

use crate::dict::dict;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt::Write as _,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
};

// ---------------------------------------------------------------- allocation accounting

pub struct CountingAlloc;

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
pub const LIVE_LIMIT: usize = 3 << 30;
pub const OOM_EXIT: i32 = 97;

/// Whether the allocator reports that there is no memory left; otherwise the process ends.
pub static NONE_LEFT: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn _exit(code: i32) -> !;
}

/// Releases whose layout is not the requested one, or of something that is not a live block.
static BAD_RELEASES: AtomicU64 = AtomicU64::new(0);
const MAGIC: usize = 0x5AFE_B10C_0000_0000;
const GONE: usize = 0xDEAD_B10C_0000_0000;

fn padded(l: Layout) -> (Layout, usize) {
    let head = l.align().max(16);
    (unsafe { Layout::from_size_align_unchecked(l.size() + head, head) }, head)
}

/// Every block carries its requested size and alignment.
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        ALLOC_BYTES.fetch_add(l.size() as u64, Relaxed);
        if LIVE.fetch_add(l.size(), Relaxed).saturating_add(l.size()) > LIVE_LIMIT {
            if NONE_LEFT.load(Relaxed) {
                LIVE.fetch_sub(l.size(), Relaxed);
                return std::ptr::null_mut();
            }
            _exit(OOM_EXIT);
        }
        let (real, head) = padded(l);
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        let p = base.add(head);
        (p as *mut usize).sub(1).write(MAGIC ^ l.align());
        (p as *mut usize).sub(2).write(l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let tag = (p as *mut usize).sub(1);
        let (align, size) = (tag.read() ^ MAGIC, tag.sub(1).read());
        if align != l.align() || size != l.size() {
            BAD_RELEASES.fetch_add(1, Relaxed);
            if !align.is_power_of_two() || align > 4096 {
                // not a live block
                return;
            }
        }
        LIVE.fetch_sub(size, Relaxed);
        tag.write(GONE);
        let (real, head) = padded(Layout::from_size_align_unchecked(size, align));
        System.dealloc(p.sub(head), real)
    }
}

/// Bytes not returned to the global allocator.
pub fn live_bytes() -> usize {
    LIVE.load(Relaxed)
}

/// Bad releases through the global allocator so far in this process.
pub fn bad_releases() -> u64 {
    BAD_RELEASES.load(Relaxed)
}

/// Allocations and bytes requested so far by this process.
pub fn alloc_counters() -> (u64, u64) {
    (ALLOCS.load(Relaxed), ALLOC_BYTES.load(Relaxed))
}

// ---------------------------------------------------------------- random numbers

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut s = 0x243F_6A88_85A3_08D3u64;
        for &p in parts {
            s = mix(s ^ mix(p));
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01B3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xCBF2_9CE4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- choice source

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    /// Index of the case within its part (drives `enumerate`).
    index: u64,
    /// Every choice is appended here before the generator goes on (to trace crashes).
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(rng: Rng, index: u64) -> Self {
        Src {
            rng,
            replay: None,
            rec: Vec::new(),
            spans: Vec::new(),
            index,
            log: None,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            rng: Rng::new(&[]),
            replay: Some(choices),
            rec: Vec::new(),
            spans: Vec::new(),
            index: 0,
            log: None,
        }
    }
    fn draw(&mut self, fresh: impl FnOnce(&mut Rng) -> u64, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(max),
            None => fresh(&mut self.rng),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// Uniform in `0..n`.
    #[track_caller]
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        self.draw(|r| ((r.next() as u128 * n as u128) >> 64) as u64, n - 1)
    }
    #[track_caller]
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    #[track_caller]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn bits(&mut self) -> u64 {
        self.draw(|r| r.next(), u64::MAX)
    }
    /// True with probability `num/den`; `false` is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(|r| (r.next() % den < num) as u64, 1) == 1
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// Index drawn with the given weights; index 0 is the simplest.
    #[track_caller]
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let f = |r: &mut Rng| {
            let mut x = r.next() % total;
            for (i, &wi) in w.iter().enumerate() {
                if x < wi {
                    return i as u64;
                }
                x -= wi;
            }
            unreachable!()
        };
        let i = self.draw(f, w.len() as u64 - 1) as usize;
        // a shrunk choice may be one that is ruled out here
        if w[i] == 0 {
            return w.iter().position(|&x| x > 0).unwrap();
        }
        i
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.below(a.len() as u64) as usize]
    }
    /// The case's index within its part modulo `total`: over `total` cases, a full enumeration.
    pub fn enumerate(&mut self, total: u64) -> u64 {
        let i = self.index % total;
        self.draw(|_| i, total - 1)
    }
    /// A size of about 2^lo to 2^hi: at a power of two (a counter's limit), at a number that means
    /// something to somebody, up to two off those, or anything.
    #[track_caller]
    pub fn large(&mut self, lo: usize, hi: usize) -> usize {
        let near = |s: &mut Self, n: usize| n + s.size(0, 4) - 2;
        match self.weighted(&[6, 2, 1]) {
            0 => {
                let p = self.size(lo, hi);
                near(self, 1 << p)
            }
            1 => {
                let v: Vec<u64> = dict().ints.iter().copied().filter(|&n| n >= 1 << lo && n <= 1 << hi).collect();
                let n = if v.is_empty() { 1 << lo } else { *self.pick(&v) as usize };
                near(self, n)
            }
            _ => {
                let p = self.size(lo, hi.max(lo + 1) - 1);
                self.size(1 << p, 2 << p)
            }
        }
    }
    /// A number of the dictionary or a neighbour of one.
    pub fn dict_int(&mut self) -> u64 {
        let n = *self.pick(&dict().ints);
        n.wrapping_add(self.below(3)).wrapping_sub(1)
    }
    /// A string of the dictionary, at times extended, cut or with the case changed.
    pub fn dict_string(&mut self) -> String {
        let t = self.pick(&dict().strings).clone();
        self.vary(t)
    }
    /// A file or directory name from the dictionary.
    pub fn dict_name(&mut self) -> String {
        let t = self.pick(&dict().names).clone();
        let v = self.vary(t.clone());
        if v.is_empty() || v.contains('/') || v == "." || v == ".." {
            t
        } else {
            v
        }
    }
    /// An identifier from the dictionary.
    pub fn dict_id(&mut self) -> String {
        let t = self.pick(&dict().ids).clone();
        match self.weighted(&[8, 1, 1]) {
            0 => t,
            1 => format!("{t}1"),
            _ => format!("${t}"),
        }
    }
    fn vary(&mut self, t: String) -> String {
        match self.weighted(&[10, 1, 1, 1, 1]) {
            0 => t,
            1 => format!("{t}a"),
            2 => format!("a{t}"),
            3 => t.to_ascii_uppercase(),
            _ => t.chars().skip(1).collect(),
        }
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let b = self.rec.len();
        let t = f(self);
        let e = self.rec.len();
        if e > b {
            self.spans.push((b, e));
        }
        t
    }
    /// A list of `min..=max` elements, about `avg` of them; deletable element by element.
    #[track_caller]
    pub fn many<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: u64,
        mut f: impl FnMut(&mut Self) -> T,
    ) -> Vec<T> {
        let mut v = Vec::new();
        while v.len() < max {
            let stop = self.span(|s| {
                if v.len() >= min && !s.chance(avg, avg + 1) {
                    return true;
                }
                let x = f(s);
                v.push(x);
                false
            });
            if stop {
                break;
            }
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- properties

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: &'static [Part],
}

/// What a case reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub nontrivial: Option<u64>,
    pub labels: BTreeMap<String, u64>,
    pub text: Option<String>,
    pub known: Vec<(String, String)>,
    pub listed: Vec<String>,
    pub want_text: bool,
    /// The case's text is written here at once (it may not survive).
    pub sink: Option<std::path::PathBuf>,
}

impl Ctx {
    /// The case is non-trivial; `key` identifies it for counting distinct cases.
    pub fn nt<T: Hash + ?Sized>(&mut self, nontrivial: bool, key: &T) {
        if nontrivial {
            self.nontrivial = Some(hash_of(key));
        }
    }
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    /// The case written out (evaluated only when it is needed).
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want_text {
            let t = f();
            if let Some(p) = &self.sink {
                let _ = std::fs::write(p, &t);
            }
            self.text = Some(t);
        }
    }
    /// A deviation with an exact signature: tolerated only when the known-findings file lists it.
    pub fn known(&mut self, sig: &str, detail: String) -> CaseResult {
        if self.listed.iter().any(|x| x == sig) {
            if !self.known.iter().any(|x| x.0 == sig) {
                self.known.push((sig.to_string(), clip(&detail, 300)));
            }
            Ok(())
        } else {
            Err(detail)
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic outside a case: {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("panicked: {msg} at {loc}"));
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn run_case(part: &Part, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    crate::mgr::reset();
    let r = match guarded(|| (part.run)(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    crate::mgr::reset();
    r
}

// ---------------------------------------------------------------- shrinking

pub struct Shrinker<'a> {
    pub fails: &'a mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
    pub best: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub budget: u64,
    pub deadline: std::time::Instant,
}

impl Shrinker<'_> {
    fn over(&self) -> bool {
        self.budget == 0 || std::time::Instant::now() > self.deadline
    }
    fn attempt(&mut self, c: Vec<u64>) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        self.budget -= 1;
        if let Some((rec, spans)) = (self.fails)(&c) {
            // keep what was really consumed
            let better = rec.len() < self.best.len() || (rec.len() == self.best.len() && rec < self.best);
            if better {
                self.best = rec;
                self.spans = spans;
                return true;
            }
        }
        false
    }
    pub fn run(&mut self) {
        loop {
            let before = self.best.clone();
            self.delete_spans();
            self.delete_blocks();
            self.zero_blocks();
            self.lower_values();
            if self.best == before || self.over() {
                break;
            }
        }
    }
    fn delete_spans(&mut self) {
        let mut i = 0;
        loop {
            let mut spans = self.spans.clone();
            spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            if i >= spans.len() || self.over() {
                break;
            }
            let (b, e) = spans[i];
            let mut c = self.best.clone();
            if e > c.len() {
                i += 1;
                continue;
            }
            c.drain(b..e);
            if !self.attempt(c) {
                i += 1;
            }
        }
    }
    fn delete_blocks(&mut self) {
        for size in [32, 16, 8, 4, 3, 2, 1] {
            let mut i = self.best.len();
            while i > 0 && !self.over() {
                i = i.min(self.best.len());
                if i >= size {
                    let mut c = self.best.clone();
                    c.drain(i - size..i);
                    if self.attempt(c) {
                        continue;
                    }
                }
                i = i.saturating_sub(1);
            }
        }
    }
    fn zero_blocks(&mut self) {
        for size in [16, 4, 1] {
            let mut i = 0;
            while i < self.best.len() && !self.over() {
                let e = (i + size).min(self.best.len());
                if self.best[i..e].iter().any(|&x| x != 0) {
                    let mut c = self.best.clone();
                    c[i..e].fill(0);
                    self.attempt(c);
                }
                i = e;
            }
        }
    }
    fn lower_values(&mut self) {
        let mut i = 0;
        while i < self.best.len() && !self.over() {
            let mut lo = 0;
            let mut hi = self.best[i];
            while lo < hi && !self.over() {
                let mid = lo + (hi - lo) / 2;
                let mut c = self.best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if self.attempt(c) {
                    if i >= self.best.len() {
                        break;
                    }
                    hi = self.best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- text helpers

pub fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7F..0xA0).contains(&(c as u32)) || c as u32 > 0xFFFF => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    let _ = write!(r, "\\u{:04x}", u);
                }
            }
            c => r.push(c),
        }
    }
    r
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let h: String = s.chars().take(n).collect();
        format!("{h}... ({} characters)", s.chars().count())
    }
}

/// `Err` with a formatted message unless the condition holds.
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)+) => {
        if !$c {
            return Err(format!($($a)+));
        }
    };
}
