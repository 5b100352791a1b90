//! C20: the buffer arena.
use crate::{check, fw::*, val};
use nanvm_lib::mem::{manager::Manager, object::Object, with_arena, ArenaUser};
use std::{alloc::Layout, mem::align_of};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "Buffers of every size from none to a few thousand bytes at every start alignment, and histories of raw requests of any size and alignment (small, exactly the rest, one more than the rest, far too large) and of typed objects (fixed, variable-length, strings, arrays, nested values), up to and beyond exhaustion. Non-trivial: at least three requests of which one is refused or padded; distinct by history.",
        assumptions: &[
            "a refusal is a panic; the arena stays in use afterwards",
            "memory skipped for alignment need not be used again",
        ],
        parts: &[
            Part { name: "requests", quick: 800_000, thorough: 20_000_000, run: requests },
            Part { name: "objects", quick: 200_000, thorough: 4_000_000, run: objects },
            Part { name: "values", quick: 100_000, thorough: 2_000_000, run: values },
        ],
    }
}

const EDGE: usize = 256;

/// A buffer with watched surroundings.
struct Area {
    all: Vec<u8>,
    start: usize,
    len: usize,
}
impl Area {
    fn new(s: &mut Src, max: usize) -> Area {
        let len = match s.weighted(&[300, 300, 200, 100, 1]) {
            4 => s.large(7, 18),
            0 => s.size(0, 40),
            1 => s.size(0, 300),
            2 => *s.pick(&[0usize, 1, 2, 7, 8, 15, 16, 63, 64, 65, 1024]),
            _ => s.size(0, max),
        };
        let mut all = vec![0x11; len + 2 * EDGE + 128];
        let base = all.as_ptr() as usize;
        // the start modulo 64 is drawn
        let want = match s.below(3) {
            0 => 0,
            1 => 1 << s.below(6),
            _ => s.below(64) as usize,
        };
        let mut start = EDGE;
        while (base + start) % 64 != want % 64 {
            start += 1;
        }
        all[start..start + len].fill(0x22);
        Area { all, start, len }
    }
    fn buffer(&mut self) -> &mut [u8] {
        &mut self.all[self.start..self.start + self.len]
    }
    fn intact(&self) -> CaseResult {
        let out = self.all[..self.start].iter().chain(&self.all[self.start + self.len..]);
        check!(out.clone().all(|&b| b == 0x11), "bytes outside the buffer were written");
        Ok(())
    }
}

/// The history so far.
struct Book {
    lo: usize,
    hi: usize,
    got: Vec<(usize, usize)>,
    top: usize,
    padded: usize,
    refused: usize,
    log: Vec<String>,
}
impl Book {
    fn new(lo: usize, len: usize) -> Book {
        Book { lo, hi: lo + len, got: vec![], top: lo, padded: 0, refused: 0, log: vec![] }
    }
    fn rest(&self) -> usize {
        self.hi - self.top
    }
    fn fits(&self, l: Layout) -> bool {
        let at = (self.top + l.align() - 1) & !(l.align() - 1);
        at <= self.hi && l.size() <= self.hi - at
    }
    fn served(&mut self, l: Layout, p: usize) -> CaseResult {
        let rel = p as isize - self.lo as isize;
        check!(p % l.align() == 0, "{l:?} is served at {rel}, which is not aligned");
        check!(p >= self.lo && p <= self.hi && l.size() <= self.hi - p, "{l:?} is served at {rel} of a buffer of {}", self.hi - self.lo);
        for &(a, n) in &self.got {
            check!(p + l.size() <= a || a + n <= p || n == 0 || l.size() == 0, "{l:?} is served at {rel}, over the {n} bytes at {}", a - self.lo);
        }
        if p != self.top {
            self.padded += 1;
        }
        self.got.push((p, l.size()));
        self.top = self.top.max(p + l.size());
        Ok(())
    }
    /// `r` is the address or a refusal.
    fn answer(&mut self, l: Layout, r: &Result<usize, String>) -> CaseResult {
        self.log.push(format!("{}:{}{}", l.size(), l.align(), if r.is_ok() { "" } else { "!" }));
        match r {
            Ok(p) => self.served(l, *p),
            Err(e) => {
                self.refused += 1;
                check!(!self.fits(l), "{l:?} is refused ({e}) with {} bytes left", self.rest());
                Ok(())
            }
        }
    }
}

fn gen_layout(s: &mut Src, rest: usize) -> Layout {
    let align = 1usize << s.weighted(&[4, 3, 3, 4, 2, 1, 1, 1, 1]);
    let size = match s.weighted(&[5, 3, 2, 2, 2, 1]) {
        0 => s.size(0, 9),
        1 => s.size(0, 40),
        2 => rest,
        3 => (rest + s.size(1, 2 * align)).saturating_sub(align).max(1),
        4 => s.size(0, rest.max(1)),
        _ => *s.pick(&[rest + 1, 1 << 20, 1 << 40, isize::MAX as usize / 2, isize::MAX as usize - 8192]),
    };
    Layout::from_size_align(size, align).unwrap()
}

struct Requests<'a, 'b> {
    s: &'a mut Src,
    c: &'b mut Ctx,
    lo: usize,
    len: usize,
}
impl ArenaUser for Requests<'_, '_> {
    type Result = CaseResult;
    fn run<M: Manager>(self, m: M) -> CaseResult {
        let Requests { s, c, lo, len } = self;
        let mut b = Book::new(lo, len);
        let mut fill: Vec<(usize, usize, u8)> = vec![];
        let mut r = Ok(());
        s.many(0, 60, 10, |s| {
            if r.is_err() {
                return;
            }
            let l = gen_layout(s, b.rest());
            let p = guarded(|| unsafe { m.alloc(l) } as usize);
            r = b.answer(l, &p);
            if let (Ok(()), Ok(p)) = (&r, p) {
                let x = mix(fill.len() as u64) as u8;
                unsafe { (p as *mut u8).write_bytes(x, l.size()) };
                fill.push((p, l.size(), x));
            }
        });
        c.show(|| format!("{} bytes at {} mod 64: {}", len, lo % 64, b.log.join(" ")));
        c.nt(b.log.len() >= 3 && b.padded + b.refused > 0, &(len, lo % 64, &b.log));
        c.label(if b.refused > 0 { "with refusals" } else { "all served" });
        r?;
        for (p, n, x) in fill {
            let a = unsafe { std::slice::from_raw_parts(p as *const u8, n) };
            check!(a.iter().all(|y| *y == x), "the {n} bytes at {} were overwritten", p - lo);
        }
        Ok(())
    }
}

fn requests(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut a = Area::new(s, 6000);
    let (lo, len) = (a.all.as_ptr() as usize + a.start, a.len);
    with_arena(a.buffer(), Requests { s, c, lo, len })?;
    a.intact()
}

/// Typed objects of known contents.
struct Objects<'a, 'b> {
    s: &'a mut Src,
    c: &'b mut Ctx,
    lo: usize,
    len: usize,
}
impl ArenaUser for Objects<'_, '_> {
    type Result = CaseResult;
    fn run<M: Manager>(self, m: M) -> CaseResult {
        let Objects { s, c, lo, len } = self;
        let mut b = Book::new(lo, len);
        let mut bytes = vec![];
        let mut words = vec![];
        let mut wide = vec![];
        let mut single = vec![];
        for i in 0..s.size(1, 24) {
            let n = s.size(0, 12);
            // handles are kept: an object whose mutable handle goes away is released
            macro_rules! flex {
                ($t:ty, $v:ident) => {{
                    let items: Vec<$t> = (0..n).map(|k| mix((i * 100 + k) as u64) as $t).collect();
                    let r = guarded(|| m.flexible_array_new(items.clone()));
                    let l = Layout::from_size_align(8 + n * std::mem::size_of::<$t>(), 8.max(align_of::<$t>())).unwrap();
                    // the length may be followed by padding
                    let l = if align_of::<$t>() > 8 { Layout::from_size_align(l.size() + align_of::<$t>() - 8, l.align()).unwrap() } else { l };
                    match r {
                        Ok(r) => {
                            check!(r.object_size() == l.size(), "{n} items of {} occupy {} bytes", stringify!($t), r.object_size());
                            let p = &*r as *const _ as *const u8 as usize;
                            b.answer(l, &Ok(p))?;
                            let q = r.items().as_ptr() as usize;
                            check!(q % align_of::<$t>() == 0 && q >= p && q + n * std::mem::size_of::<$t>() <= b.hi, "items are out of place");
                            $v.push((r.to_ref(), items));
                        }
                        Err(e) => b.answer(l, &Err(e))?,
                    }
                }};
            }
            match s.below(4) {
                0 => flex!(u8, bytes),
                1 => flex!(u64, words),
                2 => flex!(u128, wide),
                _ => {
                    let x = mix(i as u64) as u16;
                    let l = Layout::new::<u16>();
                    match guarded(|| m.fixed_new(x)) {
                        Ok(r) => {
                            b.answer(l, &Ok(&r.0 as *const u16 as usize))?;
                            single.push((r.to_ref(), x));
                        }
                        Err(e) => b.answer(l, &Err(e))?,
                    }
                }
            }
        }
        c.show(|| format!("{} bytes at {} mod 64: objects {}", len, lo % 64, b.log.join(" ")));
        c.nt(b.log.len() >= 3 && b.padded + b.refused > 0, &(len, lo % 64, &b.log));
        for (r, v) in &bytes {
            check!(r.items() == &v[..] && r.clone().items() == &v[..], "an array of bytes was overwritten");
        }
        for (r, v) in &words {
            check!(r.items() == &v[..], "an array of words was overwritten");
        }
        for (r, v) in &wide {
            check!(r.items() == &v[..], "an array of wide words was overwritten");
        }
        for (r, v) in &single {
            check!(r.0 == *v, "a fixed object was overwritten");
        }
        Ok(())
    }
}

fn objects(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut a = Area::new(s, 3000);
    let (lo, len) = (a.all.as_ptr() as usize + a.start, a.len);
    with_arena(a.buffer(), Objects { s, c, lo, len })?;
    a.intact()
}

/// Whole values.
struct Values<'a, 'b> {
    s: &'a mut Src,
    c: &'b mut Ctx,
    len: usize,
}
impl ArenaUser for Values<'_, '_> {
    type Result = CaseResult;
    fn run<M: Manager>(self, m: M) -> CaseResult {
        let Values { s, c, len } = self;
        let o = val::Opt { big: true, lone: true, share: true, wild_keys: true, nan: false, max: 5 };
        let mut made = vec![];
        let mut refused = 0;
        for _ in 0..s.size(1, 5) {
            let v = val::gen_val(s, o);
            match guarded(|| val::build(m, &v)) {
                Ok(a) => made.push((a, v)),
                Err(_) => refused += 1,
            }
        }
        c.show(|| format!("{len} bytes: {} ({refused} refused)", made.iter().map(|x| val::show(&x.1)).collect::<Vec<_>>().join(" ")));
        c.nt(made.len() + refused >= 2, &(len, refused, made.iter().map(|x| val::show(&x.1)).collect::<Vec<_>>()));
        c.label(if refused > 0 { "with refusals" } else { "all served" });
        for (a, v) in &made {
            val::iso(v, &val::read(a))?;
        }
        Ok(())
    }
}

fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut a = Area::new(s, 3000);
    let len = a.len;
    with_arena(a.buffer(), Values { s, c, len })?;
    a.intact()
}
