//! C19: variable-length and fixed-size objects.
use crate::{
    check,
    fw::*,
    mgr::{self, Chk, ChkAtomic},
};
use nanvm_lib::mem::{
    flexible_array::{constructor::FlexibleArrayConstructor, header::FlexibleArrayHeader, FlexibleArray},
    global::GLOBAL,
    local::Local,
    manager::Manager,
    mut_ref::MutRef,
    object::Object,
};
use std::{
    cell::RefCell,
    mem::{align_of, size_of},
};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "All combinations of ten header types and fifteen item types (empty, odd-sized, over-aligned, releasing) with both block headers, at random lengths including zero and long ones, and all of them as fixed-size objects; random overwrites, swaps, shares, copies and upgrades, several objects at once, then release; constructions and releases interrupted by a panic of the caller's code. Non-trivial: at least two items, or a fixed-size object; distinct by types, length and history.",
        assumptions: &[
            "a header's length is at most the number of items it is given (further items are left to the caller's iterator)",
        ],
        parts: &[
            Part { name: "variable", quick: 3_000_000, thorough: 30_000_000, run: variable },
            Part { name: "fixed", quick: 500_000, thorough: 10_000_000, run: fixed },
            Part { name: "managers", quick: 400_000, thorough: 6_000_000, run: managers },
            Part { name: "refused", quick: 100_000, thorough: 2_000_000, run: refused },
            Part { name: "exhausted", quick: 60, thorough: 300, run: exhausted },
            Part { name: "interrupted", quick: 60_000, thorough: 2_000_000, run: interrupted },
            Part { name: "several", quick: 400_000, thorough: 6_000_000, run: several },
        ],
    }
}

thread_local! {
    static DROPPED: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
fn dropped(id: u64) {
    DROPPED.with(|d| d.borrow_mut().push(id));
}

/// Content identified by a number.
pub trait Item: Sized + 'static {
    const NAME: &'static str;
    const DROPS: bool = false;
    fn make(id: u64) -> Self;
    fn same(&self, id: u64) -> bool;
    /// What a release records.
    fn trace(id: u64) -> u64 {
        id
    }
}

macro_rules! int_item {
    ($($t:ty),*) => {$(
        impl Item for $t {
            const NAME: &'static str = stringify!($t);
            fn make(id: u64) -> Self { mix(id) as $t }
            fn same(&self, id: u64) -> bool { *self == mix(id) as $t }
        }
    )*};
}
int_item!(u8, u16, u32, u64, u128);
macro_rules! bytes_item {
    ($($n:literal),*) => {$(
        impl Item for [u8; $n] {
            const NAME: &'static str = concat!("[u8; ", $n, "]");
            fn make(id: u64) -> Self { std::array::from_fn(|i| mix(id + i as u64) as u8) }
            fn same(&self, id: u64) -> bool { *self == Self::make(id) }
        }
    )*};
}
bytes_item!(3, 7, 33);

impl Item for () {
    const NAME: &'static str = "()";
    fn make(_: u64) {}
    fn same(&self, _: u64) -> bool {
        true
    }
}
/// Over-aligned.
#[repr(C, align(64))]
pub struct A64(u8);
impl Item for A64 {
    const NAME: &'static str = "align(64)";
    fn make(id: u64) -> Self {
        A64(mix(id) as u8)
    }
    fn same(&self, id: u64) -> bool {
        self.0 == mix(id) as u8
    }
}
#[repr(C, align(32))]
pub struct Z32;
impl Item for Z32 {
    const NAME: &'static str = "empty align(32)";
    fn make(_: u64) -> Self {
        Z32
    }
    fn same(&self, _: u64) -> bool {
        self as *const _ as usize % 32 == 0
    }
}
/// Releases are recorded.
macro_rules! tok {
    ($t:ident, $align:literal, $pad:literal, $name:literal) => {
        #[repr(C, align($align))]
        pub struct $t {
            id: u64,
            pad: [u8; $pad],
        }
        impl Item for $t {
            const NAME: &'static str = $name;
            const DROPS: bool = true;
            fn make(id: u64) -> Self {
                $t { id, pad: [mix(id) as u8; $pad] }
            }
            fn same(&self, id: u64) -> bool {
                self.id == id && self.pad == [mix(id) as u8; $pad]
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let ok = self.pad == [mix(self.id) as u8; $pad];
                dropped(if ok { self.id } else { u64::MAX });
            }
        }
    };
}
tok!(Tok8, 8, 8, "releasing");
tok!(Tok24, 8, 16, "releasing 24 bytes");
tok!(Tok128, 128, 5, "releasing align(128)");
/// Releases are recorded, without content.
pub struct TokZ;
impl Item for TokZ {
    const NAME: &'static str = "releasing empty";
    const DROPS: bool = true;
    fn make(_: u64) -> Self {
        TokZ
    }
    fn same(&self, _: u64) -> bool {
        true
    }
    fn trace(_: u64) -> u64 {
        0
    }
}
impl Drop for TokZ {
    fn drop(&mut self) {
        dropped(0)
    }
}
impl Item for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn make(id: u64) -> Self {
        Box::new(id)
    }
    fn same(&self, id: u64) -> bool {
        **self == id
    }
}

/// A header of a given length.
pub trait Head: FlexibleArrayHeader + 'static {
    const NAME: &'static str;
    const MAX: usize;
    /// The only possible length.
    const ONLY: Option<usize> = None;
    fn make(len: usize, id: u64) -> Self;
    fn same(&self, len: usize, id: u64) -> bool;
    /// Whether its release is recorded, and how.
    fn trace(_: u64) -> Option<u64> {
        None
    }
}
impl Head for usize {
    const NAME: &'static str = "usize";
    const MAX: usize = 5000;
    fn make(len: usize, _: u64) -> Self {
        len
    }
    fn same(&self, len: usize, _: u64) -> bool {
        *self == len
    }
}
macro_rules! head {
    ($t:ident, $int:ty, $pad:literal, $align:literal, $max:literal, $name:literal) => {
        #[repr(C, align($align))]
        pub struct $t {
            pad: [u8; $pad],
            len: $int,
        }
        impl FlexibleArrayHeader for $t {
            fn len(&self) -> usize {
                self.len as usize
            }
        }
        impl Head for $t {
            const NAME: &'static str = $name;
            const MAX: usize = $max;
            fn make(len: usize, id: u64) -> Self {
                $t { pad: [mix(id) as u8; $pad], len: len as $int }
            }
            fn same(&self, len: usize, id: u64) -> bool {
                self.len as usize == len && self.pad == [mix(id) as u8; $pad]
            }
        }
    };
}
head!(H8, u8, 0, 1, 255, "u8");
head!(H8P, u8, 2, 1, 255, "three bytes");
head!(H16, u16, 0, 2, 5000, "u16");
head!(H32P, u32, 9, 4, 5000, "sixteen bytes");
head!(H64A, u64, 1, 64, 5000, "align(64)");

/// A length that is not stored plainly.
pub struct HSign(isize);
impl FlexibleArrayHeader for HSign {
    fn len(&self) -> usize {
        self.0.unsigned_abs()
    }
}
impl Head for HSign {
    const NAME: &'static str = "signed";
    const MAX: usize = 5000;
    fn make(len: usize, id: u64) -> Self {
        HSign(if id % 2 == 0 { len as isize } else { -(len as isize) })
    }
    fn same(&self, len: usize, id: u64) -> bool {
        self.0 == HSign::make(len, id).0
    }
}
/// No content and a constant length.
pub struct HZ;
impl FlexibleArrayHeader for HZ {
    fn len(&self) -> usize {
        3
    }
}
impl Head for HZ {
    const NAME: &'static str = "empty";
    const MAX: usize = 3;
    const ONLY: Option<usize> = Some(3);
    fn make(_: usize, _: u64) -> Self {
        HZ
    }
    fn same(&self, _: usize, _: u64) -> bool {
        true
    }
}
impl Drop for HZ {
    fn drop(&mut self) {
        dropped(1 << 40)
    }
}
/// Releases are recorded; the length is gone afterwards.
#[repr(C)]
pub struct HTok {
    len: usize,
    id: u64,
}
impl FlexibleArrayHeader for HTok {
    fn len(&self) -> usize {
        self.len
    }
}
impl Drop for HTok {
    fn drop(&mut self) {
        dropped(self.id | 1 << 41);
        self.len = 1 << 50;
        self.id = u64::MAX >> 8;
    }
}
impl Head for HTok {
    const NAME: &'static str = "releasing";
    const MAX: usize = 5000;
    fn make(len: usize, id: u64) -> Self {
        HTok { len, id }
    }
    fn same(&self, len: usize, id: u64) -> bool {
        self.len == len && self.id == id
    }
    fn trace(id: u64) -> Option<u64> {
        Some(id | 1 << 41)
    }
}
#[repr(C, align(16))]
pub struct HBox {
    len: Box<usize>,
}
impl FlexibleArrayHeader for HBox {
    fn len(&self) -> usize {
        *self.len
    }
}
impl Head for HBox {
    const NAME: &'static str = "boxed";
    const MAX: usize = 5000;
    fn make(len: usize, _: u64) -> Self {
        HBox { len: Box::new(len) }
    }
    fn same(&self, len: usize, _: u64) -> bool {
        *self.len == len
    }
}

fn head_trace<H: Head>(id: u64) -> Option<u64> {
    if H::ONLY.is_some() {
        Some(1 << 40)
    } else {
        H::trace(id)
    }
}

/// One live object with what it should contain.
struct Obj<M: Manager, H: Head, I: Item> {
    r: Option<MutRef<FlexibleArray<I, H>, M::Dealloc>>,
    head: u64,
    ids: Vec<u64>,
}

fn gen_len<H: Head>(s: &mut Src) -> usize {
    if let Some(n) = H::ONLY {
        return n;
    }
    let n = match s.weighted(&[6000, 2000, 1000, 1000, 2]) {
        4 => s.large(9, 17),
        0 => s.size(0, 6),
        1 => s.size(0, 40),
        2 => *s.pick(&[63usize, 64, 65, 127, 128, 254, 255, 256, 257]),
        _ => {
            if s.chance(1, 20) {
                s.size(0, 5000)
            } else {
                s.size(0, 300)
            }
        }
    };
    n.min(H::MAX)
}

impl<M: Manager, H: Head, I: Item> Obj<M, H, I> {
    fn new(s: &mut Src, m: M, next: &mut u64) -> Result<Self, String> {
        let n = gen_len::<H>(s);
        let mut fresh = || {
            *next += 1;
            *next
        };
        let head = fresh();
        let ids: Vec<u64> = (0..n).map(|_| fresh()).collect();
        let extra = if s.chance(1, 8) { s.size(1, 3) } else { 0 };
        let more: Vec<u64> = (0..extra).map(|_| fresh()).collect();
        let before = mgr::served();
        let items: Vec<I> = ids.iter().chain(&more).map(|&i| I::make(i)).collect();
        let start = DROPPED.with(|d| d.borrow().len());
        let r = m.new(FlexibleArrayConstructor::new(H::make(n, head), items.into_iter()));
        // only what was not needed
        let mut gone = DROPPED.with(|d| d.borrow_mut().split_off(start));
        let mut want: Vec<u64> = if I::DROPS { more.iter().map(|&i| I::trace(i)).collect() } else { vec![] };
        gone.sort();
        want.sort();
        check!(gone == want, "construction of {n} items releases {gone:?} instead of {want:?}");
        check!(mgr::served() == before + 1, "{} blocks are requested for one object", mgr::served() - before);
        let o = Obj { r: Some(r), head, ids };
        o.placed()?;
        Ok(o)
    }
    fn placed(&self) -> CaseResult {
        let r: &FlexibleArray<I, H> = self.r.as_ref().unwrap();
        let n = self.ids.len();
        let obj = r as *const _ as *const u8 as usize;
        let head = &r.header as *const H as usize;
        let items = r.items().as_ptr() as usize;
        let Some((p, l)) = mgr::last_block() else { return Err("no block".into()) };
        let (end, size) = (p + l.size(), r.object_size());
        check!(p % l.align() == 0 && l.align() >= align_of::<H>() && l.align() >= align_of::<I>(), "a block of {l:?} for alignments {} and {}", align_of::<H>(), align_of::<I>());
        check!(head % align_of::<H>() == 0, "the header is at {head:x}, aligned to {}", align_of::<H>());
        check!(items % align_of::<I>() == 0, "the items are at {items:x}, aligned to {}", align_of::<I>());
        check!(obj > p && obj <= head, "the object starts outside its block or after its header");
        check!(head + size_of::<H>() <= items || size_of::<I>() * n == 0, "the items overlap the header");
        check!(items >= obj && items + n * size_of::<I>() <= end, "{n} items of {} bytes at {} end beyond the block of {} bytes", size_of::<I>(), items - p, l.size());
        check!(head + size_of::<H>() <= end, "the header ends beyond the block");
        check!(obj + size == end, "the object at {} reports {size} bytes in a block of {}", obj - p, l.size());
        check!(obj + size >= items + n * size_of::<I>(), "the object reports {size} bytes but occupies more");
        Ok(())
    }
    fn holds(&self) -> CaseResult {
        let r = self.r.as_ref().unwrap();
        check!(r.header.same(self.ids.len(), self.head), "the header changed");
        check!(r.header.is_empty() == self.ids.is_empty(), "a header of length {} is empty: {}", self.ids.len(), r.header.is_empty());
        check!(r.header.len() == self.ids.len() && r.items().len() == self.ids.len(), "{} items instead of {}", r.items().len(), self.ids.len());
        for (i, (x, &id)) in r.items().iter().zip(&self.ids).enumerate() {
            check!(x.same(id), "item {i} of {} is another one", self.ids.len());
        }
        Ok(())
    }
    fn write(&mut self, s: &mut Src, next: &mut u64, gone: &mut Vec<u64>) {
        let r = self.r.as_mut().unwrap();
        let n = self.ids.len();
        if n == 0 {
            return;
        }
        let i = s.below(n as u64) as usize;
        if s.chance(1, 3) {
            let j = s.below(n as u64) as usize;
            r.items_mut().swap(i, j);
            self.ids.swap(i, j);
        } else {
            *next += 1;
            if I::DROPS {
                gone.push(I::trace(self.ids[i]));
            }
            self.ids[i] = *next;
            r.items_mut()[i] = I::make(*next);
        }
    }
    /// Through shared handles and back.
    fn around(&mut self, s: &mut Src) -> CaseResult {
        let mut r = self.r.take().unwrap().to_ref();
        if s.coin() {
            let k = r.clone();
            let k2 = k.clone();
            check!(k2.items().as_ptr() == r.items().as_ptr() && k2.object_size() == r.object_size(), "a copied handle leads somewhere else");
            match r.try_to_mut_ref() {
                Ok(_) => return Err("a shared object becomes mutable".into()),
                Err(x) => r = x,
            }
            drop((k, k2));
        }
        match r.try_to_mut_ref() {
            Ok(x) => self.r = Some(x),
            Err(_) => return Err("an object with one handle does not become mutable".into()),
        }
        Ok(())
    }
    fn release(mut self, gone: &mut Vec<u64>, shared: bool) {
        let r = self.r.take().unwrap();
        if shared {
            let a = r.to_ref();
            let b = a.clone();
            drop(a);
            drop(b);
        } else {
            drop(r);
        }
        if I::DROPS {
            gone.extend(self.ids.iter().map(|&i| I::trace(i)));
        }
        gone.extend(head_trace::<H>(self.head));
    }
}

fn books(gone: &mut Vec<u64>) -> CaseResult {
    let mut d = DROPPED.with(|d| d.borrow().clone());
    d.sort();
    gone.sort();
    check!(d == *gone, "{} contents are released instead of {} (the last ones: {:?}, {:?})", d.len(), gone.len(), &d[d.len().saturating_sub(5)..], &gone[gone.len().saturating_sub(5)..]);
    Ok(())
}

fn one<M: Manager, H: Head, I: Item>(s: &mut Src, c: &mut Ctx, m: M) -> CaseResult {
    let (mut next, mut gone) = (0, vec![]);
    let mut o = Obj::<M, H, I>::new(s, m, &mut next)?;
    let n = o.ids.len();
    c.show(|| format!("header {}, {n} items of {}", H::NAME, I::NAME));
    o.holds()?;
    let steps = s.many(0, 12, 4, |s| {
        let k = s.below(3);
        match k {
            0 => o.around(s),
            _ => {
                o.write(s, &mut next, &mut gone);
                Ok(())
            }
        }
        .map(|_| (k, s.rec.last().copied()))
    });
    c.nt(n >= 2, &(H::NAME, I::NAME, n, steps.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()));
    for x in steps {
        x?;
    }
    o.holds()?;
    books(&mut gone)?;
    mgr::verify()?;
    o.release(&mut gone, s.coin());
    books(&mut gone)?;
    mgr::verify_empty()
}

fn pair<M: Manager, H: Head, I: Item>(s: &mut Src, c: &mut Ctx, m: M) -> CaseResult {
    let (mut next, mut gone) = (0, vec![]);
    let mut v: Vec<Obj<M, H, I>> = vec![];
    let mut trace = vec![];
    for _ in 0..s.size(2, 14) {
        let k = s.below(4);
        trace.push(k);
        match k {
            0 | 1 => v.push(Obj::new(s, m, &mut next)?),
            2 if !v.is_empty() => {
                let i = s.below(v.len() as u64) as usize;
                v[i].write(s, &mut next, &mut gone);
            }
            3 if !v.is_empty() => {
                let i = s.below(v.len() as u64) as usize;
                let sh = s.coin();
                v.swap_remove(i).release(&mut gone, sh);
            }
            _ => {}
        }
        books(&mut gone)?;
        check!(mgr::live() == v.len(), "{} blocks for {} objects", mgr::live(), v.len());
    }
    let lens: Vec<usize> = v.iter().map(|o| o.ids.len()).collect();
    c.show(|| format!("header {}, items {}: {lens:?}", H::NAME, I::NAME));
    c.nt(trace.len() >= 4, &(H::NAME, I::NAME, trace, lens));
    for o in &v {
        o.holds()?;
    }
    for o in v {
        o.release(&mut gone, false);
    }
    books(&mut gone)?;
    mgr::verify_empty()
}

fn single<M: Manager, T: Item>(s: &mut Src, c: &mut Ctx, m: M) -> CaseResult {
    let id = 1 + s.below(1000);
    c.show(|| format!("fixed {} {id}", T::NAME));
    c.nt(true, &(T::NAME, id));
    let mut r = m.fixed_new(T::make(id));
    let mut gone = vec![];
    let placed = |p: usize, size: usize| -> CaseResult {
        let Some((b, l)) = mgr::last_block() else { return Err("no block".into()) };
        check!(p % align_of::<T>() == 0, "the object is at {p:x}, aligned to {}", align_of::<T>());
        check!(l.align() >= align_of::<T>() && b % l.align() == 0, "a block of {l:?}");
        check!(p > b && p + size_of::<T>() <= b + l.size(), "the object ends beyond its block");
        check!(p + size == b + l.size() && size >= size_of::<T>(), "the object at {} reports {size} bytes in a block of {}", p - b, l.size());
        Ok(())
    };
    let size = r.object_size();
    placed(&r.0 as *const T as usize, size)?;
    check!(r.0.same(id), "the object changed");
    if s.coin() {
        r.0 = T::make(id + 1);
        if T::DROPS {
            gone.push(T::trace(id));
        }
        check!(r.0.same(id + 1), "the object changed");
    } else {
        r.0 = T::make(id);
        if T::DROPS {
            gone.push(T::trace(id));
        }
        r.0 = T::make(id + 1);
        if T::DROPS {
            gone.push(T::trace(id));
        }
    }
    if s.coin() {
        drop(r);
    } else {
        let a = r.to_ref();
        let b = a.clone();
        check!(b.0.same(id + 1), "the object changed");
        drop(a);
        books(&mut gone)?;
        drop(b);
    }
    if T::DROPS {
        gone.push(T::trace(id + 1));
    }
    books(&mut gone)?;
    mgr::verify_empty()
}

/// Objects of the library's own managers.
fn own<M: Manager, H: Head, I: Item>(s: &mut Src, c: &mut Ctx, m: M, name: &str) -> CaseResult {
    let mut next = 0;
    let mut gone = vec![];
    let mut fresh = || {
        next += 1;
        next
    };
    let mut live = vec![];
    let mut lens = vec![];
    for _ in 0..s.size(1, 5) {
        let n = gen_len::<H>(s).min(600);
        lens.push(n);
        let head = fresh();
        let ids: Vec<u64> = (0..n).map(|_| fresh()).collect();
        let items: Vec<I> = ids.iter().map(|&i| I::make(i)).collect();
        let r = m.new(FlexibleArrayConstructor::new(H::make(n, head), items.into_iter())).to_ref();
        let id = fresh();
        live.push((r, m.fixed_new(I::make(id)).to_ref(), head, ids, id));
    }
    c.show(|| format!("{name}: header {}, items {}: {lens:?}", H::NAME, I::NAME));
    c.nt(lens.iter().any(|&n| n >= 2), &(name, H::NAME, I::NAME, &lens));
    let mut ranges = vec![];
    for (r, f, head, ids, id) in &live {
        check!(r.header.same(ids.len(), *head), "the header changed");
        check!(r.items().len() == ids.len(), "{} items instead of {}", r.items().len(), ids.len());
        let (h, p) = (&r.header as *const H as usize, r.items().as_ptr() as usize);
        check!(h % align_of::<H>() == 0, "the header is at {h:x}, aligned to {}", align_of::<H>());
        check!(p % align_of::<I>() == 0, "the items are at {p:x}, aligned to {}", align_of::<I>());
        let f0 = &f.0 as *const I as usize;
        check!(f0 % align_of::<I>() == 0, "the object is at {f0:x}, aligned to {}", align_of::<I>());
        check!(r.items().iter().zip(ids).all(|(x, &i)| x.same(i)) && f.0.same(*id), "the contents changed");
        ranges.push((h, h + r.object_size()));
        ranges.push((f0, f0 + f.object_size()));
    }
    ranges.retain(|r| r.0 != r.1);
    ranges.sort();
    check!(ranges.windows(2).all(|w| w[0].1 <= w[1].0), "objects overlap");
    while !live.is_empty() {
        let i = s.below(live.len() as u64) as usize;
        let (r, f, head, ids, id) = live.swap_remove(i);
        if s.coin() {
            let k = (r.clone(), f.clone());
            drop((r, f));
            drop(k);
        } else {
            drop((r, f));
        }
        if I::DROPS {
            gone.extend(ids.iter().chain(&[id]).map(|&i| I::trace(i)));
        }
        gone.extend(head_trace::<H>(head));
        books(&mut gone)?;
    }
    Ok(())
}
fn own_global<H: Head, I: Item>(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let bad = bad_releases();
    own::<_, H, I>(s, c, GLOBAL, "global")?;
    check!(bad_releases() == bad, "a block is released with another layout than it was requested with");
    Ok(())
}
fn own_local<H: Head, I: Item>(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let bad = bad_releases();
    let l = Local::default();
    own::<_, H, I>(s, c, &l, "local")?;
    check!(mgr::counted(&l).unwrap_or(0) == 0, "{:?} objects are still counted after the release of everything", mgr::counted(&l));
    check!(l.size() == 0, "{} bytes are still counted after the release of everything", l.size());
    check!(bad_releases() == bad, "a block is released with another layout than it was requested with");
    Ok(())
}
macro_rules! owns {
    ($($h:ty),*) => { &[$(owns!(@ $h; u8, u128, A64, Z32, Tok24, Tok128, TokZ)),*] };
    (@ $h:ty; $($i:ty),*) => { [$(own_global::<$h, $i> as CaseOf, own_local::<$h, $i> as CaseOf),*] };
}
const OWN: &[[CaseOf; 14]] = owns!(usize, H8P, H64A, HTok);
fn managers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    start();
    let i = s.enumerate(4 * 14) as usize;
    OWN[i / 14][i % 14](s, c)
}

type CaseOf = fn(&mut Src, &mut Ctx) -> CaseResult;

macro_rules! rows {
    ($f:ident; $($h:ty),*) => {
        &[$(
            &[
                items!($f, $h; (), u8, u16, u32, u64, u128, [u8; 3], [u8; 7], [u8; 33], A64, Z32, Tok8, Tok24, Tok128, TokZ, Box<u64>)
            ]
        ),*]
    };
}
macro_rules! items {
    ($f:ident, $h:ty; $($i:ty),*) => {
        [$((|s, c| $f::<_, $h, $i>(s, c, Chk())) as CaseOf, (|s, c| $f::<_, $h, $i>(s, c, ChkAtomic())) as CaseOf),*]
    };
}

const ONE: &[&[[CaseOf; 32]]] = rows!(one; usize, H8, H8P, H16, H32P, H64A, HSign, HZ, HTok, HBox);
const PAIR: &[&[[CaseOf; 32]]] = rows!(pair; usize, H8P, H64A, HTok);

macro_rules! singles {
    ($($i:ty),*) => {
        &[$((|s, c| single::<_, $i>(s, c, Chk())) as CaseOf, (|s, c| single::<_, $i>(s, c, ChkAtomic())) as CaseOf),*]
    };
}
const SINGLE: &[CaseOf] = singles!((), u8, u16, u32, u64, u128, [u8; 3], [u8; 7], [u8; 33], A64, Z32, Tok8, Tok24, Tok128, TokZ, Box<u64>);

/// Its release is recorded and may be interrupted.
#[repr(C)]
struct Bomb {
    id: u64,
    check: u64,
}
thread_local! {
    static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
impl Drop for Bomb {
    fn drop(&mut self) {
        let ok = self.check == mix(self.id);
        dropped(if ok { self.id } else { u64::MAX });
        if ok && FUSE.with(|f| f.get()) == self.id && !std::thread::panicking() {
            FUSE.with(|f| f.set(u64::MAX));
            panic!("interrupted");
        }
    }
}
fn bomb(id: u64) -> Bomb {
    Bomb { id, check: mix(id) }
}
/// Gives bombs and stops with a panic before one of them.
struct Stops {
    next: u64,
    stop: u64,
}
impl Iterator for Stops {
    type Item = Bomb;
    fn next(&mut self) -> Option<Bomb> {
        if self.next == self.stop {
            panic!("interrupted");
        }
        self.next += 1;
        Some(bomb(self.next - 1))
    }
}

/// The caller's code panics while an object is made or released: nothing that was not given is
/// released, nothing twice, and nothing else is touched.
fn broken<M: Manager, H: Head>(s: &mut Src, c: &mut Ctx, m: M) -> CaseResult {
    let (mut next, mut gone) = (0, vec![]);
    let mut o = Obj::<M, H, Tok8>::new(s, m, &mut next)?;
    let n = gen_len::<H>(s).min(100) as u64;
    let base = 1u64 << 32;
    let id = 7;
    let k = if n == 0 { 2 } else { s.below(3) };
    let at = s.below(n.max(1));
    let share = s.below(3);
    c.label(["an item cannot be made", "a release of an item stops", "a release of a fixed object stops"][k as usize]);
    c.show(|| format!("header {}, {n} items, kind {k}, at {at}, shared {share}", H::NAME));
    c.nt(n >= 2, &(H::NAME, k, n, at, share));
    start();
    let given = match k {
        0 => {
            let items = Stops { next: base, stop: base + at };
            let r = guarded(|| drop(m.new(FlexibleArrayConstructor::new(H::make(n as usize, id), items))));
            check!(r.is_err(), "{n} items were made of {at}");
            at
        }
        1 => {
            let x = m.new(FlexibleArrayConstructor::new(H::make(n as usize, id), (base..base + n).map(bomb)));
            FUSE.with(|f| f.set(base + at));
            let _ = guarded(move || match share {
                0 => drop(x),
                1 => drop(x.to_ref()),
                _ => {
                    let r = x.to_ref();
                    drop(r.clone());
                    drop(r)
                }
            });
            n
        }
        _ => {
            let x = m.fixed_new(bomb(base));
            FUSE.with(|f| f.set(base));
            let _ = guarded(move || match share {
                0 => drop(x),
                _ => drop(x.to_ref().clone()),
            });
            1
        }
    };
    check!(k == 0 || FUSE.with(|f| f.replace(u64::MAX)) == u64::MAX, "the item was not released");
    let mut d = DROPPED.with(|d| d.borrow().clone());
    d.sort();
    check!(d.windows(2).all(|w| w[0] != w[1]), "released twice: {d:x?}");
    let head = head_trace::<H>(id).filter(|_| k < 2);
    for x in d {
        check!((base..base + given).contains(&x) || Some(x) == head, "{x:x} is released and was not given");
    }
    // all the rest is as before, and goes on
    start();
    o.holds()?;
    mgr::verify()?;
    o.write(s, &mut next, &mut gone);
    let p = Obj::<M, H, Tok8>::new(s, m, &mut next)?;
    p.holds()?;
    o.holds()?;
    o.release(&mut gone, s.coin());
    p.release(&mut gone, s.coin());
    books(&mut gone)?;
    mgr::verify()
}

fn interrupted(s: &mut Src, c: &mut Ctx) -> CaseResult {
    start();
    FUSE.with(|f| f.set(u64::MAX));
    match s.enumerate(12) {
        0 => broken::<_, usize>(s, c, Chk()),
        1 => broken::<_, H8>(s, c, Chk()),
        2 => broken::<_, H8P>(s, c, Chk()),
        3 => broken::<_, H64A>(s, c, Chk()),
        4 => broken::<_, HSign>(s, c, Chk()),
        5 => broken::<_, HZ>(s, c, Chk()),
        6 => broken::<_, HTok>(s, c, Chk()),
        7 => broken::<_, HBox>(s, c, Chk()),
        8 => broken::<_, usize>(s, c, ChkAtomic()),
        9 => broken::<_, HZ>(s, c, ChkAtomic()),
        10 => broken::<_, HTok>(s, c, ChkAtomic()),
        _ => broken::<_, HBox>(s, c, ChkAtomic()),
    }
}

fn start() {
    DROPPED.with(|d| d.borrow_mut().clear());
}

fn variable(s: &mut Src, c: &mut Ctx) -> CaseResult {
    start();
    let i = s.enumerate(10 * 32) as usize;
    ONE[i / 32][0][i % 32](s, c)
}

fn several(s: &mut Src, c: &mut Ctx) -> CaseResult {
    start();
    let i = s.enumerate(4 * 32) as usize;
    PAIR[i / 32][0][i % 32](s, c)
}

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    start();
    let i = s.enumerate(32) as usize;
    SINGLE[i](s, c)
}

/// Records what it is asked for, and has nothing.
#[derive(Clone, Copy, Debug)]
struct Nothing;
thread_local! {
    static ASKED: RefCell<Option<std::alloc::Layout>> = const { RefCell::new(None) };
}
impl nanvm_lib::mem::manager::Dealloc for Nothing {
    type BlockHeader = std::cell::Cell<isize>;
    unsafe fn dealloc(_: *mut u8, _: std::alloc::Layout) {}
}
impl Manager for Nothing {
    type Dealloc = Self;
    unsafe fn alloc(self, layout: std::alloc::Layout) -> *mut u8 {
        ASKED.with(|a| *a.borrow_mut() = Some(layout));
        panic!("nothing left")
    }
}

/// A length next to one where the size of the items, or of the block, leaves a machine word.
fn far_len(s: &mut Src, unit: usize) -> u64 {
    let unit = unit as u128;
    let top = match s.below(4) {
        0 => 1u128 << 63,
        1 => s.below(unit as u64 + 1) as u128 * (1 << 64) + (s.below(2) as u128) * (1 << 63),
        2 => 1u128 << s.size(40, 70),
        _ => s.bits() as u128 * unit,
    };
    let at = (top / unit).min(u64::MAX as u128) as u64;
    let d = s.size(0, 200) as u64;
    if s.coin() {
        at.saturating_add(d)
    } else {
        at.saturating_sub(d)
    }
}

fn refused_as<H: Head, I: Item>(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let len = far_len(s, size_of::<I>());
    let need = size_of::<H>() as u128 + size_of::<I>() as u128 * len as u128;
    c.show(|| format!("{len} items {} after a header {}: {need} bytes", I::NAME, H::NAME));
    c.nt(need > 1 << 62, &(H::NAME, I::NAME, len));
    ASKED.with(|a| *a.borrow_mut() = None);
    DROPPED.with(|d| d.borrow_mut().clear());
    let r = guarded(|| {
        let items = std::iter::repeat_with(|| I::make(1));
        std::mem::forget(Nothing.new(FlexibleArrayConstructor::new(H::make(len as usize, 1), items)));
    });
    check!(r.is_err(), "there are {len} items in no memory");
    if let Some(l) = ASKED.with(|a| *a.borrow()) {
        check!(l.size() as u128 >= need, "a block of {} bytes is wanted", l.size());
        check!(l.size() <= isize::MAX as usize + 1 - l.align(), "a block of {} bytes cannot be", l.size());
        check!(l.align() >= align_of::<I>().max(align_of::<H>()), "the block is aligned to {}", l.align());
    }
    Ok(())
}

/// Lengths that cannot be.
fn refused(s: &mut Src, c: &mut Ctx) -> CaseResult {
    match s.below(12) {
        0 => refused_as::<usize, u8>(s, c),
        1 => refused_as::<usize, u16>(s, c),
        2 => refused_as::<usize, u32>(s, c),
        3 => refused_as::<usize, u64>(s, c),
        4 => refused_as::<usize, u128>(s, c),
        5 => refused_as::<usize, [u8; 3]>(s, c),
        6 => refused_as::<HTok, [u8; 7]>(s, c),
        7 => refused_as::<H64A, [u8; 33]>(s, c),
        8 => refused_as::<HBox, A64>(s, c),
        9 => refused_as::<H64A, u16>(s, c),
        10 => refused_as::<HTok, Tok24>(s, c),
        _ => refused_as::<HBox, Box<u64>>(s, c),
    }
}

/// Makes an object that cannot be in memory, in a process of its own.
pub fn exhaust_process(manager: &str, kind: &str, len: usize) -> i32 {
    fn with<M: Manager>(m: M, kind: &str, len: usize) {
        match kind {
            "bytes" => std::mem::forget(m.flexible_array_new((0..len).map(|i| i as u8))),
            "string" => std::mem::forget(m.flexible_array_new((0..len).map(|i| i as u16))),
            "digits" => std::mem::forget(m.flexible_array_new((0..len).map(|i| i as u64))),
            _ => std::mem::forget(m.flexible_array_new((0..len).map(|_| A64(1)))),
        }
    }
    NONE_LEFT.store(true, std::sync::atomic::Ordering::Relaxed);
    match manager {
        "global" => with(GLOBAL, kind, len),
        _ => with(&Local::default(), kind, len),
    }
    0
}

/// More than there is of memory: the process says so, it does not write where nothing is.
fn exhausted(s: &mut Src, c: &mut Ctx) -> CaseResult {
    use std::os::unix::process::ExitStatusExt;
    let (manager, kind) = (*s.pick(&["global", "local"]), *s.pick(&["bytes", "string", "digits", "wide"]));
    let unit: u64 = match kind {
        "bytes" => 1,
        "string" => 2,
        "digits" => 8,
        _ => 64,
    };
    // no address space has as much
    let bytes = 1u64 << s.size(48, 63);
    let len = bytes / unit + s.below(1000);
    c.show(|| format!("{len} items of {unit} bytes from the {manager} manager"));
    c.nt(true, &(manager, kind, len));
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["exhaust", manager, kind, &len.to_string()])
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    let st = out.status;
    check!(st.code() != Some(0), "it succeeds");
    // reported by a panic, or by the error of the allocator, which aborts
    check!(st.signal().is_none_or(|n| n == 6), "the process dies with signal {:?}", st.signal());
    // a null reference is found by a check of the compiler's, which also aborts
    let err = String::from_utf8_lossy(&out.stderr);
    check!(!err.contains("non-unwinding panic"), "the process dies: {}", clip(&err, 200));
    Ok(())
}
