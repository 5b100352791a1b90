//! An instrumented memory manager: every block has guard bytes on both sides, freed blocks are
//! poisoned and kept until the end of the case, and every release is checked against the request.

use nanvm_lib::mem::manager::{Dealloc, Manager};
use std::{
    alloc::Layout,
    cell::{Cell, RefCell},
    collections::HashMap,
    hash::BuildHasherDefault,
    sync::atomic::AtomicIsize,
};

#[derive(Default)]
pub struct IdHasher(u64);
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(31) ^ x as u64;
        }
    }
    fn write_usize(&mut self, i: usize) {
        self.0 = crate::fw::mix(i as u64);
    }
}

const GUARD: u8 = 0xC3;
const FRESH: u8 = 0xA5;
const POISON: u8 = 0xDD;
const TAIL: usize = 32;

#[derive(Clone, Copy)]
struct Blk {
    user: Layout,
    real: Layout,
    head: usize,
    serial: u64,
}

#[derive(Default)]
struct State {
    live: HashMap<usize, Blk, BuildHasherDefault<IdHasher>>,
    dead: HashMap<usize, Blk, BuildHasherDefault<IdHasher>>,
    errors: Vec<String>,
    serial: u64,
    live_bytes: usize,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// The manager serves so many requests more and refuses the next one with a panic.
pub fn serve_only(n: Option<u64>) {
    LEFT.with(|l| l.set(n.unwrap_or(u64::MAX)))
}

unsafe fn raw_alloc(user: Layout) -> *mut u8 {
    let left = LEFT.with(|l| l.get());
    if left != u64::MAX {
        LEFT.with(|l| l.set(left.saturating_sub(1)));
        assert!(left > 0, "out of memory");
    }
    let align = user.align().max(16);
    let head = align;
    let real = Layout::from_size_align(head + user.size() + TAIL, align).unwrap();
    let base = std::alloc::alloc(real);
    assert!(!base.is_null());
    base.write_bytes(GUARD, head);
    let p = base.add(head);
    p.write_bytes(FRESH, user.size());
    p.add(user.size()).write_bytes(GUARD, TAIL);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.serial += 1;
        let serial = s.serial;
        s.live_bytes += user.size();
        s.live.insert(
            p as usize,
            Blk {
                user,
                real,
                head,
                serial,
            },
        );
    });
    p
}

unsafe fn guards_ok(p: *const u8, b: &Blk) -> bool {
    let h = std::slice::from_raw_parts(p.sub(b.head), b.head);
    let t = std::slice::from_raw_parts(p.add(b.user.size()), TAIL);
    h.iter().chain(t).all(|&x| x == GUARD)
}

unsafe fn raw_dealloc(p: *mut u8, layout: Layout) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        match s.live.remove(&(p as usize)) {
            Some(b) => {
                s.live_bytes -= b.user.size();
                if b.user.size() != layout.size() || b.user.align() != layout.align() {
                    s.errors.push(format!(
                        "block #{} requested as {:?} but returned as {:?}",
                        b.serial, b.user, layout
                    ));
                }
                if !guards_ok(p, &b) {
                    s.errors.push(format!("bytes around block #{} were overwritten", b.serial));
                }
                p.write_bytes(POISON, b.user.size());
                s.dead.insert(p as usize, b);
            }
            None => {
                let what = match s.dead.get(&(p as usize)) {
                    Some(b) => format!("block #{} returned twice", b.serial),
                    None => "a pointer that was never handed out was returned".to_string(),
                };
                s.errors.push(what);
            }
        }
    })
}

/// Forgets everything and frees the real memory.
pub fn reset() {
    serve_only(None);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = &mut *s;
        for (p, b) in s.live.drain().chain(s.dead.drain()) {
            unsafe { std::alloc::dealloc((p - b.head) as *mut u8, b.real) };
        }
        s.errors.clear();
        s.serial = 0;
        s.live_bytes = 0;
    })
}

pub fn live() -> usize {
    ST.with(|s| s.borrow().live.len())
}
pub fn served() -> u64 {
    ST.with(|s| s.borrow().serial)
}
/// Requested layout of the live block starting at `p`.
pub fn block_at(p: usize) -> Option<(usize, Layout)> {
    ST.with(|s| s.borrow().live.get(&p).map(|b| (p, b.user)))
}
/// The live block containing the address.
pub fn block_containing(a: usize) -> Option<(usize, Layout)> {
    ST.with(|s| {
        s.borrow()
            .live
            .iter()
            .find(|(&p, b)| p <= a && a < p + b.user.size().max(1))
            .map(|(&p, b)| (p, b.user))
    })
}
/// The most recently handed out block, if it is live.
pub fn last_block() -> Option<(usize, Layout)> {
    ST.with(|s| {
        let s = s.borrow();
        let n = s.serial;
        s.live
            .iter()
            .find(|(_, b)| b.serial == n)
            .map(|(&p, b)| (p, b.user))
    })
}

/// Everything that can be checked at any time: no bad release, guards and freed memory intact.
pub fn verify() -> Result<(), String> {
    ST.with(|s| {
        let s = s.borrow();
        if let Some(e) = s.errors.first() {
            return Err(e.clone());
        }
        for (&p, b) in &s.live {
            if !unsafe { guards_ok(p as *const u8, b) } {
                return Err(format!("bytes around live block #{} were overwritten", b.serial));
            }
        }
        for (&p, b) in &s.dead {
            let m = unsafe { std::slice::from_raw_parts(p as *const u8, b.user.size()) };
            if m.iter().any(|&x| x != POISON) {
                return Err(format!("block #{} was written after it was returned", b.serial));
            }
            if !unsafe { guards_ok(p as *const u8, b) } {
                return Err(format!("bytes around returned block #{} were overwritten", b.serial));
            }
        }
        Ok(())
    })
}

pub fn verify_empty() -> Result<(), String> {
    verify()?;
    ST.with(|s| {
        let s = s.borrow();
        if s.live.is_empty() {
            return Ok(());
        }
        let mut n: Vec<_> = s.live.values().map(|b| b.serial).collect();
        n.sort();
        Err(format!(
            "{} of {} blocks never returned (blocks {:?})",
            n.len(),
            s.serial,
            &n[..n.len().min(5)]
        ))
    })
}

/// Manager with the plain counter.
#[derive(Debug, Clone, Copy)]
pub struct Chk();
impl Dealloc for Chk {
    type BlockHeader = Cell<isize>;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        raw_dealloc(p, l)
    }
}
impl Manager for Chk {
    type Dealloc = Chk;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        raw_alloc(l)
    }
}

/// Manager with the atomic counter.
#[derive(Debug, Clone, Copy)]
pub struct ChkAtomic();
impl Dealloc for ChkAtomic {
    type BlockHeader = AtomicIsize;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        raw_dealloc(p, l)
    }
}
impl Manager for ChkAtomic {
    type Dealloc = ChkAtomic;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        raw_alloc(l)
    }
}

/// The number of objects a counting manager says it has, if it says so.
pub fn counted(l: &nanvm_lib::mem::local::Local) -> Option<usize> {
    let t = format!("{l:?}");
    let t = &t[t.find("counter: ")? + 9..];
    let d = t.find(|c: char| c.is_ascii_digit())?;
    t[d..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}
