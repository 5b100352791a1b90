//! C14: dynamic values.
use crate::{
    check,
    fw::*,
    mgr,
    mgr::{Chk, ChkAtomic},
    val::{self, Opt, Val, V},
};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{JsArray, JsArrayRef},
        js_bigint::{JsBigint, JsBigintRef, Sign},
        js_object::{JsObject, JsObjectRef},
        js_string::{JsString, JsStringRef},
        null::Null,
        type_::Type,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
    },
};
use std::{alloc::Layout, cell::Cell, collections::HashSet};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "Doubles with every value of the top sixteen bits and boundary or random low bits, both booleans, null, and random graphs of strings, big integers, arrays and objects, over managers with plain and atomic counters and at chosen addresses from the lowest to the highest of the 47-bit address space; every node is asked for its kind, converted to and borrowed as every kind, visited, iterated and compared with every other. Non-trivial: a double outside the ordinary range (infinite, NaN, or with a tag-like top), or a graph of at least two nodes; distinct by bits or by graph.",
        assumptions: &[
            "a refused conversion consumes the handle it was given; other handles keep the value",
            "strings and big integers compare by identity, as arrays and objects do",
        ],
        parts: &[
            Part { name: "tags", quick: 65_536 * 4, thorough: 65_536 * 64, run: tags },
            Part { name: "numbers", quick: 1_000_000, thorough: 5_000_000, run: numbers },
            Part { name: "graphs", quick: 300_000, thorough: 2_000_000, run: graphs },
            Part { name: "atomic", quick: 100_000, thorough: 600_000, run: atomic },
            Part { name: "large", quick: 400, thorough: 8_000, run: large },
            Part { name: "addresses", quick: 100_000, thorough: 400_000, run: addresses },
        ],
    }
}

/// What `a` is, according to everything it can be asked.
fn kinds<D: Dealloc>(a: &Any<D>, want: Type) -> CaseResult {
    let t = a.get_type();
    check!(t == want, "a {want:?} has the type {t:?}");
    let is = [
        (a.is::<f64>(), Type::Number, "f64"),
        (a.is::<bool>(), Type::Bool, "bool"),
        (a.is::<Null>(), Type::Null, "Null"),
        (a.is::<JsStringRef<D>>(), Type::String, "JsStringRef"),
        (a.is::<JsObjectRef<D>>(), Type::Object, "JsObjectRef"),
        (a.is::<JsArrayRef<D>>(), Type::Array, "JsArrayRef"),
        (a.is::<JsBigintRef<D>>(), Type::Bigint, "JsBigintRef"),
    ];
    for (x, t, n) in is {
        check!(x == (t == want), "is::<{n}>() of a {want:?} is {x}");
    }
    let refs = [
        (a.try_ref::<JsString>().is_ok(), Type::String, "JsString"),
        (a.try_ref::<JsObject<D>>().is_ok(), Type::Object, "JsObject"),
        (a.try_ref::<JsArray<D>>().is_ok(), Type::Array, "JsArray"),
        (a.try_ref::<JsBigint>().is_ok(), Type::Bigint, "JsBigint"),
    ];
    for (x, t, n) in refs {
        check!(x == (t == want), "try_ref::<{n}>() of a {want:?}: {x}");
    }
    let moves = [
        (a.clone().try_move::<f64>().is_ok(), Type::Number, "f64"),
        (a.clone().try_move::<bool>().is_ok(), Type::Bool, "bool"),
        (a.clone().try_move::<Null>().is_ok(), Type::Null, "Null"),
        (a.clone().try_move::<JsStringRef<D>>().is_ok(), Type::String, "JsStringRef"),
        (a.clone().try_move::<JsObjectRef<D>>().is_ok(), Type::Object, "JsObjectRef"),
        (a.clone().try_move::<JsArrayRef<D>>().is_ok(), Type::Array, "JsArrayRef"),
        (a.clone().try_move::<JsBigintRef<D>>().is_ok(), Type::Bigint, "JsBigintRef"),
    ];
    for (x, t, n) in moves {
        check!(x == (t == want), "try_move::<{n}>() of a {want:?}: {x}");
    }
    let v = match to_visitor(a.clone()) {
        Visitor::Number(_) => Type::Number,
        Visitor::Null => Type::Null,
        Visitor::Bool(_) => Type::Bool,
        Visitor::String(_) => Type::String,
        Visitor::Object(_) => Type::Object,
        Visitor::Array(_) => Type::Array,
        Visitor::Bigint(_) => Type::Bigint,
    };
    check!(v == want, "a {want:?} is visited as a {v:?}");
    let r = matches!(want, Type::String | Type::Object | Type::Array | Type::Bigint);
    check!(a.is_ref() == r, "is_ref() of a {want:?} is {}", a.is_ref());
    check!(a == a && *a == a.clone(), "a {want:?} differs from its own copy");
    check!(hash_of(a) == hash_of(&a.clone()), "a {want:?} and its copy hash differently");
    if !matches!(want, Type::Array | Type::Object) {
        let mut n = 0;
        let e: Result<(), ()> = a.for_each(|_, _| {
            n += 1;
            Ok(())
        });
        check!(e.is_ok() && n == 0, "a {want:?} has children");
    }
    Ok(())
}

fn same_number(got: f64, want: f64) -> bool {
    if want.is_nan() {
        got.is_nan()
    } else {
        got.to_bits() == want.to_bits()
    }
}

fn number_is(f: f64) -> CaseResult {
    type A = Any<Chk>;
    let a: A = Any::move_from(f);
    let at = format!("{:016x}", f.to_bits());
    kinds(&a, Type::Number).map_err(|e| format!("{at}: {e}"))?;
    let g = a.clone().try_move::<f64>().unwrap();
    check!(same_number(g, f), "{at} comes back as {:016x}", g.to_bits());
    let Visitor::Number(g) = to_visitor(a.clone()) else { unreachable!() };
    check!(same_number(g, f), "{at} is visited as {:016x}", g.to_bits());
    let b: A = f.move_to_any();
    check!(a == b, "{at} stored twice is not equal");
    check!(hash_of(&a) == hash_of(&b), "{at} stored twice hashes differently");
    let others: [A; 4] = [Any::move_from(true), Any::move_from(false), Any::move_from(Null()), Any::move_from(if f == 5.0 { 6.0 } else { 5.0 })];
    for (i, o) in others.iter().enumerate() {
        check!(a != *o, "{at} equals {}", ["true", "false", "null", "another number"][i]);
    }
    // as an element
    use nanvm_lib::js::new::New;
    let arr = GLOBAL.new_js_array([Any::move_from(f), Any::move_from(f)]);
    let Visitor::Array(r) = to_visitor(arr) else { return Err("an array is not one".into()) };
    for x in r.items() {
        check!(x.get_type() == Type::Number && same_number(x.clone().try_move().unwrap(), f), "{at} changes inside an array");
    }
    Ok(())
}

fn odd(f: f64) -> bool {
    !f.is_finite() || f.to_bits() >> 48 >= 0xFFF0
}

/// Every value of the top sixteen bits.
fn tags(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let top = s.enumerate(65_536);
    let extra = s.bits() & 0xFFFF_FFFF_FFFF;
    let lows = [0, 1, 2, 0xFFFF_FFFF_FFFF, 0x8000_0000_0000, 0x7FFF_FFFF_FFF8, 0x5555_5555_5550, extra];
    c.show(|| format!("top bits {top:04x}, low bits {lows:x?}"));
    c.nt(top & 0x7FF0 == 0x7FF0, &(top, extra));
    for l in lows {
        number_is(f64::from_bits(top << 48 | l))?;
    }
    // primitives of the other kinds
    if top == 0 {
        for b in [false, true] {
            let a: Any<Chk> = Any::move_from(b);
            kinds(&a, Type::Bool)?;
            check!(a.clone().try_move::<bool>() == Ok(b), "{b} comes back as {}", !b);
            let Visitor::Bool(v) = to_visitor(a.clone()) else { unreachable!() };
            check!(v == b, "{b} is visited as {v}");
            check!(a == Any::move_from(b) && a != Any::move_from(!b) && a != Any::move_from(Null()), "{b} compares wrongly");
        }
        let a: Any<Chk> = Any::move_from(Null());
        kinds(&a, Type::Null)?;
        check!(a == Any::move_from(Null()), "null differs from null");
    }
    Ok(())
}

fn numbers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = match s.weighted(&[3, 2, 2, 2]) {
        0 => f64::from_bits(val::gen_num(s)),
        1 => f64::from_bits(s.bits()),
        2 => f64::from_bits(*s.pick(&[0x7FF0u64, 0x7FF8, 0xFFF0, 0xFFF8, 0xFFFA, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF]) << 48 | s.bits() >> 16),
        _ => {
            // few bits
            let mut b = *s.pick(&[0u64, 0x7FF0 << 48, 0xFFF0 << 48, u64::MAX]);
            for _ in 0..s.size(0, 3) {
                b ^= 1 << s.below(64);
            }
            f64::from_bits(b)
        }
    };
    c.show(|| format!("{:016x} ({f})", f.to_bits()));
    c.nt(odd(f), &f.to_bits());
    c.label(if f.is_nan() { "NaN" } else if f.is_finite() { "finite" } else { "infinite" });
    number_is(f)
}

fn want_type(v: &V) -> Type {
    match &**v {
        Val::Null => Type::Null,
        Val::Bool(_) => Type::Bool,
        Val::Num(_) => Type::Number,
        Val::Str(_) => Type::String,
        Val::Big(_) => Type::Bigint,
        Val::Arr(_) => Type::Array,
        Val::Obj(_) => Type::Object,
    }
}

/// Walks value and model together.
fn walk<D: Dealloc>(a: &Any<D>, v: &V, seen: &mut HashSet<usize>, all: &mut Vec<(Any<D>, V)>) -> CaseResult {
    kinds(a, want_type(v))?;
    all.push((a.clone(), v.clone()));
    match &**v {
        Val::Null => {}
        Val::Bool(b) => check!(a.clone().try_move::<bool>() == Ok(*b), "{b} comes back wrong"),
        Val::Num(n) => check!(same_number(a.clone().try_move::<f64>().unwrap(), f64::from_bits(*n)), "a number changes"),
        Val::Str(x) => {
            check!(a.try_ref::<JsString>().unwrap().object().items() == &x[..], "a borrowed string has other contents");
            check!(a.clone().try_move::<JsStringRef<D>>().unwrap().items() == &x[..], "a string has other contents");
            let Visitor::String(r) = to_visitor(a.clone()) else { unreachable!() };
            check!(r.items() == &x[..], "a visited string has other contents");
            check!(Any::move_from(r) == *a, "a string moved back differs");
        }
        Val::Big(i) => {
            let ok = |sg: Sign, d: &[u64]| (sg == Sign::Negative) == i.neg && d == &i.digits()[..];
            let b = a.try_ref::<JsBigint>().unwrap().object();
            check!(ok(b.sign(), b.items()), "a borrowed big integer has another value");
            let r = a.clone().try_move::<JsBigintRef<D>>().unwrap();
            check!(ok(r.sign(), r.items()), "a big integer has another value");
            check!(Any::move_from(r) == *a, "a big integer moved back differs");
        }
        Val::Arr(items) => {
            let r = a.clone().try_move::<JsArrayRef<D>>().unwrap();
            let b = a.try_ref::<JsArray<D>>().unwrap().object();
            check!(r.items().len() == items.len() && b.items().len() == items.len(), "an array of {} elements has {}", items.len(), r.items().len());
            check!(r.items() == b.items(), "an array borrowed and moved has different elements");
            check!(Any::move_from(r.clone()) == *a, "an array moved back differs");
            let mut n = 0;
            let e: CaseResult = a.for_each(|k, x| {
                check!(n < items.len(), "an array has too many children");
                check!(k.try_move::<f64>() == Ok(n as f64), "element {n} has another index");
                check!(*x == r.items()[n], "element {n} is another one");
                n += 1;
                Ok(())
            });
            e?;
            check!(n == items.len(), "{n} of {} elements are iterated", items.len());
            stops(a, items.len())?;
            if seen.insert(&*r as *const _ as *const u8 as usize) {
                for (x, y) in r.items().iter().zip(items) {
                    walk(x, y, seen, all)?;
                }
            }
        }
        Val::Obj(items) => {
            let r = a.clone().try_move::<JsObjectRef<D>>().unwrap();
            let b = a.try_ref::<JsObject<D>>().unwrap().object();
            check!(r.items().len() == items.len() && b.items().len() == items.len(), "an object of {} properties has {}", items.len(), r.items().len());
            check!(Any::move_from(r.clone()) == *a, "an object moved back differs");
            let mut n = 0;
            let e: CaseResult = a.for_each(|k, x| {
                check!(n < items.len(), "an object has too many children");
                let Ok(k) = k.try_move::<JsStringRef<D>>() else { return Err(format!("key {n} is not a string")) };
                check!(k.items() == &items[n].0[..], "key {n} is another one");
                check!(*x == r.items()[n].1, "property {n} is another one");
                n += 1;
                Ok(())
            });
            e?;
            check!(n == items.len(), "{n} of {} properties are iterated", items.len());
            stops(a, items.len())?;
            if seen.insert(&*r as *const _ as *const u8 as usize) {
                for (x, y) in r.items().iter().zip(items) {
                    walk(&x.1, &y.1, seen, all)?;
                }
            }
        }
    }
    Ok(())
}

/// An error stops the iteration at once and is handed on.
fn stops<D: Dealloc>(a: &Any<D>, n: usize) -> CaseResult {
    if n == 0 {
        return Ok(());
    }
    let at = n / 2;
    let mut i = 0;
    let r = a.for_each(|_, _| {
        i += 1;
        if i > at {
            Err(i)
        } else {
            Ok(())
        }
    });
    check!(r == Err(at + 1) && i == at + 1, "iteration after an error at {at} of {n}: {r:?}, {i} calls");
    Ok(())
}

/// The block of a value, if it has one.
fn address<D: Dealloc>(a: &Any<D>) -> Option<usize> {
    match to_visitor(a.clone()) {
        Visitor::String(r) => Some(&*r as *const _ as *const u8 as usize),
        Visitor::Bigint(r) => Some(&*r as *const _ as *const u8 as usize),
        Visitor::Array(r) => Some(&*r as *const _ as *const u8 as usize),
        Visitor::Object(r) => Some(&*r as *const _ as *const u8 as usize),
        _ => None,
    }
}

fn graph_is<M: Manager>(m: M, v: &V) -> CaseResult {
    let a = val::build(m, v);
    let mut all = vec![];
    walk(&a, v, &mut HashSet::new(), &mut all)?;
    let addr: Vec<Option<usize>> = all.iter().map(|x| address(&x.0)).collect();
    let n = all.len().min(40);
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (&all[i], &all[j]);
            let want = match (addr[i], addr[j]) {
                (Some(p), Some(q)) => Some(p == q),
                (None, None) => match (&*x.1, &*y.1) {
                    (Val::Num(p), Val::Num(q)) if p == q => Some(true),
                    // two NaNs, or both zeros: not stated
                    (Val::Num(p), Val::Num(q)) => {
                        let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
                        if p == q || p.is_nan() && q.is_nan() { None } else { Some(false) }
                    }
                    (Val::Bool(p), Val::Bool(q)) => Some(p == q),
                    (Val::Null, Val::Null) => Some(true),
                    _ => Some(false),
                },
                _ => Some(false),
            };
            let got = x.0 == y.0;
            if let Some(w) = want {
                check!(got == w, "{} and {} compare {got}", clip(&val::show(&x.1), 100), clip(&val::show(&y.1), 100));
            }
            if got {
                check!(hash_of(&x.0) == hash_of(&y.0), "equal values hash differently");
            }
        }
    }
    // the same contents again are other containers
    let b = val::build(m, v);
    if address(&a).is_some() {
        check!(a != b, "two containers of the same contents are one");
    }
    let (p, q) = (val::read(&a), val::read(&b));
    drop((a, b, all));
    val::iso(v, &p)?;
    val::iso(v, &q)
}

fn opt() -> Opt {
    Opt { big: true, lone: true, share: true, wild_keys: true, nan: true, max: 8 }
}

fn graphs(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = val::gen_val(s, opt());
    c.show(|| val::show(&v));
    c.nt(val::nodes(&v).len() >= 2, &val::show(&v));
    graph_is(Chk(), &v)?;
    mgr::verify_empty()
}

fn atomic(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = val::gen_val(s, opt());
    c.show(|| val::show(&v));
    c.nt(val::nodes(&v).len() >= 2, &val::show(&v));
    graph_is(ChkAtomic(), &v)?;
    mgr::verify_empty()
}

/// Containers and leaves of sizes around every counter's limit.
fn large_is<M: Manager>(m: M, k: u64, n: usize, at: usize, salt: u64) -> CaseResult {
    use nanvm_lib::js::{js_bigint::new_bigint, js_string::new_string, new::New};
    let inner = m.new_js_array([Any::move_from(1.5)]);
    let child = |i: usize| if i % 7 == 3 { inner.clone() } else { Any::move_from(mix(salt ^ i as u64) as u32 as f64) };
    let a = match k {
        0 => m.new_js_array((0..n).map(child).collect::<Vec<_>>()),
        1 => m.new_js_object((0..n).map(|i| (new_string(m, [i as u16, (i >> 16) as u16]).to_ref(), child(i))).collect::<Vec<_>>()),
        2 => m.new_js_string((0..n).map(|i| mix(salt ^ i as u64) as u16).collect::<Vec<_>>()),
        _ => new_bigint(m, Sign::Negative, (0..n).map(|i| mix(salt ^ i as u64) | 1).collect::<Vec<_>>()).to_ref().move_to_any(),
    };
    let kind = match k {
        0 => Type::Array,
        1 => Type::Object,
        2 => Type::String,
        _ => Type::Bigint,
    };
    kinds(&a, kind)?;
    match k {
        0 => {
            let r = a.clone().try_move::<JsArrayRef<M::Dealloc>>().unwrap();
            check!(r.items().len() == n, "an array of {n} elements has {}", r.items().len());
            let mut i = 0;
            let e: CaseResult = a.for_each(|key, x| {
                check!(key.try_move::<f64>() == Ok(i as f64), "element {i} of {n} has another index");
                check!(*x == child(i) && r.items()[i] == *x, "element {i} of {n} is another one");
                i += 1;
                Ok(())
            });
            e?;
            check!(i == n, "{i} of {n} elements are iterated");
        }
        1 => {
            let r = a.clone().try_move::<JsObjectRef<M::Dealloc>>().unwrap();
            check!(r.items().len() == n, "an object of {n} properties has {}", r.items().len());
            let mut i = 0;
            let e: CaseResult = a.for_each(|key, x| {
                let Ok(s) = key.try_move::<JsStringRef<M::Dealloc>>() else { return Err(format!("key {i} is not a string")) };
                check!(s.items() == [i as u16, (i >> 16) as u16], "key {i} of {n} is another one");
                check!(*x == child(i) && r.items()[i].1 == *x, "property {i} of {n} is another one");
                i += 1;
                Ok(())
            });
            e?;
            check!(i == n, "{i} of {n} properties are iterated");
        }
        2 => {
            let r = a.clone().try_move::<JsStringRef<M::Dealloc>>().unwrap();
            check!(r.items().len() == n && (0..n).all(|i| r.items()[i] == mix(salt ^ i as u64) as u16), "a string of {n} units has other contents");
        }
        _ => {
            let r = a.clone().try_move::<JsBigintRef<M::Dealloc>>().unwrap();
            check!(r.sign() == Sign::Negative, "a big integer of {n} digits has another sign");
            check!(r.items().len() == n && (0..n).all(|i| r.items()[i] == mix(salt ^ i as u64) | 1), "a big integer of {n} digits has another value");
        }
    }
    if k < 2 && n > 0 {
        // stopping anywhere
        let at = at % n;
        let mut i = 0;
        let r = a.for_each(|_, _| {
            i += 1;
            if i > at { Err(i) } else { Ok(()) }
        });
        check!(r == Err(at + 1) && i == at + 1, "iteration after an error at {at} of {n}: {r:?}, {i} calls");
    }
    Ok(())
}

fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 17);
    let k = s.enumerate(4);
    let at = s.size(0, n);
    let salt = s.below(1 << 20);
    let which = s.below(3);
    c.show(|| format!("{} of {n}, values from {salt}, stopped at {at}, manager {which}", ["array", "object", "string", "big integer"][k as usize]));
    c.nt(true, &(n, k, at, salt, which));
    match which {
        0 => large_is(Chk(), k, n, at, salt)?,
        1 => large_is(ChkAtomic(), k, n, at, salt)?,
        _ => return large_is(GLOBAL, k, n, at, salt),
    }
    mgr::verify_empty()
}

// ---------------------------------------------------------------- chosen addresses

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
const PROT_RW: i32 = 3;
/// private, anonymous, fixed, not over an existing mapping
const FLAGS: i32 = 0x02 | 0x20 | 0x10_0000;
const AREA: usize = 1 << 16;

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static END: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
}

/// Bump allocation in one mapped area.
#[derive(Debug, Clone, Copy)]
struct At();
impl Dealloc for At {
    type BlockHeader = Cell<isize>;
    unsafe fn dealloc(_: *mut u8, _: Layout) {
        LIVE.with(|l| l.set(l.get().wrapping_sub(1)));
    }
}
impl Manager for At {
    type Dealloc = At;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        let p = (NEXT.get() + l.align() - 1) & !(l.align() - 1);
        assert!(p + l.size() <= END.get(), "the area is used up");
        NEXT.set(p + l.size());
        LIVE.set(LIVE.get() + 1);
        p as *mut u8
    }
}

fn addresses(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut o = opt();
    o.max = 4;
    let v = val::gen_val(s, o);
    // any page of the lower half of the address space, all single bits and extremes
    let page = match s.weighted(&[3, 3, 2, 2]) {
        0 => s.bits() % ((1 << 47) - (1 << 17)),
        1 => (1u64 << s.size(17, 46)) + s.below(4) * 0x1000,
        2 => (1u64 << s.size(20, 47)).wrapping_sub((1 + s.below(4)) << 17),
        _ => 0x7FFF_0000_0000 - (s.below(64) << 17),
    } as usize;
    let page = (page & !0xFFF).max(0x1_0000);
    let shift = 8 * s.size(0, 64);
    c.show(|| format!("at {:x}+{shift}: {}", page, val::show(&v)));
    let p = unsafe { mmap(page as *mut u8, AREA, PROT_RW, FLAGS, -1, 0) } as usize;
    if p != page {
        // something else is there
        if p as isize > 0 {
            unsafe { munmap(p as *mut u8, AREA) };
        }
        c.label("taken");
        return Ok(());
    }
    c.nt(val::nodes(&v).len() >= 2, &(page, val::show(&v)));
    NEXT.set(page + shift);
    END.set(page + AREA);
    LIVE.set(0);
    let r = guarded(|| graph_is(At(), &v));
    let live = LIVE.get();
    unsafe { munmap(page as *mut u8, AREA) };
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) if e.contains("the area is used up") => {
            c.label("too large");
            let _ = e;
            return Ok(());
        }
        Ok(Err(e)) | Err(e) => return Err(format!("at {page:x}: {e}")),
    }
    check!(live == 0, "at {page:x}: {live} blocks are left");
    Ok(())
}
