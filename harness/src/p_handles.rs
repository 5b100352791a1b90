//! C15: lifetimes of shared objects.
use crate::{
    check,
    fw::*,
    mgr::{self, Chk, ChkAtomic},
    val,
};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{JsArray, new_array, JsArrayMutRef, JsArrayRef},
        js_bigint::{new_bigint, JsBigintMutRef, JsBigintRef, Sign},
        js_object::{new_object, JsObjectMutRef, JsObjectRef},
        js_string::{JsString, new_string, JsStringMutRef, JsStringRef},
        null::Null,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        flexible_array::FlexibleArray,
        global::GLOBAL,
        local::Local,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        object::Object,
        ref_::Ref,
    },
};
use std::{cell::RefCell, collections::HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "Random histories of up to about a hundred steps over strings, big integers, arrays, objects, plain objects and arrays of plain objects: create, clone, drop, share, upgrade, write (replace, swap, take out), move into and out of dynamic values (also as the wrong kind), visit, iterate, compare, overwrite handles; over instrumented managers with plain and atomic counters, the accounting manager and the global one. After every step the released contents, the live blocks and the accounted size are compared with a reference model, and regularly all contents. Non-trivial: at least ten steps with a nested object and a shared one; distinct by history.",
        assumptions: &[
            "the arena, which neither counts nor releases by design, is not a counting manager",
            "objects are shared within one thread, but for dynamic values of the global manager if the language lets them go to other threads",
        ],
        parts: &[
            Part { name: "plain counter", quick: 500_000, thorough: 2_000_000, run: plain },
            Part { name: "atomic counter", quick: 250_000, thorough: 1_000_000, run: atomic },
            Part { name: "accounting", quick: 250_000, thorough: 1_000_000, run: local },
            Part { name: "global", quick: 100_000, thorough: 500_000, run: global },
            Part { name: "many handles", quick: 300, thorough: 4_000, run: many },
            Part { name: "threads", quick: 300, thorough: 5_000, run: threads },
            Part { name: "balance", quick: 200_000, thorough: 5_000_000, run: balance },
        ],
    }
}

thread_local! {
    static DROPPED: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

/// Content that records its release.
#[derive(Debug)]
pub struct Tok {
    id: u64,
    check: u64,
}
impl Tok {
    fn new(id: u64) -> Self {
        Tok { id, check: mix(id) }
    }
    fn ok(&self) -> bool {
        self.check == mix(self.id)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let id = if self.ok() { self.id } else { u64::MAX };
        DROPPED.with(|d| d.borrow_mut().push(id));
    }
}

type Flex = FlexibleArray<Tok, usize>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum MV {
    Null,
    Bool(bool),
    Num(u64),
    Ref(usize),
}

#[derive(Clone, Debug)]
enum MC {
    Str(Vec<u16>),
    Big(bool, Vec<u64>),
    Arr(Vec<MV>),
    Obj(Vec<(usize, MV)>),
    Plain(u64),
    Flex(Vec<u64>),
}

struct MO {
    rc: usize,
    c: MC,
    addr: usize,
    /// what the manager accounted for it
    cost: usize,
    alive: bool,
}

enum H<P: Object, D: Dealloc> {
    Any(Any<D>),
    Str(JsStringRef<D>),
    Big(JsBigintRef<D>),
    Arr(JsArrayRef<D>),
    Obj(JsObjectRef<D>),
    Plain(Ref<P, D>),
    Flex(Ref<Flex, D>),
    MStr(JsStringMutRef<D>),
    MBig(JsBigintMutRef<D>),
    MArr(JsArrayMutRef<D>),
    MObj(JsObjectMutRef<D>),
    MPlain(MutRef<P, D>),
    MFlex(MutRef<Flex, D>),
}

impl<P: Object, D: Dealloc> H<P, D> {
    fn is_mut(&self) -> bool {
        matches!(self, H::MStr(_) | H::MBig(_) | H::MArr(_) | H::MObj(_) | H::MPlain(_) | H::MFlex(_))
    }
    /// Another handle to the same object, unless this one is mutable.
    fn copy(&self) -> Option<Self> {
        Some(match self {
            H::Any(x) => H::Any(x.clone()),
            H::Str(x) => H::Str(x.clone()),
            H::Big(x) => H::Big(x.clone()),
            H::Arr(x) => H::Arr(x.clone()),
            H::Obj(x) => H::Obj(x.clone()),
            H::Plain(x) => H::Plain(x.clone()),
            H::Flex(x) => H::Flex(x.clone()),
            _ => return None,
        })
    }
    /// `clone_from` where both are of one kind.
    fn overwrite(&mut self, o: &Self) -> bool {
        match (self, o) {
            (H::Any(a), H::Any(b)) => a.clone_from(b),
            (H::Str(a), H::Str(b)) => a.clone_from(b),
            (H::Big(a), H::Big(b)) => a.clone_from(b),
            (H::Arr(a), H::Arr(b)) => a.clone_from(b),
            (H::Obj(a), H::Obj(b)) => a.clone_from(b),
            (H::Plain(a), H::Plain(b)) => a.clone_from(b),
            (H::Flex(a), H::Flex(b)) => a.clone_from(b),
            _ => return false,
        }
        true
    }
    fn share(self) -> Self {
        match self {
            H::MStr(x) => H::Str(x.to_ref()),
            H::MBig(x) => H::Big(x.to_ref()),
            H::MArr(x) => H::Arr(x.to_ref()),
            H::MObj(x) => H::Obj(x.to_ref()),
            H::MPlain(x) => H::Plain(x.to_ref()),
            H::MFlex(x) => H::Flex(x.to_ref()),
            x => x,
        }
    }
    /// Into a dynamic value where there is one.
    fn any(self) -> Self {
        match self.share() {
            H::Str(x) => H::Any(Any::move_from(x)),
            H::Big(x) => H::Any(Any::move_from(x)),
            H::Arr(x) => H::Any(Any::move_from(x)),
            H::Obj(x) => H::Any(Any::move_from(x)),
            x => x,
        }
    }
    fn upgrade(self) -> Self {
        fn up<T: Object, D: Dealloc, X>(x: Ref<T, D>, a: fn(MutRef<T, D>) -> X, b: fn(Ref<T, D>) -> X) -> X {
            match x.try_to_mut_ref() {
                Ok(m) => a(m),
                Err(r) => b(r),
            }
        }
        match self {
            H::Str(x) => up(x, H::MStr, H::Str),
            H::Big(x) => up(x, H::MBig, H::Big),
            H::Arr(x) => up(x, H::MArr, H::Arr),
            H::Obj(x) => up(x, H::MObj, H::Obj),
            H::Plain(x) => up(x, H::MPlain, H::Plain),
            H::Flex(x) => up(x, H::MFlex, H::Flex),
            x => x,
        }
    }
}

/// What the memory manager can be asked.
#[derive(Clone, Copy)]
struct Obs<'a> {
    /// Number of live blocks.
    live: Option<&'a dyn Fn() -> usize>,
    /// Whether the address lies in a live block.
    inside: Option<&'a dyn Fn(usize) -> bool>,
    /// Accounted size.
    size: Option<&'a dyn Fn() -> usize>,
}

struct Machine<'a, M: Manager, P: Object> {
    m: M,
    obs: Obs<'a>,
    new_plain: fn(M, Tok) -> MutRef<P, M::Dealloc>,
    plain: fn(&P) -> &Tok,
    plain_mut: fn(&mut P) -> &mut Tok,
    heap: Vec<MO>,
    handles: Vec<(H<P, M::Dealloc>, MV)>,
    dropped: Vec<u64>,
    tok: u64,
    log: Vec<String>,
    nested: bool,
    shared: bool,
    kinds: [u64; 14],
}

fn addr_of<T>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

impl<'a, M: Manager, P: Object> Machine<'a, M, P> {
    fn size(&self) -> usize {
        self.obs.size.map_or(0, |f| f())
    }

    // ---- model

    fn add(&mut self, v: MV) {
        if let MV::Ref(i) = v {
            self.heap[i].rc += 1;
            if self.heap[i].rc > 1 {
                self.shared = true;
            }
        }
    }
    fn release(&mut self, v: MV) {
        let MV::Ref(i) = v else { return };
        self.heap[i].rc -= 1;
        if self.heap[i].rc > 0 {
            return;
        }
        self.heap[i].alive = false;
        match self.heap[i].c.clone() {
            MC::Arr(a) => a.into_iter().for_each(|x| self.release(x)),
            MC::Obj(o) => o.into_iter().for_each(|(k, x)| {
                self.release(MV::Ref(k));
                self.release(x);
            }),
            MC::Plain(t) => self.dropped.push(t),
            MC::Flex(t) => self.dropped.extend(t),
            _ => {}
        }
    }
    /// Registers a new object with one handle.
    fn born(&mut self, c: MC, addr: usize, size_before: usize) -> MV {
        let cost = self.size().wrapping_sub(size_before);
        self.heap.push(MO { rc: 1, c, addr, cost, alive: true });
        MV::Ref(self.heap.len() - 1)
    }
    fn fresh(&mut self) -> u64 {
        self.tok += 1;
        self.tok
    }

    // ---- contents

    fn value_ok(&self, a: &Any<M::Dealloc>, v: MV, seen: &mut HashMap<usize, ()>) -> CaseResult {
        match (v, to_visitor(a.clone())) {
            (MV::Null, Visitor::Null) => Ok(()),
            (MV::Bool(x), Visitor::Bool(y)) if x == y => Ok(()),
            (MV::Num(x), Visitor::Number(y)) if x == y.to_bits() => Ok(()),
            (MV::Ref(i), Visitor::String(r)) => self.str_ok(&r, i),
            (MV::Ref(i), Visitor::Bigint(r)) => self.big_ok(&r, i),
            (MV::Ref(i), Visitor::Array(r)) => self.arr_ok(&r, i, seen),
            (MV::Ref(i), Visitor::Object(r)) => self.obj_ok(&r, i, seen),
            (v, _) => Err(format!("a value that should be {v:?} is something else")),
        }
    }
    fn at(&self, i: usize, a: usize) -> CaseResult {
        check!(self.heap[i].addr == a, "a handle to object {i} leads somewhere else");
        check!(self.heap[i].alive, "model error: object {i} is dead");
        Ok(())
    }
    fn str_ok(&self, r: &nanvm_lib::js::js_string::JsString, i: usize) -> CaseResult {
        self.at(i, addr_of(r))?;
        match &self.heap[i].c {
            MC::Str(x) if r.items() == &x[..] => Ok(()),
            x => Err(format!("object {i} should be {x:?} but is the string {:?}", r.items())),
        }
    }
    fn big_ok(&self, r: &nanvm_lib::js::js_bigint::JsBigint, i: usize) -> CaseResult {
        self.at(i, addr_of(r))?;
        match &self.heap[i].c {
            MC::Big(n, x) if r.items() == &x[..] && (r.sign() == Sign::Negative) == *n => Ok(()),
            x => Err(format!("object {i} should be {x:?} but is the big integer {:?}", r.items())),
        }
    }
    fn arr_ok(&self, r: &nanvm_lib::js::js_array::JsArray<M::Dealloc>, i: usize, seen: &mut HashMap<usize, ()>) -> CaseResult {
        self.at(i, addr_of(r))?;
        let MC::Arr(x) = &self.heap[i].c else { return Err(format!("object {i} should be no array")) };
        check!(r.items().len() == x.len(), "array {i} has {} elements instead of {}", r.items().len(), x.len());
        if seen.insert(i, ()).is_none() {
            for (a, v) in r.items().iter().zip(x) {
                self.value_ok(a, *v, seen)?;
            }
        }
        Ok(())
    }
    fn obj_ok(&self, r: &nanvm_lib::js::js_object::JsObject<M::Dealloc>, i: usize, seen: &mut HashMap<usize, ()>) -> CaseResult {
        self.at(i, addr_of(r))?;
        let MC::Obj(x) = &self.heap[i].c else { return Err(format!("object {i} should be no object")) };
        check!(r.items().len() == x.len(), "object {i} has {} properties instead of {}", r.items().len(), x.len());
        if seen.insert(i, ()).is_none() {
            for (a, v) in r.items().iter().zip(x) {
                self.str_ok(&a.0, v.0)?;
                self.value_ok(&a.1, v.1, seen)?;
            }
        }
        Ok(())
    }
    fn plain_ok(&self, r: &P, i: usize) -> CaseResult {
        self.at(i, addr_of(r))?;
        let t = (self.plain)(r);
        match self.heap[i].c {
            MC::Plain(x) if t.ok() && t.id == x => Ok(()),
            _ => Err(format!("plain object {i} has other contents")),
        }
    }
    fn flex_ok(&self, r: &Flex, i: usize) -> CaseResult {
        self.at(i, addr_of(r))?;
        match &self.heap[i].c {
            MC::Flex(x) if r.items().iter().all(Tok::ok) && r.items().iter().map(|t| t.id).eq(x.iter().copied()) => Ok(()),
            _ => Err(format!("array of plain objects {i} has other contents")),
        }
    }
    fn contents(&self) -> CaseResult {
        let mut seen = HashMap::new();
        for (h, v) in &self.handles {
            let i = match v {
                MV::Ref(i) => *i,
                _ => usize::MAX,
            };
            match h {
                H::Any(a) => self.value_ok(a, *v, &mut seen)?,
                H::Str(r) => self.str_ok(r, i)?,
                H::Big(r) => self.big_ok(r, i)?,
                H::Arr(r) => self.arr_ok(r, i, &mut seen)?,
                H::Obj(r) => self.obj_ok(r, i, &mut seen)?,
                H::Plain(r) => self.plain_ok(r, i)?,
                H::Flex(r) => self.flex_ok(r, i)?,
                H::MStr(r) => self.str_ok(r, i)?,
                H::MBig(r) => self.big_ok(r, i)?,
                H::MArr(r) => self.arr_ok(r, i, &mut seen)?,
                H::MObj(r) => self.obj_ok(r, i, &mut seen)?,
                H::MPlain(r) => self.plain_ok(r, i)?,
                H::MFlex(r) => self.flex_ok(r, i)?,
            }
        }
        Ok(())
    }
    /// Released contents, live blocks and accounted size are the model's.
    fn books(&mut self) -> CaseResult {
        let mut got = DROPPED.with(|d| d.borrow().clone());
        got.sort();
        self.dropped.sort();
        check!(got == self.dropped, "contents released so far: {:?}, expected {:?}", tail(&got), tail(&self.dropped));
        let alive = self.heap.iter().filter(|o| o.alive).count();
        if let Some(f) = self.obs.live {
            check!(f() == alive, "{} blocks are live instead of {alive}", f());
        }
        if let Some(f) = self.obs.inside {
            for (i, o) in self.heap.iter().enumerate() {
                // the memory of a dead object may serve another one
                let again = || self.heap.iter().any(|p| p.alive && p.addr == o.addr);
                check!(f(o.addr) == o.alive || again(), "object {i} should be {}", if o.alive { "live" } else { "gone" });
            }
        }
        if self.obs.size.is_some() {
            let want: usize = self.heap.iter().filter(|o| o.alive).map(|o| o.cost).sum();
            check!(self.size() == want, "the accounted size is {} instead of {want}", self.size());
        }
        Ok(())
    }

    // ---- steps

    fn pick(&self, s: &mut Src, f: impl Fn(&H<P, M::Dealloc>) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.handles.len()).filter(|&i| f(&self.handles[i].0)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[v.len() - 1 - s.below(v.len() as u64) as usize])
        }
    }
    /// A dynamic value: a new primitive, or another or the only handle to something.
    fn take(&mut self, s: &mut Src, log: &mut String) -> (Any<M::Dealloc>, MV) {
        let prim = |s: &mut Src| match s.below(3) {
            0 => (Any::move_from(Null()), MV::Null),
            1 => {
                let b = s.coin();
                (Any::move_from(b), MV::Bool(b))
            }
            _ => {
                let n = s.int(-3, 40) as f64;
                (Any::move_from(n), MV::Num(n.to_bits()))
            }
        };
        let fits = |h: &H<P, M::Dealloc>| !matches!(h, H::Plain(_) | H::Flex(_) | H::MPlain(_) | H::MFlex(_));
        let Some(i) = (if s.chance(4, 5) { self.pick(s, fits) } else { None }) else {
            let p = prim(s);
            *log += &format!(" {:?}", p.1);
            return p;
        };
        let v = self.handles[i].1;
        if matches!(v, MV::Ref(_)) {
            self.nested = true;
        }
        if s.coin() || self.handles[i].0.is_mut() {
            let (h, v) = self.handles.swap_remove(i);
            *log += &format!(" move {v:?}");
            let H::Any(a) = h.any() else { unreachable!() };
            (a, v)
        } else {
            let h = self.handles[i].0.copy().unwrap();
            *log += &format!(" copy {v:?}");
            self.add(v);
            let H::Any(a) = h.any() else { unreachable!() };
            (a, v)
        }
    }
    fn key(&mut self, s: &mut Src, log: &mut String) -> (JsStringRef<M::Dealloc>, usize) {
        if s.coin() {
            if let Some(i) = self.pick(s, |h| matches!(h, H::Str(_))) {
                let MV::Ref(k) = self.handles[i].1 else { unreachable!() };
                *log += &format!(" key {k}");
                if s.coin() {
                    let (h, _) = self.handles.swap_remove(i);
                    let H::Str(r) = h else { unreachable!() };
                    return (r, k);
                }
                self.add(MV::Ref(k));
                let Some(H::Str(r)) = self.handles[i].0.copy() else { unreachable!() };
                return (r, k);
            }
        }
        let u = val::gen_units(s, 2, true);
        let before = self.size();
        let r = new_string(self.m, u.clone());
        let MV::Ref(k) = self.born(MC::Str(u), addr_of(&*r), before) else { unreachable!() };
        *log += &format!(" new key {k}");
        (r.to_ref(), k)
    }
    fn create(&mut self, s: &mut Src, log: &mut String) {
        let m = self.m;
        match s.weighted(&[3, 2, 5, 4, 3, 2]) {
            0 => {
                let u = val::gen_units(s, 3, true);
                let b = self.size();
                let r = new_string(m, u.clone());
                let v = self.born(MC::Str(u), addr_of(&*r), b);
                self.handles.push((H::MStr(r), v));
                *log += "string";
            }
            1 => {
                let neg = s.coin();
                let n = s.size(0, 4);
                let d: Vec<u64> = (0..n).map(|_| s.bits()).collect();
                let neg = neg && n > 0;
                let b = self.size();
                let r = new_bigint(m, if neg { Sign::Negative } else { Sign::Positive }, d.clone());
                let v = self.born(MC::Big(neg, d), addr_of(&*r), b);
                self.handles.push((H::MBig(r), v));
                *log += "bigint";
            }
            2 => {
                *log += "array";
                let n = s.weighted(&[2, 3, 4, 2, 1]);
                let (mut items, mut model) = (vec![], vec![]);
                for _ in 0..n {
                    let (a, v) = self.take(s, log);
                    items.push(a);
                    model.push(v);
                }
                let b = self.size();
                let r = new_array(m, items);
                let v = self.born(MC::Arr(model), addr_of(&*r), b);
                self.handles.push((H::MArr(r), v));
            }
            3 => {
                *log += "object";
                let n = s.weighted(&[2, 3, 3, 1, 1]);
                let (mut items, mut model) = (vec![], vec![]);
                for _ in 0..n {
                    let (k, ki) = self.key(s, log);
                    let (a, v) = self.take(s, log);
                    items.push((k, a));
                    model.push((ki, v));
                }
                let b = self.size();
                let r = new_object(m, items);
                let v = self.born(MC::Obj(model), addr_of(&*r), b);
                self.handles.push((H::MObj(r), v));
            }
            4 => {
                *log += "plain";
                let t = self.fresh();
                let b = self.size();
                let r = (self.new_plain)(m, Tok::new(t));
                let v = self.born(MC::Plain(t), addr_of(&*r), b);
                self.handles.push((H::MPlain(r), v));
            }
            _ => {
                *log += "plain array";
                let n = s.size(0, 4);
                let ids: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                let b = self.size();
                let r = m.flexible_array_new(ids.iter().map(|&t| Tok::new(t)).collect::<Vec<_>>());
                let v = self.born(MC::Flex(ids), addr_of(&*r), b);
                self.handles.push((H::MFlex(r), v));
            }
        }
        if s.coin() {
            let (h, v) = self.handles.pop().unwrap();
            *log += " shared";
            self.handles.push((h.share(), v));
        }
    }
    /// Writes through a mutable handle.
    fn write(&mut self, s: &mut Src, log: &mut String) {
        let Some(mut i) = self.pick(s, |h| h.is_mut()) else { return };
        let MV::Ref(o) = self.handles[i].1 else { unreachable!() };
        *log += &format!("write {o}");
        if matches!(self.handles[i].0, H::MArr(_) | H::MObj(_)) {
            let len = match &self.heap[o].c {
                MC::Arr(a) => a.len(),
                MC::Obj(a) => a.len(),
                _ => 0,
            };
            if len == 0 {
                return;
            }
            let at = s.below(len as u64) as usize;
            let what = s.below(4);
            // the value must come from another handle
            let (h, hv) = self.handles.swap_remove(i);
            let (new, nv) = if what == 1 { (Any::move_from(Null()), MV::Null) } else { self.take(s, log) };
            self.handles.push((h, hv));
            i = self.handles.len() - 1;
            let (old, ov) = {
                let slot = match &mut self.handles[i].0 {
                    H::MArr(r) => &mut r.items_mut()[at],
                    H::MObj(r) => &mut r.items_mut()[at].1,
                    _ => unreachable!(),
                };
                let mslot = match &mut self.heap[o].c {
                    MC::Arr(a) => &mut a[at],
                    MC::Obj(a) => &mut a[at].1,
                    _ => unreachable!(),
                };
                let ov = std::mem::replace(mslot, nv);
                if what == 2 {
                    // dropped by the assignment
                    *slot = new;
                    (None, ov)
                } else if what == 3 {
                    slot.clone_from(&new);
                    (None, ov)
                } else {
                    (Some(std::mem::replace(slot, new)), ov)
                }
            };
            match old {
                None => {
                    *log += " assign";
                    self.release(ov)
                }
                Some(a) => {
                    *log += &format!(" take {ov:?}");
                    self.handles.push((H::Any(a), ov))
                }
            }
            return;
        }
        match &mut self.handles[i].0 {
            H::MStr(r) => {
                let MC::Str(u) = &mut self.heap[o].c else { unreachable!() };
                if !u.is_empty() {
                    let at = s.below(u.len() as u64) as usize;
                    u[at] = s.bits() as u16;
                    r.items_mut()[at] = u[at];
                }
            }
            H::MBig(r) => {
                let MC::Big(_, d) = &mut self.heap[o].c else { unreachable!() };
                if !d.is_empty() {
                    let at = s.below(d.len() as u64) as usize;
                    d[at] = s.bits();
                    r.items_mut()[at] = d[at];
                }
            }
            H::MPlain(r) => {
                self.tok += 1;
                let MC::Plain(t) = &mut self.heap[o].c else { unreachable!() };
                self.dropped.push(*t);
                *t = self.tok;
                *(self.plain_mut)(&mut *r) = Tok::new(*t);
            }
            H::MFlex(r) => {
                let MC::Flex(t) = &mut self.heap[o].c else { unreachable!() };
                if t.len() >= 2 && s.coin() {
                    let n = t.len();
                    t.swap(0, n - 1);
                    r.items_mut().swap(0, n - 1);
                } else if !t.is_empty() {
                    let at = s.below(t.len() as u64) as usize;
                    self.tok += 1;
                    self.dropped.push(t[at]);
                    t[at] = self.tok;
                    r.items_mut()[at] = Tok::new(self.tok);
                }
            }
            _ => {}
        }
    }
    fn step(&mut self, s: &mut Src) -> CaseResult {
        let mut log = String::new();
        let kind = s.weighted(&[9, 5, 5, 3, 4, 4, 3, 2, 4, 3, 3, 2, 2, 1]);
        let kind = if self.handles.len() < 3 && kind != 2 { 0 } else { kind };
        match kind {
            0 => {
                log += "new ";
                self.create(s, &mut log)
            }
            1 => {
                if let Some(i) = self.pick(s, |h| !h.is_mut()) {
                    let v = self.handles[i].1;
                    log += &format!("clone {v:?}");
                    let h = self.handles[i].0.copy().unwrap();
                    self.add(v);
                    self.handles.push((h, v));
                }
            }
            2 => {
                if let Some(i) = self.pick(s, |_| true) {
                    let (h, v) = self.handles.swap_remove(i);
                    log += &format!("drop {v:?}{}", if h.is_mut() { " mut" } else { "" });
                    drop(h);
                    self.release(v);
                }
            }
            3 => {
                if let Some(i) = self.pick(s, |h| h.is_mut()) {
                    let (h, v) = self.handles.swap_remove(i);
                    log += &format!("share {v:?}");
                    self.handles.push((h.share(), v));
                }
            }
            4 => {
                if let Some(i) = self.pick(s, |h| !h.is_mut() && !matches!(h, H::Any(_))) {
                    let (h, v) = self.handles.swap_remove(i);
                    let MV::Ref(o) = v else { unreachable!() };
                    log += &format!("upgrade {o}");
                    let h = h.upgrade();
                    let got = h.is_mut();
                    self.handles.push((h, v));
                    let want = self.heap[o].rc == 1;
                    check!(got == want, "object {o} with {} handles: upgrading to a mutable one {}", self.heap[o].rc, if got { "succeeds" } else { "fails" });
                }
            }
            5 => self.write(s, &mut log),
            6 => {
                if let Some(i) = self.pick(s, |h| matches!(h, H::Str(_) | H::Big(_) | H::Arr(_) | H::Obj(_))) {
                    let (h, v) = self.handles.swap_remove(i);
                    log += &format!("to dynamic {v:?}");
                    self.handles.push((h.any(), v));
                }
            }
            7 => {
                // as some kind, mostly the wrong one
                if let Some(i) = self.pick(s, |h| matches!(h, H::Any(_))) {
                    let (h, v) = self.handles.swap_remove(i);
                    let H::Any(a) = h else { unreachable!() };
                    let k = s.below(7);
                    log += &format!("move {v:?} as {k}");
                    let r = match k {
                        0 => a.try_move::<f64>().ok().map(|f| (H::Any(Any::move_from(f)), true)),
                        1 => a.try_move::<bool>().ok().map(|f| (H::Any(Any::move_from(f)), true)),
                        2 => a.try_move::<Null>().ok().map(|f| (H::Any(Any::move_from(f)), true)),
                        3 => a.try_move::<JsStringRef<M::Dealloc>>().ok().map(|f| (H::Str(f), false)),
                        4 => a.try_move::<JsBigintRef<M::Dealloc>>().ok().map(|f| (H::Big(f), false)),
                        5 => a.try_move::<JsArrayRef<M::Dealloc>>().ok().map(|f| (H::Arr(f), false)),
                        _ => a.try_move::<JsObjectRef<M::Dealloc>>().ok().map(|f| (H::Obj(f), false)),
                    };
                    match r {
                        Some((h, _)) => self.handles.push((h, v)),
                        None => self.release(v),
                    }
                }
            }
            8 => {
                if let Some(i) = self.pick(s, |h| matches!(h, H::Any(_))) {
                    let (h, v) = self.handles.swap_remove(i);
                    let H::Any(a) = h else { unreachable!() };
                    log += &format!("visit {v:?}");
                    let h = match to_visitor(a) {
                        Visitor::Number(n) => H::Any(Any::move_from(n)),
                        Visitor::Null => H::Any(Any::move_from(Null())),
                        Visitor::Bool(b) => H::Any(Any::move_from(b)),
                        Visitor::String(r) => H::Str(r),
                        Visitor::Object(r) => H::Obj(r),
                        Visitor::Array(r) => H::Arr(r),
                        Visitor::Bigint(r) => H::Big(r),
                    };
                    self.handles.push((h, v));
                }
            }
            9 => {
                // children become handles
                if let Some(i) = self.pick(s, |h| matches!(h, H::Any(_))) {
                    let (H::Any(a), v) = (&self.handles[i].0, self.handles[i].1) else { unreachable!() };
                    log += &format!("children of {v:?}");
                    let limit = s.below(5) as usize;
                    let mut got = vec![];
                    let _ = a.for_each(|k, x| {
                        if got.len() >= limit {
                            return Err(());
                        }
                        got.push((k, x.clone()));
                        Ok(())
                    });
                    let model: Vec<(MV, MV)> = match v {
                        MV::Ref(o) => match &self.heap[o].c {
                            MC::Arr(a) => a.iter().enumerate().map(|(i, x)| (MV::Num((i as f64).to_bits()), *x)).collect(),
                            MC::Obj(a) => a.iter().map(|(k, x)| (MV::Ref(*k), *x)).collect(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    check!(got.len() == model.len().min(limit), "iterating {v:?} gives {} children of {}", got.len(), model.len());
                    for ((k, x), (mk, mx)) in got.into_iter().zip(model) {
                        self.add(mk);
                        self.add(mx);
                        self.handles.push((H::Any(k), mk));
                        self.handles.push((H::Any(x), mx));
                    }
                }
            }
            10 => {
                // an element of a typed handle
                if let Some(i) = self.pick(s, |h| matches!(h, H::Arr(_) | H::Obj(_))) {
                    let MV::Ref(o) = self.handles[i].1 else { unreachable!() };
                    log += &format!("element of {o}");
                    let model: Vec<MV> = match &self.heap[o].c {
                        MC::Arr(a) => a.clone(),
                        MC::Obj(a) => a.iter().map(|x| x.1).collect(),
                        _ => vec![],
                    };
                    if !model.is_empty() {
                        let at = s.below(model.len() as u64) as usize;
                        let a = match &self.handles[i].0 {
                            H::Arr(r) => r.items()[at].clone(),
                            H::Obj(r) => r.items()[at].1.clone(),
                            _ => unreachable!(),
                        };
                        self.add(model[at]);
                        self.handles.push((H::Any(a), model[at]));
                    }
                }
            }
            11 => {
                // overwrite one handle by a copy of another (or itself)
                if let (Some(i), Some(j)) = (self.pick(s, |_| true), self.pick(s, |h| !h.is_mut())) {
                    let v = self.handles[j].1;
                    log += &format!("overwrite {:?} by {v:?}", self.handles[i].1);
                    let old = self.handles[i].1;
                    self.add(v);
                    let in_place = i != j && s.coin() && {
                        let [a, b] = self.handles.get_disjoint_mut([i, j]).unwrap();
                        a.0.overwrite(&b.0)
                    };
                    if in_place {
                        log += " in place";
                        self.handles[i].1 = v;
                    } else {
                        let h = self.handles[j].0.copy().unwrap();
                        self.handles[i] = (h, v);
                    }
                    self.release(old);
                }
            }
            12 => {
                if let (Some(i), Some(j)) = (self.pick(s, |h| matches!(h, H::Any(_))), self.pick(s, |h| matches!(h, H::Any(_)))) {
                    let ((H::Any(a), v), (H::Any(b), w)) = (&self.handles[i], &self.handles[j]) else { unreachable!() };
                    log += &format!("compare {v:?} {w:?}");
                    check!((a == b) == (v == w), "{v:?} and {w:?} compare {}", a == b);
                }
            }
            _ => {
                // wrapped a few times
                if let Some(i) = self.pick(s, |h| matches!(h, H::Any(_) | H::Arr(_) | H::Obj(_))) {
                    let (h, mut v) = self.handles.swap_remove(i);
                    log += &format!("wrap {v:?}");
                    let H::Any(mut a) = h.any() else { unreachable!() };
                    for _ in 0..s.size(1, 20) {
                        let b = self.size();
                        let r = new_array(self.m, [a]);
                        v = self.born(MC::Arr(vec![v]), addr_of(&*r), b);
                        a = Any::move_from(r.to_ref());
                    }
                    self.nested = true;
                    self.handles.push((H::Any(a), v));
                }
            }
        }
        if !log.is_empty() {
            self.kinds[kind] += 1;
            self.log.push(log);
        }
        Ok(())
    }
}

const KINDS: [&str; 14] = [
    "create", "clone", "drop", "share", "upgrade", "write", "to dynamic", "from dynamic", "visit", "iterate", "element", "overwrite", "compare", "wrap",
];

fn tail(v: &[u64]) -> &[u64] {
    &v[v.len().saturating_sub(12)..]
}

fn history<M: Manager, P: Object>(
    s: &mut Src,
    c: &mut Ctx,
    m: M,
    obs: Obs,
    new_plain: fn(M, Tok) -> MutRef<P, M::Dealloc>,
    plain: fn(&P) -> &Tok,
    plain_mut: fn(&mut P) -> &mut Tok,
) -> CaseResult {
    DROPPED.with(|d| d.borrow_mut().clear());
    let mut k = Machine {
        m,
        obs,
        new_plain,
        plain,
        plain_mut,
        heap: vec![],
        handles: vec![],
        dropped: vec![],
        tok: 0,
        log: vec![],
        nested: false,
        shared: false,
        kinds: [0; 14],
    };
    let max = if s.chance(1, 10) { 250 } else { 50 };
    let mut r = Ok(());
    let mut steps = 0;
    s.many(0, max, max as u64 / 2, |s| {
        if r.is_err() {
            return;
        }
        steps += 1;
        r = k.step(s).and_then(|_| k.books()).and_then(|_| if steps % 4 == 0 { k.contents() } else { Ok(()) });
        if let Err(e) = &r {
            r = Err(format!("step {steps} ({}): {e}", k.log.last().map_or("", |x| x)));
        }
    });
    c.show(|| k.log.join("; "));
    for (i, n) in k.kinds.iter().enumerate() {
        *c.labels.entry(KINDS[i].to_string()).or_insert(0) += n;
    }
    c.nt(k.log.len() >= 10 && k.nested && k.shared, &k.log);
    if r.is_ok() {
        r = k.contents();
    }
    if r.is_err() {
        // what is left cannot be trusted
        std::mem::forget(std::mem::take(&mut k.handles));
        return r;
    }
    // everything goes, in some order
    let mut hs = std::mem::take(&mut k.handles);
    s.shuffle(&mut hs);
    for (h, v) in hs {
        drop(h);
        k.release(v);
        k.books().map_err(|e| format!("dropping {v:?} at the end: {e}"))?;
    }
    k.books()
}

/// The type of plain objects is inferred from its construction.
macro_rules! run {
    ($s:expr, $c:expr, $m:expr, $obs:expr) => {
        history($s, $c, $m, $obs, |m, t| m.fixed_new(t), |p| &p.0, |p| &mut p.0)
    };
}

fn chk_obs() -> Obs<'static> {
    Obs { live: Some(&mgr::live), inside: Some(&|a| mgr::block_containing(a).is_some()), size: None }
}

fn plain(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run!(s, c, Chk(), chk_obs())?;
    mgr::verify_empty()
}

fn atomic(s: &mut Src, c: &mut Ctx) -> CaseResult {
    run!(s, c, ChkAtomic(), chk_obs())?;
    mgr::verify_empty()
}

fn returned(before: u64) -> CaseResult {
    let n = bad_releases() - before;
    check!(n == 0, "{n} blocks were returned with another size or alignment, or twice");
    Ok(())
}

fn local(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let before = bad_releases();
    let l = Local::default();
    let n = || mgr::counted(&l).unwrap_or(0);
    let live: Option<&dyn Fn() -> usize> = if mgr::counted(&l).is_some() { Some(&n) } else { None };
    run!(s, c, &l, Obs { live, inside: None, size: Some(&|| l.size()) })?;
    check!(l.size() == 0, "{} bytes are accounted for nothing", l.size());
    returned(before)
}

fn global(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let before = bad_releases();
    run!(s, c, GLOBAL, Obs { live: None, inside: None, size: None })?;
    returned(before)
}

/// Everything taken from the global allocator comes back to it (nothing else allocates here).
fn balanced<M: Manager>(m: M, plan: &[(u64, usize)], order: &[usize], size: &dyn Fn() -> usize, count: Option<&dyn Fn() -> usize>, accounts: bool) -> CaseResult {
    fn keep<D: Dealloc>(_: M2<D>) {}
    enum M2<D: Dealloc> {
        U8(Ref<FlexibleArray<u8, usize>, D>),
        U16(Ref<FlexibleArray<u16, usize>, D>),
        U128(Ref<FlexibleArray<u128, usize>, D>),
        Any(Any<D>),
        F0(usize),
        F1(usize),
        F2(usize),
        F3(usize),
        Z(Ref<FlexibleArray<(), usize>, D>),
        Gone,
    }
    let mut hs: Vec<M2<M::Dealloc>> = Vec::with_capacity(plan.len());
    let (mut f0, mut f1) = (Vec::with_capacity(plan.len()), Vec::with_capacity(plan.len()));
    let (mut f2, mut f3) = (Vec::with_capacity(plan.len()), Vec::with_capacity(plan.len()));
    let bad = bad_releases();
    let (before, size0) = (live_bytes(), size());
    let mut objects = 0;
    for &(k, n) in plan {
        let (b, s0) = (live_bytes(), size());
        let mut payload = n;
        let h = match k {
            6 => {
                payload = 0;
                f0.push(Some(m.fixed_new(()).to_ref()));
                M2::F0(f0.len() - 1)
            }
            7 => {
                payload = 3;
                f1.push(Some(m.fixed_new([1u8; 3]).to_ref()));
                M2::F1(f1.len() - 1)
            }
            8 => {
                payload = 160;
                f2.push(Some(m.fixed_new([1u64; 20]).to_ref()));
                M2::F2(f2.len() - 1)
            }
            9 => {
                payload = 16;
                f3.push(Some(m.fixed_new(1u128).to_ref()));
                M2::F3(f3.len() - 1)
            }
            10 => {
                payload = 0;
                M2::Z(m.flexible_array_new((0..n).map(|_| ())).to_ref())
            }
            0 => M2::U8(m.flexible_array_new((0..n).map(|i| i as u8)).to_ref()),
            1 => {
                payload = n * 2;
                M2::U16(m.flexible_array_new((0..n).map(|i| i as u16)).to_ref())
            }
            2 => {
                payload = n * 16;
                M2::U128(m.flexible_array_new((0..n).map(|i| i as u128)).to_ref())
            }
            3 => {
                payload = n * 2;
                M2::Any(Any::move_from(new_string(m, (0..n).map(|i| i as u16)).to_ref()))
            }
            4 => {
                payload = n * 8;
                M2::Any(Any::move_from(new_bigint(m, Sign::Negative, (0..n).map(|i| i as u64)).to_ref()))
            }
            _ => {
                // contains the previous ones that are dynamic values
                let mut i = 0;
                let items = hs.iter_mut().filter_map(|h| match std::mem::replace(h, M2::Gone) {
                    M2::Any(a) => Some(a),
                    x => {
                        *h = x;
                        None
                    }
                });
                let mut buf: [Option<Any<M::Dealloc>>; 64] = [const { None }; 64];
                for a in items {
                    buf[i] = Some(a);
                    i += 1;
                }
                payload = i * 8;
                M2::Any(Any::move_from(new_array(m, buf[..i].iter_mut().map(|x| x.take().unwrap())).to_ref()))
            }
        };
        hs.push(h);
        let got = live_bytes() - b;
        check!(got >= payload + 8, "an object of {payload} bytes occupies {got}");
        let acc = size() - s0;
        objects += 1;
        if let Some(f) = count {
            check!(f() == objects, "{} objects are counted after {objects}", f());
        }
        check!(acc == if accounts { got } else { 0 }, "{acc} bytes are accounted for {got}");
    }
    for &i in order {
        match std::mem::replace(&mut hs[i], M2::Gone) {
            M2::F0(i) => f0[i] = None,
            M2::F1(i) => f1[i] = None,
            M2::F2(i) => f2[i] = None,
            M2::F3(i) => f3[i] = None,
            h => keep(h),
        }
    }
    if let Some(f) = count {
        check!(f() == 0, "{} objects are counted after the release of all", f());
    }
    check!(live_bytes() == before, "{} bytes are left of those of {} objects", live_bytes() as isize - before as isize, plan.len());
    check!(size() == size0, "{} bytes are accounted for nothing", size());
    returned(bad)
}

fn balance(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let plan = s.many(1, 40, 8, |s| (s.below(11), *s.pick(&[0usize, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 64, 100])));
    let mut order: Vec<usize> = (0..plan.len()).collect();
    s.shuffle(&mut order);
    let l = s.coin();
    c.show(|| format!("{} {plan:?} dropped as {order:?}", if l { "accounting" } else { "global" }));
    c.nt(plan.len() >= 3, &(&plan, &order, l));
    if l {
        let l = Local::default();
        balanced(&l, &plan, &order, &|| l.size(), mgr::counted(&l).is_some().then_some(&|| mgr::counted(&l).unwrap_or(0)), true)
    } else {
        balanced(GLOBAL, &plan, &order, &|| 0, None, false)
    }
}

/// Very many handles of one object: made one after another, some dropped and made again, with the
/// contents looked at in between; then upgraded by the last one.
fn crowd<M: Manager>(m: M, n: usize, back: usize, kind: u64, live: &dyn Fn() -> Option<usize>) -> CaseResult {
    let id = 77;
    DROPPED.with(|d| d.borrow_mut().clear());
    let base = live();
    {
        let one = m.flexible_array_new([Tok::new(id), Tok::new(id + 1)].into_iter()).to_ref();
        let any = Any::move_from(new_string(m, [1u16, 2, 3]).to_ref());
        let arr = Any::move_from(new_array(m, [any.clone(), Any::move_from(4.0)]).to_ref());
        let whole = || -> CaseResult {
            check!(DROPPED.with(|d| d.borrow().is_empty()), "the contents are released with handles left");
            check!(one.items().len() == 2 && one.items().iter().all(Tok::ok), "the contents change");
            let Ok(a) = arr.clone().try_move::<JsArrayRef<M::Dealloc>>() else { return Err("the array is not one".into()) };
            let Ok(t) = a.items()[0].clone().try_move::<JsStringRef<M::Dealloc>>() else { return Err("the string is not one".into()) };
            check!(t.items() == [1, 2, 3], "the string changes");
            Ok(())
        };
        let mut hs = Vec::new();
        let mut anys = Vec::new();
        for i in 0..n {
            match kind {
                0 => hs.push(one.clone()),
                1 => anys.push(any.clone()),
                2 => anys.push(arr.clone()),
                _ if i % 2 == 0 => hs.push(one.clone()),
                _ => anys.push(if i % 4 == 1 { any.clone() } else { arr.clone() }),
            }
            if (i + 1).is_power_of_two() || (i + 2).is_power_of_two() || i % 5000 == 4999 {
                whole()?;
            }
        }
        whole()?;
        // some of them go, and come again
        let k = hs.len().saturating_sub(back);
        hs.drain(..hs.len() - k);
        let k = anys.len().saturating_sub(back);
        anys.truncate(k);
        whole()?;
        for _ in 0..back {
            hs.push(one.clone());
            anys.push(arr.clone());
        }
        whole()?;
        if let Some(h) = hs.pop() {
            // not the last one
            let e = h.try_to_mut_ref();
            check!(e.is_err(), "one of {} handles is upgraded", hs.len() + 2);
        }
        whole()?;
        hs.clear();
        whole()?;
        anys.clear();
        whole()?;
        let Ok(u) = one.try_to_mut_ref() else { return Err(format!("the last of {n} handles is not upgraded")) };
        check!(u.items().iter().all(Tok::ok), "the contents change");
        check!(DROPPED.with(|d| d.borrow().is_empty()), "upgrading releases the contents");
        drop(u);
        let mut gone = DROPPED.with(|d| d.borrow_mut().split_off(0));
        gone.sort();
        check!(gone == [id, id + 1], "the last handle releases {gone:?}");
    }
    check!(live() == base, "{:?} is left of {base:?}", live());
    Ok(())
}

fn many(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(3, 17);
    let back = if s.coin() { s.size(0, n) } else { s.size(0, 5) };
    let (which, kind) = (s.below(4), s.below(4));
    c.show(|| format!("{n} handles, {back} of them anew, kind {kind}, manager {which}"));
    c.nt(n > 100, &(n, back, which, kind));
    let before = bad_releases();
    match which {
        0 => crowd(Chk(), n, back, kind, &|| Some(mgr::live()))?,
        1 => crowd(ChkAtomic(), n, back, kind, &|| Some(mgr::live()))?,
        2 => {
            let l = Local::default();
            crowd(&l, n, back, kind, &|| Some(l.size() + (mgr::counted(&l).unwrap_or(0) << 40)))?;
            return returned(before);
        }
        _ => {
            crowd(GLOBAL, n, back, kind, &|| None)?;
            return returned(before);
        }
    }
    mgr::verify_empty()
}

/// Whether values of a type may go to other threads, or be used by several.
struct Probe<T>(core::marker::PhantomData<T>);
trait Stays {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Stays for Probe<T> {}
struct ProbeSend<T>(core::marker::PhantomData<T>);
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T> Stays for ProbeSend<T> {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

/// What a type that cannot go to another thread is sent in: only used when the probe says that it can.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}
impl<T> Carry<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    /// another handle of a root into a slot
    Take(usize, usize),
    /// another handle of the content of a slot into another one
    Copy(usize, usize),
    Drop(usize),
    Look(usize),
    /// all handles of the slot's array's items and back
    Walk(usize),
}

type Val = Any<nanvm_lib::mem::global::Global>;

/// What is known about a root: the text of a string, or the root that is each item of an array.
enum Root {
    Text(Vec<u16>),
    Items(Vec<usize>),
}

fn right(v: &Val, n: usize, roots: &[Root]) -> bool {
    match &roots[n] {
        Root::Text(t) => v.try_ref::<JsString>().is_ok_and(|b| b.object().items() == t),
        Root::Items(is) => v.try_ref::<JsArray<nanvm_lib::mem::global::Global>>().is_ok_and(|b| {
            b.object().items().len() == is.len() && is.iter().zip(b.object().items()).all(|(i, v)| right(v, *i, roots))
        }),
    }
}

/// Runs a program; true if everything that was looked at was right.
fn program(steps: &[Step], times: usize, values: &[Val], roots: &[Root]) -> bool {
    let mut slots: Vec<Option<(usize, Val)>> = (0..4).map(|_| None).collect();
    let mut ok = true;
    for _ in 0..times {
        for s in steps {
            match *s {
                Step::Take(r, i) => slots[i] = Some((r, values[r].clone())),
                Step::Copy(a, b) => slots[b] = slots[a].as_ref().map(|(n, v)| (*n, v.clone())),
                Step::Drop(i) => slots[i] = None,
                Step::Look(i) => ok &= slots[i].as_ref().is_none_or(|(n, v)| right(v, *n, roots)),
                Step::Walk(i) => {
                    if let Some((n, v)) = &slots[i] {
                        if let Root::Items(is) = &roots[*n] {
                            let mut hs = Vec::new();
                            let _ = v.for_each(|_, v| -> Result<(), ()> {
                                hs.push(v.clone());
                                Ok(())
                            });
                            ok &= hs.len() == is.len();
                        }
                    }
                }
            }
        }
    }
    ok
}

/// Runs the programs at once, and checks what is left.
fn together(roots: &[Root], programs: &[Vec<Step>], times: usize, sync: bool, send: bool) -> CaseResult {
    let n = roots.len();
    let mut values: Vec<Val> = Vec::new();
    for r in roots {
        values.push(match r {
            Root::Text(t) => Any::move_from(new_string(GLOBAL, t.iter().copied()).to_ref()),
            Root::Items(is) => {
                let items: Vec<Val> = is.iter().map(|i| values[*i].clone()).collect();
                Any::move_from(new_array(GLOBAL, items).to_ref())
            }
        });
    }
    let ok = if sync || send {
        let shared = Carry(&values);
        std::thread::scope(|scope| {
            let hs: Vec<_> = programs
                .iter()
                .map(|p| {
                    let own = Carry(values.clone());
                    let shared = &shared;
                    scope.spawn(move || {
                        let own = own;
                        let own: Carry<Vec<Val>> = own;
                        program(p, times, if sync { shared.get() } else { own.get() }, roots)
                    })
                })
                .collect();
            hs.into_iter().all(|h| h.join().unwrap_or(false))
        })
    } else {
        // one after another
        programs.iter().all(|p| program(p, times.min(50), &values, roots))
    };
    check!(ok, "the contents of a value change with handles left");
    check!((0..n).all(|i| right(&values[i], i, roots)), "the contents of a value change");
    // the arrays first, the strings last: each is now the only handle
    while let Some(v) = values.pop() {
        match to_visitor(v) {
            Visitor::Array(a) => check!(a.try_to_mut_ref().is_ok(), "the last handle of an array is not upgraded"),
            Visitor::String(a) => check!(a.try_to_mut_ref().is_ok(), "the last handle of a string is not upgraded"),
            _ => return Err("a value changes its kind".into()),
        }
    }
    Ok(())
}

/// Histories of several threads at once.
fn threads(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let texts = s.size(1, 3);
    let mut roots: Vec<Root> = (0..texts).map(|i| Root::Text(vec![97 + i as u16; i + 1])).collect();
    for _ in 0..s.size(0, 3) {
        let n = roots.len();
        roots.push(Root::Items((0..s.size(0, 3)).map(|_| s.size(0, n - 1)).collect()));
    }
    let n = roots.len();
    let programs: Vec<Vec<Step>> = (0..s.size(2, 4))
        .map(|_| {
            (0..s.size(1, 12))
                .map(|_| match s.below(6) {
                    0 | 1 => Step::Take(s.size(0, n - 1), s.size(0, 3)),
                    2 => Step::Copy(s.size(0, 3), s.size(0, 3)),
                    3 => Step::Drop(s.size(0, 3)),
                    4 => Step::Look(s.size(0, 3)),
                    _ => Step::Walk(s.size(0, 3)),
                })
                .collect()
        })
        .collect();
    let times = s.size(1, 3000);
    c.show(|| format!("{times} times {programs:?} over {n} values"));
    let sync = Probe::<Val>::SYNC;
    let send = ProbeSend::<Val>::SEND;
    c.label(if sync || send { "on threads" } else { "no thread but one may have the value" });
    c.nt(n > 1, &(format!("{programs:?}"), times, n));
    // what several threads do differs from time to time
    for _ in 0..if sync || send { 20 } else { 1 } {
        together(&roots, &programs, times, sync, send)?;
    }
    Ok(())
}
