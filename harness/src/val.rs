//! The reference model of values: a graph of reference-counted nodes. Two occurrences of an array
//! or object are shared exactly when they are the same `Rc`.
use crate::{fw::*, gint, rint::RInt};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_bigint::{new_bigint, Sign},
        js_string::new_string,
        new::New,
        null::Null,
        visitor::{to_visitor, Visitor},
    },
    mem::manager::{Dealloc, Manager},
};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    fmt::Write,
    rc::Rc,
};

#[derive(Debug)]
pub enum Val {
    Null,
    Bool(bool),
    /// bits of a double
    Num(u64),
    Str(Vec<u16>),
    Big(RInt),
    Arr(Vec<V>),
    Obj(Vec<(Vec<u16>, V)>),
}
pub type V = Rc<Val>;

pub fn null() -> V {
    Rc::new(Val::Null)
}
pub fn num(f: f64) -> V {
    Rc::new(Val::Num(f.to_bits()))
}
pub fn text(s: &str) -> V {
    Rc::new(Val::Str(utf16(s)))
}
pub fn arr(v: Vec<V>) -> V {
    Rc::new(Val::Arr(v))
}
pub fn obj(v: Vec<(Vec<u16>, V)>) -> V {
    Rc::new(Val::Obj(v))
}
pub fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
fn id(v: &V) -> usize {
    Rc::as_ptr(v) as usize
}

// ------------------------------------------------------------------ library side

/// The library's value with the same sharing.
pub fn build<M: Manager>(m: M, v: &V) -> Any<M::Dealloc> {
    build_in(m, v, &mut HashMap::new())
}

fn build_in<M: Manager>(m: M, v: &V, memo: &mut HashMap<usize, Any<M::Dealloc>>) -> Any<M::Dealloc> {
    match &**v {
        Val::Null => Any::move_from(Null()),
        Val::Bool(b) => Any::move_from(*b),
        Val::Num(b) => Any::move_from(f64::from_bits(*b)),
        Val::Str(s) => m.new_js_string(s.clone()),
        Val::Big(i) => {
            let sign = if i.neg { Sign::Negative } else { Sign::Positive };
            new_bigint(m, sign, i.digits()).to_ref().move_to_any()
        }
        Val::Arr(a) => {
            if let Some(x) = memo.get(&id(v)) {
                return x.clone();
            }
            let items: Vec<_> = a.iter().map(|x| build_in(m, x, memo)).collect();
            let r = m.new_js_array(items);
            memo.insert(id(v), r.clone());
            r
        }
        Val::Obj(o) => {
            if let Some(x) = memo.get(&id(v)) {
                return x.clone();
            }
            let items: Vec<_> = o
                .iter()
                .map(|(k, x)| (new_string(m, k.clone()).to_ref(), build_in(m, x, memo)))
                .collect();
            let r = m.new_js_object(items);
            memo.insert(id(v), r.clone());
            r
        }
    }
}

/// The model of a library value; containers at one address become one node.
pub fn read<D: Dealloc>(a: &Any<D>) -> V {
    read_in(a.clone(), &mut HashMap::new())
}

fn read_in<D: Dealloc>(a: Any<D>, memo: &mut HashMap<usize, V>) -> V {
    match to_visitor(a) {
        Visitor::Null => null(),
        Visitor::Bool(b) => Rc::new(Val::Bool(b)),
        Visitor::Number(n) => num(n),
        Visitor::String(s) => Rc::new(Val::Str(s.items().to_vec())),
        Visitor::Bigint(b) => Rc::new(Val::Big(RInt {
            neg: b.sign() == Sign::Negative,
            mag: {
                // kept as it is when it is not canonical, so that it differs from every integer
                let d = b.items();
                let mut m: Vec<u32> = d.iter().flat_map(|&x| [x as u32, (x >> 32) as u32]).collect();
                if d.last() != Some(&0) && m.last() == Some(&0) {
                    m.pop();
                }
                m
            },
        })),
        Visitor::Array(r) => {
            let p = &*r as *const _ as *const u8 as usize;
            if let Some(v) = memo.get(&p) {
                return v.clone();
            }
            let v = arr(r.items().iter().map(|x| read_in(x.clone(), memo)).collect());
            memo.insert(p, v.clone());
            v
        }
        Visitor::Object(r) => {
            let p = &*r as *const _ as *const u8 as usize;
            if let Some(v) = memo.get(&p) {
                return v.clone();
            }
            let v = obj(r.items().iter().map(|(k, x)| (k.items().to_vec(), read_in(x.clone(), memo))).collect());
            memo.insert(p, v.clone());
            v
        }
    }
}

// ------------------------------------------------------------------ comparison

fn key_text(k: &[u16]) -> String {
    esc(&String::from_utf16_lossy(k))
}

struct Iso {
    fwd: HashMap<usize, usize>,
    bwd: HashMap<usize, usize>,
    sharing: bool,
    seen: HashSet<(usize, usize)>,
}

impl Iso {
    fn run(&mut self, a: &V, b: &V, path: &mut String) -> Result<(), String> {
        let fail = |p: &str| {
            Err(format!(
                "at value{p}: expected {}, got {}",
                clip(&show(a), 300),
                clip(&show(b), 300)
            ))
        };
        match (&**a, &**b) {
            (Val::Null, Val::Null) => return Ok(()),
            (Val::Bool(x), Val::Bool(y)) if x == y => return Ok(()),
            (Val::Num(x), Val::Num(y)) if x == y => return Ok(()),
            (Val::Num(x), Val::Num(y)) if f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan() => return Ok(()),
            (Val::Str(x), Val::Str(y)) if x == y => return Ok(()),
            (Val::Big(x), Val::Big(y)) if x == y => return Ok(()),
            (Val::Arr(_), Val::Arr(_)) | (Val::Obj(_), Val::Obj(_)) => {}
            _ => return fail(path),
        }
        let (i, j) = (id(a), id(b));
        if self.sharing {
            match (self.fwd.get(&i), self.bwd.get(&j)) {
                (None, None) => {
                    self.fwd.insert(i, j);
                    self.bwd.insert(j, i);
                }
                (Some(&x), Some(&y)) if x == j && y == i => return Ok(()),
                (Some(_), _) => return Err(format!("at value{path}: a shared container became separate")),
                _ => return Err(format!("at value{path}: separate containers became shared")),
            }
        } else if !self.seen.insert((i, j)) {
            return Ok(());
        }
        let n = path.len();
        match (&**a, &**b) {
            (Val::Arr(x), Val::Arr(y)) => {
                if x.len() != y.len() {
                    return fail(path);
                }
                for (k, (p, q)) in x.iter().zip(y).enumerate() {
                    let _ = write!(path, "[{k}]");
                    self.run(p, q, path)?;
                    path.truncate(n);
                }
            }
            (Val::Obj(x), Val::Obj(y)) => {
                if x.len() != y.len() || x.iter().zip(y).any(|(p, q)| p.0 != q.0) {
                    return fail(path);
                }
                for (p, q) in x.iter().zip(y) {
                    let _ = write!(path, "[\"{}\"]", key_text(&p.0));
                    self.run(&p.1, &q.1, path)?;
                    path.truncate(n);
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

fn iso_with(a: &V, b: &V, sharing: bool) -> Result<(), String> {
    Iso {
        fwd: HashMap::new(),
        bwd: HashMap::new(),
        sharing,
        seen: HashSet::new(),
    }
    .run(a, b, &mut String::new())
}

/// Equal values with the same sharing (`a` expected, `b` found).
pub fn iso(a: &V, b: &V) -> Result<(), String> {
    iso_with(a, b, true)
}

/// Equal values, sharing aside.
pub fn eq(a: &V, b: &V) -> Result<(), String> {
    iso_with(a, b, false)
}

// ------------------------------------------------------------------ transformations

/// Every node of the graph once, children first.
pub fn nodes(v: &V) -> Vec<V> {
    fn go(v: &V, seen: &mut HashSet<usize>, out: &mut Vec<V>) {
        if !seen.insert(id(v)) {
            return;
        }
        match &**v {
            Val::Arr(a) => a.iter().for_each(|x| go(x, seen, out)),
            Val::Obj(o) => o.iter().for_each(|x| go(&x.1, seen, out)),
            _ => {}
        }
        out.push(v.clone());
    }
    let mut out = vec![];
    go(v, &mut HashSet::new(), &mut out);
    out
}

fn map_graph(v: &V, memo: &mut HashMap<usize, V>, f: &dyn Fn(Vec<(Vec<u16>, V)>) -> Vec<(Vec<u16>, V)>) -> V {
    if let Some(x) = memo.get(&id(v)) {
        return x.clone();
    }
    let r = match &**v {
        Val::Arr(a) => arr(a.iter().map(|x| map_graph(x, memo, f)).collect()),
        Val::Obj(o) => {
            let kept = f(o.clone());
            obj(kept.iter().map(|(k, x)| (k.clone(), map_graph(x, memo, f))).collect())
        }
        _ => v.clone(),
    };
    memo.insert(id(v), r.clone());
    r
}

/// What an object literal with these members means: the last of equal keys, in ascending order
/// of their code points.
pub fn canonical_members(o: Vec<(Vec<u16>, V)>) -> Vec<(Vec<u16>, V)> {
    let mut m: BTreeMap<Vec<u32>, (Vec<u16>, V)> = BTreeMap::new();
    for (k, v) in o {
        m.insert(code_points(&k), (k, v));
    }
    m.into_values().collect()
}

/// Code points; a lone surrogate counts as itself.
pub fn code_points(k: &[u16]) -> Vec<u32> {
    char::decode_utf16(k.iter().copied())
        .map(|r| r.map(|c| c as u32).unwrap_or_else(|e| e.unpaired_surrogate() as u32))
        .collect()
}

/// The value that reading back gives: members of objects unique and ordered; sharing kept.
pub fn canonical(v: &V) -> V {
    map_graph(v, &mut HashMap::new(), &canonical_members)
}

/// Number of nodes of the value written out in full, up to `cap`.
pub fn tree_size(v: &V, cap: u64) -> u64 {
    fn go(v: &V, memo: &mut HashMap<usize, u64>, cap: u64) -> u64 {
        if let Some(&x) = memo.get(&id(v)) {
            return x;
        }
        let n = match &**v {
            Val::Arr(a) => a.iter().fold(1u64, |n, x| n.saturating_add(go(x, memo, cap)).min(cap)),
            Val::Obj(o) => o.iter().fold(1u64, |n, x| n.saturating_add(go(&x.1, memo, cap)).min(cap)),
            _ => 1,
        };
        memo.insert(id(v), n);
        n
    }
    go(v, &mut HashMap::new(), cap)
}

pub fn depth(v: &V) -> usize {
    fn go(v: &V, memo: &mut HashMap<usize, usize>) -> usize {
        if let Some(&x) = memo.get(&id(v)) {
            return x;
        }
        let n = match &**v {
            Val::Arr(a) => 1 + a.iter().map(|x| go(x, memo)).max().unwrap_or(0),
            Val::Obj(o) => 1 + o.iter().map(|x| go(&x.1, memo)).max().unwrap_or(0),
            _ => 0,
        };
        memo.insert(id(v), n);
        n
    }
    go(v, &mut HashMap::new())
}

/// Containers reached by more than one edge.
pub fn shared(v: &V) -> Vec<V> {
    let mut count: HashMap<usize, u32> = HashMap::new();
    let all = nodes(v);
    for n in &all {
        let mut hit = |x: &V| *count.entry(id(x)).or_insert(0) += 1;
        match &**n {
            Val::Arr(a) => a.iter().for_each(&mut hit),
            Val::Obj(o) => o.iter().for_each(|x| hit(&x.1)),
            _ => {}
        }
    }
    all.into_iter()
        .filter(|n| is_container(n) && count.get(&id(n)).copied().unwrap_or(0) > 1)
        .collect()
}

pub fn is_container(v: &V) -> bool {
    matches!(**v, Val::Arr(_) | Val::Obj(_))
}

pub fn any_node(v: &V, f: impl Fn(&Val) -> bool) -> bool {
    nodes(v).iter().any(|x| f(x))
}

pub fn has_big(v: &V) -> bool {
    any_node(v, |x| matches!(x, Val::Big(_)))
}
pub fn has_nan(v: &V) -> bool {
    any_node(v, |x| matches!(x, Val::Num(b) if f64::from_bits(*b).is_nan()))
}
pub fn lone(s: &[u16]) -> bool {
    char::decode_utf16(s.iter().copied()).any(|r| r.is_err())
}
pub fn has_lone(v: &V) -> bool {
    any_node(v, |x| match x {
        Val::Str(s) => lone(s),
        Val::Obj(o) => o.iter().any(|m| lone(&m.0)),
        _ => false,
    })
}
pub fn is_canonical(v: &V) -> bool {
    !any_node(v, |x| match x {
        Val::Obj(o) => o.windows(2).any(|w| code_points(&w[0].0) >= code_points(&w[1].0)),
        _ => false,
    })
}

/// Written out with `#n=` at the first and `#n` at later occurrences of shared containers.
pub fn show(v: &V) -> String {
    let sh: HashMap<usize, usize> = shared(v).iter().enumerate().map(|(i, x)| (id(x), i)).collect();
    fn go(v: &V, sh: &HashMap<usize, usize>, seen: &mut HashSet<usize>, out: &mut String) {
        if out.len() > 4000 {
            return;
        }
        if let Some(n) = sh.get(&id(v)) {
            if !seen.insert(id(v)) {
                let _ = write!(out, "#{n}");
                return;
            }
            let _ = write!(out, "#{n}=");
        }
        match &**v {
            Val::Null => out.push_str("null"),
            Val::Bool(b) => {
                let _ = write!(out, "{b}");
            }
            Val::Num(b) => {
                let _ = write!(out, "{:e}", f64::from_bits(*b));
            }
            Val::Str(s) => {
                let _ = write!(out, "\"{}\"", show_units(s));
            }
            Val::Big(i) => {
                let _ = write!(out, "{}n", i.decimal());
            }
            Val::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    go(x, sh, seen, out);
                }
                out.push(']');
            }
            Val::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":", show_units(k));
                    go(x, sh, seen, out);
                }
                out.push('}');
            }
        }
    }
    let mut out = String::new();
    go(v, &sh, &mut HashSet::new(), &mut out);
    out
}

pub fn show_units(s: &[u16]) -> String {
    let mut r = String::new();
    for x in char::decode_utf16(s.iter().copied()) {
        match x {
            Ok(c) => r.push_str(&esc(&c.to_string())),
            Err(e) => {
                let _ = write!(r, "\\u{:04x}", e.unpaired_surrogate());
            }
        }
    }
    r
}

// ------------------------------------------------------------------ generators

/// Bits of a double that is not NaN.
pub fn gen_num(s: &mut Src) -> u64 {
    let f = match s.weighted(&[4, 2, 3, 2, 2, 2, 1]) {
        0 => s.int(-20, 20) as f64,
        1 => *s.pick(&[
            0.0,
            -0.0,
            0.1,
            1e21,
            1e-7,
            5e-324,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::MIN,
            9007199254740993.0,
            1e22,
            1e23,
            -1.5,
            f64::INFINITY,
            f64::NEG_INFINITY,
            2.2250738585072011e-308,
        ]),
        2 => f64::from_bits(s.bits()),
        3 => {
            let m = s.int(-9_999_999_999, 9_999_999_999);
            format!("{m}e{}", s.int(-330, 310)).parse().unwrap()
        }
        4 => {
            // around a power of two
            let e = s.int(-1074, 1023);
            let x = if e < -1022 { f64::from_bits(1 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
            let b = x.to_bits() as i64 + s.int(-2, 2);
            f64::from_bits(b.max(0) as u64)
        }
        5 => (s.bits() as i64) as f64,
        _ => {
            let n = s.dict_int() as f64;
            *s.pick(&[n, -n, n + 0.5, 1.0 / n, n * 1e10])
        }
    };
    if f.is_nan() {
        1.0f64.to_bits()
    } else {
        f.to_bits()
    }
}

/// A character, with the ones that matter to escaping, encoding and ordering.
pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[6, 4, 2, 2, 1, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(&[
            '"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\u{0}', '\u{1f}', ' ', '\u{7f}', '\u{80}', '\u{9f}', '\u{a0}', 'é',
            '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{feff}', '\u{ffff}', '\u{10000}',
            '\u{1f600}', '\u{10ffff}', '\'', '\u{1b}', '\u{fdd0}', '\u{103ff}', '\u{10400}', 'u', 'n', 'b', '0',
        ]),
        2 => char::from_u32(s.below(0x80) as u32).unwrap(),
        3 => char::from_u32(s.below(0x3000) as u32).unwrap(),
        4 => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        _ => *s.pick(&crate::dict::dict().chars),
    }
}

pub fn gen_text(s: &mut Src, avg: u64) -> String {
    if s.chance(1, 24) {
        return s.dict_string();
    }
    s.many(0, 60, avg, gen_char).into_iter().collect()
}

/// UTF-16 text, with lone surrogates when allowed.
pub fn gen_units(s: &mut Src, avg: u64, lone: bool) -> Vec<u16> {
    if lone && s.chance(1, 3) {
        return s.many(0, 40, avg, |s| match s.weighted(&[3, 3, 1]) {
            0 => 0x61 + s.below(4) as u16,
            1 => *s.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00, 0xD7FF, 0xE000, 0xFFFF]),
            _ => s.below(0x10000) as u16,
        });
    }
    utf16(&gen_text(s, avg))
}

const KEYS: [&str; 22] = [
    "a", "b", "c", "", "A", "aa", "ab", "a\0", "a ", "0", "1", "10", "2", "-1", "__proto__", "é", "z", "\u{e000}", "\u{10000}", "\u{ffff}",
    "constructor", "length",
];

pub fn gen_key(s: &mut Src) -> Vec<u16> {
    if s.chance(3, 4) {
        utf16(s.pick(&KEYS))
    } else if s.chance(1, 6) {
        utf16(&s.dict_string())
    } else {
        utf16(&gen_text(s, 2))
    }
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub big: bool,
    pub lone: bool,
    pub share: bool,
    /// Objects may have repeated or unordered keys.
    pub wild_keys: bool,
    pub nan: bool,
    pub max: usize,
}

pub fn gen_leaf(s: &mut Src, o: Opt) -> V {
    match s.weighted(&[1, 2, 4, 4, if o.big { 3 } else { 0 }]) {
        0 => null(),
        1 => Rc::new(Val::Bool(s.coin())),
        2 => {
            if o.nan && s.chance(1, 20) {
                num(f64::NAN)
            } else {
                Rc::new(Val::Num(gen_num(s)))
            }
        }
        3 => Rc::new(Val::Str(gen_units(s, 4, o.lone))),
        _ => Rc::new(Val::Big(gint::int(s, 4))),
    }
}

pub fn gen_val(s: &mut Src, o: Opt) -> V {
    if s.chance(1, 8) {
        return gen_leaf(s, o);
    }
    let mut made: Vec<V> = vec![];
    let mut used: Vec<bool> = vec![];
    // containers from the inside out
    let style = s.weighted(&[4, 2, 1]);
    let built = s.many(0, o.max, 5, |s| {
        let is_obj = s.coin();
        let items = s.many(0, 12, if style == 1 { 2 } else { 3 }, |s| {
            if made.is_empty() || !s.chance(if style == 0 { 1 } else { 2 }, if style == 0 { 2 } else { 3 }) {
                return gen_leaf(s, o);
            }
            let fresh: Vec<usize> = (0..made.len()).filter(|&i| !used[i]).collect();
            let i = if !o.share {
                match fresh.last() {
                    Some(&i) => i,
                    None => return gen_leaf(s, o),
                }
            } else if style == 2 {
                made.len() - 1
            } else if !fresh.is_empty() && s.chance(1, 2) {
                *s.pick(&fresh)
            } else {
                made.len() - 1 - s.below(made.len().min(6) as u64) as usize
            };
            used[i] = true;
            made[i].clone()
        });
        let v = if is_obj {
            let m = items.into_iter().map(|x| (gen_key(s), x)).collect();
            obj(if o.wild_keys { m } else { canonical_members(m) })
        } else {
            arr(items)
        };
        made.push(v);
        used.push(false);
    });
    drop(built);
    if made.is_empty() {
        return gen_leaf(s, o);
    }
    // one root; what is not used yet goes into it
    let last = made.pop().unwrap();
    used.pop();
    let rest: Vec<V> = made.iter().zip(&used).filter(|(_, u)| !**u).map(|x| x.0.clone()).collect();
    if rest.is_empty() || s.coin() {
        return last;
    }
    let mut items = rest;
    items.push(last.clone());
    if o.share && s.chance(1, 3) {
        items.push(last);
    }
    arr(items)
}
