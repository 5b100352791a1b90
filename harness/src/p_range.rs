//! C17: range maps.
use crate::{check, fw::*};
use nanvm_lib::range_map::{from_one, from_range, merge, merge_list, Entry, RangeMap, State, Union};
use nanvm_lib::static_ref_default::StaticRefDefault;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "Sorted interval lists over i64/u8/char keys with mixed overlap, pairs and lists of maps, probed at every boundary, its neighbours and random keys; character maps built from single characters and ranges, including the ends of the character space and the surrogate gap. Non-trivial: two non-empty maps (or a range of at least two characters / a boundary character).",
        assumptions: &["Interval lists are in strictly ascending order (the type's invariant); unions of conflicting values panic by design and are not generated."],
        parts: &[
            Part { name: "get", quick: 1_000_000, thorough: 10_000_000, run: get },
            Part { name: "merge", quick: 1_000_000, thorough: 10_000_000, run: merge2 },
            Part { name: "merge-list", quick: 500_000, thorough: 5_000_000, run: list },
            Part { name: "merge-list-chars", quick: 500_000, thorough: 5_000_000, run: list_chars },
            Part { name: "long-lists", quick: 20_000, thorough: 400_000, run: long_list },
            Part { name: "large", quick: 300, thorough: 10_000, run: large },
            Part { name: "bytes", quick: 100_000, thorough: 2_000_000, run: bytes },
            Part { name: "from-char-boundaries", quick: 2_000, thorough: 4_000, run: boundary },
            Part { name: "from-chars", quick: 1_000_000, thorough: 10_000_000, run: chars },
        ],
    }
}

/// Values with a total union (bitwise or), so that any two maps can be merged.
#[derive(Clone, PartialEq, Debug)]
struct Bits(u32);
impl Union for Bits {
    fn union(self, o: Self) -> Self {
        Bits(self.0 | o.0)
    }
}
impl StaticRefDefault for Bits {
    const STATIC_REF_DEFAULT: &'static Self = &Bits(0);
}

type Model = Vec<(i64, u32)>;

fn model(s: &mut Src, max: usize) -> Model {
    let wide = s.chance(1, 4);
    let mut k = if wide { s.int(-1000, 1000) } else { s.int(-5, 5) };
    s.many(0, max, 4, |s| {
        let r = (k, 1u32 << s.below(6));
        k += 1 + if wide { s.int(0, 300) } else { s.int(0, 2) };
        r
    })
}

fn build(m: &Model) -> RangeMap<i64, Bits> {
    RangeMap {
        list: m.iter().map(|&(key, v)| Entry { key, value: Bits(v) }).collect(),
    }
}

/// Linear definition: the first interval whose (inclusive) end is not below the key.
fn at(m: &Model, k: i64) -> u32 {
    m.iter().find(|e| k <= e.0).map(|e| e.1).unwrap_or(0)
}

fn probes(ms: &[&Model], s: &mut Src) -> Vec<i64> {
    let mut p: Vec<i64> = ms.iter().flat_map(|m| m.iter()).flat_map(|e| [e.0 - 1, e.0, e.0 + 1]).collect();
    p.push(s.int(-2000, 2000));
    p.push(i64::MIN);
    p.push(i64::MAX);
    p
}

fn get(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let m = model(s, 40);
    let r = build(&m);
    c.show(|| format!("{m:?}"));
    c.nt(!m.is_empty(), &m);
    for k in probes(&[&m], s) {
        let g = r.get(k).0;
        check!(g == at(&m, k), "{m:?} at {k}: got {g:#b}, expected {:#b}", at(&m, k));
    }
    Ok(())
}

fn sorted<K: PartialOrd + std::fmt::Debug, V>(l: &[Entry<K, V>]) -> CaseResult {
    for w in l.windows(2) {
        check!(w[0].key < w[1].key, "merged keys out of order: {:?} then {:?}", w[0].key, w[1].key);
    }
    Ok(())
}

fn merge2(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b) = (model(s, 20), model(s, 20));
    c.show(|| format!("{a:?} with {b:?}"));
    c.nt(!a.is_empty() && !b.is_empty() && a != b, &(&a, &b));
    c.label(match (a.last(), b.last()) {
        (Some(x), Some(y)) if x.0 == y.0 => "same last key",
        (Some(_), Some(_)) => "different last key",
        _ => "an empty map",
    });
    let r = merge(build(&a), build(&b));
    sorted(&r.list)?;
    for k in probes(&[&a, &b], s) {
        let e = at(&a, k) | at(&b, k);
        check!(r.get(k).0 == e, "{a:?} merged with {b:?} at {k}: got {:#b}, expected {e:#b}", r.get(k).0);
    }
    Ok(())
}

fn list(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let ms: Vec<Model> = s.many(0, 6, 3, |s| model(s, 6));
    c.show(|| format!("{ms:?}"));
    c.nt(ms.iter().filter(|m| !m.is_empty()).count() >= 2, &ms);
    let r = merge_list(ms.iter().map(build).collect());
    sorted(&r.list)?;
    let refs: Vec<&Model> = ms.iter().collect();
    for k in probes(&refs, s) {
        let e = ms.iter().fold(0, |x, m| x | at(m, k));
        check!(r.get(k).0 == e, "{ms:?} at {k}: got {:#b}, expected {e:#b}", r.get(k).0);
    }
    Ok(())
}

/// Many small maps: of every one of them, something must be left.
fn long_list(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = if s.coin() { s.size(7, 70) } else { s.large(3, 9) };
    let spread = s.int(1, 3 * n as i64);
    let ms: Vec<Model> = (0..n)
        .map(|_| {
            s.span(|s| {
                let mut k = s.int(0, spread);
                let mut m = vec![];
                for _ in 0..s.size(1, 3) {
                    m.push((k, 1u32 << s.below(6)));
                    k += s.int(1, 3);
                }
                // a bit of its own, now and then
                if s.chance(1, 4) {
                    m.last_mut().unwrap().1 |= 1 << s.size(6, 31);
                }
                m
            })
        })
        .collect();
    c.show(|| format!("{} maps: {}", n, clip(&format!("{ms:?}"), 300)));
    c.nt(true, &ms);
    let r = merge_list(ms.iter().map(build).collect());
    sorted(&r.list)?;
    // of an ordered sequence of keys, the intervals of each map are passed once
    for k in -1..spread + 10 {
        let e = ms.iter().fold(0, |x, m| x | at(m, k));
        check!(r.get(k).0 == e, "{n} maps at {k}: got {:#b}, expected {e:#b}", r.get(k).0);
    }
    Ok(())
}

const EDGES: [u32; 20] = [
    0, 1, 2, 0x2F, 0x30, 0x39, 0x7F, 0x80, 0xFF, 0x100, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF,
];

fn a_char(s: &mut Src) -> char {
    match s.weighted(&[3, 3, 1]) {
        0 => char::from_u32(*s.pick(&EDGES)).unwrap(),
        1 => char::from_u32(0x20 + s.below(0x60) as u32).unwrap(),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{E000}'),
    }
}

fn neighbours(c: char) -> Vec<char> {
    let n = c as u32;
    let mut v = vec![c];
    // neighbours in the character order (the surrogate gap has no characters)
    let p = match n {
        0 => None,
        0xE000 => Some(0xD7FF),
        _ => Some(n - 1),
    };
    let q = match n {
        0x10FFFF => None,
        0xD7FF => Some(0xE000),
        _ => Some(n + 1),
    };
    v.extend(p.and_then(char::from_u32));
    v.extend(q.and_then(char::from_u32));
    v
}

fn range_law(a: char, b: char, single: bool, s: &mut Src) -> CaseResult {
    let r: RangeMap<char, State<i32>> = if single { from_one(a, 7) } else { from_range(a..=b, 7) };
    sorted(&r.list)?;
    let mut p = neighbours(a);
    p.extend(neighbours(b));
    p.extend(['\0', '\u{10FFFF}']);
    for _ in 0..4 {
        p.push(a_char(s));
    }
    let (x, y) = (a as u32, b as u32);
    p.extend(char::from_u32(x + (y - x) / 2));
    for k in p {
        let e = if a <= k && k <= b { Some(7) } else { None };
        let g = r.get(k).value;
        check!(g == e, "map of {a:?}..={b:?} (single: {single}) at {k:?}: got {g:?}, expected {e:?}");
    }
    Ok(())
}

fn boundary(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = EDGES.len() as u64;
    let i = s.enumerate(n * n * 2);
    let (a, b, single) = (EDGES[(i % n) as usize], EDGES[(i / n % n) as usize], i / n / n == 1);
    let (a, b) = if single { (a, a) } else { (a.min(b), a.max(b)) };
    let (a, b) = (char::from_u32(a).unwrap(), char::from_u32(b).unwrap());
    c.show(|| format!("{a:?}..={b:?} single={single}"));
    c.nt(true, &(a, b, single));
    range_law(a, b, single, s)
}

fn chars(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b) = (a_char(s), a_char(s));
    let single = s.chance(1, 3);
    let (a, b) = if single { (a, a) } else { (a.min(b), a.max(b)) };
    c.show(|| format!("{a:?}..={b:?} single={single}"));
    c.nt(single || a != b, &(a, b, single));
    range_law(a, b, single, s)
}

/// Disjoint character ranges merged as the tokenizer does it: a function on characters.
fn list_chars(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // same value may overlap; different values must not
    let mut rs: Vec<(char, char, u8)> = Vec::new();
    let n = if s.chance(1, 20) { s.size(9, 80) } else { s.size(0, 8) };
    for _ in 0..n {
        let a = a_char(s);
        let b = if s.coin() { a } else { a_char(s) };
        let (a, b) = (a.min(b), a.max(b));
        let v = s.below(3) as u8;
        if rs.iter().all(|r| r.2 == v || b < r.0 || r.1 < a) {
            rs.push((a, b, v));
        }
    }
    c.show(|| format!("{rs:?}"));
    c.nt(rs.len() >= 2, &rs);
    let m = merge_list(
        rs.iter()
            .map(|&(a, b, v)| if a == b && v == 0 { from_one(a, v) } else { from_range(a..=b, v) })
            .collect(),
    );
    sorted(&m.list)?;
    let mut p: Vec<char> = rs.iter().flat_map(|r| [r.0, r.1]).flat_map(neighbours).collect();
    p.extend(['\0', '\u{10FFFF}', a_char(s)]);
    for k in p {
        let e = rs.iter().find(|r| r.0 <= k && k <= r.1).map(|r| r.2);
        check!(m.get(k).value == e, "{rs:?} at {k:?}: got {:?}, expected {e:?}", m.get(k).value);
    }
    Ok(())
}

/// Many intervals, around every counter's limit.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let gen = |s: &mut Src| -> Model {
        let n = if s.chance(1, 4) { s.size(0, 10) } else { s.large(7, 16) };
        let (from, step, salt) = (s.int(-100_000, 10), s.size(1, 4) as u64, s.below(1 << 20));
        let mut k = from;
        (0..n as u64)
            .map(|i| {
                let r = (k, 1 << (mix(salt ^ i) % 6));
                k += 1 + (mix(salt ^ i ^ 0x55) % step) as i64;
                r
            })
            .collect()
    };
    let (a, b) = (gen(s), gen(s));
    c.show(|| format!("{} intervals {} with {} intervals {}", a.len(), clip(&format!("{a:?}"), 200), b.len(), clip(&format!("{b:?}"), 200)));
    c.nt(true, &(&a, &b));
    // the same by bisection
    let find = |m: &Model, k: i64| m.get(m.partition_point(|e| e.0 < k)).map(|e| e.1).unwrap_or(0);
    let (x, y) = (build(&a), build(&b));
    let keys: Vec<i64> = a.iter().chain(&b).flat_map(|e| [e.0 - 1, e.0, e.0 + 1]).chain([i64::MIN, i64::MAX]).collect();
    for &k in &keys {
        check!(x.get(k).0 == find(&a, k), "of {} intervals, at {k}: got {:#b}, expected {:#b}", a.len(), x.get(k).0, find(&a, k));
    }
    let r = if s.coin() { merge(x, y) } else { merge_list(vec![x, y]) };
    sorted(&r.list)?;
    for &k in &keys {
        let e = find(&a, k) | find(&b, k);
        check!(r.get(k).0 == e, "{} intervals merged with {} at {k}: got {:#b}, expected {e:#b}", a.len(), b.len(), r.get(k).0);
    }
    Ok(())
}

/// All of a byte's values, the ends of the key's type included.
fn bytes(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let gen = |s: &mut Src| -> Vec<(u8, u32)> {
        let mut k: Vec<u8> = s.many(0, 30, 5, |s| *s.pick(&[0, 1, 254, 255, 127, 128, 100]));
        k.extend(s.many(0, 30, 3, |s| s.below(256) as u8));
        k.sort();
        k.dedup();
        k.into_iter().map(|k| (k, 1 << s.below(6))).collect()
    };
    let ms: Vec<Vec<(u8, u32)>> = s.many(1, 5, 2, gen);
    c.show(|| format!("{ms:?}"));
    c.nt(ms.iter().filter(|m| !m.is_empty()).count() >= 2, &ms);
    let find = |m: &Vec<(u8, u32)>, k: u8| m.iter().find(|e| k <= e.0).map(|e| e.1).unwrap_or(0);
    let r = merge_list(ms.iter().map(|m| RangeMap { list: m.iter().map(|&(key, v)| Entry { key, value: Bits(v) }).collect() }).collect());
    sorted(&r.list)?;
    for k in 0..=255u8 {
        let e = ms.iter().fold(0, |x, m| x | find(m, k));
        check!(r.get(k).0 == e, "{ms:?} at {k}: got {:#b}, expected {e:#b}", r.get(k).0);
    }
    Ok(())
}
