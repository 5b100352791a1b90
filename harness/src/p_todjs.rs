//! C03: module output round-trips values with their sharing.
use crate::{
    check,
    fw::*,
    glue, mgr,
    mgr::Chk,
    rlex::{lex, T},
    rparse::{parse_text, Kind},
    val::{self, arr, build, canonical, gen_val, null, num, obj, utf16, Opt, Val, V},
};
use nanvm_lib::js::new::New;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "Random value graphs with sharing (several sharing styles, shared under shared, doubling chains), both module kinds, all leaf kinds including big integers, infinities and strings; writers that fail after some bytes. Non-trivial: at least one shared array or object; distinct by the text written.",
        assumptions: &[
            "oracle: the generated graph; an independent reader of the language; token counts of the text",
            "NaN is excluded; lone surrogates are excluded from the reading legs",
            "identical text on rewriting is required for values whose keys are unique and ascending, others must be stable after one round trip",
        ],
        parts: &[
            Part { name: "graphs", quick: 120_000, thorough: 3_000_000, run: graphs },
            Part { name: "lattice", quick: 40_000, thorough: 600_000, run: lattice },
            Part { name: "large", quick: 98, thorough: 2_000, run: large },
            Part { name: "chains", quick: 400, thorough: 5_000, run: chains },
            Part { name: "writer", quick: 20_000, thorough: 400_000, run: writer },
        ],
    }
}

/// Through a writer that has something in it and takes only so much.
fn writer(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = gen_val(s, Opt { big: true, lone: true, share: true, wild_keys: false, nan: false, max: 12 });
    let common = s.coin();
    c.show(|| format!("{} {}", if common { "CommonJS" } else { "ES" }, val::show(&v)));
    let a = build(mgr::Chk(), &v);
    let t = glue::djs(a.clone(), common)?;
    c.nt(!val::shared(&v).is_empty(), &t);
    for _ in 0..4 {
        glue::write_limited(s, a.clone(), Some(common), &t)?;
    }
    val::iso(&v, &val::read(&a)).map_err(|e| format!("writing changed the value: {e}"))?;
    drop(a);
    mgr::verify_empty()
}

fn verify(c: &mut Ctx, v: &V, common: bool) -> CaseResult {
    let m = Chk();
    let a = build(m, v);
    let t = glue::djs(a.clone(), common)?;
    c.nt(!val::shared(v).is_empty(), &t);
    check!(t.is_ascii(), "not ASCII: {}", clip(&t, 300));
    val::iso(v, &val::read(&a)).map_err(|e| format!("writing changed the value: {e}"))?;
    // a value of the same shape built elsewhere, with other blocks in between
    let junk = m.new_js_array([]);
    let b = build(m, v);
    let t2 = glue::djs(b, common)?;
    check!(t2 == t, "a value of the same shape is written differently:\n{}\n{}", clip(&t, 400), clip(&t2, 400));
    drop(junk);
    let kind = if common { Kind::Cjs } else { Kind::Mjs };
    if val::has_lone(v) {
        return mgr::verify();
    }
    structure(v, &t)?;
    let want = canonical(v);
    let (k, other) = parse_text(&t).map_err(|_| format!("outside the language: {}", clip(&t, 400)))?;
    check!(k == kind, "{k:?}: {}", clip(&t, 400));
    val::iso(&want, &other).map_err(|e| format!("{e}\n{}", clip(&t, 400)))?;
    let r = glue::parse_any(m, &t).map_err(|e| format!("{} is rejected: {e}", clip(&t, 400)))?;
    check!(glue::kind(&r.data_type) == kind, "read back as {:?}", glue::kind(&r.data_type));
    val::iso(&want, &val::read(&r.any)).map_err(|e| format!("read back: {e}\n{}", clip(&t, 400)))?;
    // the original is not needed any more
    drop(a);
    val::iso(&want, &val::read(&r.any)).map_err(|e| format!("after freeing the original: {e}\n{}", clip(&t, 400)))?;
    let again = glue::djs(r.any, common)?;
    if val::is_canonical(v) {
        check!(again == t, "writing the value read back gives\n{}\ninstead of\n{}", clip(&again, 400), clip(&t, 400));
    } else {
        let r = glue::parse_any(m, &again).map_err(|e| format!("{} is rejected: {e}", clip(&again, 400)))?;
        let third = glue::djs(r.any, common)?;
        check!(third == again, "the text is not stable:\n{}\n{}", clip(&again, 400), clip(&third, 400));
    }
    mgr::verify_empty()
}

/// One constant per shared container, used at least twice; every container opened once.
fn structure(v: &V, t: &str) -> CaseResult {
    let toks = lex(t);
    check!(!toks.contains(&T::Err), "not lexically valid: {}", clip(t, 400));
    let mut uses: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut opened = 0;
    for (i, x) in toks.iter().enumerate() {
        match x {
            T::Op('[') | T::Op('{') => opened += 1,
            T::Id(n) if i > 0 && toks[i - 1] == T::Id("const".into()) => {
                uses.entry(n.clone()).or_default().0 += 1;
            }
            T::Id(n) if uses.contains_key(n) => uses.get_mut(n).unwrap().1 += 1,
            _ => {}
        }
    }
    let containers = val::nodes(v).iter().filter(|x| val::is_container(x)).count();
    check!(opened == containers, "{containers} containers are written {opened} times: {}", clip(t, 400));
    let shared = val::shared(v).len();
    check!(uses.len() == shared, "{shared} shared containers but {} constants: {}", uses.len(), clip(t, 400));
    for (n, (defs, refs)) in uses {
        check!(defs == 1 && refs >= 2, "{n} is defined {defs} times and used {refs} times: {}", clip(t, 400));
    }
    Ok(())
}

fn graphs(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lone = s.chance(1, 10);
    let wild = s.chance(1, 5);
    let v = gen_val(s, Opt { big: true, lone, share: true, wild_keys: wild, nan: false, max: 16 });
    let common = s.coin();
    c.show(|| format!("{} {}", if common { "cjs" } else { "mjs" }, val::show(&v)));
    c.label(match val::shared(&v).len() {
        0 => "no sharing",
        1 => "one shared",
        2..=4 => "several shared",
        _ => "many shared",
    });
    verify(c, &v, common)
}

/// Dense sharing over few nodes with tiny leaves.
fn lattice(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.size(1, 14);
    let mut made: Vec<V> = vec![];
    for i in 0..n {
        let items: Vec<V> = s.many(0, 5, 3, |s| {
            if made.is_empty() || s.chance(1, 6) {
                match s.below(3) {
                    0 => null(),
                    1 => num(i as f64),
                    _ => Rc::new(Val::Str(vec![])),
                }
            } else {
                let k = s.below(made.len() as u64) as usize;
                made[made.len() - 1 - k].clone()
            }
        });
        made.push(if s.chance(1, 3) {
            obj(items.into_iter().enumerate().map(|(i, x)| (utf16(&((b'a' + i as u8) as char).to_string()), x)).collect())
        } else {
            arr(items)
        });
    }
    let v = made.pop().unwrap();
    let common = s.coin();
    c.show(|| format!("{} {}", if common { "cjs" } else { "mjs" }, val::show(&v)));
    c.label(if val::shared(&v).iter().any(|x| val::nodes(x).len() > 1) { "nested sharing" } else { "flat" });
    verify(c, &v, common)
}

/// Exponentially many paths over a linear graph; deep and wide graphs.
fn chains(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let k = s.below(4);
    let n = s.size(1, 120);
    let mut v = arr(vec![]);
    match k {
        0 | 1 => {
            for i in 0..n {
                v = if s.coin() { arr(vec![v.clone(), v]) } else { obj(vec![(utf16("a"), v.clone()), (utf16(&format!("b{i}")), v)]) };
            }
        }
        2 => {
            let mut prev = v.clone();
            for _ in 0..n {
                let next = arr(vec![prev.clone(), v.clone(), prev.clone()]);
                prev = v;
                v = next;
            }
        }
        _ => {
            let leafs: Vec<V> = (0..n).map(|i| arr(vec![num(i as f64)])).collect();
            let mut all = leafs.clone();
            all.extend(leafs.iter().rev().cloned());
            v = arr(all);
        }
    }
    let common = s.coin();
    c.label(["doubling", "doubling", "fibonacci", "wide"][k as usize]);
    c.show(|| format!("{} of {n}: {}", ["doubling", "doubling", "fibonacci", "wide"][k as usize], clip(&val::show(&v), 300)));
    verify(c, &v, common)
}

/// Very many shared parts, and parts shared very often.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 13);
    let k = s.enumerate(7) as usize;
    let l = ["many shared", "often", "shared in shared", "often in many", "unshared", "shared late", "forest"][k];
    let leaf = |i: usize| if i % 3 == 0 { obj(vec![(utf16("a"), num(i as f64))]) } else { arr(vec![num(i as f64)]) };
    let v: V = match k {
        0 => {
            let p: Vec<V> = (0..n).map(leaf).collect();
            let mut all = p.clone();
            all.extend(p);
            arr(all)
        }
        1 => {
            let n = n * 8;
            let p = leaf(s.size(0, 5));
            arr(vec![p; n])
        }
        2 => {
            // every part uses the one before and the first; nesting is bounded
            let mut all = vec![leaf(0)];
            for i in 1..n {
                let prev = all[i - 1 - (i - 1) % 50.min(i)].clone();
                all.push(arr(vec![all[0].clone(), prev.clone(), num(i as f64)]));
            }
            let mut twice = all.clone();
            twice.extend(all);
            arr(twice)
        }
        3 => {
            let p = leaf(1);
            arr((0..n).map(|i| arr(vec![p.clone(), num(i as f64), p.clone()])).collect())
        }
        4 => arr((0..n).map(leaf).collect()),
        5 => {
            // sharing begins and ends behind very many parts
            let before = arr((0..n).map(leaf).collect());
            let mut last = leaf(s.size(0, 5));
            let mut all = vec![before];
            for i in 0..s.size(1, 4) {
                all.push(last.clone());
                last = if s.coin() { arr(vec![last.clone(), num(i as f64), last]) } else { obj(vec![(utf16("k"), arr(vec![last.clone()])), (utf16("l"), last)]) };
            }
            all.push(arr(vec![last]));
            if s.coin() {
                all.swap(0, 1);
            }
            arr(all)
        }
        _ => {
            // parts of earlier parts, most of them of recent ones, of any number of uses
            let salt = s.below(1 << 20);
            let rare = s.size(2, 60) as u64;
            let mut all: Vec<(V, usize)> = vec![(leaf(0), 1)];
            for i in 1..n {
                let r = |k: u64| mix(salt ^ (i as u64 * 8 + k));
                if r(0) % rare != 0 {
                    all.push((leaf(i), 1));
                    continue;
                }
                let one = |k: u64| {
                    let back = if r(k) % 2 == 0 { r(k + 3) as usize % i.min(20) } else { r(k + 3) as usize % i };
                    let x = &all[i - 1 - back];
                    if x.1 > 60 { (num(0.0), 0) } else { x.clone() }
                };
                let (x, y) = (one(1), one(2));
                let d = x.1.max(y.1) + 1;
                all.push((if r(7) % 2 == 0 { arr(vec![x.0, y.0]) } else { obj(vec![(utf16("x"), x.0), (utf16("y"), y.0)]) }, d));
            }
            arr(all.into_iter().map(|x| x.0).collect())
        }
    };
    let common = s.coin();
    c.label(l);
    c.show(|| format!("{l}: {n}, {}", if common { "cjs" } else { "mjs" }));
    verify(c, &v, common).map_err(|e| clip(&e, 800))
}
