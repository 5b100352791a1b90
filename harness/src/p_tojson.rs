//! C02: JSON output is valid JSON and parses back to the same value.
use crate::{
    check,
    fw::*,
    glue, mgr,
    mgr::Chk,
    rparse::{strict_json, Kind},
    val::{self, arr, build, canonical, gen_val, num, obj, utf16, Opt, Val, V},
};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "Random value graphs (shared parts, repeated and unordered keys, lone surrogates, infinities, both zeros), doubles of every magnitude, every UTF-16 code unit, wide and deep shapes, writers that fail after some bytes. Non-trivial: a container with a member, a number that is not a small integer, or a string with a character that needs an escape.",
        assumptions: &[
            "oracle: an independent strict JSON reader with the standard library's number parser",
            "graphs whose full tree is over 2000 nodes are not written",
            "NaN has no JSON form and is excluded; a lone surrogate is excluded from the parse-back leg only",
        ],
        parts: &[
            Part { name: "values", quick: 25_000, thorough: 600_000, run: values },
            Part { name: "numbers", quick: 150_000, thorough: 8_000_000, run: numbers },
            Part { name: "units", quick: 512, thorough: 2048, run: units },
            Part { name: "shape", quick: 600, thorough: 20_000, run: shape },
            Part { name: "large", quick: 50, thorough: 3_000, run: large },
            Part { name: "writer", quick: 20_000, thorough: 400_000, run: writer },
            Part { name: "big", quick: 5_000, thorough: 200_000, run: big },
        ],
    }
}

fn verify(v: &V) -> Result<String, String> {
    let m = Chk();
    let a = build(m, v);
    let t = glue::json(a.clone())?;
    check!(t.bytes().all(|b| (0x20..0x80).contains(&b)), "not ASCII: {}", clip(&t, 300));
    let back = strict_json(&t).map_err(|e| format!("not JSON: {e}: {}", clip(&t, 300)))?;
    val::eq(v, &back).map_err(|e| format!("another reader sees something else: {e}\n{}", clip(&t, 300)))?;
    // the value itself is as before
    val::iso(v, &val::read(&a)).map_err(|e| format!("writing changed the value: {e}"))?;
    check!(glue::json(a.clone())? == t, "written differently the second time");
    if val::has_lone(v) {
        mgr::verify()?;
        return Ok(t);
    }
    let r = glue::parse_any(m, &t).map_err(|e| format!("{} is rejected: {e}", clip(&t, 300)))?;
    check!(glue::kind(&r.data_type) == Kind::Json, "read back as {:?}", glue::kind(&r.data_type));
    val::eq(&canonical(v), &val::read(&r.any)).map_err(|e| format!("read back: {e}\n{}", clip(&t, 300)))?;
    let again = glue::json(r.any)?;
    if val::is_canonical(v) {
        check!(again == t, "writing the value read back gives {} instead of {}", clip(&again, 300), clip(&t, 300));
    } else {
        let r = glue::parse_any(m, &again).map_err(|e| format!("{} is rejected: {e}", clip(&again, 300)))?;
        let third = glue::json(r.any)?;
        check!(third == again, "the text is not stable: {} then {}", clip(&again, 300), clip(&third, 300));
    }
    mgr::verify()?;
    Ok(t)
}

fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let wild = s.chance(1, 3);
    let lone = s.chance(1, 4);
    let v = gen_val(s, Opt { big: false, lone, share: true, wild_keys: wild, nan: false, max: 14 });
    c.show(|| val::show(&v));
    if val::tree_size(&v, 2_001) > 2_000 {
        c.label("too large to write out");
        return Ok(());
    }
    c.label(if !val::shared(&v).is_empty() { "shared parts" } else if val::is_container(&v) { "tree" } else { "leaf" });
    let t = verify(&v)?;
    c.nt(t.len() > 3, &t);
    Ok(())
}

fn numbers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let bits = match s.below(4) {
        0 => {
            let b = s.bits();
            if f64::from_bits(b).is_nan() {
                b & !(1 << 62)
            } else {
                b
            }
        }
        1 => {
            // few digits
            let m = s.int(-99_999, 99_999);
            format!("{m}e{}", s.int(-328, 304)).parse::<f64>().unwrap().to_bits()
        }
        _ => val::gen_num(s),
    };
    let v = Rc::new(Val::Num(bits));
    c.show(|| val::show(&v));
    c.nt(f64::from_bits(bits).fract() != 0.0 || f64::from_bits(bits).abs() > 1e6, &bits);
    let v = match s.below(3) {
        0 => v,
        1 => arr(vec![v.clone(), v]),
        _ => obj(vec![(utf16("n"), v)]),
    };
    verify(&v).map(|_| ())
}

/// Every code unit, alone, doubled, after another, in keys; with both kinds of surrogate around.
fn units(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let i = s.enumerate(512);
    let all: Vec<u16> = (0..128).map(|k| (i * 128 + k) as u16).collect();
    c.show(|| format!("code units {:#06x}..={:#06x}", all[0], all[127]));
    c.nt(true, &i);
    let with = *s.pick(&[0x61u16, 0x5C, 0x22, 0xD83D, 0xDE00, 0x30]);
    let mut items = vec![];
    for &u in &all {
        items.push(Rc::new(Val::Str(vec![u])));
        items.push(Rc::new(Val::Str(vec![with, u, with])));
    }
    verify(&arr(items))?;
    verify(&arr(vec![Rc::new(Val::Str(all.clone()))]))?;
    verify(&obj(all.iter().map(|&u| (vec![u], num(u as f64))).collect()))?;
    verify(&obj(all.iter().map(|&u| (vec![u, with], num(u as f64))).collect()))?;
    Ok(())
}

fn shape(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let k = s.below(4);
    let v: V = match k {
        0 => {
            let n = s.size(1, 300);
            let mut v = arr(vec![]);
            for i in 0..n {
                v = if s.coin() { arr(vec![v, num(i as f64)]) } else { obj(vec![(utf16("k"), v)]) };
            }
            v
        }
        1 => {
            let n = s.size(1, 3000);
            arr((0..n).map(|i| num(i as f64 / 7.0)).collect())
        }
        2 => {
            // doubling: small graph, large tree
            let mut v = arr(vec![num(1.0)]);
            for i in 0..s.size(1, 11) {
                v = if i % 3 == 2 { obj(vec![(utf16("a"), v.clone()), (utf16("b"), v)]) } else { arr(vec![v.clone(), v]) };
            }
            v
        }
        _ => {
            let n = s.size(1, 4000);
            let u: Vec<u16> = s.many(1, 5, 3, |s| s.below(0x10000) as u16);
            Rc::new(Val::Str((0..n).map(|i| u[i % u.len()]).collect()))
        }
    };
    c.show(|| clip(&val::show(&v), 300));
    c.label(["deep", "long", "doubling", "string"][k as usize]);
    let t = verify(&v)?;
    c.nt(true, &t);
    Ok(())
}

/// Through a writer that has something in it and takes only so much.
fn writer(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = gen_val(s, Opt { big: false, lone: true, share: true, wild_keys: false, nan: false, max: 10 });
    c.show(|| val::show(&v));
    if val::tree_size(&v, 2_001) > 2_000 {
        return Ok(());
    }
    let a = build(Chk(), &v);
    let t = glue::json(a.clone())?;
    c.nt(t.len() > 3, &t);
    c.label(if val::is_container(&v) { "container" } else { "leaf" });
    for _ in 0..4 {
        glue::write_limited(s, a.clone(), None, &t)?;
    }
    val::iso(&v, &val::read(&a)).map_err(|e| format!("writing changed the value: {e}"))?;
    drop(a);
    mgr::verify_empty()
}

/// A big integer anywhere makes writing fail.
fn big(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = gen_val(s, Opt { big: true, lone: false, share: true, wild_keys: false, nan: false, max: 8 });
    c.show(|| val::show(&v));
    if val::tree_size(&v, 2_001) > 2_000 {
        return Ok(());
    }
    if !val::has_big(&v) {
        return verify(&v).map(|_| ());
    }
    c.nt(val::is_container(&v), &val::show(&v));
    c.label("refused");
    let a = build(Chk(), &v);
    let r = glue::json(a.clone());
    check!(r.is_err(), "a value with a big integer was written as {}", clip(&r.unwrap(), 300));
    val::iso(&v, &val::read(&a)).map_err(|e| format!("writing changed the value: {e}"))?;
    drop(a);
    mgr::verify_empty()
}

/// Sizes around every counter's limit.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 16);
    let k = s.enumerate(6) as usize;
    let salt = s.below(1 << 20);
    let item = |i: usize| (mix(salt ^ i as u64) % 1000) as f64 / 4.0;
    let l = ["array", "object", "string", "one part very often", "long key", "rows"][k];
    let v: V = match k {
        0 => arr((0..n).map(|i| num(item(i))).collect()),
        1 => obj((0..n).map(|i| (utf16(&format!("{i:06}")), num(item(i)))).collect()),
        2 => Rc::new(Val::Str((0..n).map(|i| (mix(salt ^ i as u64) % 0xD000) as u16).collect())),
        3 => {
            let p = arr(vec![num(item(0))]);
            arr(vec![p; n])
        }
        4 => obj(vec![(utf16(&"k".repeat(n)), num(item(1)))]),
        _ => arr((0..n.min(20_000)).map(|i| obj(vec![(utf16("a"), num(item(i))), (utf16("b"), arr(vec![]))])).collect()),
    };
    c.label(l);
    c.show(|| format!("{l} of {n} from {salt}"));
    c.nt(true, &(k, n, salt));
    verify(&v).map(|_| ()).map_err(|e| clip(&e, 800))
}
