//! C01: a JSON document parses to exactly the value it denotes.
use crate::{
    check,
    fw::*,
    glue, mgr,
    mgr::Chk,
    rparse::{strict_json, Kind},
    spell,
    val::{self, arr, canonical, canonical_members, gen_val, null, num, obj, text, utf16, Opt, Val, V},
};
use nanvm_lib::mem::global::GLOBAL;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "Random JSON values spelled at random: white space of every kind at every place, numbers with moved points and exponents, strings mixing raw, short and \\u spellings (surrogate pairs too), repeated and look-alike keys, wide and deep shapes. Non-trivial: the text has a container with a member and is not in the serialiser's own spelling.",
        assumptions: &[
            "oracle: the generated value itself, cross-checked by an independent strict JSON reader",
            "nesting up to 300 levels here; deeper nesting is the robustness property's",
        ],
        parts: &[
            Part { name: "fixed", quick: 36, thorough: 36, run: fixed },
            Part { name: "spelled", quick: 60_000, thorough: 3_000_000, run: spelled },
            Part { name: "keys", quick: 30_000, thorough: 1_000_000, run: keys },
            Part { name: "shape", quick: 800, thorough: 30_000, run: shape },
            Part { name: "large", quick: 140, thorough: 3_000, run: large },
            Part { name: "layout", quick: 5_000, thorough: 200_000, run: layout },
        ],
    }
}

fn verify(c: &mut Ctx, txt: &str, want: &V) -> CaseResult {
    let strict = strict_json(txt).unwrap_or_else(|e| panic!("the generated text is not JSON: {e}: {txt}"));
    let want = canonical(want);
    val::iso(&want, &canonical(&strict)).unwrap_or_else(|e| panic!("the oracles disagree: {e}"));
    let (k, v) = glue::parse_model(Chk(), txt).map_err(|e| format!("rejected: {e:?}"))?;
    check!(k == Kind::Json, "read as {k:?}");
    val::iso(&want, &v)?;
    if txt.len() % 4 == 0 {
        // another manager
        let (k, v) = glue::parse_model(GLOBAL, txt).map_err(|e| format!("rejected: {e:?}"))?;
        check!(k == Kind::Json, "read as {k:?}");
        val::iso(&want, &v)?;
    }
    mgr::verify()?;
    let _ = c;
    Ok(())
}

const OPT: Opt = Opt {
    big: false,
    lone: false,
    share: false,
    wild_keys: true,
    nan: false,
    max: 12,
};

fn spelled(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = gen_val(s, OPT);
    let txt = spell::json(s, &v);
    c.show(|| txt.clone());
    c.nt(txt.len() > 4 && (val::is_container(&v) || txt.contains('\\') || txt.contains(['e', '.'])), &txt);
    c.label(match &*v {
        Val::Arr(_) => "array",
        Val::Obj(_) => "object",
        _ => "leaf",
    });
    verify(c, &txt, &v)
}

/// Objects with many members over few keys.
fn keys(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let pool: Vec<Vec<u16>> = s.many(1, 8, 3, val::gen_key);
    let mut n = 0;
    let members = s.many(1, 60, 8, |s| {
        n += 1;
        let k = s.pick(&pool).clone();
        let v = match s.below(6) {
            0 => obj(vec![(utf16("a"), num(n as f64)), (utf16("a"), null())]),
            1 => arr(vec![num(n as f64)]),
            2 => null(),
            _ => num(n as f64),
        };
        (k, v)
    });
    let distinct = canonical_members(members.clone()).len();
    c.label(if distinct < members.len() { "repeated key" } else { "all distinct" });
    let mut v = obj(members);
    if s.chance(1, 4) {
        v = arr(vec![v]);
    }
    let txt = spell::json(s, &v);
    c.show(|| txt.clone());
    c.nt(distinct >= 2, &txt);
    verify(c, &txt, &v)
}

fn shape(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let kind = s.enumerate(6);
    let (v, l): (V, _) = match kind {
        0 => {
            let n = s.size(1, 300);
            let mut v = val::gen_leaf(s, OPT);
            for i in 0..n {
                v = if s.coin() { arr(vec![v]) } else { obj(vec![(utf16(&format!("k{}", i % 7)), v)]) };
            }
            (v, "deep")
        }
        1 => {
            let n = s.size(1, 3000);
            (arr((0..n).map(|i| num(i as f64)).collect()), "long array")
        }
        2 => {
            let n = s.size(1, 1500);
            let step = 2 * s.size(0, 500) + 1;
            (obj((0..n).map(|i| (utf16(&format!("{}", (i * step) % 1500)), num(i as f64))).collect()), "large object")
        }
        3 => {
            let n = s.size(1, 5000);
            let unit: Vec<char> = s.many(1, 6, 3, val::gen_char);
            let t: String = (0..n).map(|i| unit[i % unit.len()]).collect();
            (text(&t), "long string")
        }
        4 => {
            let n = s.size(1, 300);
            let mut v = arr(vec![]);
            for i in 0..n {
                v = arr(vec![num(i as f64), v, null()]);
            }
            (v, "deep with siblings")
        }
        _ => {
            let n = s.size(1, 400);
            let row: Vec<V> = (0..n)
                .map(|i| obj(vec![(utf16("id"), num(i as f64)), (utf16("x"), arr(vec![null(), Rc::new(Val::Bool(i % 2 == 0))]))]))
                .collect();
            (arr(row), "table")
        }
    };
    c.label(l);
    let txt = spell::json(s, &v);
    c.show(|| format!("{l}: {}", clip(&txt, 300)));
    c.nt(true, &txt);
    verify(c, &txt, &v)
}

/// The same value in two layouts.
fn layout(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = gen_val(s, OPT);
    let a = spell::json(s, &v);
    let b = spell::json(s, &v);
    c.show(|| format!("{a}\n{b}"));
    c.nt(a != b && val::is_container(&v), &(&a, &b));
    let x = glue::parse_model(Chk(), &a).map_err(|e| format!("the first is rejected: {e:?}"))?;
    let y = glue::parse_model(Chk(), &b).map_err(|e| format!("the second is rejected: {e:?}"))?;
    val::iso(&x.1, &y.1)?;
    verify(c, &b, &v)
}

const FIXED: [&str; 36] = [
    "null", " true ", "false\n", "\t0\r\n", "-0", "\"\"", "[]", "{}", "[ ]", "{ }", "[[]]", "[{}]", "{\"\":{}}", "[[],[]]",
    "{\"a\":1,\"a\":2}", "{\"b\":1,\"a\":2,\"b\":3}", "{\"a\":{\"a\":1,\"a\":[]},\"a\":{}}", "[1,\n2\n,3]", "\n\n[\n\n1\n\n,\n\n2\n\n]\n\n",
    "\"\\ud83d\\ude00\"", "\"\\uD83D\\uDE00x\"", "{\"\\u0061\":1,\"a\":2}", "\"\\/\"", "\"/\"", "[1e2,1E2,1e+2,1E-2,100]",
    "[-1.5e-3,0.0,0e0,-0e1]", "{\"const\":1,\"null\":null,\"true\":true,\"import\":2,\"require\":3,\"module\":4,\"export\":5}",
    "[null,true,false]", "\"null\"", "[\"[\",\"{\",\",\",\":\"]", "\"//\"", "\"/*\"", "[\"a\",\"\",\"a\"]", "\"\u{7f}\u{80}\u{2028}\"",
    "{\"\u{e000}\":1,\"\u{10000}\":2,\"\u{ffff}\":3}", "[0,[1,[2,[3,[4]]]],{\"a\":{\"b\":{\"c\":[{}]}}}]",
];

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let txt = FIXED[s.enumerate(FIXED.len() as u64) as usize];
    c.show(|| txt.to_string());
    c.nt(true, txt);
    verify(c, txt, &strict_json(txt).unwrap())
}

/// Sizes around every counter's limit.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 16);
    let k = s.enumerate(7);
    let salt = s.below(1 << 20);
    let sep = *s.pick(&[",", ", ", "\n,\n", " ,\t"]);
    let item = |i: usize| (mix(salt ^ i as u64) % 1000) as f64;
    let (txt, v, l): (String, V, _) = match k {
        0 => {
            let t: Vec<String> = (0..n).map(|i| item(i).to_string()).collect();
            (format!("[{}]", t.join(sep)), arr((0..n).map(|i| num(item(i))).collect()), "array")
        }
        1 => {
            let key = |i: usize| format!("k{}", mix(salt ^ i as u64));
            let t: Vec<String> = (0..n).map(|i| format!("\"{}\":{}", key(i), item(i))).collect();
            (format!("{{{}}}", t.join(sep)), obj((0..n).map(|i| (utf16(&key(i)), num(item(i)))).collect()), "object")
        }
        2 => {
            // few keys, repeated very often
            let key = |i: usize| format!("k{}", mix(salt ^ i as u64) % 300);
            let t: Vec<String> = (0..n).map(|i| format!("\"{}\":{i}", key(i))).collect();
            (format!("{{{}}}", t.join(sep)), obj((0..n).map(|i| (utf16(&key(i)), num(i as f64))).collect()), "repeated keys")
        }
        3 => {
            let ch = |i: usize| char::from_u32(0x20 + (mix(salt ^ i as u64) % 0x3000) as u32).unwrap();
            let u: String = (0..n).map(ch).collect();
            let t: String = u.chars().map(|c| if c == '"' || c == '\\' { format!("\\{c}") } else { c.to_string() }).collect();
            (format!("\"{t}\""), text(&u), "string")
        }
        4 => {
            // escapes only
            let ch = |i: usize| (mix(salt ^ i as u64) % 0xD000) as u16;
            let t: String = (0..n).map(|i| format!("\\u{:04x}", ch(i))).collect();
            (format!("\"{t}\""), Rc::new(Val::Str((0..n).map(ch).collect())), "escapes")
        }
        5 => {
            let key = format!("{}{salt}", "k".repeat(n));
            (format!("{{\"{key}\":[{{\"{key}\":1}}]}}"), obj(vec![(utf16(&key), arr(vec![obj(vec![(utf16(&key), num(1.0))])]))]), "long key")
        }
        _ => {
            // white space
            let w: String = (0..n).map(|i| [' ', '\t', '\n', '\r'][(mix(salt ^ i as u64) % 4) as usize]).collect();
            (format!("{w}[{w}1{w},{w}\"a\"{w}]{w}"), arr(vec![num(1.0), text("a")]), "white space")
        }
    };
    c.label(l);
    c.show(|| format!("{l} of {n} from {salt}: {}", clip(&txt, 200)));
    c.nt(true, &txt);
    verify(c, &txt, &v).map_err(|e| clip(&e, 800))
}
