//! C21: string literals.
use crate::{
    check,
    fw::*,
    glue, mgr,
    mgr::Chk,
    rlex,
    rlex::T,
    rparse::strict_json,
    spell,
    val::{self, arr, build, num, obj, utf16, Val},
};
use nanvm_lib::{
    js::js_string::new_string,
    mem::{global::GLOBAL, manager::Manager},
    serializer::to_json::WriteJson,
};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "Reading: texts of random characters, each spelled raw, with a short escape, with \\u in either case, or as a surrogate pair of escapes, as a value and as a key; every character of the first planes and boundary ones in every spelling; literals with one defect put at a random place. Writing: random sequences of code units and all 65536 of them. Non-trivial: an escape or a non-ASCII character; distinct by the literal.",
        assumptions: &[
            "oracle: the generated code units; an independent decoder of literals written from the escape table, an independent JSON reader for written text",
            "a raw control character in a literal stands for itself, as the tokenizer's character table has it",
        ],
        parts: &[
            Part { name: "read", quick: 100_000, thorough: 5_000_000, run: read },
            Part { name: "characters", quick: 2_200, thorough: 17_408, run: characters },
            Part { name: "escapes", quick: 4_096, thorough: 65_536, run: escapes },
            Part { name: "defect", quick: 100_000, thorough: 5_000_000, run: defect },
            Part { name: "soup", quick: 100_000, thorough: 5_000_000, run: soup },
            Part { name: "write", quick: 60_000, thorough: 3_000_000, run: write },
            Part { name: "large", quick: 120, thorough: 4_000, run: large },
            Part { name: "units", quick: 256, thorough: 256, run: units },
        ],
    }
}

/// The literal as a token, a value, an array item and a key.
fn reads_as(lit: &str, want: &[u16]) -> CaseResult {
    let txt = String::from_utf16(want).unwrap();
    let t = glue::tokens(Chk(), lit);
    check!(t == [T::Str(txt.clone())], "{} gives {t:?}", clip(lit, 200));
    let s = Rc::new(Val::Str(want.to_vec()));
    let v = glue::parse_model(Chk(), lit).map_err(|e| format!("{} is rejected: {e:?}", clip(lit, 200)))?;
    val::iso(&s, &v.1).map_err(|e| format!("{}: {e}", clip(lit, 200)))?;
    let text = format!("[{lit},{{{lit}:{lit},\"\u{10ffff}\u{10ffff}\":0}}]");
    let v = glue::parse_model(Chk(), &text).map_err(|e| format!("{} is rejected: {e:?}", clip(&text, 200)))?;
    let o = obj(vec![(want.to_vec(), s.clone()), (utf16("\u{10ffff}\u{10ffff}"), num(0.0))]);
    val::iso(&arr(vec![s, val::canonical(&o)]), &v.1).map_err(|e| format!("{}: {e}", clip(&text, 200)))?;
    mgr::verify()
}

fn read(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = match s.weighted(&[60, 1, 4]) {
        1 => {
            let u = val::gen_text(s, 5);
            u.repeat(s.size(1, 300))
        }
        2 => {
            // something among many plain characters
            let mut u = "a".repeat(s.size(0, 200));
            u += &val::gen_text(s, 2);
            u + &"b".repeat(s.size(0, 100))
        }
        _ => val::gen_text(s, 6),
    };
    let u = utf16(&t);
    let raw = s.chance(1, 3);
    let lit = spell::string_with(s, &u, raw);
    c.show(|| lit.clone());
    c.nt(lit.contains('\\') || !lit.is_ascii(), &lit);
    c.label(if lit.contains("\\u") { "with \\u" } else if lit.contains('\\') { "short escapes" } else { "raw" });
    reads_as(&lit, &u)
}

/// 64 characters, each in every spelling.
fn characters(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // every block of the first planes' start, then a spread
    let i = s.enumerate(17_408);
    let base = (i * 64) as u32;
    c.show(|| format!("characters {base:#x}..{:#x}", base + 64));
    c.nt(true, &i);
    for ch in (base..base + 64).filter_map(char::from_u32) {
        let u = utf16(&ch.to_string());
        if ch != '"' && ch != '\\' {
            reads_as(&format!("\"{ch}\""), &u)?;
            if i % 5 == 0 {
                reads_as(&format!("\"a{ch}{ch}b\""), &utf16(&format!("a{ch}{ch}b")))?;
            }
        }
        let lo: String = u.iter().map(|x| format!("\\u{x:04x}")).collect();
        reads_as(&format!("\"{lo}\""), &u)?;
        let up: String = u.iter().map(|x| format!("\\u{x:04X}")).collect();
        reads_as(&format!("\"{up}0\""), &utf16(&format!("{ch}0")))?;
    }
    Ok(())
}

/// Every 16-bit escape, paired with another one: surrogates need their other half.
fn escapes(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // spread over all values, so that any prefix of the enumeration samples them evenly
    let i = (s.enumerate(65_536) * 40_503) & 0xFFFF;
    let special = [0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x0041];
    let mut others = vec![s.below(0x10000), 0xD800 + s.below(0x800)];
    others.extend(special);
    c.show(|| format!("escape \\u{i:04x}"));
    c.nt(true, &i);
    let mut firsts = vec![i];
    firsts.push(0xD800 + i % 0x800);
    for a in firsts {
        for lit in [format!("\"\\u{a:04x}\""), format!("\"\\u{a:04X}x\""), format!("\"\\u{a:04x}\\n\"")] {
            against(&lit)?;
        }
        for &b in &others {
            against(&format!("\"\\u{a:04x}\\u{b:04x}\""))?;
            against(&format!("\"\\u{b:04X}\\u{a:04X}\""))?;
        }
    }
    Ok(())
}

/// Compares with the independent decoder, valid or not.
fn against(lit: &str) -> CaseResult {
    let c: Vec<char> = lit.chars().collect();
    match rlex::string(&c[1..]) {
        Some((t, n)) if n + 1 == c.len() => reads_as(lit, &utf16(&t)),
        Some(_) => Ok(()),
        None => {
            let t = glue::tokens(Chk(), lit);
            check!(t.contains(&T::Err), "{} is invalid but gives {t:?}", clip(lit, 200));
            check!(glue::parse_model(Chk(), lit).is_err(), "{} is invalid but accepted", clip(lit, 200));
            for text in [format!("[{lit}]"), format!("{{{lit}:1}}"), format!("{{\"a\":{lit}}}"), format!("[{lit}")] {
                let r = glue::parse_model(Chk(), &text);
                // what follows may close the literal in another place
                let bad = strict_json(&text).is_err();
                check!(r.is_err() || !bad, "{} is invalid but accepted", clip(&text, 200));
            }
            mgr::verify()
        }
    }
}

fn defect(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let before = val::gen_text(s, 3);
    let after = val::gen_text(s, 3);
    let a = spell::string(s, &utf16(&before));
    let b = spell::string(s, &utf16(&after));
    let hex4 = |s: &mut Src, lo: u64, hi: u64| format!("{:04x}", lo + s.below(hi - lo));
    let k = s.below(8);
    let bad = match k {
        0 => format!("\\{}", s.pick(&['a', 'c', 'v', 'x', '0', '1', '\'', 'U', 'B', 'F', 'N', ' ', '\n', 'é', 'z'])),
        1 => {
            // a digit short, followed by something else
            let h = hex4(s, 0, 0x10000);
            let n = s.size(0, 3);
            format!("\\u{}{}", &h[..n], s.pick(&['g', ' ', '"', '\\', 'G', 'x', '-', '/', ':', '@', '`', 'é', '+']))
        }
        2 => format!("\\u{}", hex4(s, 0xD800, 0xDC00)),
        3 => format!("\\u{}", hex4(s, 0xDC00, 0xE000)),
        4 => format!("\\u{}\\u{}", hex4(s, 0xD800, 0xDC00), hex4(s, 0, 0xDC00)),
        5 => format!("\\u{}\\u{}", hex4(s, 0xD800, 0xDC00), hex4(s, 0xE000, 0x10000)),
        6 => format!("\\u{}{}", hex4(s, 0xD800, 0xDC00), s.pick(&["\\n", "\\\\", "a", "\\uDE", "\\", "\\x"])),
        _ => "\\u".to_string(),
    };
    c.label(["unknown escape", "bad digit", "lone high", "lone low", "high not followed by low", "high not followed by low", "high then other", "bare \\u"][k as usize]);
    let mut lit = format!("{}{bad}{}", &a[..a.len() - 1], &b[1..]);
    if s.chance(1, 4) {
        // unclosed: cut anywhere
        let n = s.size(1, lit.chars().count());
        lit = lit.chars().take(n).collect();
    }
    c.show(|| lit.clone());
    c.nt(true, &lit);
    against(&lit)
}

fn soup(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const P: [&str; 28] = [
        "\\", "u", "\"", "0", "9", "a", "f", "A", "F", "d83d", "DE00", "\\ud83d", "\\ude00", "\\u0041", "\\n", "\\/", "\\\\", "\\\"", "D", "8", "c", "\\uD", "é", "\u{1F600}",
        "g", "b", "n", "/",
    ];
    let body: String = s.many(0, 14, 6, |s| *s.pick(&P)).concat();
    let lit = format!("\"{body}\"");
    c.show(|| lit.clone());
    c.nt(lit.contains('\\'), &lit);
    let ch: Vec<char> = lit.chars().collect();
    let valid = rlex::string(&ch[1..]);
    c.label(match &valid {
        Some((_, n)) if n + 1 == ch.len() => "valid",
        Some(_) => "closed early",
        None => "invalid",
    });
    if let Some((t, n)) = &valid {
        if n + 1 < ch.len() {
            // the literal ends before: the first token still is that string
            let g = glue::tokens(Chk(), &lit);
            check!(g.first() == Some(&T::Str(t.clone())), "{lit} starts with {:?}", g.first());
            return Ok(());
        }
    }
    against(&lit)
}

fn written(u: &[u16]) -> CaseResult {
    let m = Chk();
    let v = Rc::new(Val::Str(u.to_vec()));
    let mut t = String::new();
    t.write_js_string(&new_string(m, u.to_vec()).to_ref()).map_err(|e| e.to_string())?;
    check!(t.bytes().all(|b| (0x20..0x80).contains(&b)), "not ASCII: {t:?}");
    let back = strict_json(&t).map_err(|e| format!("{t}: {e}"))?;
    val::iso(&v, &back).map_err(|e| format!("{t}: {e}"))?;
    same_everywhere(m, u, &t)?;
    if !val::lone(u) {
        reads_as(&t, u)?;
    }
    mgr::verify()
}

/// The same spelling in every output and position.
fn same_everywhere<M: Manager>(m: M, u: &[u16], t: &str) -> CaseResult {
    let v = Rc::new(Val::Str(u.to_vec()));
    let a = build(m, &v);
    check!(glue::json(a.clone())? == t, "JSON has another spelling of {t}");
    check!(glue::djs(a.clone(), true)? == format!("module.exports={t}"), "the module has another spelling of {t}");
    check!(glue::djs(a, false)? == format!("export default {t}"), "the module has another spelling of {t}");
    let o = build(m, &obj(vec![(u.to_vec(), v)]));
    check!(glue::json(o.clone())? == format!("{{{t}:{t}}}"), "JSON has another spelling of the key {t}");
    check!(glue::djs(o, false)? == format!("export default {{{t}:{t}}}"), "the module has another spelling of the key {t}");
    Ok(())
}

fn write(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lone = s.coin();
    let u = val::gen_units(s, 8, lone);
    c.show(|| val::show_units(&u));
    c.nt(u.iter().any(|&x| !(0x20..0x7F).contains(&x) || x == 0x22 || x == 0x5C), &u);
    c.label(if val::lone(&u) { "lone surrogate" } else { "text" });
    written(&u)?;
    let mut t = String::new();
    t.write_js_string(&new_string(GLOBAL, u.clone()).to_ref()).map_err(|e| e.to_string())?;
    same_everywhere(GLOBAL, &u, &t)
}

fn units(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let i = s.enumerate(256) as u16;
    c.show(|| format!("code units {:#06x}..={:#06x}", i * 256, i * 256 + 255));
    c.nt(true, &i);
    for k in 0..256u16 {
        written(&[i * 256 + k])?;
    }
    let all: Vec<u16> = (0..256u16).map(|k| i * 256 + k).collect();
    written(&all)
}

/// Long strings: one unit of spelling again and again, or all kinds mixed; read and written.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 16);
    let salt = s.below(1 << 20);
    let k = s.enumerate(5);
    let lead = s.size(0, 3);
    let mut u = vec![0x61u16; lead];
    let mut lit = format!("\"{}", "a".repeat(lead));
    for i in 0..n {
        let r = mix(salt ^ i as u64);
        let ch = match k {
            0 => 'x',
            1 => '\u{1F600}',
            2 => '\n',
            _ => match r % 6 {
                0 => '"',
                1 => '\u{10000}',
                2 => 'é',
                3 => '\u{7}',
                _ => char::from_u32(0x20 + (r >> 8) as u32 % 0x5F).unwrap(),
            },
        };
        let mut buf = [0; 2];
        let units = ch.encode_utf16(&mut buf);
        let raw = ch >= ' ' && ch != '"' && ch != '\\' && k != 4 && (r >> 40) % 2 == 0;
        if raw {
            lit.push(ch);
        } else {
            for x in units.iter() {
                lit.push_str(&format!("\\u{x:04X}"));
            }
        }
        u.extend_from_slice(units);
    }
    lit.push('"');
    c.show(|| format!("{n} characters from {salt}, way {k}: {}", clip(&lit, 200)));
    c.nt(true, &(n, salt, k));
    reads_as(&lit, &u).and_then(|_| written(&u)).map_err(|e| clip(&e, 800))
}
