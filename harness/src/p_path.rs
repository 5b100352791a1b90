//! C09: path joining.
use crate::{check, fw::*, layout, rpath::*};
use nanvm_lib::parser::path::{concat, split};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "Paths of 0-8 components (names, dotted names, '.', '..', empty), relative or absolute, with doubled and trailing slashes, singly, in pairs and triples; all component sequences up to length 4 enumerated. Non-trivial: at least two components, one of them '.', '..' or empty.",
        assumptions: &[],
        parts: &[
            Part { name: "enumerated", quick: 68_000, thorough: 68_000, run: enumerated },
            Part { name: "pairs", quick: 3_000_000, thorough: 30_000_000, run: pairs },
            Part { name: "triples", quick: 2_000_000, thorough: 30_000_000, run: triples },
            Part { name: "split", quick: 1_000_000, thorough: 10_000_000, run: splits },
            Part { name: "large", quick: 1_000, thorough: 20_000, run: large },
        ],
    }
}

const NAMES: [&str; 14] = ["a", "b", "dir", "x.json", "file.d.cjs", "...", "..a", "a..", ".hidden", " ", "é", ".", "..", ""];

fn component(s: &mut Src) -> String {
    match s.weighted(&[8, 6, 4, 2, 2]) {
        0 => s.pick(&NAMES[..11]).to_string(),
        1 => "..".into(),
        2 => s.pick(&NAMES[11..]).to_string(),
        3 => s.dict_name(),
        _ => layout::odd_name(s),
    }
}

pub fn path(s: &mut Src) -> String {
    let mut c = s.many(0, 8, 3, component);
    if !c.is_empty() && s.chance(1, 8) {
        // one of them twice in a row
        let i = s.below(c.len() as u64) as usize;
        c.insert(i, c[i].clone());
    }
    let mut p = c.join("/");
    if s.chance(1, 3) {
        p.insert(0, '/');
    }
    if s.chance(1, 6) {
        p.push('/');
    }
    p
}

fn interesting(p: &str) -> bool {
    let c: Vec<&str> = p.split('/').collect();
    c.len() >= 2 && c.iter().any(|x| x.is_empty() || *x == "." || *x == "..")
}

fn join_law(a: &str, b: &str) -> Result<String, String> {
    let r = concat(a, b);
    let e = canonical(&joined(a, b));
    check!(r == e, "joining {a:?} and {b:?} gives {r:?}, expected {e:?}");
    check!(concat(&r, "") == r, "{r:?} is not a fixed point: {:?}", concat(&r, ""));
    Ok(r)
}

fn enumerated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // a: up to 3 components, b: up to 2, over a small alphabet, each relative or absolute
    const A: [&str; 6] = ["a", "..", ".", "", "b", "...",];
    let total = 2 * 2 * 7 * 7 * 7 * 7 * 7;
    let mut i = s.enumerate(total);
    let mut digit = |n: u64| {
        let d = i % n;
        i /= n;
        d as usize
    };
    let (aa, ba) = (digit(2) == 1, digit(2) == 1);
    let mut build = |n: usize, abs: bool| {
        let mut v = Vec::new();
        for _ in 0..n {
            let d = digit(7);
            if d < 6 {
                v.push(A[d]);
            }
        }
        format!("{}{}", if abs { "/" } else { "" }, v.join("/"))
    };
    let a = build(3, aa);
    let b = build(2, ba);
    c.show(|| format!("{a:?} + {b:?}"));
    c.nt(interesting(&a) || interesting(&b), &(&a, &b));
    join_law(&a, &b)?;
    Ok(())
}

fn pairs(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b) = (path(s), path(s));
    c.show(|| format!("{a:?} + {b:?}"));
    c.nt(interesting(&a) || interesting(&b), &(&a, &b));
    c.label(match (a.starts_with('/'), b.starts_with('/')) {
        (_, true) => "absolute second",
        (true, _) => "absolute first",
        _ => "both relative",
    });
    let r = join_law(&a, &b)?;
    // spelled differently, same meaning, same result
    let a2 = a.replace('/', "//") + "/.";
    if !a.is_empty() {
        check!(concat(&a2, &b) == r, "{a:?} and {a2:?} differ when joined with {b:?}");
    }
    Ok(())
}

fn triples(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (x, y, z) = (path(s), path(s), path(s));
    c.show(|| format!("{x:?} + {y:?} + {z:?}"));
    c.nt(interesting(&x) || interesting(&y) || interesting(&z), &(&x, &y, &z));
    let l = concat(&concat(&x, &y), &z);
    let r = concat(&x, &concat(&y, &z));
    check!(l == r, "not associative: {x:?} {y:?} {z:?}: {l:?} and {r:?}");
    Ok(())
}

fn splits(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let p = path(s);
    c.show(|| format!("{p:?}"));
    c.nt(p.contains('/'), &p);
    let (d, f) = split(&p);
    check!(!f.contains('/'), "file part {f:?} of {p:?} has a slash");
    if p.contains('/') {
        check!(format!("{d}/{f}") == p || (d == "/" && format!("/{f}") == p), "{p:?} split into {d:?} and {f:?}");
    } else {
        check!(d.is_empty() && f == p, "{p:?} split into {d:?} and {f:?}");
    }
    let e = canonical(&meaning(&p));
    check!(concat(d, f) == e, "{p:?} split into {d:?} and {f:?}, joined back to {:?}, expected {e:?}", concat(d, f));
    Ok(())
}

/// Very many components, and very long ones.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let gen = |s: &mut Src| -> String {
        if s.chance(1, 4) {
            return path(s);
        }
        let n = s.large(7, 16);
        let unit: Vec<String> = s.many(1, 5, 2, component);
        let mut p = if s.chance(1, 3) { "/" } else { "" }.to_string();
        if s.chance(1, 4) {
            // one long name
            p.push_str(&"né".repeat(n));
        } else {
            for i in 0..n {
                if i > 0 {
                    p.push('/');
                }
                p.push_str(&unit[i % unit.len()]);
            }
        }
        p
    };
    let (a, b) = (gen(s), gen(s));
    c.show(|| format!("{} + {} ({} and {} bytes)", clip(&a, 200), clip(&b, 200), a.len(), b.len()));
    c.nt(true, &(&a, &b));
    join_law(&a, &b).map_err(|e| clip(&e, 600))?;
    Ok(())
}
