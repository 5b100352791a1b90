//! C04: decimal literals.
use crate::{
    check,
    fw::*,
    glit, glue, mgr,
    mgr::Chk,
    rint::{nearest, RInt},
    rlex::T,
    val::{self, Val},
};
use nanvm_lib::tokenizer::tokenize;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "Literals -?int frac? exp?: exact expansions of half-way points between adjacent doubles and of doubles (with one digit changed, appended, or cut), shortest spellings of random doubles respelled with the point moved, padded zeros and E+/e/- exponents, hundreds of digits, subnormal, underflow and overflow boundaries, exponents up to and beyond machine integers. Non-trivial: more than 17 significant digits, or a non-zero exponent, or a subnormal, zero or infinite result.",
        assumptions: &[
            "oracle: exact rational arithmetic with one rounding, and the standard library's parser, which must agree with each other",
        ],
        parts: &[
            Part { name: "fixed", quick: 96, thorough: 96, run: fixed },
            Part { name: "half-way", quick: 30_000, thorough: 1_500_000, run: halfway },
            Part { name: "respelled", quick: 50_000, thorough: 2_500_000, run: respelled },
            Part { name: "free", quick: 50_000, thorough: 2_500_000, run: free },
            Part { name: "long", quick: 3_000, thorough: 60_000, run: long },
            Part { name: "large", quick: 160, thorough: 4_000, run: large },
            Part { name: "exponents", quick: 40_000, thorough: 1_000_000, run: exponents },
        ],
    }
}

/// The library's reading of the literal: as a token and as a parsed value, in some context.
pub fn library(lit: &str, how: u64) -> Result<f64, String> {
    let m = Chk();
    let f = {
        let (text, at) = match how {
            0 => (lit.to_string(), 0),
            1 => (format!("[{lit}]"), 1),
            2 => (format!("{lit} "), 0),
            3 => (format!("{{\"k\":{lit}}}"), 3),
            4 => (format!("[1,{lit},2]"), 3),
            5 => (format!("{lit}/**/"), 0),
            _ => (format!("[{lit}\n]"), 1),
        };
        let toks = tokenize(m, text.clone());
        let f = match toks.get(at).map(glue::token) {
            Some(T::Num(b)) => f64::from_bits(b),
            t => return Err(format!("{text}: token {t:?}")),
        };
        drop(toks);
        let (_, v) = glue::parse_model(m, &text).map_err(|e| format!("{text} is rejected: {e:?}"))?;
        let leaf = match &*v {
            Val::Arr(a) => a[at / 2].clone(),
            Val::Obj(o) => o[0].1.clone(),
            _ => v.clone(),
        };
        val::iso(&Rc::new(Val::Num(f.to_bits())), &leaf)?;
        f
    };
    mgr::verify_empty()?;
    Ok(f)
}

/// The nearest double by exact arithmetic.
pub fn exact(lit: &str) -> Option<f64> {
    let (neg, body) = match lit.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, lit),
    };
    let (m, e) = match body.find(['e', 'E']) {
        Some(i) => (&body[..i], body[i + 1..].parse::<i64>().ok()?),
        None => (body, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let sig = RInt::parse(&format!("{i}{f}"));
    let exp = e.saturating_sub(f.len() as i64);
    let v = if sig.is_zero() {
        0.0
    } else {
        let digits = sig.decimal().len() as i64;
        if exp.saturating_add(digits) > 400 {
            f64::INFINITY
        } else if exp.saturating_add(digits) < -400 {
            0.0
        } else if exp >= 0 {
            nearest(&sig.mul(&RInt::int(10).pow(exp as u32)), &RInt::int(1), 0)
        } else {
            nearest(&sig, &RInt::int(10).pow(-exp as u32), 0)
        }
    };
    Some(if neg { -v } else { v })
}

fn verify(c: &mut Ctx, lit: &str, how: u64) -> CaseResult {
    let std: f64 = lit.parse().unwrap();
    if lit.len() < 1500 {
        if let Some(x) = exact(lit) {
            assert!(x.to_bits() == std.to_bits(), "the oracles disagree on {lit}: {x:e} {std:e}");
        }
    }
    let digits = lit.bytes().filter(u8::is_ascii_digit).count();
    c.nt(digits > 17 || lit.contains(['e', 'E']) || std == 0.0 || std.is_infinite() || std.is_subnormal(), lit);
    c.label(if std == 0.0 {
        "zero"
    } else if std.is_infinite() {
        "infinite"
    } else if std.is_subnormal() {
        "subnormal"
    } else {
        "normal"
    });
    let g = library(lit, how)?;
    check!(
        g.to_bits() == std.to_bits(),
        "{} became {g:e} ({:#018x}), expected {std:e} ({:#018x})",
        clip(lit, 400),
        g.to_bits(),
        std.to_bits()
    );
    Ok(())
}

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const L: [&str; 48] = [
        "0", "-0", "0.0", "-0.0", "0e5", "-0e-5", "-0.000e99999999999999999999", "1e400", "-1e400", "1e-400", "-1e-400",
        "2.2250738585072011e-308", "2.2250738585072012e-308", "2.2250738585072014e-308", "4.9e-324", "2.5e-324", "2.4703282292062327e-324",
        "2.4703282292062328e-324", "2.47032822920623272088284396434110686182e-324", "2.47032822920623272088284396434110686183e-324", "1.7976931348623157e308",
        "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
        "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042879",
        "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740993.0000000000000000000000000001", "9007199254740994", "9007199254740995",
        "1e22", "1e23", "8.5e22", "0.1", "0.2", "0.3", "123456789012345678", "1e9223372036854775807", "1e-9223372036854775808", "1e18446744073709551616",
        "0.000000000000000000000000000000000000000000000000001e1000000000000000000000", "1E+2", "1E-2", "100000000000000000000000000e-26", "0e9223372036854775808",
        "3.1415926535897932384626433832795028841971693993751", "6.0221407600000000000000000000000000000000001e23",
    ];
    let i = s.enumerate(96) as usize;
    let lit = L[i % 48];
    let lit = if i >= 48 && !lit.starts_with('-') { format!("-{lit}") } else { lit.to_string() };
    c.show(|| lit.clone());
    verify(c, &lit, i as u64 % 7)
}

fn halfway(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lit = glit::halfway(s);
    c.show(|| clip(&lit, 500));
    verify(c, &lit, s.below(7))
}

fn respelled(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lit = glit::respelled(s).0;
    c.show(|| clip(&lit, 500));
    verify(c, &lit, s.below(7))
}

fn free(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lit = glit::free(s);
    c.show(|| clip(&lit, 500));
    verify(c, &lit, s.below(7))
}

fn long(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lit = glit::long(s);
    c.show(|| clip(&lit, 500));
    verify(c, &lit, s.below(7))
}

fn exponents(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lit = glit::exponents(s);
    c.show(|| clip(&lit, 500));
    verify(c, &lit, s.below(7))
}

/// Very long literals.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let k = s.enumerate(6);
    // zeros cost little
    let n = match k {
        2 | 3 | 5 => s.large(7, 18),
        _ => s.large(7, 13),
    };
    let digits = |s: &mut Src, n: usize| -> String {
        let unit: String = s.many(1, 6, 2, |s| (b'0' + s.below(10) as u8) as char).into_iter().collect();
        unit.chars().cycle().take(n).collect()
    };
    let lit = match k {
        0 => format!("1{}", digits(s, n)),
        1 => format!("0.{}", digits(s, n)),
        2 => format!("0.{}{}", "0".repeat(n), digits(s, 20)),
        3 => format!("0.{}{}e{}", "0".repeat(n), digits(s, 20), n as i64 + s.int(-330, 310)),
        4 => format!("1{}e-{}", digits(s, n), (n as i64 + s.int(-310, 330)).max(0)),
        _ => format!("1.5e{}{}{}", s.pick(&["", "-"]), "0".repeat(n), s.below(400)),
    };
    c.show(|| format!("{} ({} characters)", clip(&lit, 200), lit.len()));
    verify(c, &lit, s.below(7))
}
