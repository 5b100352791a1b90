//! C13: big floats.
use crate::{
    check,
    fw::*,
    gfloat::{binary, decimal},
    mgr,
    mgr::Chk,
    rint::{nearest, round, RInt},
};
use nanvm_lib::{
    big_numbers::big_float::BigFloat,
    js::js_bigint::{new_bigint, JsBigintMutRef, Sign},
};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "Decimal significands of 1..7 digits of 64 bits (random, powers of ten, exact quotients and their neighbours, expansions of doubles and of half-way points) with exponents in -800..800 and all precisions 1..=255; binary significands with the half-way pattern at the 53rd bit or at any subnormal bit, exponents over the whole double range and beyond it, both signs and cut-off marks; the two conversions chained. Non-trivial: the significand needs cutting, is at a half-way point, or the result is subnormal, zero or infinite.",
        assumptions: &[
            "a cut-off mark is given to the conversion to doubles only with 54 or more significant bits, as the decimal conversion produces it (with fewer, the nearest double is not determined)",
            "exponents of the base conversion stay within +-800 and of the double conversion within +-5000 (beyond, powers of ten outgrow memory; the tokenizer never asks for them)",
        ],
        parts: &[
            Part { name: "to-binary", quick: 60_000, thorough: 1_500_000, run: to_bin },
            Part { name: "to-double", quick: 400_000, thorough: 8_000_000, run: to_f64 },
            Part { name: "every-rounding-position", quick: 60_000, thorough: 1_000_000, run: positions },
            Part { name: "large", quick: 1_000, thorough: 100_000, run: large },
            Part { name: "chained", quick: 60_000, thorough: 1_500_000, run: chained },
        ],
    }
}

fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}
fn big(r: &RInt) -> JsBigintMutRef<Chk> {
    new_bigint(Chk(), Sign::Positive, r.digits())
}

fn to_bin(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (sig, exp) = decimal(s);
    let p = match s.below(4) {
        0 => 54,
        1 => 1 + s.below(255),
        2 => *s.pick(&[1, 2, 53, 55, 63, 64, 65, 127, 128, 255]),
        _ => (sig.bits() as u64 + s.below(5)).saturating_sub(2).clamp(1, 255),
    } as u8;
    let neg = s.coin();
    let mark = s.chance(1, 6);
    c.show(|| format!("{}{}e{exp} to {p} bits{}", if neg { "-" } else { "" }, sig.decimal(), if mark { " (cut off)" } else { "" }));
    let bf: BigFloat<10, Chk> = BigFloat {
        manager: Chk(),
        significand: big(&sig),
        sign: sign(neg),
        exp,
        non_zero_reminder: mark,
    };
    let r = bf.to_bin(p);
    let got = RInt::from_digits(false, r.significand.items());
    let e = r.exp;
    check!(r.sign == sign(neg), "the sign changed");
    if sig.is_zero() {
        check!(got.is_zero(), "zero became {}", got.hex());
        return Ok(());
    }
    check!(r.significand.header_len() == got.digits().len() as isize, "the significand is not canonical");
    check!(got.bits() >= p as usize, "{} significant bits, {p} were asked for", got.bits());
    // compare got * 2^e with sig * 10^exp
    let ten = RInt::int(10);
    let (mut l, mut x) = (got.clone(), sig.clone());
    let mut unit = RInt::int(1);
    if e >= 0 {
        l = l.shl(e as usize);
        unit = unit.shl(e as usize);
    } else {
        x = x.shl(-e as usize);
    }
    if exp >= 0 {
        x = x.mul(&ten.pow(exp as u32));
    } else {
        let t = ten.pow(-exp as u32);
        l = l.mul(&t);
        unit = unit.mul(&t);
    }
    let diff = x.sub(&l);
    c.nt(!diff.is_zero() || mark, &(&sig, exp, p));
    c.label(if diff.is_zero() { "exact" } else { "cut" });
    check!(!diff.neg, "{}*2^{e} exceeds the exact value", got.hex());
    check!(diff.sub(&unit).neg, "{}*2^{e} is off by a unit of its last bit or more", got.hex());
    check!(r.non_zero_reminder == (mark || !diff.is_zero()), "cut-off mark is {}, the difference is {}", r.non_zero_reminder, if diff.is_zero() { "zero" } else { "not zero" });
    drop(r);
    mgr::verify_empty()
}

fn double(sig: &RInt, exp: i64, neg: bool, mark: bool) -> f64 {
    let bf: BigFloat<2, Chk> = BigFloat {
        manager: Chk(),
        significand: big(sig),
        sign: sign(neg),
        exp,
        non_zero_reminder: mark,
    };
    bf.to_f64()
}

fn want(sig: &RInt, exp: i64, neg: bool, mark: bool) -> f64 {
    let m = round(sig, mark, exp);
    if neg {
        -m
    } else {
        m
    }
}

fn agree(sig: &RInt, exp: i64, neg: bool, mark: bool) -> CaseResult {
    let (g, w) = (double(sig, exp, neg, mark), want(sig, exp, neg, mark));
    check!(
        g.to_bits() == w.to_bits(),
        "{}{}*2^{exp}{} became {g:e} ({:#018x}), expected {w:e} ({:#018x})",
        if neg { "-" } else { "" },
        sig.hex(),
        if mark { " and a bit more" } else { "" },
        g.to_bits(),
        w.to_bits()
    );
    mgr::verify_empty()
}

fn to_f64(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sig = binary(s);
    let bits = sig.bits() as i64;
    let top = match s.weighted(&[3, 2, 2, 3]) {
        0 => s.int(-1080, -1018),
        1 => s.int(1018, 1028),
        2 => s.int(-60, 80),
        _ => s.int(-1200, 1200),
    };
    let exp = match s.weighted(&[20, 1]) {
        0 => top - bits,
        _ => s.int(-5000, 5000),
    };
    let neg = s.coin();
    let mark = bits >= 54 && s.chance(2, 5);
    c.show(|| format!("{}{}*2^{exp}{}", if neg { "-" } else { "" }, sig.hex(), if mark { " and a bit more" } else { "" }));
    let w = want(&sig, exp, neg, mark);
    c.nt(bits > 53 || w == 0.0 || w.is_infinite() || w.is_subnormal(), &(&sig, exp, mark));
    c.label(if sig.is_zero() {
        "zero significand"
    } else if w == 0.0 {
        "underflow"
    } else if w.is_subnormal() {
        "subnormal"
    } else if w.is_infinite() {
        "overflow"
    } else {
        "normal"
    });
    agree(&sig, exp, neg, mark)
}

/// head . round bit . rest at every position of the result's last bit
fn positions(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // exponent of the last bit of the format: -1074 (subnormal with `keep` bits) or above
    let keep = if s.coin() { 53 } else { s.below(54) };
    let last = if keep < 53 { -1074 } else { s.int(-1074, 971) };
    let head = match s.below(4) {
        0 => (1u64 << keep) - 1,
        1 if keep > 0 => 1u64 << (keep - 1),
        2 if keep > 0 => (1u64 << (keep - 1)) | 1,
        _ if keep > 0 => (s.bits() & ((1u64 << keep) - 1)) | 1u64 << (keep - 1),
        _ => 0,
    };
    let extra = s.size(1, 130);
    let rest = match s.below(6) {
        0 => RInt::int(0),
        1 => RInt::int(1).shl(extra - 1),
        2 => RInt::int(1).shl(extra - 1).sub(&RInt::int(1)),
        3 => RInt::int(1).shl(extra - 1).add(&RInt::int((extra > 1) as i128)),
        4 => RInt::int(1).shl(extra).sub(&RInt::int(1)),
        _ => RInt::int(1),
    };
    let sig = RInt::int(head as i128).shl(extra).add(&rest);
    if sig.is_zero() {
        return Ok(());
    }
    let exp = last - extra as i64;
    let neg = s.coin();
    let mark = sig.bits() >= 54 && s.coin();
    c.show(|| format!("{}*2^{exp}, {keep} bits kept{}", sig.hex(), if mark { " and a bit more" } else { "" }));
    c.nt(true, &(&sig, exp, mark, neg));
    agree(&sig, exp, neg, mark)
}

fn chained(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (sig, exp) = decimal(s);
    let neg = s.coin();
    c.show(|| format!("{}{}e{exp}", if neg { "-" } else { "" }, sig.decimal()));
    let bf: BigFloat<10, Chk> = BigFloat {
        manager: Chk(),
        significand: big(&sig),
        sign: sign(neg),
        exp,
        non_zero_reminder: false,
    };
    let g = bf.to_bin(54).to_f64();
    let m = if sig.is_zero() {
        0.0
    } else if exp >= 0 {
        nearest(&sig.mul(&RInt::int(10).pow(exp as u32)), &RInt::int(1), 0)
    } else {
        nearest(&sig, &RInt::int(10).pow(-exp as u32), 0)
    };
    let w = if neg { -m } else { m };
    c.nt(sig.bits() > 53 || exp != 0, &(&sig, exp));
    check!(g.to_bits() == w.to_bits(), "became {g:e}, expected {w:e}");
    mgr::verify_empty()
}

/// Significands of thousands of bits and exponents of thousands.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let salt = s.below(1 << 30);
    let wide = |n: usize| -> Vec<u64> {
        let k = salt % 4;
        (0..n).map(|i| if k == 0 && i + 1 < n { 0 } else if k == 1 { u64::MAX } else { mix(salt ^ i as u64) | (i + 1 == n) as u64 }).collect()
    };
    let neg = s.coin();
    if s.coin() {
        // the whole number of digits decides only by its last one
        let n = s.large(2, 10);
        let mut d = wide(n);
        d[0] |= s.below(2);
        let sig = RInt::from_digits(false, &d);
        let top = match s.weighted(&[3, 2, 3]) {
            0 => s.int(-1080, -1018),
            1 => s.int(1018, 1028),
            _ => s.int(-1200, 1200),
        };
        let exp = top - sig.bits() as i64;
        let mark = s.coin() && sig.bits() >= 54;
        c.show(|| format!("{n} digits {}*2^{exp}{}", clip(&sig.hex(), 100), if mark { " and a bit more" } else { "" }));
        c.nt(true, &(&sig, exp, mark, neg));
        return agree(&sig, exp, neg, mark).map_err(|e| clip(&e, 600));
    }
    let n = s.large(2, 6);
    let sig = RInt::from_digits(false, &wide(n));
    let digits = sig.bits() as i64 * 30103 / 100000;
    let exp = s.int(-330, 315) - digits;
    c.show(|| format!("{n} digits {}*10^{exp}", clip(&sig.hex(), 100)));
    c.nt(true, &(&sig, exp, neg));
    let bf: BigFloat<10, Chk> = BigFloat { manager: Chk(), significand: big(&sig), sign: sign(neg), exp, non_zero_reminder: false };
    let g = bf.to_bin(54).to_f64();
    let m = if exp >= 0 {
        nearest(&sig.mul(&RInt::int(10).pow(exp as u32)), &RInt::int(1), 0)
    } else {
        nearest(&sig, &RInt::int(10).pow(-exp as u32), 0)
    };
    let w = if neg { -m } else { m };
    check!(g.to_bits() == w.to_bits(), "{}*10^{exp} became {g:e}, expected {w:e}", clip(&sig.hex(), 300));
    mgr::verify_empty()
}
