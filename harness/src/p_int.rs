//! C11: JavaScript big integers.
use crate::{check, fw::*, gint, mgr, mgr::Chk, rint::RInt};
use nanvm_lib::{
    js::js_bigint::{self as jb, new_bigint, JsBigint, JsBigintMutRef, Sign},
    mem::manager::Dealloc,
};
use std::{cmp::Ordering, ops::Deref};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "Pairs of signed integers of 0..8 (thorough up to 40) 64-bit digits: independent, equal, neighbours, near multiples, shifted copies, quotient-estimate corners, one differing digit, near powers of two; shift amounts around digit boundaries and beyond the operand; small and huge exponents; every operation and algebraic laws on results. Non-trivial: at least one operand has two or more digits or is negative (pow and shift: the operand is not zero).",
        assumptions: &[
            "operands are in canonical form, as every constructor and operation produces them",
            "results larger than some tens of thousands of bits are not built",
        ],
        parts: &[
            Part { name: "fixed", quick: 64, thorough: 64, run: fixed },
            Part { name: "add-sub-compare", quick: 150_000, thorough: 3_000_000, run: addsub },
            Part { name: "mul", quick: 60_000, thorough: 1_000_000, run: mul },
            Part { name: "div-mod", quick: 120_000, thorough: 2_500_000, run: divmod },
            Part { name: "bitwise", quick: 150_000, thorough: 3_000_000, run: bitwise },
            Part { name: "shift", quick: 150_000, thorough: 3_000_000, run: shift },
            Part { name: "pow", quick: 40_000, thorough: 600_000, run: pow },
            Part { name: "numerals", quick: 40_000, thorough: 600_000, run: numerals },
            Part { name: "huge", quick: 400, thorough: 10_000, run: huge },
            Part { name: "large", quick: 1_500, thorough: 60_000, run: large },
        ],
    }
}

fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}

pub fn make(r: &RInt) -> JsBigintMutRef<Chk> {
    new_bigint(Chk(), sign(r.neg), r.digits())
}

/// The number as it is, canonical or not.
fn raw(j: &JsBigint) -> (isize, Vec<u64>) {
    (j.header_len(), j.items().to_vec())
}

fn want_raw(r: &RInt) -> (isize, Vec<u64>) {
    let d = r.digits();
    (if r.neg { -(d.len() as isize) } else { d.len() as isize }, d)
}

fn same<D: Dealloc>(what: &str, got: &JsBigintMutRef<D>, want: &RInt) -> CaseResult {
    let g = raw(got.deref());
    if g == want_raw(want) {
        return Ok(());
    }
    let v = RInt::from_digits(g.0 < 0, &g.1);
    if v == *want {
        return Err(format!("{what} = {} in a non-canonical form {:?}", want.hex(), g));
    }
    Err(format!("{what} = {}, expected {}", v.hex(), want.hex()))
}

fn unchanged(name: &str, j: &JsBigintMutRef<Chk>, r: &RInt) -> CaseResult {
    check!(raw(j.deref()) == want_raw(r), "operand {name} was changed");
    Ok(())
}

fn done() -> CaseResult {
    mgr::verify_empty()
}

fn big(a: &RInt, b: &RInt) -> bool {
    a.neg || b.neg || a.mag.len() > 2 || b.mag.len() > 2
}

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let p = |x: &str| RInt::parse(x);
    let cases: Vec<(RInt, RInt)> = vec![
        (p("0"), p("0")),
        (p("-1"), p("1")),
        (p("-1"), p("-1")),
        (p("-18446744073709551616"), p("-1")),
        (p("-18446744073709551616"), p("18446744073709551615")),
        (p("18446744073709551616"), p("-18446744073709551616")),
        (p("340282366920938463463374607431768211455"), p("18446744073709551617")),
        (p("-9223372036854775808"), p("9223372036854775808")),
        (RInt::from_digits(false, &[0, 0, 1 << 63, (1 << 63) - 1]), RInt::from_digits(false, &[1, 0, 1 << 63])),
        (RInt::from_digits(false, &[3, 0, 1 << 63]), RInt::from_digits(false, &[1, 0, 1 << 61])),
        (RInt::from_digits(false, &[0, 0, 1]), RInt::from_digits(false, &[u64::MAX, 1])),
        (RInt::from_digits(true, &[0, 1]), RInt::from_digits(true, &[0, 0, 1])),
        (p("-5"), p("2")),
        (p("5"), p("-2")),
        (p("2"), p("7")),
        (p("-2"), p("7")),
    ];
    let i = s.enumerate(64) as usize;
    let (a, b) = &cases[i / 4 % cases.len()];
    c.show(|| format!("{} with {}", a.decimal(), b.decimal()));
    c.nt(big(a, b), &(a, b));
    match i % 4 {
        0 => check_addsub(a, b),
        1 => check_bitwise(a, b),
        2 => check_mul(a, b),
        _ => check_divmod(c, a, b),
    }
}

fn addsub(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 8);
    c.show(|| format!("{} and {} ({how})", a.hex(), b.hex()));
    c.nt(big(&a, &b), &(&a, &b));
    c.label(how);
    check_addsub(&a, &b)
}

fn check_addsub(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (make(a), make(b));
    let sum = jb::add(Chk(), &x, &y);
    same("a + b", &sum, &a.add(b))?;
    let diff = jb::sub(Chk(), &x, &y);
    same("a - b", &diff, &a.sub(b))?;
    same("-a", &jb::negative(Chk(), &x), &a.neg())?;
    same("-b", &jb::negative(Chk(), &y), &b.neg())?;
    same("~a", &jb::not(Chk(), &x), &a.neg().sub(&RInt::int(1)))?;
    check!(x.compare(&y) == a.cmp(b), "compare(a, b) is {:?}", x.compare(&y));
    check!(y.compare(&x) == b.cmp(a), "compare(b, a) is {:?}", y.compare(&x));
    check!(jb::equals(&x, &y) == (a == b), "equals(a, b) is {}", jb::equals(&x, &y));
    check!(jb::is_zero(&x) == a.is_zero(), "is_zero(a) is {}", jb::is_zero(&x));
    check!((x.sign() == Sign::Negative) == a.neg, "the sign of a is {:?}", x.sign());
    check!(x.get_last_bit() == (a.mag.first().unwrap_or(&0) & 1) as u64, "last bit of a is {}", x.get_last_bit());
    // results reached in different ways compare equal
    let back = jb::sub(Chk(), &sum, &y);
    check!(jb::equals(&back, &x) && back.compare(&x) == Ordering::Equal, "(a + b) - b does not compare equal to a");
    drop(back);
    let back = jb::add(Chk(), &diff, &y);
    check!(jb::equals(&back, &x) && x.compare(&back) == Ordering::Equal, "(a - b) + b does not compare equal to a");
    let none = jb::sub(Chk(), &sum, &sum);
    check!(jb::is_zero(&none) && jb::equals(&none, &jb::zero(Chk())), "x - x is not zero");
    if b.mag.len() <= 2 && !b.is_zero() {
        let n = b.digits()[0];
        same("from_u64", &jb::from_u64(Chk(), sign(b.neg), n), b)?;
    }
    same("from_u64(0)", &jb::from_u64(Chk(), sign(a.neg), 0), &RInt::int(0))?;
    unchanged("a", &x, a)?;
    unchanged("b", &y, b)?;
    drop((x, y, sum, diff, back, none));
    done()
}

fn mul(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 7);
    c.show(|| format!("{} * {} ({how})", a.hex(), b.hex()));
    c.nt(big(&a, &b), &(&a, &b));
    check_mul(&a, &b)
}

fn check_mul(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (make(a), make(b));
    same("a * b", &jb::mul(Chk(), &x, &y), &a.mul(b))?;
    same("b * a", &jb::mul(Chk(), &y, &x), &a.mul(b))?;
    same("a * a", &jb::mul(Chk(), &x, &x), &a.mul(a))?;
    unchanged("a", &x, a)?;
    unchanged("b", &y, b)?;
    drop((x, y));
    done()
}

fn divmod(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 8);
    c.show(|| format!("{} div_mod {} ({how})", a.hex(), b.hex()));
    c.nt(big(&a, &b), &(&a, &b));
    c.label(how);
    check_divmod(c, &a, &b)
}

fn check_divmod(c: &mut Ctx, a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (make(a), make(b));
    if b.is_zero() {
        let r = guarded(|| jb::div_mod(Chk(), &x, &y));
        check!(r.is_err(), "division by zero gives a result");
        return Ok(());
    }
    let (q, r) = jb::div_mod(Chk(), &x, &y);
    let (wq, wr) = a.divrem(b);
    same("a / b", &q, &wq)?;
    if raw(&r) != want_raw(&wr) {
        // Deviations pinned by the repository's own tests, in exactly these forms.
        let g = raw(&r);
        let qneg = a.neg != b.neg;
        let less = RInt::new(qneg, b.mag.clone());
        let signed = RInt::new(qneg, wr.mag.clone());
        if wq.is_zero() && crate::rint::cmp_mag(&a.mag, &b.mag) == Ordering::Less && g == want_raw(&less) {
            c.known("js-div_mod-rem-less", format!("div_mod({}, {}) has the remainder {} instead of {}", a.decimal(), b.decimal(), less.decimal(), wr.decimal()))?;
        } else if g == want_raw(&signed) {
            c.known("js-div_mod-rem-sign", format!("div_mod({}, {}) has the remainder {} instead of {}", a.decimal(), b.decimal(), signed.decimal(), wr.decimal()))?;
        } else {
            same("a % b", &r, &wr)?;
        }
    }
    unchanged("a", &x, a)?;
    unchanged("b", &y, b)?;
    drop((x, y, q, r));
    done()
}

fn bitwise(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 7);
    c.show(|| format!("{} and/or/xor {} ({how})", a.hex(), b.hex()));
    c.nt(big(&a, &b), &(&a, &b));
    c.label(match (a.neg, b.neg) {
        (false, false) => "both positive",
        (true, true) => "both negative",
        _ => "mixed signs",
    });
    check_bitwise(&a, &b)
}

fn check_bitwise(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (make(a), make(b));
    same("a & b", &jb::and(Chk(), &x, &y), &a.bitwise(b, |p, q| p & q))?;
    same("a | b", &jb::or(Chk(), &x, &y), &a.bitwise(b, |p, q| p | q))?;
    same("a ^ b", &jb::xor(Chk(), &x, &y), &a.bitwise(b, |p, q| p ^ q))?;
    same("a & a", &jb::and(Chk(), &x, &x), a)?;
    same("a | a", &jb::or(Chk(), &x, &x), a)?;
    same("a ^ a", &jb::xor(Chk(), &x, &x), &RInt::int(0))?;
    let n = jb::not(Chk(), &x);
    same("a & ~a", &jb::and(Chk(), &x, &n), &RInt::int(0))?;
    same("a ^ ~a", &jb::xor(Chk(), &x, &n), &RInt::int(-1))?;
    unchanged("a", &x, a)?;
    unchanged("b", &y, b)?;
    drop((x, y, n));
    done()
}

fn shift(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = match s.below(3) {
        0 => gint::int(s, 7),
        // low digits zero: only sign rounding can tell
        1 => {
            let k = s.size(0, 200);
            let x = gint::int(s, 3).shl(k);
            if s.coin() {
                x
            } else {
                x.add(&RInt::int(s.int(-1, 1) as i128))
            }
        }
        _ => gint::int_pair(s, 6).0,
    };
    let n = gint::shift(s, a.bits());
    let huge = s.chance(1, 12);
    c.show(|| format!("{} << and >> {n}{}", a.hex(), if huge { " plus a multiple of 2^64" } else { "" }));
    c.nt(!a.is_zero() && n > 0, &(&a, n));
    let x = make(&a);
    if huge {
        let d = gint::digit(s).max(1);
        let k = RInt::from_digits(false, &[n, d]);
        let floor = RInt::int(if a.neg { -1 } else { 0 });
        same("a >> huge", &jb::shr(Chk(), &x, &make(&k)), &floor)?;
        same("a << -huge", &jb::shl(Chk(), &x, &make(&k.neg())), &floor)?;
        let one = RInt::from_digits(false, &[u64::MAX - n]);
        same("a >> (2^64 - 1 - n)", &jb::shr(Chk(), &x, &make(&one)), &floor)?;
        if a.is_zero() {
            same("0 << huge", &jb::shl(Chk(), &x, &make(&k)), &a)?;
            same("0 >> -huge", &jb::shr(Chk(), &x, &make(&k.neg())), &a)?;
        }
    } else {
        let k = RInt::int(n as i128);
        let (l, r) = (a.shl(n as usize), a.shr(n as usize));
        let (p, m) = (make(&k), make(&k.neg()));
        same("a << n", &jb::shl(Chk(), &x, &p), &l)?;
        same("a >> n", &jb::shr(Chk(), &x, &p), &r)?;
        same("a << -n", &jb::shl(Chk(), &x, &m), &r)?;
        same("a >> -n", &jb::shr(Chk(), &x, &m), &l)?;
        same("shl_on_u64(a, n)", &jb::shl_on_u64(Chk(), &x, n), &l)?;
        same("shr_on_u64(a, n)", &jb::shr_on_u64(Chk(), &x, n), &r)?;
        unchanged("n", &p, &k)?;
    }
    unchanged("a", &x, &a)?;
    drop(x);
    done()
}

fn pow(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = match s.weighted(&[3, 3, 1]) {
        0 => RInt::int(s.int(-3, 3) as i128),
        1 => gint::int(s, 2),
        _ => gint::int(s, 4),
    };
    let tiny = a.mag.len() <= 1 && a.mag.first().is_none_or(|&x| x <= 1);
    let e = if tiny && s.coin() {
        gint::nat(s, 3)
    } else {
        let lim = 2500 / a.bits().max(1);
        RInt::int(s.below(lim.clamp(3, 400) as u64 + 1) as i128)
    };
    c.show(|| format!("{} ** {}", a.hex(), e.hex()));
    c.nt(!a.is_zero() && !e.is_zero(), &(&a, &e));
    let odd = e.mag.first().unwrap_or(&0) & 1 == 1;
    let want = if e.is_zero() {
        RInt::int(1)
    } else if tiny {
        if a.neg && !odd {
            a.neg()
        } else {
            a.clone()
        }
    } else {
        a.pow(e.mag[0])
    };
    let (x, y) = (make(&a), make(&e));
    same("a ** e", &jb::pow(Chk(), &x, &y), &want)?;
    if e.mag.len() <= 2 && (e.bits() <= 32 || a.is_zero() || a == RInt::int(1) || a == RInt::int(-1)) {
        let n = e.digits().first().copied().unwrap_or(0);
        same("pow_u64(a, e)", &jb::pow_u64(Chk(), &x, n), &want)?;
    }
    if !e.is_zero() {
        let r = guarded(|| jb::pow(Chk(), &x, &make(&e.neg())));
        check!(r.is_err(), "a negative exponent gives a result");
    }
    unchanged("a", &x, &a)?;
    unchanged("e", &y, &e)?;
    Ok(())
}

/// Decimal text in, decimal text out.
fn numerals(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = match s.weighted(&[3, 2, 2, 1]) {
        0 => gint::int(s, 4),
        // many nines, powers of ten and neighbours
        1 => RInt::int(10).pow(s.below(70) as u32).add(&RInt::int(s.int(-2, 2) as i128)),
        2 => gint::int_pair(s, 3).0,
        _ => {
            let z = s.size(0, 30);
            let head = RInt::int(s.int(1, 999) as i128);
            head.mul(&RInt::int(10).pow(z as u32))
        }
    };
    let text = format!("{}n", a.decimal());
    c.show(|| text.clone());
    c.nt(a.mag.len() > 1, &a);
    crate::glue::bigint_numeral(&text, &a)?;
    done()
}

fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 40);
    c.show(|| format!("{} with {} ({how})", clip(&a.hex(), 200), clip(&b.hex(), 200)));
    c.nt(big(&a, &b), &(&a, &b));
    check_addsub(&a, &b)?;
    check_mul(&a, &b)?;
    check_divmod(c, &a, &b)?;
    if !a.is_zero() {
        check_divmod(c, &b, &a)?;
    }
    check_bitwise(&a, &b)
}

/// Hundreds of digits, and shifts and exponents far beyond sixteen bits.
fn huge(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 9);
    let k = s.below(6);
    let salt = s.below(1 << 20);
    let wide = |n: usize, salt: u64| -> Vec<u64> {
        let mut d: Vec<u64> = (0..n).map(|i| match mix(salt ^ i as u64) % 5 {
            0 => 0,
            1 => u64::MAX,
            _ => mix(salt ^ i as u64),
        }).collect();
        if let Some(x) = d.last_mut() {
            *x |= 1;
        }
        d
    };
    let m = if s.coin() { n } else { s.size(0, n) };
    let a = RInt::from_digits(s.coin(), &wide(n, salt));
    let b = RInt::from_digits(s.coin(), &wide(m, if s.chance(1, 4) { salt } else { salt + 1 }));
    c.show(|| format!("{n} digits {} with {m} digits {}, way {k}", clip(&a.hex(), 100), clip(&b.hex(), 100)));
    c.nt(true, &(&a, &b, k));
    let r = match k {
        0 => check_addsub(&a, &b),
        1 => check_mul(&a, &b),
        2 => check_bitwise(&a, &b),
        3 => {
            let sh = s.large(10, 24) as u64;
            let (x, p) = (make(&b), make(&RInt::int(sh as i128)));
            same("b << n", &jb::shl(Chk(), &x, &p), &b.shl(sh as usize))?;
            let w = b.shl(sh as usize).add(&a);
            same("w >> n", &jb::shr(Chk(), &make(&w), &p), &w.shr(sh as usize))
        }
        4 => {
            let small = RInt::from_digits(s.coin(), &wide(s.size(1, 3), salt + 2));
            check_divmod(c, &b, &small)
        }
        _ => {
            let near = b.add(&RInt::int(s.int(-2, 2) as i128));
            check_addsub(&near, &b)?;
            check_bitwise(&near, &b.neg())
        }
    };
    r.map_err(|e| clip(&e, 800))?;
    done()
}
