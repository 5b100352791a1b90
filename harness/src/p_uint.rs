//! C12: arbitrary-precision unsigned and signed integers.
use crate::{check, fw::*, gint, rint::RInt};
use nanvm_lib::big_numbers::{
    big_int::{BigInt, Sign},
    big_uint::BigUint,
};
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "Pairs of integers of 0..8 (large: up to 40) 64-bit digits: independent, equal, neighbours, near multiples, shifted copies, quotient-estimate corners, one differing digit, near powers of two; shift amounts around digit boundaries and beyond the operand; all machine integer extremes. Non-trivial: one of the operands has two or more digits, or a sign.",
        assumptions: &[
            "operands are in canonical form, as every constructor and operation produces them",
            "results larger than some tens of thousands of bits are not built",
        ],
        parts: &[
            Part { name: "unsigned", quick: 400_000, thorough: 4_000_000, run: unsigned },
            Part { name: "unsigned-division", quick: 400_000, thorough: 4_000_000, run: udiv },
            Part { name: "unsigned-shift", quick: 400_000, thorough: 4_000_000, run: ushift },
            Part { name: "unsigned-pow", quick: 40_000, thorough: 800_000, run: upow },
            Part { name: "signed", quick: 600_000, thorough: 5_000_000, run: signed },
            Part { name: "machine", quick: 50_000, thorough: 1_000_000, run: machine },
            Part { name: "huge", quick: 600, thorough: 20_000, run: huge },
            Part { name: "large", quick: 2_000, thorough: 80_000, run: large },
        ],
    }
}

fn u(r: &RInt) -> BigUint {
    BigUint { value: r.digits() }
}
fn i(r: &RInt) -> BigInt {
    BigInt::new(if r.neg { Sign::Negative } else { Sign::Positive }, BigUint { value: r.digits() })
}

fn same_u(what: &str, got: &BigUint, want: &RInt) -> CaseResult {
    if got.value == want.digits() {
        return Ok(());
    }
    let v = RInt::from_digits(false, &got.value);
    if v == *want {
        return Err(format!("{what} = {} in a non-canonical form {:?}", want.hex(), got.value));
    }
    Err(format!("{what} = {}, expected {}", v.hex(), want.hex()))
}

fn same_i(what: &str, got: &BigInt, want: &RInt) -> CaseResult {
    let neg = got.sign == Sign::Negative;
    if neg == want.neg && got.value.value == want.digits() {
        return Ok(());
    }
    let v = RInt::from_digits(neg, &got.value.value);
    if v == *want {
        return Err(format!("{what} = {} in a non-canonical form {:?}", want.hex(), got));
    }
    Err(format!("{what} = {}, expected {}", v.hex(), want.hex()))
}

fn monus(a: &RInt, b: &RInt) -> RInt {
    if a.cmp(b) == Ordering::Less {
        RInt::int(0)
    } else {
        a.sub(b)
    }
}

fn unsigned(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::nat_pair(s, 8);
    let (a, b) = if s.chance(1, 3) { (b, a) } else { (a, b) };
    c.show(|| format!("{} and {} ({how})", a.hex(), b.hex()));
    c.nt(a.mag.len() > 2 || b.mag.len() > 2, &(&a, &b));
    c.label(how);
    check_unsigned(&a, &b)
}

fn check_unsigned(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (u(a), u(b));
    let sum = &x + &y;
    same_u("a + b", &sum, &a.add(b))?;
    same_u("b + a", &(&y + &x), &a.add(b))?;
    same_u("a - b", &(&x - &y), &monus(a, b))?;
    same_u("b - a", &(&y - &x), &monus(b, a))?;
    same_u("(a + b) - b", &(&sum - &y), a)?;
    same_u("a * b", &(&x * &y), &a.mul(b))?;
    same_u("b * a", &(&y * &x), &a.mul(b))?;
    check!(x.cmp(&y) == a.cmp(b), "a cmp b is {:?}", x.cmp(&y));
    check!(y.partial_cmp(&x) == Some(b.cmp(a)), "b cmp a is {:?}", y.partial_cmp(&x));
    check!((x == y) == (a == b), "a == b is {}", x == y);
    check!(sum.cmp(&x) == a.add(b).cmp(a), "(a + b) cmp a is {:?}", sum.cmp(&x));
    check!(x.is_zero() == a.is_zero() && x.is_empty() == a.is_zero(), "is_zero(a) is {}", x.is_zero());
    check!(x.is_one() == (*a == RInt::int(1)), "is_one(a) is {}", x.is_one());
    check!(x.len() == a.digits().len(), "len(a) is {}", x.len());
    check!(x.get_last_bit() == (a.mag.first().unwrap_or(&0) & 1) as u64, "last bit of a is {}", x.get_last_bit());
    orders(&x, &y, a, b)?;
    // one object on both sides
    same_u("a + itself", &(&x + &x), &a.add(a))?;
    same_u("a - itself", &(&x - &x), &RInt::int(0))?;
    same_u("a * itself", &(&x * &x), &a.mul(a))?;
    check!(x.cmp(&x).is_eq(), "a compares with itself as {:?}", x.cmp(&x));
    same_i("to_big_int(a)", &x.clone().to_big_int(), a)?;
    same_u("operand a afterwards", &x, a)?;
    same_u("operand b afterwards", &y, b)
}

fn udiv(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::nat_pair(s, 8);
    c.show(|| format!("{} divided by {} ({how})", a.hex(), b.hex()));
    c.nt(b.mag.len() > 2, &(&a, &b));
    c.label(how);
    check_udiv(&a, &b)
}

/// Every operator that compares.
fn orders<T: Ord + Clone + std::fmt::Debug>(x: &T, y: &T, a: &RInt, b: &RInt) -> CaseResult {
    let o = a.cmp(b);
    let got = [x < y, x <= y, x > y, x >= y, x == y, x != y];
    let want = [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()];
    check!(got == want, "<, <=, >, >=, == and != give {got:?} instead of {want:?}");
    let (lo, hi) = if o.is_le() { (x, y) } else { (y, x) };
    check!(x.clone().min(y.clone()) == *lo && x.clone().max(y.clone()) == *hi, "the lower or the higher of both is wrong");
    let mut z = x.clone();
    z.clone_from(y);
    check!(z == *y, "a copy differs");
    Ok(())
}

fn check_udiv(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (u(a), u(b));
    if b.is_zero() {
        check!(guarded(|| x.div_mod(&y)).is_err(), "div_mod by zero gives a result");
        check!(guarded(|| &x / &y).is_err(), "division by zero gives a result");
        return Ok(());
    }
    let (q, r) = x.div_mod(&y);
    let (wq, wr) = a.divrem(b);
    same_u("a / b (div_mod)", &q, &wq)?;
    same_u("a % b", &r, &wr)?;
    same_u("a / b", &(&x / &y), &wq)?;
    check!(&(&(&q * &y) + &r) == &x, "q * b + r differs from a");
    let (q, r2) = if a.is_zero() { (BigUint::one(), BigUint::ZERO) } else { x.div_mod(&x) };
    if !a.is_zero() {
        check!(q.is_one() && r2.is_zero(), "a divided by itself gives {q:?} and {r2:?}");
    }
    check!(r < y, "the remainder is not below the divisor");
    same_u("operand a afterwards", &x, a)?;
    same_u("operand b afterwards", &y, b)
}

fn ushift(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = gint::nat(s, 7);
    let n = gint::shift(s, a.bits());
    let huge = s.chance(1, 12);
    c.show(|| format!("{} << and >> {n}{}", a.hex(), if huge { " plus a multiple of 2^64" } else { "" }));
    c.nt(!a.is_zero() && n > 0, &(&a, n, huge));
    let x = u(&a);
    if huge {
        let k = RInt::from_digits(false, &[n, gint::digit(s).max(1)]);
        same_u("a >> huge", &(&x >> &u(&k)), &RInt::int(0))?;
        let k = RInt::from_digits(false, &[u64::MAX - n]);
        same_u("a >> (2^64 - 1 - n)", &(&x >> &u(&k)), &RInt::int(0))?;
        return Ok(());
    }
    let k = u(&RInt::int(n as i128));
    let l = &x << &k;
    same_u("a << n", &l, &a.shl(n as usize))?;
    same_u("a >> n", &(&x >> &k), &a.shr(n as usize))?;
    same_u("(a << n) >> n", &(&l >> &k), &a)?;
    same_u("operand a afterwards", &x, &a)
}

fn upow(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = match s.below(3) {
        0 => RInt::int(s.below(4) as i128),
        1 => gint::nat(s, 2),
        _ => gint::nat(s, 4),
    };
    let tiny = a.bits() <= 1;
    let e = if tiny && s.coin() {
        gint::nat(s, 3)
    } else {
        RInt::int(s.below((2500 / a.bits().max(1)).clamp(3, 400) as u64 + 1) as i128)
    };
    c.show(|| format!("{} ** {}", a.hex(), e.hex()));
    c.nt(!a.is_zero() && !e.is_zero(), &(&a, &e));
    let want = if e.is_zero() {
        RInt::int(1)
    } else if tiny {
        a.clone()
    } else {
        a.pow(e.mag[0])
    };
    same_u("a ** e", &u(&a).pow(&u(&e)), &want)?;
    if e.mag.len() <= 2 {
        let n = e.digits().first().copied().unwrap_or(0);
        same_u("pow_u64(a, e)", &u(&a).pow_u64(n), &want)?;
    }
    Ok(())
}

fn signed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 6);
    c.show(|| format!("{} and {} ({how})", a.hex(), b.hex()));
    c.nt(a.neg || b.neg || a.mag.len() > 2 || b.mag.len() > 2, &(&a, &b));
    c.label(how);
    check_signed(&a, &b)
}

fn check_signed(a: &RInt, b: &RInt) -> CaseResult {
    let (x, y) = (i(a), i(b));
    same_i("a + b", &(&x + &y), &a.add(b))?;
    same_i("a - b", &(x.clone() - y.clone()), &a.sub(b))?;
    same_i("-a", &-x.clone(), &a.neg())?;
    same_i("|a|", &x.clone().abs(), &a.abs())?;
    same_i("a * b", &(&x * &y), &a.mul(b))?;
    same_i("a - a", &(x.clone() - x.clone()), &RInt::int(0))?;
    same_i("a * 0", &(&x * &BigInt::ZERO), &RInt::int(0))?;
    check!(x.cmp(&y) == a.cmp(b), "a cmp b is {:?}", x.cmp(&y));
    check!(y.partial_cmp(&x) == Some(b.cmp(a)), "b cmp a is {:?}", y.partial_cmp(&x));
    check!((x == y) == (a == b), "a == b is {}", x == y);
    check!(x.is_zero() == a.is_zero(), "is_zero(a) is {}", x.is_zero());
    orders(&x, &y, a, b)?;
    same_i("a + itself", &(&x + &x), &a.add(a))?;
    same_i("a * itself", &(&x * &x), &a.mul(a))?;
    if !a.is_zero() {
        let (q, r) = x.div_mod(&x);
        same_i("a / itself", &q, &RInt::int(1))?;
        same_i("a % itself", &r, &RInt::int(0))?;
        same_i("a / itself (operator)", &(&x / &x), &RInt::int(1))?;
    }
    if b.is_zero() {
        check!(guarded(|| x.div_mod(&y)).is_err(), "div_mod by zero gives a result");
        check!(guarded(|| &x / &y).is_err(), "division by zero gives a result");
    } else {
        let (wq, wr) = a.divrem(b);
        let (q, r) = x.div_mod(&y);
        same_i("a / b (div_mod)", &q, &wq)?;
        same_i("a % b", &r, &wr)?;
        same_i("a / b", &(&x / &y), &wq)?;
        check!(&(&q * &y) + &r == x, "q * b + r differs from a");
    }
    same_i("operand a afterwards", &x, a)?;
    same_i("operand b afterwards", &y, b)
}

fn machine(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = match s.below(4) {
        0 => *s.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, u32::MAX as u64]),
        1 => 1u64 << s.below(64),
        2 => (1u64 << s.below(64)).wrapping_sub(1),
        _ => s.bits(),
    };
    c.show(|| format!("{n:#x}"));
    c.nt(n > 1, &n);
    let r = RInt::int(n as i128);
    same_u("BigUint::from_u64", &BigUint::from_u64(n), &r)?;
    same_i("BigInt::from_u64", &BigInt::from_u64(n), &r)?;
    let k = n as i64;
    let w = RInt::int(k as i128);
    same_i("BigInt::from_i64", &BigInt::from_i64(k), &w)?;
    same_i("-BigInt::from_i64", &-BigInt::from_i64(k), &w.neg())?;
    check!(BigUint::ZERO.is_zero() && BigUint::one().is_one(), "constants");
    check!(BigInt::ZERO.is_zero() && BigInt::ZERO == BigInt::from_i64(0), "zero");
    Ok(())
}

fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b, how) = gint::int_pair(s, 40);
    c.show(|| format!("{} with {} ({how})", clip(&a.hex(), 200), clip(&b.hex(), 200)));
    c.nt(a.mag.len() > 2 || b.mag.len() > 2, &(&a, &b));
    check_unsigned(&a.abs(), &b.abs())?;
    check_udiv(&a.abs(), &b.abs())?;
    check_udiv(&b.abs(), &a.abs())?;
    check_signed(&a, &b)
}

/// Hundreds of digits, and shifts far beyond sixteen bits.
fn huge(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(7, 9);
    let k = s.below(5);
    let salt = s.below(1 << 20);
    let wide = |n: usize, salt: u64| -> Vec<u64> {
        let mut d: Vec<u64> = (0..n).map(|i| match mix(salt ^ i as u64) % 5 {
            0 => 0,
            1 => u64::MAX,
            _ => mix(salt ^ i as u64),
        }).collect();
        if let Some(x) = d.last_mut() {
            *x |= 1;
        }
        d
    };
    let m = if s.coin() { n } else { s.size(0, n) };
    let a = RInt::from_digits(s.coin(), &wide(n, salt));
    let b = RInt::from_digits(s.coin(), &wide(m, if s.chance(1, 4) { salt } else { salt + 1 }));
    c.show(|| format!("{n} digits {} with {m} digits {}, way {k}", clip(&a.hex(), 100), clip(&b.hex(), 100)));
    c.nt(true, &(&a, &b, k));
    let r = match k {
        0 => check_unsigned(&a.abs(), &b.abs()),
        1 => check_signed(&a, &b),
        2 => {
            let small = RInt::from_digits(false, &wide(s.size(1, 3), salt + 2));
            check_udiv(&b.abs(), &small)
        }
        3 => {
            let sh = s.large(10, 24);
            let x = b.abs();
            let p = u(&RInt::int(sh as i128));
            let w = x.shl(sh).add(&a.abs());
            same_u("b << n", &(&u(&x) << &p), &x.shl(sh))?;
            same_u("w >> n", &(&u(&w) >> &p), &w.shr(sh))
        }
        _ => {
            let near = b.add(&RInt::int(s.int(-2, 2) as i128));
            check_signed(&near, &b)?;
            check_unsigned(&near.abs(), &b.abs())
        }
    };
    r.map_err(|e| clip(&e, 800))
}
