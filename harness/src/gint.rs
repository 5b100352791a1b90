//! Generators of integers and of pairs of integers that stress digit-wise algorithms.
use crate::{fw::*, rint::RInt};

/// One 64-bit digit: boundary values, sparse, dense, uniform.
pub fn digit(s: &mut Src) -> u64 {
    match s.weighted(&[6, 8, 4, 4, 6, 1]) {
        0 => s.below(4),
        1 => *s.pick(&[
            u64::MAX,
            1 << 63,
            u64::MAX - 1,
            (1 << 63) - 1,
            (1 << 63) + 1,
            1 << 32,
            u32::MAX as u64,
            (1 << 32) + 1,
            u64::MAX << 32,
            10_000_000_000_000_000_000,
        ]),
        2 => 1u64 << s.below(64),
        3 => !(1u64 << s.below(64)),
        4 => s.bits(),
        _ => {
            let n = s.dict_int();
            if s.coin() {
                n
            } else {
                n.wrapping_neg()
            }
        }
    }
}

/// Canonical digits (no high zeros).
pub fn digits(s: &mut Src, max: usize) -> Vec<u64> {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.size(0, 3.min(max)),
        1 => s.size(0, 6.min(max)),
        _ => s.size(0, max),
    };
    let mut v = match s.weighted(&[6, 1, 1]) {
        0 => (0..n).map(|_| digit(s)).collect::<Vec<_>>(),
        1 => vec![u64::MAX; n],
        _ => {
            let mut v = vec![0; n];
            if n > 0 {
                v[n - 1] = digit(s);
            }
            v
        }
    };
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn nat(s: &mut Src, max: usize) -> RInt {
    RInt::from_digits(false, &digits(s, max))
}

pub fn int(s: &mut Src, max: usize) -> RInt {
    let m = nat(s, max);
    if s.chance(2, 5) {
        m.neg()
    } else {
        m
    }
}

fn small(s: &mut Src) -> RInt {
    RInt::int(s.int(-3, 3) as i128)
}

/// A pair of non-negative numbers, related in the ways digit algorithms are sensitive to.
pub fn nat_pair(s: &mut Src, max: usize) -> (RInt, RInt, &'static str) {
    let b = nat(s, max);
    let abs = |x: RInt| x.abs();
    match s.weighted(&[6, 1, 2, 4, 2, 4, 2, 2]) {
        0 => (nat(s, max), b, "independent"),
        1 => (b.clone(), b, "equal"),
        2 => (abs(b.add(&small(s))), b, "neighbours"),
        // a = b*q + r with a small or nearly full r
        3 => {
            let q = nat(s, max / 2 + 1);
            let r = match s.below(3) {
                0 => small(s),
                1 => b.sub(&RInt::int(1 + s.below(3) as i128)),
                _ => nat(s, 2),
            };
            (abs(b.mul(&q).add(&r)), b, "near multiple")
        }
        4 => (abs(b.shl(s.size(0, 200)).add(&small(s))), b, "shifted"),
        // the quotient digit is estimated from the high digits: make the rest decide
        5 => {
            let n = s.size(1, max.max(2) - 1);
            let top = match s.below(3) {
                0 => 1u64 << 63,
                1 => u64::MAX,
                _ => digit(s).max(1),
            };
            let mut bd: Vec<u64> = (0..n).map(|_| if s.coin() { u64::MAX } else { digit(s) }).collect();
            bd.push(top);
            let b = RInt::from_digits(false, &bd).shr(if s.coin() { 0 } else { s.size(0, 63) });
            let q = match s.below(4) {
                0 => RInt::int(u64::MAX as i128),
                1 => RInt::int((1i128 << 64) + s.int(-3, 3) as i128),
                2 => RInt::from_digits(false, &[u64::MAX, u64::MAX]),
                _ => nat(s, 3),
            };
            (abs(b.mul(&q).add(&small(s))), b, "quotient estimate")
        }
        // shared high digits, different low ones
        6 => {
            let mut d = b.digits();
            if !d.is_empty() {
                let i = s.size(0, d.len() - 1);
                d[i] = digit(s);
            }
            (RInt::from_digits(false, &d), b, "one digit differs")
        }
        // a sum of two powers of two and similar sparse numbers
        _ => {
            let p = |s: &mut Src| RInt::int(1).shl(s.size(0, max * 64)).add(&small(s));
            (abs(p(s)), abs(p(s)), "near powers of two")
        }
    }
}

pub fn int_pair(s: &mut Src, max: usize) -> (RInt, RInt, &'static str) {
    let (a, b, how) = nat_pair(s, max);
    let (a, b) = if s.chance(1, 4) { (b, a) } else { (a, b) };
    let a = if s.chance(2, 5) { a.neg() } else { a };
    let b = if s.chance(2, 5) { b.neg() } else { b };
    (a, b, how)
}

/// Shift amounts around digit boundaries.
pub fn shift(s: &mut Src, bits: usize) -> u64 {
    match s.weighted(&[4, 8, 4, 4, 1]) {
        0 => s.below(10),
        1 => (s.below(6) * 64 + s.below(5)).saturating_sub(2),
        2 => (bits as u64 + s.below(5)).saturating_sub(2),
        3 => s.below(bits as u64 + 140),
        _ => s.dict_int() % (bits as u64 + 2000),
    }
}
