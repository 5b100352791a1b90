//! Generators of scaled integers around the places where rounding is decided.
use crate::{fw::*, gint, rint::RInt};

/// A finite positive double, with emphasis on edges of the format.
pub fn edge_double(s: &mut Src) -> f64 {
    let b = match s.weighted(&[3, 3, 2, 2]) {
        0 => s.bits() & !(1 << 63),
        // small mantissa patterns at any exponent
        1 => {
            let e = s.below(2047);
            let m = match s.below(4) {
                0 => 0,
                1 => (1 << 52) - 1,
                2 => s.below(4),
                _ => 1u64 << s.below(52),
            };
            (e << 52) | m
        }
        // subnormals
        2 => match s.below(3) {
            0 => s.below(10) + 1,
            1 => (1u64 << s.below(53)) + s.below(3),
            _ => s.bits() >> 12,
        },
        _ => *s.pick(&[
            f64::MAX.to_bits(),
            f64::MAX.to_bits() - 1,
            f64::MIN_POSITIVE.to_bits(),
            f64::MIN_POSITIVE.to_bits() - 1,
            f64::MIN_POSITIVE.to_bits() + 1,
            1,
            2,
            1f64.to_bits(),
            9007199254740992f64.to_bits(),
        ]),
    };
    let f = f64::from_bits(b);
    if f.is_finite() {
        f
    } else {
        f64::MAX
    }
}

/// The double as m * 2^e.
pub fn parts(f: f64) -> (u64, i64) {
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7FF) as i64;
    let m = b & ((1 << 52) - 1);
    if e == 0 {
        (m, -1074)
    } else {
        (m | 1 << 52, e - 1075)
    }
}

/// m * 2^e as d * 10^-k, exactly.
pub fn exact_decimal(m: &RInt, e: i64) -> (RInt, i64) {
    if e >= 0 {
        (m.shl(e as usize), 0)
    } else {
        // 2^e = 5^-e * 10^e
        (m.mul(&RInt::int(5).pow(-e as u32)), e)
    }
}

/// The point half way between a double and the next one up, exactly; the value of the overflow
/// threshold for the largest.
pub fn half_way(f: f64) -> (RInt, i64) {
    let (m, e) = parts(f);
    exact_decimal(&RInt::int(2 * m as i128 + 1), e - 1)
}

/// A non-negative decimal scaled integer.
pub fn decimal(s: &mut Src) -> (RInt, i64) {
    match s.weighted(&[3, 3, 4, 2, 1, 1]) {
        0 => {
            let n = gint::nat(s, 4);
            (n, s.int(-400, 400))
        }
        1 => {
            let k = s.size(1, 25);
            let n = RInt::int(10).pow(k as u32);
            let n = n.add(&RInt::int(s.int(-3, 3) as i128)).abs();
            (n, s.int(-360, 340))
        }
        // half-way points and their neighbours
        2 => {
            let f = edge_double(s);
            let (n, e) = if s.chance(3, 4) { half_way(f) } else { exact_decimal(&RInt::int(parts(f).0 as i128), parts(f).1) };
            match s.below(4) {
                0 => (n, e),
                1 => (n.add(&RInt::int(s.int(-1, 1) as i128)).abs(), e),
                // one more digit far behind
                2 => {
                    let k = s.size(1, 30);
                    let n = n.mul(&RInt::int(10).pow(k as u32));
                    (n.add(&RInt::int(s.int(-1, 1) as i128)).abs(), e - k as i64)
                }
                // cut to a few digits
                _ => {
                    let d = n.decimal();
                    let k = s.size(1, 40).min(d.len());
                    (RInt::parse(&d[..k]), e + (d.len() - k) as i64)
                }
            }
        }
        // multiples of powers of five: exact quotients
        3 => {
            let k = s.size(0, 60);
            let n = gint::nat(s, 2).mul(&RInt::int(5).pow(k as u32));
            (n, -(k as i64) - s.int(-2, 2))
        }
        4 => (gint::nat(s, 7), s.int(-800, 800)),
        _ => (gint::nat(s, 3), 0),
    }
}

/// A binary significand, often with a half-way pattern at the 53rd bit.
pub fn binary(s: &mut Src) -> RInt {
    match s.weighted(&[2, 4, 2, 1]) {
        0 => gint::nat(s, 4),
        1 => {
            let head = match s.below(4) {
                0 => (1u64 << 53) - 1,
                1 => 1u64 << 52,
                2 => (1u64 << 52) | s.below(4),
                _ => (s.bits() >> 11) | 1 << 52,
            };
            let extra = s.size(1, 140);
            let half = RInt::int(1).shl(extra - 1);
            let rest = match s.below(5) {
                0 => half,
                1 => half.sub(&RInt::int(1)),
                2 => half.add(&RInt::int((extra > 1) as i128)),
                3 => RInt::int(0),
                _ => half.add(&RInt::int(1).shl(s.size(0, extra - 1)).shr(1)),
            };
            RInt::int(head as i128).shl(extra).add(&rest)
        }
        2 => RInt::int(s.bits() as i128),
        _ => RInt::int(1).shl(s.size(0, 300)),
    }
}
