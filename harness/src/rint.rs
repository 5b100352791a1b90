//! Reference integers: sign and 32-bit limbs, the simplest algorithms.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct RInt {
    pub neg: bool,
    /// Little-endian, no high zeros; zero is empty and not negative.
    pub mag: Vec<u32>,
}

fn norm(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::new();
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let t = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(t as u32);
        c = t >> 32;
    }
    r.push(c as u32);
    norm(r)
}

/// a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::new();
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut t = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
        c = 0;
        if t < 0 {
            t += 1 << 32;
            c = 1;
        }
        r.push(t as u32);
    }
    assert!(c == 0);
    norm(r)
}

fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = r[i + j] as u64 + x as u64 * y as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    norm(r)
}

fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; n / 32];
    let s = n % 32;
    let mut c = 0u64;
    for &x in a {
        let t = ((x as u64) << s) | c;
        r.push(t as u32);
        c = t >> 32;
    }
    r.push(c as u32);
    norm(r)
}

fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    let s = n % 32;
    let mut r = Vec::new();
    for i in w..a.len() {
        let hi = *a.get(i + 1).unwrap_or(&0) as u64;
        r.push(((((hi << 32) | a[i] as u64) >> s) & 0xFFFF_FFFF) as u32);
    }
    norm(r)
}

pub fn bits_mag(a: &[u32]) -> usize {
    match a.last() {
        None => 0,
        Some(x) => a.len() * 32 - x.leading_zeros() as usize,
    }
}

/// Binary long division.
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, norm(vec![r]));
    }
    let mut q = vec![0u32; a.len()];
    let mut r: Vec<u32> = Vec::new();
    for i in (0..bits_mag(a)).rev() {
        r = shl_mag(&r, 1);
        if (a[i / 32] >> (i % 32)) & 1 == 1 {
            if r.is_empty() {
                r.push(0);
            }
            r[0] |= 1;
        }
        if cmp_mag(&r, b) != Ordering::Less {
            r = sub_mag(&r, b);
            q[i / 32] |= 1 << (i % 32);
        }
    }
    (norm(q), r)
}

fn divrem_small(a: &[u32], b: u32) -> (Vec<u32>, u32) {
    let mut q = a.to_vec();
    let mut r = 0u64;
    for x in q.iter_mut().rev() {
        let t = (r << 32) | *x as u64;
        *x = (t / b as u64) as u32;
        r = t % b as u64;
    }
    (norm(q), r as u32)
}

impl RInt {
    pub fn new(neg: bool, mag: Vec<u32>) -> Self {
        let mag = norm(mag);
        RInt { neg: neg && !mag.is_empty(), mag }
    }
    pub fn from_digits(neg: bool, d: &[u64]) -> Self {
        Self::new(neg, d.iter().flat_map(|&x| [x as u32, (x >> 32) as u32]).collect())
    }
    pub fn int(i: i128) -> Self {
        let m = i.unsigned_abs();
        Self::new(i < 0, (0..4).map(|k| (m >> (32 * k)) as u32).collect())
    }
    /// Canonical 64-bit digits.
    pub fn digits(&self) -> Vec<u64> {
        self.mag.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn bits(&self) -> usize {
        bits_mag(&self.mag)
    }
    pub fn neg(&self) -> Self {
        Self::new(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Self {
        Self::new(false, self.mag.clone())
    }
    pub fn add(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            return Self::new(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Less => Self::new(o.neg, sub_mag(&o.mag, &self.mag)),
            _ => Self::new(self.neg, sub_mag(&self.mag, &o.mag)),
        }
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Self) -> Self {
        Self::new(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// Truncating division; the remainder has the dividend's sign.
    pub fn divrem(&self, o: &Self) -> (Self, Self) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (Self::new(self.neg != o.neg, q), Self::new(self.neg, r))
    }
    pub fn pow(&self, e: u32) -> Self {
        let mut r = Self::int(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn shl(&self, n: usize) -> Self {
        Self::new(self.neg, shl_mag(&self.mag, n))
    }
    /// Floor of the division by 2^n.
    pub fn shr(&self, n: usize) -> Self {
        let q = Self::new(self.neg, shr_mag(&self.mag, n));
        if self.neg && shl_mag(&q.mag, n) != self.mag {
            q.sub(&Self::int(1))
        } else {
            q
        }
    }
    pub fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    /// Bit of the infinite two's complement: -x = !(x - 1).
    fn tc_bit(m: &[u32], neg: bool, i: usize) -> bool {
        let b = (m.get(i / 32).unwrap_or(&0) >> (i % 32)) & 1 == 1;
        b != neg
    }
    pub fn bitwise(&self, o: &Self, f: impl Fn(bool, bool) -> bool) -> Self {
        let pre = |x: &Self| if x.neg { sub_mag(&x.mag, &[1]) } else { x.mag.clone() };
        let (a, b) = (pre(self), pre(o));
        let neg = f(self.neg, o.neg);
        let n = bits_mag(&a).max(bits_mag(&b)) + 1;
        let mut m = vec![0u32; n / 32 + 1];
        for i in 0..n {
            if f(Self::tc_bit(&a, self.neg, i), Self::tc_bit(&b, o.neg, i)) != neg {
                m[i / 32] |= 1 << (i % 32);
            }
        }
        if neg {
            Self::new(true, add_mag(&norm(m), &[1]))
        } else {
            Self::new(false, m)
        }
    }
    pub fn decimal(&self) -> String {
        let mut d = Vec::new();
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_small(&m, 10);
            d.push(b'0' + r as u8);
            m = q;
        }
        if d.is_empty() {
            d.push(b'0');
        }
        if self.neg {
            d.push(b'-');
        }
        d.reverse();
        String::from_utf8(d).unwrap()
    }
    pub fn parse(s: &str) -> Self {
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let mut m: Vec<u32> = Vec::new();
        for c in s.bytes() {
            m = add_mag(&mul_mag(&m, &[10]), &norm(vec![(c - b'0') as u32]));
        }
        Self::new(neg, m)
    }
    pub fn hex(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::from(if self.neg { "-0x" } else { "0x" });
        for (i, x) in self.mag.iter().rev().enumerate() {
            s += &if i == 0 { format!("{x:x}") } else { format!("{x:08x}") };
        }
        s
    }
}

/// The double nearest to n/d * 2^e (n, d positive), ties to even.
pub fn nearest(n: &RInt, d: &RInt, e: i64) -> f64 {
    assert!(!n.neg && !n.is_zero() && !d.is_zero());
    // scale so that the quotient has at least 66 bits, then round once with a sticky bit
    let have = n.bits() as i64 - d.bits() as i64;
    let up = (68 - have).max(0);
    let (q, r) = n.shl(up as usize).divrem(d);
    round(&q, !r.is_zero(), e - up)
}

/// The double nearest to (q + sticky part) * 2^e.
pub fn round(q: &RInt, sticky: bool, e: i64) -> f64 {
    if q.is_zero() {
        return 0.0;
    }
    let bits = q.bits() as i64;
    // exponent of the highest bit
    let top = e.saturating_add(bits - 1);
    if top > 1023 {
        return f64::INFINITY;
    }
    // exponent of the last kept bit
    let last = (top - 52).max(-1074);
    let cut = last.saturating_sub(e);
    if cut <= 0 {
        // exact
        assert!(!sticky || cut < 0, "not determined");
        let m = q.shl((-cut) as usize);
        return compose(m.digits().first().copied().unwrap_or(0), last);
    }
    if cut > bits + 1 {
        return 0.0;
    }
    let cut = cut as usize;
    let m = q.shr(cut);
    let rest = q.sub(&m.shl(cut));
    let half = RInt::int(1).shl(cut - 1);
    let m = m.digits().first().copied().unwrap_or(0);
    let up = match rest.cmp(&half) {
        Ordering::Less => false,
        Ordering::Greater => true,
        Ordering::Equal => sticky || m & 1 == 1,
    };
    compose(m + up as u64, last)
}

/// m * 2^last with m at most 2^53 and last the exponent of the last bit of a double's format.
fn compose(m: u64, last: i64) -> f64 {
    if m == 0 {
        return 0.0;
    }
    if m < 1 << 52 {
        assert!(last == -1074);
        return f64::from_bits(m);
    }
    // works for m == 2^53 too: the exponent field is incremented by the carry
    let biased = (last + 1075) as u64;
    let b = (biased << 52) + (m - (1 << 52));
    if b >= 0x7FF << 52 {
        f64::INFINITY
    } else {
        f64::from_bits(b)
    }
}
