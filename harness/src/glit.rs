//! Decimal literals, with emphasis on where rounding, underflow and overflow are decided.
use crate::{
    fw::*,
    gfloat::{decimal, edge_double, exact_decimal, half_way, parts},
    rint::RInt,
    spell::spell,
    val,
};

/// A literal of any kind.
pub fn any(s: &mut Src) -> String {
    match s.weighted(&[6, 4, 4, 1, 4]) {
            0 => halfway(s),
            1 => respelled(s).0,
            2 => free(s),
            3 => long(s),
            _ => exponents(s),
    }
}

pub fn halfway(s: &mut Src) -> String {
    let f = edge_double(s);
    let (n, e) = if s.chance(4, 5) { half_way(f) } else { exact_decimal(&RInt::int(parts(f).0 as i128), parts(f).1) };
    let mut d = n.decimal();
    let mut e = e;
    match s.below(6) {
        0 | 1 => {}
        2 => d = n.add(&RInt::int(s.int(-1, 1) as i128)).abs().decimal(),
        3 => {
            let z = s.size(0, 40);
            d.push_str(&"0".repeat(z));
            d.push('1');
            e -= z as i64 + 1;
        }
        4 => {
            let z = s.size(1, 40);
            let m = n.mul(&RInt::int(10).pow(z as u32)).sub(&RInt::int(1)).abs();
            d = m.decimal();
            e -= z as i64;
        }
        _ => {
            let k = s.size(1, d.len());
            e += (d.len() - k) as i64;
            d.truncate(k);
        }
    }
    let neg = s.chance(1, 4);
    let lit = spell(s, &d, e, neg);
    lit
}

pub fn respelled(s: &mut Src) -> (String, f64) {
    let f = match s.below(3) {
        0 => edge_double(s),
        1 => f64::from_bits(val::gen_num(s)).abs(),
        _ => s.bits() as f64 / (s.below(1000) + 1) as f64,
    };
    let f = if f.is_finite() { f } else { f64::MAX };
    let t = format!("{f:e}");
    let (m, e) = t.split_once('e').unwrap();
    let (i, fr) = m.split_once('.').unwrap_or((m, ""));
    let neg = s.chance(1, 4);
    let lit = spell(s, &format!("{i}{fr}"), e.parse::<i64>().unwrap() - fr.len() as i64, neg);
    let w = if neg { -f } else { f };
    assert!(lit.parse::<f64>().unwrap().to_bits() == w.to_bits(), "spelling of {t} as {lit}");
    (lit, w)
}

pub fn free(s: &mut Src) -> String {
    let (n, e) = decimal(s);
    let neg = s.chance(1, 3);
    let lit = spell(s, &n.decimal(), e, neg);
    lit
}

pub fn long(s: &mut Src) -> String {
    let n = s.size(50, 1200);
    let style = s.below(4);
    let mut d = String::new();
    for i in 0..n {
        d.push(match style {
            0 => (b'0' + s.below(10) as u8) as char,
            1 => '9',
            2 => if i == 0 || i + 1 == n { '1' } else { '0' },
            _ => *s.pick(&['0', '0', '9', '5']),
        });
    }
    let e = match s.below(3) {
        0 => -(n as i64),
        1 => s.int(-400, 20) - n as i64,
        _ => s.int(-1500, 400),
    };
    let neg = s.chance(1, 4);
    let lit = spell(s, &d, e, neg);
    lit
}

pub fn exponents(s: &mut Src) -> String {
    let d = match s.below(4) {
        0 => "0".to_string(),
        1 => (s.below(9) + 1).to_string(),
        2 => s.bits().to_string(),
        _ => format!("{}{}", "0".repeat(s.size(0, 30)), s.bits()),
    };
    let frac = match s.below(4) {
        0 => String::new(),
        1 => "0".repeat(s.size(1, 400)) + &s.below(100).to_string(),
        _ => s.bits().to_string(),
    };
    let d = match d.trim_start_matches('0') {
        "" => "0".to_string(),
        x => x.to_string(),
    };
    let exp = match s.weighted(&[6, 4, 4, 4, 1]) {
        0 => s.below(420).to_string(),
        1 => s.pick(&["9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "2147483648", "4294967296", "922337203685477580", "99999999999999999999999999"]).to_string(),
        2 => s.bits().to_string(),
        4 => s.dict_int().to_string(),
        _ => (0..s.size(1, 40)).map(|_| (b'0' + s.below(10) as u8) as char).collect(),
    };
    let lit = format!(
        "{}{d}{}{}{}{}{exp}",
        if s.chance(1, 3) { "-" } else { "" },
        if frac.is_empty() { "" } else { "." },
        frac,
        s.pick(&["e", "E"]),
        s.pick(&["", "-", "+"])
    );
    lit
}
