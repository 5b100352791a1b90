//! Spellings: texts that denote a given value, with random layout, number and string spellings.
use crate::{
    fw::*,
    val::{Val, V},
};
use std::fmt::Write;

/// d * 10^e spelled in one of many ways.
pub fn spell(s: &mut Src, d: &str, e: i64, neg: bool) -> String {
    let mut digits = d.trim_start_matches('0').to_string();
    if digits.is_empty() {
        digits = "0".into();
    }
    let mut e = e;
    // trailing zeros move into the exponent or out of it
    match s.below(4) {
        0 => {}
        1 => {
            while digits.len() > 1 && digits.ends_with('0') {
                digits.pop();
                e += 1;
            }
        }
        _ => {
            let z = s.size(0, 6);
            digits.push_str(&"0".repeat(z));
            e -= z as i64;
        }
    }
    // where the point goes: k digits after it (k may exceed the digits)
    let k = match s.below(5) {
        0 => 0,
        1 if (0..60).contains(&-e) => -e,
        2 => digits.len() as i64,
        3 => s.int(0, digits.len() as i64 + 12),
        _ => (digits.len() as i64 - 1).max(0),
    };
    let exp = e + k;
    let (int, frac) = if k == 0 {
        (digits.clone(), String::new())
    } else if (k as usize) < digits.len() {
        let p = digits.len() - k as usize;
        (digits[..p].to_string(), digits[p..].to_string())
    } else {
        ("0".to_string(), format!("{}{digits}", "0".repeat(k as usize - digits.len())))
    };
    let mut t = String::new();
    if neg {
        t.push('-');
    }
    t += match int.trim_start_matches('0') {
        "" => "0",
        x => x,
    };
    if !frac.is_empty() {
        t.push('.');
        t += &frac;
    } else if exp != 0 && s.chance(1, 5) {
        t += ".0";
    }
    if exp != 0 || s.chance(1, 6) {
        t.push(if s.coin() { 'e' } else { 'E' });
        if exp < 0 || (exp == 0 && s.chance(1, 3)) {
            t.push('-');
        } else if s.chance(1, 3) {
            t.push('+');
        }
        if s.chance(1, 5) {
            t += &"0".repeat(s.size(1, 25));
        }
        t += &exp.unsigned_abs().to_string();
    }
    t
}


/// A literal whose nearest double is `f` (not NaN).
pub fn number(s: &mut Src, bits: u64) -> String {
    let f = f64::from_bits(bits);
    let neg = f.is_sign_negative();
    if f.is_infinite() {
        let t = *s.pick(&["1e309", "1e1000", "1.8e308", "17976931348623159e292", "9e99999999999999999999"]);
        return format!("{}{t}", if neg { "-" } else { "" });
    }
    let t = format!("{:e}", f.abs());
    let (m, e) = t.split_once('e').unwrap();
    let (i, fr) = m.split_once('.').unwrap_or((m, ""));
    spell(s, &format!("{i}{fr}"), e.parse::<i64>().unwrap() - fr.len() as i64, neg)
}

fn hex(s: &mut Src, u: u16) -> String {
    let t = match s.below(3) {
        0 => format!("{u:04x}"),
        1 => format!("{u:04X}"),
        _ => format!("{u:04x}")
            .chars()
            .map(|c| if s.coin() { c.to_ascii_uppercase() } else { c })
            .collect(),
    };
    format!("\\u{t}")
}

/// The spelling of one character inside quotes. `raw_control`: control characters may stand as
/// they are (the subset allows it, JSON does not).
pub fn string_char(s: &mut Src, c: char, raw_control: bool) -> String {
    let short = match c {
        '"' => Some("\\\""),
        '\\' => Some("\\\\"),
        '/' => Some("\\/"),
        '\u{8}' => Some("\\b"),
        '\u{c}' => Some("\\f"),
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        _ => None,
    };
    let raw = c != '"' && c != '\\' && (raw_control || c as u32 >= 0x20);
    match s.weighted(&[if raw { 6 } else { 0 }, if short.is_some() { 3 } else { 0 }, 2]) {
        0 if raw => c.to_string(),
        1 if short.is_some() => short.unwrap().to_string(),
        _ => c.encode_utf16(&mut [0; 2]).iter().map(|&u| hex(s, u)).collect(),
    }
}

pub fn string(s: &mut Src, units: &[u16]) -> String {
    string_with(s, units, false)
}

/// A literal for UTF-16 text without lone surrogates.
pub fn string_with(s: &mut Src, units: &[u16], raw_control: bool) -> String {
    let plain = s.chance(1, 3);
    let mut t = String::from("\"");
    for c in char::decode_utf16(units.iter().copied()) {
        let c = c.expect("no lone surrogates");
        if plain && (c.is_ascii_alphanumeric()) {
            t.push(c);
        } else {
            t += &string_char(s, c, raw_control);
        }
    }
    t.push('"');
    t
}

/// Insignificant white space: mostly none.
pub fn ws(s: &mut Src, style: u64, out: &mut String) {
    match style {
        0 => {}
        1 => {
            if s.chance(1, 3) {
                out.push(' ')
            }
        }
        _ => {
            for _ in 0..s.weighted(&[5, 4, 2, 1]) {
                out.push(*s.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
}

/// JSON text of the value with random spellings of everything.
pub fn json(s: &mut Src, v: &V) -> String {
    let mut out = String::new();
    let style = s.below(3);
    ws(s, style, &mut out);
    json_in(s, v, style, &mut out);
    ws(s, style, &mut out);
    out
}

fn json_in(s: &mut Src, v: &V, style: u64, out: &mut String) {
    match &**v {
        Val::Null => out.push_str("null"),
        Val::Bool(b) => {
            let _ = write!(out, "{b}");
        }
        Val::Num(b) => out.push_str(&number(s, *b)),
        Val::Str(u) => out.push_str(&string(s, u)),
        Val::Big(_) => unreachable!("no JSON form"),
        Val::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, style, out);
                json_in(s, x, style, out);
                ws(s, style, out);
            }
            if a.is_empty() {
                ws(s, style, out);
            }
            out.push(']');
        }
        Val::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, style, out);
                out.push_str(&string(s, k));
                ws(s, style, out);
                out.push(':');
                ws(s, style, out);
                json_in(s, x, style, out);
                ws(s, style, out);
            }
            if o.is_empty() {
                ws(s, style, out);
            }
            out.push('}');
        }
    }
}
