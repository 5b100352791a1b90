//! Reference lexer: a scanner over the whole text, written from the lexical grammar.
use crate::rint::RInt;

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    /// bits of the double nearest to the literal
    Num(u64),
    Big(RInt),
    Str(String),
    Id(String),
    Op(char),
    Nl,
    Err,
}

const WS: [char; 4] = [' ', '\t', '\r', '\n'];
const OPS: &str = "{}[]:,=.;()";

/// Length of `-?(0|[1-9][0-9]*)(n|(\.[0-9]+)?([eE][+-]?[0-9]+)?)` at the start, and whether it is
/// a big integer.
pub fn number(c: &[char]) -> Option<(usize, bool)> {
    let digits = |mut i: usize| {
        let b = i;
        while i < c.len() && c[i].is_ascii_digit() {
            i += 1;
        }
        if i > b {
            Some(i)
        } else {
            None
        }
    };
    let mut i = 0;
    if c.first() == Some(&'-') {
        i = 1;
    }
    if c.get(i) == Some(&'0') {
        i += 1;
    } else {
        i = digits(i)?;
    }
    if c.get(i) == Some(&'n') {
        return Some((i + 1, true));
    }
    if c.get(i) == Some(&'.') {
        i = digits(i + 1)?;
    }
    if matches!(c.get(i), Some('e' | 'E')) {
        i += 1;
        if matches!(c.get(i), Some('+' | '-')) {
            i += 1;
        }
        i = digits(i)?;
    }
    Some((i, false))
}

/// A string body after the opening quote: the text and the length with the closing quote.
pub fn string(c: &[char]) -> Option<(String, usize)> {
    let hex = |i: usize| -> Option<u32> {
        let h: String = c.get(i..i + 4)?.iter().collect();
        if h.chars().all(|x| x.is_ascii_hexdigit()) {
            u32::from_str_radix(&h, 16).ok()
        } else {
            None
        }
    };
    let mut r = String::new();
    let mut i = 0;
    loop {
        match *c.get(i)? {
            '"' => return Some((r, i + 1)),
            '\\' => {
                let e = *c.get(i + 1)?;
                i += 2;
                match e {
                    '"' | '\\' | '/' => r.push(e),
                    'b' => r.push('\u{8}'),
                    'f' => r.push('\u{c}'),
                    'n' => r.push('\n'),
                    'r' => r.push('\r'),
                    't' => r.push('\t'),
                    'u' => {
                        let u = hex(i)?;
                        i += 4;
                        if (0xD800..0xDC00).contains(&u) {
                            if c.get(i) != Some(&'\\') || c.get(i + 1) != Some(&'u') {
                                return None;
                            }
                            let l = hex(i + 2)?;
                            i += 6;
                            if !(0xDC00..0xE000).contains(&l) {
                                return None;
                            }
                            r.push(char::from_u32(0x10000 + (u - 0xD800) * 0x400 + (l - 0xDC00))?);
                        } else {
                            r.push(char::from_u32(u)?);
                        }
                    }
                    _ => return None,
                }
            }
            x => {
                r.push(x);
                i += 1;
            }
        }
    }
}

/// The tokens up to and with the first error mark.
pub fn lex(text: &str) -> Vec<T> {
    let c: Vec<char> = text.chars().collect();
    let n = c.len();
    let mut out = vec![];
    let mut i = 0;
    // white space after a line end, all of it; one mark when anything follows
    let run = |mut i: usize, out: &mut Vec<T>| {
        while i < n && WS.contains(&c[i]) {
            i += 1;
        }
        if i < n {
            out.push(T::Nl);
        }
        i
    };
    while i < n {
        let x = c[i];
        match x {
            ' ' | '\t' | '\r' => i += 1,
            '\n' => i = run(i, &mut out),
            '/' => match c.get(i + 1) {
                Some('/') => {
                    i += 2;
                    while i < n && c[i] != '\n' && c[i] != '\r' {
                        i += 1;
                    }
                    if i < n {
                        i = run(i, &mut out);
                    }
                }
                Some('*') => {
                    i += 2;
                    loop {
                        if i + 1 >= n {
                            out.push(T::Err);
                            return out;
                        }
                        if c[i] == '*' && c[i + 1] == '/' {
                            i += 2;
                            break;
                        }
                        i += 1;
                    }
                }
                _ => {
                    out.push(T::Err);
                    return out;
                }
            },
            _ if OPS.contains(x) => {
                out.push(T::Op(x));
                i += 1;
            }
            '"' => match string(&c[i + 1..]) {
                Some((s, k)) => {
                    out.push(T::Str(s));
                    i += 1 + k;
                }
                None => {
                    out.push(T::Err);
                    return out;
                }
            },
            '-' | '0'..='9' => {
                let t = match number(&c[i..]) {
                    // a number is followed by white space, an operator, a string or a comment
                    Some((k, big)) if i + k == n || WS.contains(&c[i + k]) || "{}[]:,=;()\"/".contains(c[i + k]) => {
                        let s: String = c[i..i + k].iter().collect();
                        i += k;
                        if big {
                            T::Big(RInt::parse(&s[..s.len() - 1]))
                        } else {
                            T::Num(s.parse::<f64>().unwrap().to_bits())
                        }
                    }
                    _ => T::Err,
                };
                let stop = t == T::Err;
                out.push(t);
                if stop {
                    return out;
                }
            }
            'a'..='z' | 'A'..='Z' | '_' | '$' => {
                let b = i;
                while i < n && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '$') {
                    i += 1;
                }
                out.push(T::Id(c[b..i].iter().collect()));
            }
            _ => {
                out.push(T::Err);
                return out;
            }
        }
    }
    out
}
