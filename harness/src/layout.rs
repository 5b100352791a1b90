//! Rendering of token sequences: spellings of tokens and what stands between them.
use crate::{fw::*, rlex::T, spell, val::utf16};

/// Characters that programs like to treat in some special way.
const ODD: [char; 76] = [
    '\u{0}', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{aa}', '\u{ad}',
    '\u{b2}', '\u{b5}', '\u{b7}', '\u{d7}', '\u{e9}', '\u{df}', '\u{ff}', '\u{100}', '\u{130}', '\u{131}', '\u{17f}', '\u{1c5}', '\u{300}', '\u{301}', '\u{37e}', '\u{391}',
    '\u{430}', '\u{5d0}', '\u{660}', '\u{661}', '\u{966}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2018}', '\u{2019}',
    '\u{201c}', '\u{201d}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}', '\u{203f}', '\u{205f}', '\u{2060}', '\u{2118}', '\u{212a}', '\u{2160}', '\u{2212}', '\u{3000}', '\u{3007}',
    '\u{4e00}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ff0c}', '\u{ff11}', '\u{ff21}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
];

/// A character of any kind, often an odd one.
pub fn odd(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 1, 1, 2]) {
        0 => *s.pick(&ODD),
        4 => {
            // one of the program's own, or the one before or after it
            let c = *s.pick(&crate::dict::dict().chars) as u32 + s.below(3) as u32;
            char::from_u32(c.saturating_sub(1)).unwrap_or('a')
        }
        1 => s.below(128) as u8 as char,
        2 => char::from_u32(128 + s.below(0x3000) as u32).unwrap_or('\u{80}'),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{10000}'),
    }
}

/// A file or directory name of odd characters.
pub fn odd_name(s: &mut Src) -> String {
    let n: String = s
        .many(1, 6, 2, |s| match s.weighted(&[2, 2, 1]) {
            0 => odd(s),
            1 => (b'a' + s.below(26) as u8) as char,
            _ => '.',
        })
        .into_iter()
        .filter(|&c| c != '/' && c != '\0')
        .collect();
    if matches!(n.as_str(), "" | "." | "..") { "o".into() } else { n }
}

/// What other languages, tools and versions of JavaScript have, but not this one (most of them).
const FOREIGN: [&str; 88] = [
    "#!", "#!/bin/x", "<!--", "-->", "#", "# x", "'use strict'", "\"use strict\"", "\"use strict\";", "\u{feff}", "@charset", "<?xml?>", "---", "...", "=>", "??", "?.", "`", "``", "'", "''", "**", "0x1", "0b1", "0o7", "01", "1_0",
    "+1", ".5", "5.", "1e", "0n", "1N", "1f", "1L", "<", "<!", "//", "//!", "//#", "///", "/*", "*/", "/**/", "/*!*/", "/", "%", "%%", "!", "!0", "~", "?", "|", "&", "^", "\\", "\\u0061", "\\\n", "void 0", "new", "function", "async", "var", "let",
    "undefined", "NaN", "Infinity", "-Infinity", "+", "-", "--", "()", "(", ")", "(1)", "[]", "{}", ";", ";;", "=", "==", ":", ",", ".", "as", "* as", "export", "\\x41",
];

/// A piece of text that is foreign to the language, or one of the program's own strings.
pub fn phrase(s: &mut Src) -> String {
    if s.chance(1, 3) {
        s.dict_string()
    } else {
        s.pick(&FOREIGN).to_string()
    }
}

/// A phrase and perhaps more of its line.
pub fn phrase_line(s: &mut Src) -> String {
    let p = phrase(s);
    p + s.pick(&["", "", "\n", "\n", " ", " x", " x\n", "x\n", "\r", "\r\n", ";", ";\n", ",", " 1", " 1\n", "/usr/bin/env x\n", "\"\n", "*/"])
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Piece {
    Space,
    Tab,
    Cr,
    Lf,
    Block,
    /// A line comment ended by LF (true) or CR.
    Line(bool),
}

/// The text of one token; numbers and strings are spelled at random.
pub fn token(s: &mut Src, t: &T) -> String {
    match t {
        T::Num(b) => spell::number(s, *b),
        T::Big(i) => format!("{}n", i.decimal()),
        T::Str(x) => spell::string(s, &utf16(x)),
        T::Id(x) => x.clone(),
        T::Op(c) => c.to_string(),
        T::Nl => "\n".into(),
        T::Err => s.pick(&["#", "@", "'", "+", "-", "01", "1.", "\"\\x\"", "é", "1a", "~", "`", "\u{200d}", "\u{a0}"]).to_string(),
    }
}

/// Whether two adjacent tokens need something between them to stay apart.
pub fn glue(a: &T, b: &T) -> bool {
    let word = |t: &T| matches!(t, T::Id(_) | T::Num(_) | T::Big(_));
    (word(a) && word(b)) || (matches!(a, T::Num(_) | T::Big(_)) && *b == T::Op('.')) || *a == T::Err || *b == T::Err
}

fn block_body(s: &mut Src) -> String {
    let b = s.many(0, 8, 2, |s| *s.pick(&['*', ' ', '/', 'a', '\n', '"', '*', '\r', '1', '\\', 'é', '{', '-', '.'])).iter().collect::<String>();
    // the body may not contain the closing mark
    let mut b = b;
    while b.contains("*/") {
        b = b.replace("*/", "**");
    }
    let stars = s.weighted(&[4, 2, 1, 1]);
    format!("{}{}", b.trim_end_matches('/'), "*".repeat(stars))
}

fn line_body(s: &mut Src) -> String {
    s.many(0, 8, 2, |s| *s.pick(&['*', ' ', '/', 'a', '"', ';', '\t', '1', '\\', 'é', '{', ',', '\u{2028}', 'n'])).iter().collect()
}

/// Random pieces; `lf` allows those that make a new-line mark.
pub fn pieces(s: &mut Src, lf: bool, avg: u64) -> Vec<Piece> {
    s.many(0, 6, avg, |s| {
        let w: &[u64] = if lf { &[4, 1, 1, 3, 2, 1, 1] } else { &[4, 1, 1, 0, 2] };
        match s.weighted(w) {
            0 => Piece::Space,
            1 => Piece::Tab,
            2 => Piece::Cr,
            3 => Piece::Lf,
            4 => Piece::Block,
            5 => Piece::Line(true),
            _ => Piece::Line(false),
        }
    })
}

pub fn render(s: &mut Src, p: &[Piece], out: &mut String) {
    for x in p {
        match x {
            Piece::Space => out.push(' '),
            Piece::Tab => out.push('\t'),
            Piece::Cr => out.push('\r'),
            Piece::Lf => out.push('\n'),
            Piece::Block => {
                out.push_str("/*");
                out.push_str(&block_body(s));
                out.push_str("*/");
            }
            Piece::Line(lf) => {
                out.push_str("//");
                out.push_str(&line_body(s));
                out.push(if *lf { '\n' } else { '\r' });
            }
        }
    }
}

/// New-line marks of the pieces when `more` follows: one per run of white space (ended line
/// comments start a run) with a line end in it, unless the text ends there.
pub fn marks(p: &[Piece], more: bool) -> usize {
    let mut n = 0;
    let mut open = false;
    for x in p {
        match x {
            Piece::Space | Piece::Tab | Piece::Cr => {}
            Piece::Lf => open = true,
            Piece::Block => {
                n += open as usize;
                open = false;
            }
            Piece::Line(_) => {
                n += open as usize;
                open = true;
            }
        }
    }
    n + (open && more) as usize
}

/// Text of a token sequence in which `T::Nl` stands for one line end; between other tokens only
/// what makes no mark.
pub fn text(s: &mut Src, toks: &[T]) -> String {
    let style = s.below(3);
    let mut out = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && *t != T::Nl && toks[i - 1] != T::Nl {
            let mut p = match style {
                0 => vec![],
                1 => pieces(s, false, 1),
                _ => {
                    if s.chance(1, 6) {
                        vec![Piece::Space]
                    } else {
                        vec![]
                    }
                }
            };
            if p.is_empty() && glue(&toks[i - 1], t) {
                p.push(Piece::Space);
            }
            render(s, &p, &mut out);
        }
        if *t == T::Nl {
            let p = match s.weighted(&[6, 1, 1, 1]) {
                0 => vec![Piece::Lf],
                1 => vec![Piece::Space, Piece::Lf, Piece::Cr, Piece::Lf],
                2 => vec![Piece::Line(true)],
                _ => vec![Piece::Lf, Piece::Tab, Piece::Lf],
            };
            render(s, &p, &mut out);
        } else {
            out += &token(s, t);
        }
    }
    out
}
