//! A dictionary for the generators: names and numbers that mean something to somebody, and every
//! string, character and integer literal of the library itself (as fuzzers take theirs from the
//! program under test). It only widens what is generated; no verdict depends on it.
use std::{collections::BTreeSet, path::Path, sync::OnceLock};

pub struct Dict {
    pub strings: Vec<String>,
    /// Those that can be a component of a path.
    pub names: Vec<String>,
    /// Those that are identifiers.
    pub ids: Vec<String>,
    pub chars: Vec<char>,
    pub ints: Vec<u64>,
}

const STRINGS: &[&str] = &[
    "__proto__", "constructor", "prototype", "toString", "valueOf", "hasOwnProperty", "length", "undefined", "NaN", "Infinity", "null", "true", "false", "let", "var", "function", "class",
    "new", "this", "default", "import", "export", "from", "require", "module", "exports", "const", "node_modules", "index", "index.js", "index.json", "package.json", "main", "src", "lib",
    "test", "tmp", "node:fs", "fs", "file:", "http:", "https:", "C:", "c:", "~", "~root", "%2e", "%2e%2e", "%2f", "con", "nul", "a.json", "a.js", "a.mjs", "a.cjs", "a.d.js", "a.d.mjs",
    "a.d.cjs", ".json", ".d.mjs", "....", "-", "--", "#", "?", "*", ":", "\\", "..\\", "\\..", " .", ". ", "\0", "\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", "0", "1", "-1", "01", "1e3", "0x10",
    "async", "await", "yield", "enum", "static", "typeof", "void", "delete", "eval", "arguments", "get", "set", "of", "in", "as", "if", "else", "return", "throw", "try", "switch", "while", "for", "do", "with", "debugger", "super", "extends", "interface", "package", "private", "public", "Symbol", "Object", "Array", "String", "Number", "Boolean", "BigInt", "Math", "JSON", "globalThis", "window", "global", "process", "console", "__filename", "__dirname", "__esModule", "exports2", "n", "e", "E", "u", "x", "nul1", "NULL", "True", "False", "nan", "infinity", "inf", "None", "nil", "yes", "no", "on", "off", "use strict", "</script>", "<!--", "//", "/*", "*/", "\r\n", "$ref", "$", "_", "id", "type", "name", "key", "value", "data", "items",
];
const INTS: &[u64] = &[
    10, 16, 20, 24, 32, 40, 48, 50, 60, 64, 80, 96, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 700, 768, 800, 900, 1000, 1023, 1074, 1500, 2000, 2500, 3000, 4000, 5000, 8000, 10_000,
    15_000, 20_000, 30_000, 50_000, 65_537, 100_000, 1_000_000, 10_000_000,
];

fn code(root: &Path, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(root) else { return };
    let mut v: Vec<_> = d.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            code(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.extend(std::fs::read_to_string(&p));
        }
    }
}

fn literals(text: &str, strings: &mut BTreeSet<String>, chars: &mut BTreeSet<char>, ints: &mut BTreeSet<u64>) {
    // the unit tests at the end of a file are no part of the program
    let text = match text.find("#[cfg(test)]\nmod ") {
        Some(i) => &text[..i],
        None => text,
    };
    let t: Vec<char> = text.chars().collect();
    let at = |i: usize| t.get(i).copied().unwrap_or('\0');
    // one possibly escaped character
    let one = |mut i: usize| -> (char, usize) {
        let c = at(i);
        i += 1;
        if c != '\\' {
            return (c, i);
        }
        let e = at(i);
        i += 1;
        match e {
            'n' => ('\n', i),
            'r' => ('\r', i),
            't' => ('\t', i),
            '0' => ('\0', i),
            'x' => {
                let h: String = (i..i + 2).map(at).collect();
                (u8::from_str_radix(&h, 16).unwrap_or(0) as char, i + 2)
            }
            'u' => {
                let mut h = String::new();
                i += 1;
                while at(i) != '}' && i < t.len() {
                    h.push(at(i));
                    i += 1;
                }
                (u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32).unwrap_or('\0'), i + 1)
            }
            c => (c, i),
        }
    };
    let mut i = 0;
    while i < t.len() {
        match at(i) {
            '/' if at(i + 1) == '/' => {
                while i < t.len() && at(i) != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < t.len() && !(at(i) == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && !(i > 0 && (at(i - 1).is_alphanumeric() || at(i - 1) == '_')) => {
                let mut n = 0;
                i += 1;
                while at(i) == '#' {
                    n += 1;
                    i += 1;
                }
                i += 1;
                let mut x = String::new();
                while i < t.len() && !(at(i) == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                    x.push(at(i));
                    i += 1;
                }
                i += 1 + n;
                strings.insert(x);
            }
            '"' => {
                i += 1;
                let mut x = String::new();
                while i < t.len() && at(i) != '"' {
                    let (c, k) = one(i);
                    x.push(c);
                    i = k;
                }
                i += 1;
                strings.insert(x);
            }
            '\'' => {
                let (c, k) = one(i + 1);
                if at(k) == '\'' && at(i + 1) != '\'' {
                    chars.insert(c);
                    i = k + 1;
                } else {
                    i += 1;
                }
            }
            c if c.is_ascii_digit() && !(i > 0 && (at(i - 1).is_alphanumeric() || at(i - 1) == '_')) => {
                let mut x = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    x.push(at(i));
                    i += 1;
                }
                let x = x.replace('_', "");
                let (digits, radix) = match x.get(..2) {
                    Some("0x") => (&x[2..], 16),
                    Some("0b") => (&x[2..], 2),
                    Some("0o") => (&x[2..], 8),
                    _ => (&x[..], 10),
                };
                let n = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
                if let Ok(v) = u64::from_str_radix(&digits[..n], radix) {
                    ints.insert(v);
                    // perhaps an amount of a shift
                    if v < 64 {
                        ints.insert(1 << v);
                    }
                }
            }
            c if c.is_alphanumeric() || c == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut s, mut c, mut n) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut files = vec![];
        let repo = Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo"));
        for d in ["nanvm-lib/src", "nanvm/src"] {
            code(&repo.join(d), &mut files);
        }
        for f in &files {
            literals(f, &mut s, &mut c, &mut n);
        }
        let mut strings: Vec<String> = STRINGS.iter().map(|x| x.to_string()).collect();
        strings.extend(s.into_iter().filter(|x| x.len() <= 200 && !STRINGS.contains(&x.as_str())));
        let mut ints = INTS.to_vec();
        ints.extend(n.into_iter().filter(|x| !INTS.contains(x)));
        let names = strings.iter().filter(|x| !x.is_empty() && x.len() < 60 && !x.contains('/') && !x.contains('\0') && *x != "." && *x != "..").cloned().collect();
        let ids = strings
            .iter()
            .filter(|x| x.chars().enumerate().all(|(i, c)| c.is_ascii_alphabetic() || c == '_' || c == '$' || (i > 0 && c.is_ascii_digit())) && !x.is_empty())
            .cloned()
            .collect();
        let mut chars: Vec<char> = c.into_iter().collect();
        if chars.is_empty() {
            chars.push('a');
        }
        Dict { strings, names, ids, chars, ints }
    })
}
