//! Long texts of every construct.
use crate::{fw::*, spell};

/// A text of about `n` bytes of one construct.
pub fn long_text(s: &mut Src, n: usize) -> (&'static str, String) {
    let digits = |s: &mut Src, n: usize| -> String {
        let k = s.below(3);
        let d = (b'1' + s.below(9) as u8) as char;
        (0..n).map(|i| match k {
            0 => d,
            1 if i == 0 => '1',
            1 => '0',
            _ => (b'0' + ((i * 7 + 3) % 10) as u8) as char,
        }).collect()
    };
    let sep = |s: &mut Src| *s.pick(&[",", ", ", ",\n"]);
    let families = 36;
    match s.enumerate(families) {
        0 => {
            let x = *s.pick(&["1", "-0", "null", "\"a\"", "[]", "{}", "1n", "1.5e3", "true"]);
            let p = sep(s);
            ("array", format!("[{}]", vec![x; n / (x.len() + p.len()) + 1].join(p)))
        }
        1 => {
            let p = sep(s);
            let k = s.below(4);
            let m = n / 10 + 1;
            let v: Vec<String> = (0..m)
                .map(|i| {
                    let j = match k {
                        0 => i,
                        1 => m - i,
                        2 => 0,
                        _ => (i * 7919) % m,
                    };
                    format!("\"k{j:05}\":1")
                })
                .collect();
            ("object", format!("{{{}}}", v.join(p)))
        }
        2 => {
            let d = s.size(1, 500).min(n / 2 + 1);
            ("nested arrays", format!("{}{}", "[".repeat(d), "]".repeat(d)))
        }
        3 => {
            let d = s.size(1, 500).min(n / 6 + 1);
            ("nested objects", format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)))
        }
        4 => ("string", format!("\"{}\"", "x".repeat(n))),
        5 => {
            let e = *s.pick(&["\\n", "\\u0041", "\\uD83D\\uDE00", "\\uD800", "\\\\", "\\\"", "é", "\u{1F600}", "\u{7F}"]);
            ("escapes", format!("\"{}\"", e.repeat(n / e.len() + 1)))
        }
        6 => ("digits", format!("{}{}", s.pick(&["", "-"]), digits(s, n.min(12_000)))),
        7 => ("fraction", format!("0.{}", digits(s, n.min(12_000)))),
        8 => ("small fraction", format!("0.{}{}", "0".repeat(n), digits(s, 3))),
        9 => ("exponent", format!("{}e{}{}", digits(s, 2), s.pick(&["", "+", "-"]), digits(s, n))),
        10 => ("zero exponent", format!("1e{}{}", "0".repeat(n), digits(s, 2))),
        11 => {
            let e = s.size(1, 40_000);
            ("one exponent", format!("{}{}e{}{e}", s.pick(&["", "-"]), digits(s, 20), s.pick(&["", "-"])))
        }
        12 => ("big integer", format!("{}{}n", s.pick(&["", "-"]), digits(s, n.min(12_000)))),
        13 => ("zeros", format!("0{}", "0".repeat(n))),
        14 => {
            let name = "x".repeat(n / 2 + 1);
            ("long name", format!("const {name}=1\nexport default {name}"))
        }
        15 => ("word", "a".repeat(n)),
        16 => {
            let m = n / 12 + 1;
            let c: String = (0..m).map(|i| format!("const a{i}={i}\n")).collect();
            ("consts", format!("{c}export default a{}", s.below(m as u64)))
        }
        17 => {
            let m = n / 12 + 1;
            let c: String = (1..m.max(2)).map(|i| format!("const a{i}=[a{}]\n", i - 1)).collect();
            // nesting
            let m = m.max(2).min(400);
            let c: String = c.lines().take(m - 1).map(|l| format!("{l}\n")).collect();
            ("chain", format!("const a0=[]\n{c}export default a{}", m - 1))
        }
        18 => {
            let m = s.size(2, 60);
            let k = s.size(2, 4);
            let o = s.coin();
            let c: String = (1..m)
                .map(|i| {
                    let p = i - 1;
                    if o {
                        let f: Vec<String> = (0..k).map(|j| format!("\"{j}\":a{p}")).collect();
                        format!("const a{i}={{{}}}\n", f.join(","))
                    } else {
                        format!("const a{i}=[{}]\n", vec![format!("a{p}"); k].join(","))
                    }
                })
                .collect();
            ("doubling", format!("const a0=[]\n{c}module.exports=a{}", m - 1))
        }
        19 => ("line comment", format!("//{}\n1", "/".repeat(n))),
        20 => ("comment", format!("/*{}*/1", s.pick(&["*", "/", "a", "\n", "**/ /*"]).repeat(n / 2))),
        21 => ("open comment", format!("/*{}", s.pick(&["*", "/", "a"]).repeat(n))),
        22 => ("comments", format!("{}1", s.pick(&["/**/", "//\n", "/* */\n"]).repeat(n / 4))),
        23 => ("blanks", format!("{}1{}", s.pick(&[" ", "\t", "\r", "\n", " \n", "\r\n"]).repeat(n / 2), " ".repeat(n / 2))),
        24 => {
            let m = *s.pick(&["[", "]", "{", "}", ",", ":", "(", ")", "=", ".", ";", "-", "\"", "\\", "/", "*", "@", "'", "é"]);
            // the reference reader is recursive
            ("marks", m.repeat(if m == "[" { n.min(10_000) } else { n }))
        }
        25 => ("errors", s.pick(&["1a ", "01 ", "\"\n", "\"\\x\" ", "1.a ", "1e ", "@ ", "--", "1n1 ", "\\u", "\u{1}"]).repeat(n / 3)),
        26 => ("open arrays", "[".repeat(n.min(10_000))),
        27 => ("open objects", "{\"a\":".repeat((n / 5).min(10_000))),
        28 => {
            let m = n / 24 + 1;
            let c: String = (0..m).map(|i| format!("import a{i} from \"m2\"\n")).collect();
            ("imports", format!("{c}export default [a0,a{}]", m - 1))
        }
        29 => {
            let m = n / 14 + 1;
            ("requires", format!("module.exports=[{}]", vec!["require(\"m2\")"; m].join(",")))
        }
        30 => {
            let m = n / 3 + 1;
            ("same part", format!("const a=[{}]\nexport default [{}]", digits(s, 3), vec!["a"; m].join(",")))
        }
        31 => {
            let m = n / 16 + 1;
            let c: Vec<String> = (0..m).map(|i| format!("a{i}")).collect();
            let d: String = c.iter().map(|a| format!("const {a}=[1]\n")).collect();
            ("many shared", format!("{d}export default [{},{}]", c.join(","), c.join(",")))
        }
        32 => ("semicolons", format!("const a=1{}\nexport default a", ";".repeat(n))),
        33 => {
            let x = spell::string(s, &vec![0x61; 20]);
            ("strings", format!("[{}]", vec![x.as_str(); n / (x.len() + 1) + 1].join(",")))
        }
        34 => {
            let x = digits(s, s_len(n));
            ("numbers", format!("[{}]", vec![x.as_str(); n / (x.len() + 1) + 1].join(",")))
        }
        _ => {
            let x = format!("{}n", digits(s, s_len(n)));
            ("big integers", format!("[{}]", vec![x.as_str(); n / (x.len() + 1) + 1].join(",")))
        }
    }
}

fn s_len(n: usize) -> usize {
    (n / 20).clamp(1, 300)
}
