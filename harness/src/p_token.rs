//! C07: tokens depend only on the text, layout and comments only separate them.
use crate::{
    check,
    fw::*,
    gint,
    glong::long_text,
    glue::{self, token},
    layout::{self, marks, pieces, render, Piece},
    mgr,
    mgr::Chk,
    rlex::{lex, T},
    val,
};
use nanvm_lib::tokenizer::{create_transition_maps, tokenize, TokenizerState, TokenizerStateIterator};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "Random character soups over the lexical alphabet, all short texts over it, every character in several contexts, and token sequences rendered in random layouts (white space runs, block comments with runs of asterisks, line comments) with the expected tokens and new-line marks known from the generator. Non-trivial: at least two tokens, or an error mark; distinct by text.",
        assumptions: &[
            "oracle: a reference scanner over the whole text, compared up to the first error mark (what follows a malformed piece is not specified); the generated tokens and layout",
        ],
        parts: &[
            Part { name: "fixed", quick: 64, thorough: 64, run: fixed },
            Part { name: "soup", quick: 100_000, thorough: 8_000_000, run: soup },
            Part { name: "short", quick: 100_000, thorough: 4_084_101, run: short },
            Part { name: "characters", quick: 1_250, thorough: 69_632, run: characters },
            Part { name: "large", quick: 200, thorough: 8_000, run: large },
            Part { name: "layout", quick: 100_000, thorough: 4_000_000, run: layouts },
            Part { name: "equality", quick: 30_000, thorough: 1_000_000, run: equality },
            Part { name: "split", quick: 30_000, thorough: 1_000_000, run: split },
        ],
    }
}

fn show(t: &[T]) -> String {
    clip(&format!("{t:?}"), 600)
}

/// Against the reference scanner; whole against incremental.
fn verify(c: &mut Ctx, text: &str) -> CaseResult {
    let got = glue::tokens(Chk(), text);
    let want = lex(text);
    let stop = want.last() == Some(&T::Err);
    if stop {
        check!(
            got.len() >= want.len() && got[..want.len()] == want[..],
            "{text:?} gives {}, expected {} and so on",
            show(&got),
            show(&want)
        );
    } else {
        check!(got == want, "{text:?} gives {}, expected {}", show(&got), show(&want));
    }
    c.nt(want.len() > 1 || stop, text);
    c.label(if stop { "malformed" } else { "well-formed" });
    let pushed = glue::tokens_pushed(Chk(), text);
    check!(
        pushed.len() <= got.len() && pushed.len() + 1 >= got.len() && got[..pushed.len()] == pushed[..],
        "{text:?} gives {} whole but {} by characters",
        show(&got),
        show(&pushed)
    );
    mgr::verify_empty()
}

const ALPHA: [char; 46] = [
    '/', '*', '\n', ' ', '"', '\\', '0', '1', '9', '-', '.', 'e', 'E', '+', 'n', 'a', 'Z', '_', '$', '{', '}', '[', ']', ':', ',', '=', ';', '(', ')', '\r', '\t',
    'u', 'd', '8', 'D', 'f', '#', '@', '\'', '`', '\u{0}', '\u{7f}', 'é', '\u{2028}', '\u{feff}', '\u{10ffff}',
];
const WORDS: [&str; 40] = [
    "null", "true", "false", "const", "export default", "module.exports=", "import a from \"b\"", "require(\"a\")", "1", "-0", "1e5", "1.5", "12n", "-3n",
    "\"a\"", "\"\\n\"", "\"\\u0041\"", "//", "/*", "*/", "/**/", "/***/", "/*/", "// a\n", "//\r", "\n", "\r\n", "\n\n", " \n ", "00", "1.", "1e", "-", "0n", "0x1", "\"", "1/", "0/", "a/", "\\",
];

fn soup(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let words = s.coin();
    let text: String = s
        .many(0, 40, 8, |s| {
            if words && s.chance(2, 3) {
                s.pick(&WORDS).to_string()
            } else if s.chance(1, 24) {
                s.dict_string()
            } else if s.chance(1, 24) {
                layout::phrase(s)
            } else if s.chance(1, 12) {
                layout::odd(s).to_string()
            } else {
                s.pick(&ALPHA).to_string()
            }
        })
        .concat();
    // what stands first or last may be taken differently
    let text = match s.below(16) {
        0 => layout::phrase_line(s) + &text,
        1 => text + &layout::phrase_line(s),
        _ => text,
    };
    c.show(|| format!("{text:?}"));
    verify(c, &text)
}

/// Tokens are equal exactly when they are the same token.
fn equality(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const K: [&str; 22] = [
        "1", "2", "-1", "0", "-0", "1.5", "1e400", "0n", "1n", "-1n", "18446744073709551616n", "-18446744073709551616n", "\"a\"", "\"\\u0061\"", "\"\"", "a", "null", "A",
        "\n", ";", "\"1\"", "_",
    ];
    let mut texts: Vec<String> = vec![];
    for _ in 0..s.int(2, 6) {
        let t = match s.below(6) {
            0 => s.dict_string(),
            1 => gint::int(s, 4).decimal() + "n",
            2 => s.pick(&WORDS).to_string(),
            3 => s.pick(&["{", "}", "[", "]", ":", ",", "=", "(", ")", "{}", "00", "1.", "\"", "/*"]).to_string(),
            _ => s.pick(&K).to_string(),
        };
        texts.push(t);
    }
    if s.coin() {
        texts.push(texts[0].clone());
    }
    c.show(|| format!("{texts:?}"));
    let lists: Vec<_> = texts.iter().map(|t| tokenize(Chk(), t.clone())).collect();
    let tokens: Vec<_> = lists.iter().flatten().collect();
    for &x in &tokens {
        for &y in &tokens {
            let (a, b) = (token(x), token(y));
            let want = match (&a, &b) {
                (T::Num(a), T::Num(b)) => f64::from_bits(*a) == f64::from_bits(*b),
                // the kind of an error is not specified
                (T::Err, T::Err) => (x == y) == (y == x) && x == x && y == y && x == y,
                _ => a == b,
            };
            check!((x == y) == want && (x != y) != want, "{a:?} == {b:?} is {}", x == y);
        }
    }
    c.nt(tokens.len() > 1, &texts);
    drop(tokens);
    drop(lists);
    mgr::verify_empty()
}

/// All texts up to four (thorough: five) characters over 21.
fn short(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const A: [char; 21] = ['/', '*', '\n', ' ', '"', '\\', '0', '1', '-', '.', 'e', 'n', 'a', '+', '=', '{', '\r', ':', '#', ';', 'u'];
    // 21^5 texts of five characters; the sampling stride is odd and coprime to 21
    let mut i = (s.enumerate(4_084_101) as u128 * 2_654_435_761 % 4_084_101) as u64;
    let mut t = String::new();
    for _ in 0..5 {
        t.push(A[(i % 21) as usize]);
        i /= 21;
    }
    c.show(|| format!("{t:?}"));
    verify(c, &t)?;
    // shorter texts are prefixes
    let mut p = t.clone();
    p.pop();
    verify(c, &p)?;
    p.pop();
    verify(c, &p)
}

/// 16 characters in several places.
fn characters(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let i = s.enumerate(69_632);
    // the first ones in order, the rest from everywhere
    let i = if i < 1_000 { i } else { 1_000 + (i - 1_000) * 7_919 % 68_632 };
    c.show(|| format!("characters {:#x}..{:#x}", i * 16, i * 16 + 16));
    for x in (i as u32 * 16..i as u32 * 16 + 16).filter_map(char::from_u32) {
        for t in [
            format!("{x}"),
            format!("a{x}"),
            format!("a{x}b"),
            format!("{x}a"),
            format!("a {x} b"),
            format!("a{x}=1"),
            format!("{x}1"),
            format!("1{x}"),
            format!("0{x}2"),
            format!("1.5{x}"),
            format!("1e5{x}"),
            format!("1n{x}"),
            format!("-{x}"),
            format!("={x}"),
            format!("\"{x}\""),
            format!("/*{x}*/1"),
            format!("/***{x}*/1"),
            format!("//{x}\n1"),
            format!("/{x}"),
            format!("\n{x}"),
            format!("\"\\{x}\""),
        ] {
            verify(c, &t)?;
        }
    }
    Ok(())
}

fn gen_token(s: &mut Src) -> T {
    match s.weighted(&[10, 6, 6, 2, 4, 1]) {
        0 => T::Op(*s.pick(&['{', '}', '[', ']', ':', ',', '=', '.', ';', '(', ')'])),
        1 => T::Id(
            s.pick(&["a", "_", "$", "null", "true", "const", "import", "require", "n", "e1", "a1b", "A_$9", "exports", "u0041"]).to_string(),
        ),
        2 => T::Num(val::gen_num(s)),
        3 => T::Big(gint::int(s, 3)),
        4 => T::Str(val::gen_text(s, 2)),
        _ => T::Id(s.dict_id()),
    }
}

fn layouts(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let toks = s.many(0, 14, 5, gen_token);
    let avg = s.below(3);
    let lf = !s.chance(1, 4);
    let mut text = String::new();
    let mut want = vec![];
    let lead = pieces(s, lf, avg);
    render(s, &lead, &mut text);
    want.extend(vec![T::Nl; marks(&lead, !toks.is_empty())]);
    for (i, t) in toks.iter().enumerate() {
        text += &layout::token(s, t);
        want.push(t.clone());
        let mut p = pieces(s, lf, avg);
        if i + 1 < toks.len() && p.is_empty() && layout::glue(t, &toks[i + 1]) {
            p.push(Piece::Space);
        }
        render(s, &p, &mut text);
        want.extend(vec![T::Nl; marks(&p, i + 1 < toks.len())]);
    }
    c.show(|| format!("{text:?}"));
    c.label(if text.contains("/*") || text.contains("//") { "with comments" } else { "plain" });
    let reference = lex(&text);
    assert!(reference == want, "the oracles disagree on {text:?}: {} and {}", show(&reference), show(&want));
    let got = glue::tokens(Chk(), &text);
    check!(got == want, "{text:?} gives {}, expected {}", show(&got), show(&want));
    verify(c, &text)
}

/// The same text through every way of supplying it, cut anywhere.
fn split(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let text: String = s
        .many(0, 30, 6, |s| if s.coin() { s.pick(&WORDS).to_string() } else { s.pick(&ALPHA).to_string() })
        .concat();
    let n = text.chars().count();
    let cut = s.size(0, n);
    c.show(|| format!("{text:?} cut at {cut}"));
    let m = Chk();
    let whole: Vec<T> = tokenize(m, text.clone()).iter().map(token).collect();
    c.nt(whole.len() > 1, &(&text, cut));
    let (a, b): (String, String) = (text.chars().take(cut).collect(), text.chars().skip(cut).collect());
    // as a chain of two sources
    let chain: Vec<T> = TokenizerStateIterator::new(m, a.chars().chain(b.chars())).map(|t| token(&t)).collect();
    check!(chain == whole, "whole {}, in two parts {}", show(&whole), show(&chain));
    // lazily: the iterator gives what was pushed so far
    let mut it = TokenizerStateIterator::new(m, text.chars());
    let mut lazy = vec![];
    while let Some(t) = it.next() {
        lazy.push(token(&t));
    }
    check!(it.next().is_none(), "the iterator goes on after its end");
    drop(it);
    check!(lazy == whole, "whole {}, one by one {}", show(&whole), show(&lazy));
    // what was emitted for the first part is a prefix of both its tokens and the whole's
    let maps = create_transition_maps();
    let mut st = TokenizerState::default();
    let mut first = vec![];
    for x in a.chars() {
        first.extend(st.push_mut(m, x, &maps).iter().map(token));
    }
    check!(whole.starts_with(&first), "emitted {} for {a:?} but the whole gives {}", show(&first), show(&whole));
    let part = glue::tokens(m, &a);
    check!(part.starts_with(&first) && part.len() <= first.len() + 1, "{a:?} alone gives {}, emitted {}", show(&part), show(&first));
    for x in b.chars() {
        first.extend(st.push_mut(m, x, &maps).iter().map(token));
    }
    check!(whole.starts_with(&first) && whole.len() <= first.len() + 1, "whole {}, pushed {}", show(&whole), show(&first));
    drop((st, maps));
    // text up to the last line end is independent of what comes after it
    if let Some(k) = text.rfind('\n') {
        if lex(&text).last() != Some(&T::Err) && lex(&text[..k]).last() != Some(&T::Err) {
            let head = glue::tokens(m, &text[..k]);
            check!(whole.starts_with(&head), "{:?} gives {} but in front of more {}", &text[..k], show(&head), show(&whole));
        }
    }
    mgr::verify_empty()
}

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const F: [&str; 64] = [
        "", "\n", "\n\n1", "1\n\n\n2", "/**/", "/***/1", "/****/1", "/* **/1", "/*/*/1", "/*", "/**", "/***", "/* *", "//", "//a", "//\n1", "//\r1", "//\r\n1", "//a\n//b\n1",
        "1//\n", "1/**/2", "1/**/\n2", "1\n/**/2", "1\n/**/\n2", "1/*\n*/2", "a/**/b", "a//\nb", "0", "-0", "00", "01", "-", "--1", "1.", ".1", "1.e", "1.0e", "1e+", "1e-1", "0n", "-0n",
        "1.5n", "1en", "1nn", "1n2", "\"", "\"\\", "\"\\u", "\"\\u12", "\"a\nb\"", "==", "=1", "=\n", "{}[]:,=.;()", "a.b", "1.a", "1 .a", "\r\r1", "\t", "\u{feff}1", "#", "1#", "a#", "\"a\"\"b\"",
    ];
    let t = F[s.enumerate(64) as usize];
    c.show(|| format!("{t:?}"));
    verify(c, t)
}

/// Long texts of every construct, and anything after them.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(8, 16);
    let (l, mut text) = long_text(s, n);
    text.push_str(s.pick(&["", "\n", "a", "1", "\"", "n", "/", "*", "*/", "/*", "]", "-", "\\", "@"]));
    text.push_str(s.pick(&["", "1", " 1", "a", "\n", "\""]));
    c.show(|| format!("{l}: {} ({} bytes)", clip(&text, 200), text.len()));
    verify(c, &text).map_err(|e| clip(&e, 800))?;
    c.label(l);
    Ok(())
}
