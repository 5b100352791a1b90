//! Random sets of files that mention each other.
use crate::{
    fw::*,
    gdoc::{self, document, id, op, Env, Style},
    layout,
    rlex::T,
    rparse::Files,
    rpath,
    sim::Sim,
};
use std::fmt::Write;

pub struct Tree {
    /// Path of the entry file, as the caller spells it.
    pub entry: String,
    /// By normalised name; `None`: unreadable content.
    pub files: Files,
}

impl Tree {
    pub fn sim(&self) -> Sim {
        let sim = Sim {
            resolve: Some(rpath::normal),
            ..Default::default()
        };
        for (n, t) in &self.files {
            match t {
                Some(t) => sim.put(n, t.as_bytes()),
                None => sim.put(n, &not_text(n)),
            }
        }
        sim
    }
    pub fn show(&self) -> String {
        let mut r = format!("entry {}", self.entry);
        for (n, t) in &self.files {
            let _ = write!(r, "\n[{n}] {}", t.as_deref().unwrap_or("(not UTF-8)"));
        }
        r
    }
}

const DIRS: [&str; 11] = ["", "d/", "d/e/", "x/", "d/x/", "/r/", "/r/d/", "/", "../u/", "../", "d/e/f/"];
const BASES: [&str; 10] = ["m0", "m1", "m2", "m3.js", "m4.json", "...", ".h", "a b", "é", "m0.d"];

/// A spelling of `target` seen from `importer`, checked to resolve to it.
pub fn mention(s: &mut Src, importer: &str, target: &str) -> String {
    let mut cands: Vec<String> = vec![];
    if target.starts_with('/') {
        cands.push(target.to_string());
    }
    let dir = match importer.rfind('/') {
        Some(i) => rpath::meaning(&importer[..=i]),
        None => rpath::meaning(""),
    };
    let t = rpath::meaning(target);
    if dir.abs == t.abs && dir.ups == t.ups {
        let common = dir.names.iter().zip(&t.names).take_while(|(a, b)| a == b).count().min(t.names.len() - 1);
        // up to the common directory, or further up when nothing is lost
        let up = dir.names.len() - common;
        cands.push(format!("{}{}", "../".repeat(up), t.names[common..].join("/")));
        cands.push(format!("{}{}", "../".repeat(dir.names.len()), t.names.join("/")));
    }
    if !dir.abs && !t.abs && dir.ups < t.ups {
        cands.push(format!("{}{}", "../".repeat(dir.names.len() + t.ups - dir.ups), t.names.join("/")));
    }
    if cands.is_empty() {
        // not reachable by any spelling: this names something else
        cands.push(target.to_string());
    }
    let base = s.pick(&cands).clone();
    noisy(s, &base)
}

/// The same path with steps that change nothing.
pub fn noisy(s: &mut Src, p: &str) -> String {
    if s.chance(1, 2) {
        return p.to_string();
    }
    let abs = p.starts_with('/');
    let mut out: Vec<String> = vec![];
    for c in p.trim_start_matches('/').split('/') {
        match s.weighted(&[5, 2, 1, 1]) {
            0 => {}
            1 => out.push(".".into()),
            2 if !out.is_empty() || abs => out.push(String::new()),
            _ => {
                out.push(if s.chance(1, 16) { s.dict_name() } else { s.pick(&["y", "d", "..."]).to_string() });
                out.push("..".into());
            }
        }
        out.push(c.to_string());
    }
    let r = format!("{}{}", if abs { "/" } else { "" }, out.join("/"));
    if rpath::normal(&r) == rpath::normal(p) {
        r
    } else {
        p.to_string()
    }
}

/// Text of a file whose mentions are among `files`.
fn content(s: &mut Src, files: Vec<String>, broken: bool) -> String {
    let style = if files.is_empty() {
        *s.pick(&[Style::Json, Style::Djs, Style::Cjs, Style::Mjs])
    } else {
        *s.pick(&[Style::Cjs, Style::Mjs])
    };
    let style = if files.is_empty() && style == Style::Cjs { Style::Djs } else { style };
    let mut toks = if !files.is_empty() && s.chance(5, 7) {
        // mentions of nearly everything
        let mut t = vec![];
        if style == Style::Mjs {
            let mut names = vec![];
            for f in &files {
                if s.chance(1, 5) {
                    continue;
                }
                let n = ["a", "b", "c", "d", "e", "f", "g", "h"][names.len() % 8];
                t.extend([id("import"), id(n), id("from"), T::Str(f.clone()), if s.coin() { T::Nl } else { op(';') }]);
                names.push(n);
            }
            t.extend([id("export"), id("default"), op('[')]);
            for n in &names {
                t.extend([id(n), op(',')]);
                if s.chance(1, 4) {
                    t.extend([op('['), id(n), op(']'), op(',')]);
                }
            }
            t.push(op(']'));
        } else {
            t.extend([id("module"), op('.'), id("exports"), op('='), op('[')]);
            for f in &files {
                if s.chance(1, 5) {
                    continue;
                }
                t.extend([id("require"), op('('), T::Str(f.clone()), op(')'), op(',')]);
                if s.chance(1, 4) {
                    t.extend([op('{'), T::Str("k".into()), op(':'), id("require"), op('('), T::Str(f.clone()), op(')'), op('}'), op(',')]);
                }
            }
            t.push(op(']'));
        }
        t
    } else {
        document(s, &Env { files: files.clone(), wrong: 0, depth: 3 }, style)
    };
    if !broken {
        return layout::text(s, &toks);
    }
    match s.below(6) {
        0..=2 => {
            gdoc::mutate(s, &mut toks, &files);
            layout::text(s, &toks)
        }
        // what a program might take for no part of the text
        3 => {
            let p = if s.coin() { layout::odd(s).to_string() } else { layout::phrase_line(s) };
            p + &layout::text(s, &toks)
        }
        4 => {
            let p = if s.coin() { layout::odd(s).to_string() } else { layout::phrase_line(s) };
            layout::text(s, &toks) + &p
        }
        _ => {
            let t = layout::text(s, &toks);
            gdoc::mutate_text(s, &t)
        }
    }
}

/// Bytes that are no text, for an unreadable file.
fn not_text(name: &str) -> Vec<u8> {
    const B: [&[u8]; 10] = [
        b"\"\xff\xfe\"",
        b"[1]\xff",
        b"\xff\xfe[\x001\x00]\x00",
        b"\xfe\xff\x00[\x001\x00]",
        b"[1]\xc3",
        b"\"\xed\xa0\x80\"",
        b"\"\xc0\x80\"",
        b"//\xe9\n[1]",
        b"[1]//\xe9",
        b"\x80",
    ];
    let h = name.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    B[(h >> 7) as usize % B.len()].to_vec()
}

/// A name that some programs would take for the other.
fn similar(s: &mut Src, p: &str) -> String {
    let cut = p.rfind('/').map_or(0, |i| i + 1);
    let (dir, base) = p.split_at(cut);
    let swap = |x: &str| -> String { x.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect() };
    let q = match s.below(14) {
        0 => format!("{dir}{}", swap(base)),
        1 => format!("{}{base}", swap(dir)),
        2 => format!("{dir}{base} "),
        3 => format!("{dir} {base}"),
        4 => format!("{dir}{base}."),
        5 => format!("{dir}{}", base.replace('é', "e\u{301}").replace('m', "%6d")),
        6 => format!("{dir}{base}{}", s.pick(&["?", "#", "?x", "#x", "\\", "\0", "~", "*", ":", ";", "\n"])),
        7 => format!("{dir}{base}{}", s.pick(&[".js", ".json", ".mjs", ".cjs", "/index.js", "/index.json", "/package.json"])),
        8 => format!("{}{base}", dir.replace('/', "\\")),
        9 => format!("{dir}\"{base}\""),
        10 => format!("{dir}{}", base.trim_end_matches(|c| c != '.').trim_end_matches('.')),
        11 => format!("{dir}{}", base.replace(['.', ' '], "")),
        12 => format!("file:{p}"),
        _ => format!("{dir}{}", base.chars().rev().collect::<String>()),
    };
    let q = rpath::normal(&q);
    // it names a file
    if matches!(q.rsplit('/').next(), None | Some("" | "..")) { p.to_string() } else { q }
}

/// Some files; `faults` of 100: chances of cycles, missing, broken and unreadable files.
pub fn tree(s: &mut Src, faults: u64) -> Tree {
    let n = s.size(1, 9);
    let mut names: Vec<String> = vec![];
    // often all relative or all absolute
    let (lo, hi) = *s.pick(&[(0, 5), (0, 11), (5, 8), (0, 11), (8, 11)]);
    while names.len() < n {
        let base = match s.weighted(&[14, 1, 1]) {
            0 => s.pick(&BASES).to_string(),
            1 => s.dict_name(),
            _ => layout::odd_name(s),
        };
        let under = if s.chance(1, 24) { s.dict_name() + "/" } else { String::new() };
        let p = rpath::normal(&format!("{}{under}{base}", s.pick(&DIRS[lo..hi])));
        let p = match names.len() {
            k if k > 0 && s.chance(1, 12) => {
                let other = names[s.below(k as u64) as usize].clone();
                similar(s, &other)
            }
            _ => p,
        };
        let p = if names.contains(&p) { format!("{p}{}", names.len()) } else { p };
        names.push(p);
    }
    let entry = noisy(s, &names[0]);
    let mut files = Files::new();
    for i in 0..n {
        let from = if i == 0 { entry.clone() } else { names[i].clone() };
        let mut mentions = vec![];
        for j in i + 1..n {
            if s.chance(3, 4) {
                let m = mention(s, &from, &names[j]);
                if rpath::resolve(&from, &m) != names[j] && !s.chance(faults, 200) {
                    // cannot be named from here
                    continue;
                }
                mentions.push(m);
                if s.chance(1, 3) {
                    mentions.push(mention(s, &from, &names[j]));
                }
            }
        }
        if s.chance(faults, 400) {
            // back to itself or an earlier one
            let j = s.below(i as u64 + 1) as usize;
            mentions.push(mention(s, &from, &names[j]));
        }
        if s.chance(faults, 400) {
            mentions.push(s.pick(&["missing", "", ".", "..", "/", "d", "../m0", "m0/"]).to_string());
        }
        let broken = s.chance(faults, 400);
        let text = content(s, mentions, broken);
        let readable = !s.chance(faults, 800);
        files.insert(names[i].clone(), if readable { Some(text) } else { None });
    }
    if s.chance(1, 3) {
        // a look-alike elsewhere that must not be read instead
        for k in 0..n {
            let base = names[k].rsplit('/').next().unwrap().to_string();
            let p = if s.coin() { format!("{}{base}", s.pick(&DIRS)) } else { similar(s, &names[k]) };
            let p = rpath::normal(&p);
            files.entry(p).or_insert(Some("\"look-alike\"".into()));
        }
    }
    Tree { entry, files }
}
