//! Random documents of the subset as token sequences, and mutations of them.
use crate::{fw::*, gint, rlex::T, val};

pub fn id(s: &str) -> T {
    T::Id(s.into())
}
pub fn op(c: char) -> T {
    T::Op(c)
}

/// What the statements of a document may use.
pub struct Env {
    /// Specifiers that can be required or imported.
    pub files: Vec<String>,
    /// Chance (of 100) of an undefined name.
    pub wrong: u64,
    pub depth: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Json,
    Djs,
    Cjs,
    Mjs,
}

const NAMES: [&str; 16] = [
    "a", "b", "_0", "$", "x1", "null", "true", "false", "const", "import", "from", "default", "export", "module", "exports", "require",
];

pub struct Doc<'a, 'b> {
    pub s: &'a mut Src,
    pub env: &'b Env,
    pub out: Vec<T>,
    pub defined: Vec<String>,
    pub style: Style,
    budget: usize,
}

impl Doc<'_, '_> {
    fn nl(&mut self) {
        if self.s.chance(1, 12) {
            self.out.push(T::Nl);
        }
    }
    fn name(&mut self) -> String {
        if self.s.chance(1, 40) {
            return self.s.dict_id();
        }
        let n = if self.s.chance(15, 16) { 5 } else { NAMES.len() as u64 };
        NAMES[self.s.below(n) as usize].to_string()
    }
    fn key(&mut self) -> T {
        if self.style != Style::Json && self.s.coin() {
            if self.s.coin() {
                T::Id(self.name())
            } else {
                T::Id(self.s.pick(&["k", "key", "length", "A", "z9"]).to_string())
            }
        } else if self.s.chance(1, 4) {
            T::Str(val::gen_text(self.s, 2))
        } else {
            T::Str(self.s.pick(&["a", "b", "", "k", "__proto__", "10", "9"]).to_string())
        }
    }
    fn file(&mut self) -> T {
        let n = self.env.files.len() as u64;
        T::Str(self.env.files[self.s.below(n) as usize].clone())
    }
    fn leaf(&mut self) {
        let w = [6, 3, 3, 3, 2, 4, if self.style == Style::Cjs { 5 } else { 0 }];
        match self.s.weighted(&w) {
            0 => {
                let n = self.s.int(-9, 99) as f64;
                self.out.push(T::Num(n.to_bits()))
            }
            1 => {
                let t = val::gen_text(self.s, 2);
                self.out.push(T::Str(t))
            }
            2 => {
                let t = self.s.pick(&["null", "true", "false"]).to_string();
                self.out.push(T::Id(t))
            }
            3 => {
                let b = val::gen_num(self.s);
                self.out.push(T::Num(b))
            }
            4 => {
                let b = gint::int(self.s, 2);
                self.out.push(T::Big(b))
            }
            5 => {
                if self.s.chance(self.env.wrong, 100) {
                    let t = self.name();
                    self.out.push(T::Id(t));
                } else if self.defined.is_empty() {
                    self.out.push(id("null"));
                } else {
                    let t = self.s.pick(&self.defined.clone()).clone();
                    self.out.push(T::Id(t));
                }
            }
            _ => {
                self.out.push(id("require"));
                self.nl();
                self.out.push(op('('));
                self.nl();
                let f = self.file();
                self.out.push(f);
                self.nl();
                self.out.push(op(')'));
            }
        }
    }
    fn value(&mut self, depth: usize) {
        if depth == 0 || self.budget == 0 || self.s.chance(2, 5) {
            return self.leaf();
        }
        self.budget -= 1;
        let object = self.s.coin();
        let (a, b) = if object { ('{', '}') } else { ('[', ']') };
        self.out.push(op(a));
        let n = self.s.weighted(&[2, 3, 3, 2, 1]);
        for i in 0..n {
            self.nl();
            if object {
                let k = self.key();
                self.out.push(k);
                self.nl();
                self.out.push(op(':'));
                self.nl();
            }
            self.value(depth - 1);
            self.nl();
            if i + 1 < n || self.s.chance(1, 6) {
                self.out.push(op(','));
            }
        }
        self.nl();
        self.out.push(op(b));
    }
    fn end(&mut self) {
        match self.s.weighted(&[3, 3, 1, 1]) {
            0 => self.out.push(T::Nl),
            1 => self.out.push(op(';')),
            2 => {
                self.out.push(op(';'));
                self.out.push(T::Nl);
            }
            _ => {
                self.out.push(T::Nl);
                self.out.push(T::Nl);
            }
        }
    }
    fn statement(&mut self) {
        if self.style == Style::Mjs && !self.env.files.is_empty() && self.s.chance(1, 3) {
            let n = self.name();
            self.out.extend([id("import"), T::Id(n.clone()), id("from")]);
            let f = self.file();
            self.out.push(f);
            self.defined.push(n);
        } else {
            let n = self.name();
            self.out.extend([id("const"), T::Id(n.clone()), op('=')]);
            self.nl();
            self.value(self.env.depth);
            self.defined.push(n);
        }
        self.end();
    }
}

/// A document as tokens; `T::Nl` is a line end.
pub fn document(s: &mut Src, env: &Env, style: Style) -> Vec<T> {
    let mut d = Doc {
        s,
        env,
        out: vec![],
        defined: vec![],
        style,
        budget: 20,
    };
    d.nl();
    if style != Style::Json {
        let n = d.s.weighted(&[3, 4, 3, 2, 1, 1]);
        for _ in 0..n {
            // a span, so that statements can be deleted
            let b = d.s.rec.len();
            d.statement();
            let e = d.s.rec.len();
            d.s.spans.push((b, e));
        }
    }
    match style {
        Style::Cjs => {
            // the kind may also follow from a require alone
            if !d.s.chance(1, 6) {
                d.out.extend([id("module"), op('.'), id("exports"), op('=')]);
                d.nl();
            }
        }
        Style::Mjs => {
            d.out.extend([id("export"), id("default")]);
            d.nl();
        }
        _ => {}
    }
    d.value(env.depth);
    if d.s.chance(1, 4) {
        d.out.push(T::Nl);
    }
    d.out
}

/// A token that could stand anywhere.
pub fn any_token(s: &mut Src, files: &[String]) -> T {
    match s.weighted(&[24, 16, 6, 4, 4, 6, 1]) {
        0 => op(*s.pick(&['{', '}', '[', ']', ':', ',', '=', '.', ';', '(', ')'])),
        1 => id(*s.pick(&[
            "const", "import", "from", "export", "default", "module", "exports", "require", "null", "true", "false", "a", "b", "_0",
        ])),
        2 => T::Num((s.below(10) as f64).to_bits()),
        3 => T::Big(gint::int(s, 1)),
        4 => {
            if !files.is_empty() && s.coin() {
                T::Str(s.pick(files).clone())
            } else {
                T::Str(s.pick(&["a", "b", ""]).to_string())
            }
        }
        6 => T::Id(s.dict_id()),
        _ => {
            if s.chance(1, 12) {
                T::Err
            } else {
                T::Nl
            }
        }
    }
}

pub fn mutate(s: &mut Src, t: &mut Vec<T>, files: &[String]) {
    let n = t.len();
    let at = |s: &mut Src, n: usize| s.below(n.max(1) as u64) as usize;
    match s.below(8) {
        7 if n > 0 => {
            // with quotes or without them
            let k: Vec<usize> = (0..n).filter(|&i| matches!(&t[i], T::Str(_) | T::Id(_))).collect();
            if !k.is_empty() {
                let i = *s.pick(&k);
                t[i] = match &t[i] {
                    T::Id(x) => T::Str(x.clone()),
                    T::Str(x) if x.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || c == '$') && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$') => T::Id(x.clone()),
                    _ => T::Id(s.dict_id()),
                };
            }
        }
        0 if n > 0 => {
            t.remove(at(s, n));
        }
        1 => {
            let i = at(s, n + 1);
            let x = any_token(s, files);
            t.insert(i, x);
        }
        2 if n > 0 => {
            let i = at(s, n);
            t[i] = any_token(s, files);
        }
        3 if n > 0 => {
            let i = at(s, n);
            t.insert(i, t[i].clone());
        }
        4 if n > 1 => {
            let i = at(s, n - 1);
            t.swap(i, i + 1);
        }
        5 if n > 0 => {
            let k = at(s, n);
            t.truncate(k);
        }
        _ => {
            // a piece moved elsewhere
            if n > 1 {
                let i = at(s, n);
                let k = s.size(1, (n - i).min(6));
                let piece: Vec<T> = t.drain(i..i + k).collect();
                let j = at(s, t.len() + 1);
                for (d, x) in piece.into_iter().enumerate() {
                    t.insert(j + d, x);
                }
            }
        }
    }
}

/// One edit of the text itself.
pub fn mutate_text(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    const X: [char; 34] = [
        ' ', '\n', ',', ':', ';', '=', '.', '"', '\\', '[', ']', '{', '}', '(', ')', '/', '*', '0', '1', '-', 'e', 'n', 'a', '_', '\r', '\t', '#', 'é', '\u{0}', '+', 'E', 'u', '$', '\'',
    ];
    for _ in 0..s.size(1, 2) {
        let n = c.len() as u64;
        match s.below(4) {
            0 if n > 0 => {
                c.remove(s.below(n) as usize);
            }
            1 if n > 0 => {
                let i = s.below(n) as usize;
                c[i] = if s.chance(1, 5) { crate::layout::odd(s) } else { *s.pick(&X) };
            }
            2 if n > 1 => {
                let i = s.below(n - 1) as usize;
                c.swap(i, i + 1);
            }
            _ => {
                let i = s.below(n + 1) as usize;
                let x = if s.chance(1, 5) { crate::layout::odd(s) } else { *s.pick(&X) };
                c.insert(i, x);
            }
        }
    }
    c.into_iter().collect()
}
