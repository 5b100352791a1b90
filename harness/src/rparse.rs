//! Reference reader of the data-only JavaScript subset: recursive descent over the reference
//! tokens, loading mentioned files from a model file system.
use crate::{
    rint::RInt,
    rlex::{lex, T},
    rpath,
    val::{self, arr, null, obj, text, Val, V},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Json,
    Djs,
    Cjs,
    Mjs,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fail {
    Syntax,
    Read,
    Circular,
}

/// Content of a file by normalised name; `None` (or a missing name) cannot be read.
pub type Files = BTreeMap<String, Option<String>>;

pub struct World<'a> {
    pub files: &'a Files,
    pub complete: BTreeMap<String, V>,
    pub progress: BTreeSet<String>,
    /// Names in the order they are read, normalised.
    pub reads: Vec<String>,
    /// Read number n fails.
    pub fail_read: Option<usize>,
    /// The file that fails.
    pub failed: Option<String>,
}

impl<'a> World<'a> {
    pub fn new(files: &'a Files) -> Self {
        World {
            files,
            complete: BTreeMap::new(),
            progress: BTreeSet::new(),
            reads: vec![],
            fail_read: None,
            failed: None,
        }
    }
    fn read(&mut self, name: &str) -> Result<&'a str, Fail> {
        let n = self.reads.len();
        self.reads.push(name.to_string());
        if self.fail_read == Some(n) {
            return Err(Fail::Read);
        }
        match self.files.get(name) {
            Some(Some(t)) => Ok(t),
            _ => Err(Fail::Read),
        }
    }
    pub fn entry(&mut self, path: &str) -> Result<(Kind, V), Fail> {
        let name = rpath::normal(path);
        self.progress.insert(name.clone());
        let r = self.read(&name).and_then(|text| self.text(text, path));
        if r.is_err() && self.failed.is_none() {
            self.failed = Some(name);
        }
        r
    }
    pub fn text(&mut self, text: &str, path: &str) -> Result<(Kind, V), Fail> {
        Reader {
            t: lex(text),
            i: 0,
            kind: Kind::Json,
            consts: BTreeMap::new(),
            path: path.to_string(),
            w: self,
        }
        .file()
    }
    fn load(&mut self, from: &str, mention: &str) -> Result<V, Fail> {
        let name = rpath::resolve(from, mention);
        if let Some(v) = self.complete.get(&name) {
            return Ok(v.clone());
        }
        if !self.progress.insert(name.clone()) {
            return Err(Fail::Circular);
        }
        let r = self.read(&name).and_then(|text| self.text(text, &name));
        if r.is_err() && self.failed.is_none() {
            self.failed = Some(name.clone());
        }
        let (_, v) = r?;
        self.progress.remove(&name);
        self.complete.insert(name, v.clone());
        Ok(v)
    }
}

struct Reader<'w, 'a> {
    t: Vec<T>,
    i: usize,
    kind: Kind,
    consts: BTreeMap<String, V>,
    path: String,
    w: &'w mut World<'a>,
}

type R<X> = Result<X, Fail>;
const BAD: Fail = Fail::Syntax;

impl Reader<'_, '_> {
    /// Next token, new lines included.
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or(BAD)?;
        self.i += 1;
        Ok(t)
    }
    /// Next token, new lines skipped.
    fn solid(&mut self) -> R<T> {
        loop {
            match self.next()? {
                T::Nl => {}
                t => return Ok(t),
            }
        }
    }
    fn want(&mut self, t: T) -> R<()> {
        if self.next()? == t {
            Ok(())
        } else {
            Err(BAD)
        }
    }
    fn name(&mut self) -> R<String> {
        match self.next()? {
            T::Id(s) => Ok(s),
            _ => Err(BAD),
        }
    }

    fn file(mut self) -> R<(Kind, V)> {
        use Kind::*;
        // at the start of a line or after a semicolon
        let mut fresh = true;
        let v = loop {
            let t = self.next()?;
            if t == T::Nl {
                fresh = true;
                continue;
            }
            if !fresh {
                if t == T::Op(';') {
                    fresh = true;
                    continue;
                }
                return Err(BAD);
            }
            if let T::Id(id) = &t {
                match id.as_str() {
                    "const" => {
                        if self.kind == Json {
                            self.kind = Djs;
                        }
                        let name = self.name()?;
                        self.want(T::Op('='))?;
                        let first = self.solid()?;
                        let v = self.value(first)?;
                        self.consts.insert(name, v);
                        fresh = false;
                        continue;
                    }
                    "import" if self.kind != Cjs => {
                        self.kind = Mjs;
                        let name = self.name()?;
                        self.want(T::Id("from".into()))?;
                        let T::Str(m) = self.next()? else { return Err(BAD) };
                        let v = self.w.load(&self.path, &m)?;
                        self.consts.insert(name, v);
                        fresh = false;
                        continue;
                    }
                    "export" if self.kind != Cjs => {
                        self.kind = Mjs;
                        self.want(T::Id("default".into()))?;
                        let first = self.solid()?;
                        break self.value(first)?;
                    }
                    "module" if self.kind != Mjs => {
                        self.kind = Cjs;
                        self.want(T::Op('.'))?;
                        self.want(T::Id("exports".into()))?;
                        self.want(T::Op('='))?;
                        let first = self.solid()?;
                        break self.value(first)?;
                    }
                    _ => {}
                }
            }
            break self.value(t)?;
        };
        if self.t[self.i..].iter().any(|t| *t != T::Nl) {
            return Err(BAD);
        }
        Ok((self.kind, v))
    }

    fn value(&mut self, t: T) -> R<V> {
        match t {
            T::Num(b) => Ok(Rc::new(Val::Num(b))),
            T::Str(s) => Ok(text(&s)),
            T::Big(i) => Ok(Rc::new(Val::Big(i))),
            T::Op('[') => {
                let mut items = vec![];
                loop {
                    let t = self.solid()?;
                    if t == T::Op(']') {
                        return Ok(arr(items));
                    }
                    items.push(self.value(t)?);
                    match self.solid()? {
                        T::Op(',') => {}
                        T::Op(']') => return Ok(arr(items)),
                        _ => return Err(BAD),
                    }
                }
            }
            T::Op('{') => {
                let mut m = vec![];
                loop {
                    let key = match self.solid()? {
                        T::Op('}') => break,
                        T::Str(s) => s,
                        T::Id(s) if self.kind != Kind::Json => s,
                        _ => return Err(BAD),
                    };
                    if self.solid()? != T::Op(':') {
                        return Err(BAD);
                    }
                    let t = self.solid()?;
                    let v = self.value(t)?;
                    m.push((val::utf16(&key), v));
                    match self.solid()? {
                        T::Op(',') => {}
                        T::Op('}') => break,
                        _ => return Err(BAD),
                    }
                }
                Ok(obj(val::canonical_members(m)))
            }
            T::Id(s) if s == "require" && self.kind != Kind::Mjs => {
                self.kind = Kind::Cjs;
                if self.solid()? != T::Op('(') {
                    return Err(BAD);
                }
                let T::Str(m) = self.solid()? else { return Err(BAD) };
                let v = self.w.load(&self.path, &m)?;
                if self.solid()? != T::Op(')') {
                    return Err(BAD);
                }
                Ok(v)
            }
            T::Id(s) => match s.as_str() {
                "null" => Ok(null()),
                "true" => Ok(Rc::new(Val::Bool(true))),
                "false" => Ok(Rc::new(Val::Bool(false))),
                _ => self.consts.get(&s).cloned().ok_or(BAD),
            },
            _ => Err(BAD),
        }
    }
}

/// A text without files.
pub fn parse_text(t: &str) -> Result<(Kind, V), Fail> {
    World::new(&Files::new()).text(t, "")
}

/// An independent reader of strict JSON (RFC 8259), numbers by the standard library.
pub fn strict_json(t: &str) -> Result<V, String> {
    let c: Vec<char> = t.chars().collect();
    let mut p = Strict { c, i: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.c.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

struct Strict {
    c: Vec<char>,
    i: usize,
}

impl Strict {
    fn ws(&mut self) {
        while matches!(self.c.get(self.i), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, x: char) -> bool {
        let y = self.c.get(self.i) == Some(&x);
        self.i += y as usize;
        y
    }
    fn word(&mut self, w: &str) -> bool {
        let w: Vec<char> = w.chars().collect();
        let y = self.c[self.i..].starts_with(&w);
        if y {
            self.i += w.len();
        }
        y
    }
    fn string(&mut self) -> Result<Vec<u16>, String> {
        if !self.eat('"') {
            return Err(format!("string expected at {}", self.i));
        }
        let mut r = vec![];
        loop {
            let x = *self.c.get(self.i).ok_or("unclosed string")?;
            self.i += 1;
            match x {
                '"' => return Ok(r),
                '\\' => {
                    let e = *self.c.get(self.i).ok_or("unclosed string")?;
                    self.i += 1;
                    r.push(match e {
                        '"' | '\\' | '/' => e as u16,
                        'b' => 8,
                        'f' => 12,
                        'n' => 10,
                        'r' => 13,
                        't' => 9,
                        'u' => {
                            let h: String = self.c.get(self.i..self.i + 4).ok_or("short escape")?.iter().collect();
                            if !h.chars().all(|x| x.is_ascii_hexdigit()) {
                                return Err(format!("bad escape {h}"));
                            }
                            self.i += 4;
                            u16::from_str_radix(&h, 16).unwrap()
                        }
                        _ => return Err(format!("bad escape {e}")),
                    });
                }
                x if (x as u32) < 0x20 => return Err("control character in a string".into()),
                x => r.extend(x.encode_utf16(&mut [0; 2]).iter()),
            }
        }
    }
    fn value(&mut self) -> Result<V, String> {
        match self.c.get(self.i).copied() {
            Some('n') if self.word("null") => Ok(null()),
            Some('t') if self.word("true") => Ok(Rc::new(Val::Bool(true))),
            Some('f') if self.word("false") => Ok(Rc::new(Val::Bool(false))),
            Some('"') => Ok(Rc::new(Val::Str(self.string()?))),
            Some('-' | '0'..='9') => {
                let (k, big) = crate::rlex::number(&self.c[self.i..]).ok_or("bad number")?;
                if big {
                    return Err("a big integer".into());
                }
                let s: String = self.c[self.i..self.i + k].iter().collect();
                self.i += k;
                Ok(Rc::new(Val::Num(s.parse::<f64>().unwrap().to_bits())))
            }
            Some('[') => {
                self.i += 1;
                let mut items = vec![];
                self.ws();
                if self.eat(']') {
                    return Ok(arr(items));
                }
                loop {
                    self.ws();
                    items.push(self.value()?);
                    self.ws();
                    if self.eat(']') {
                        return Ok(arr(items));
                    }
                    if !self.eat(',') {
                        return Err(format!("',' expected at {}", self.i));
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut m = vec![];
                self.ws();
                if self.eat('}') {
                    return Ok(obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(':') {
                        return Err(format!("':' expected at {}", self.i));
                    }
                    self.ws();
                    let v = self.value()?;
                    m.push((k, v));
                    self.ws();
                    if self.eat('}') {
                        return Ok(obj(m));
                    }
                    if !self.eat(',') {
                        return Err(format!("',' expected at {}", self.i));
                    }
                }
            }
            _ => Err(format!("value expected at {}", self.i)),
        }
    }
}

/// Text of a big integer literal for use in messages.
pub fn big_text(i: &RInt) -> String {
    format!("{}n", i.decimal())
}
