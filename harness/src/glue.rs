//! Calls into the library.
use crate::{
    check,
    fw::*,
    rint::RInt,
    rlex::T,
    rparse::{Fail, Kind},
    sim::Sim,
    val::{self, Val, V},
};
use nanvm_lib::{
    js::{any::Any, js_bigint::Sign},
    mem::manager::{Dealloc, Manager},
    parser::{
        parser::{parse, parse_with_tokens, Context},
        shared::{DataType, ModuleCache, ParseError, ParseResult},
    },
    serializer::{
        to_djs::{to_djs, WriteDjs},
        to_json::{to_json, WriteJson},
    },
    tokenizer::{create_transition_maps, tokenize, JsonToken, TokenizerState},
};
use std::rc::Rc;

pub fn kind(d: &DataType) -> Kind {
    match d {
        DataType::Json => Kind::Json,
        DataType::Djs => Kind::Djs,
        DataType::Cjs => Kind::Cjs,
        DataType::Mjs => Kind::Mjs,
    }
}

pub fn fail(e: &ParseError) -> Fail {
    match e {
        ParseError::CannotReadFile => Fail::Read,
        ParseError::CircularDependency => Fail::Circular,
        _ => Fail::Syntax,
    }
}

/// Tokenizes and parses a text without files.
pub fn parse_any<M: Manager + 'static>(m: M, text: &str) -> Result<ParseResult<M::Dealloc>, ParseError> {
    parse_in(m, &Sim::default(), text)
}

/// The same with the files of `io`.
pub fn parse_in<M: Manager + 'static>(m: M, io: &Sim, text: &str) -> Result<ParseResult<M::Dealloc>, ParseError> {
    let mut cache = ModuleCache::default();
    let tokens = tokenize(m, text.to_string());
    let mut ctx = Context::new(m, io, String::new(), &mut cache);
    parse_with_tokens(&mut ctx, tokens.into_iter())
}

/// Parses a file of `io` with a fresh cache.
pub fn parse_file<M: Manager + 'static>(m: M, io: &Sim, path: &str) -> Result<ParseResult<M::Dealloc>, ParseError> {
    let mut cache = ModuleCache::default();
    let mut ctx = Context::new(m, io, path.to_string(), &mut cache);
    parse(&mut ctx)
}

/// Kind and value of a text.
pub fn parse_model<M: Manager + 'static>(m: M, text: &str) -> Result<(Kind, V), Fail> {
    match parse_any(m, text) {
        Ok(r) => Ok((kind(&r.data_type), val::read(&r.any))),
        Err(e) => Err(fail(&e)),
    }
}

pub fn json<D: Dealloc>(a: Any<D>) -> Result<String, String> {
    to_json(a).map_err(|e| e.to_string())
}
pub fn djs<D: Dealloc>(a: Any<D>, common: bool) -> Result<String, String> {
    to_djs(a, common).map_err(|e| e.to_string())
}

/// A writer that already holds something and fails when its room is used up.
pub struct Limited {
    pub text: String,
    pub room: usize,
    /// whether nothing is taken after a failure
    pub sticky: bool,
    pub failed: bool,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.sticky && self.failed || s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.text += s;
        Ok(())
    }
}

/// Writes the value, whose text is known, to a writer with less, exactly enough or more room.
/// `common`: the kind of module, or JSON.
pub fn write_limited<D: Dealloc>(s: &mut Src, a: Any<D>, common: Option<bool>, t: &str) -> CaseResult {
    let n = t.len();
    let room = match s.below(4) {
        0 => n - s.below(n.min(8) as u64 + 1) as usize,
        1 => n + s.below(2) as usize,
        _ => s.below(n as u64 + 1) as usize,
    };
    let before = if s.coin() { "[1,{" } else { "" };
    let mut w = Limited { text: before.into(), room, sticky: s.coin(), failed: false };
    let r = match common {
        None => w.write_json(a),
        Some(c) => w.write_djs(a, c),
    };
    let (got, fits) = (&w.text[before.len()..], room >= n);
    check!(r.is_ok() == fits, "writing {n} bytes to a writer with room for {room}: {r:?}");
    check!(w.failed != fits, "the writer with room for {room} of {n} bytes failed: {}", w.failed);
    check!(t.starts_with(got) && (!fits || got == t), "room for {room} of {n} bytes got {}", clip(got, 300));
    Ok(())
}

/// The library's token in the reference form.
pub fn token<D: Dealloc>(t: &JsonToken<D>) -> T {
    match t {
        JsonToken::String(s) => T::Str(s.clone()),
        JsonToken::Number(f) => T::Num(f.to_bits()),
        JsonToken::BigInt(b) => T::Big(RInt {
            neg: b.sign() == Sign::Negative,
            mag: {
                let mut m: Vec<u32> = b.items().iter().flat_map(|&x| [x as u32, (x >> 32) as u32]).collect();
                if b.items().last() != Some(&0) && m.last() == Some(&0) {
                    m.pop();
                }
                m
            },
        }),
        JsonToken::Id(s) => T::Id(s.clone()),
        JsonToken::ObjectBegin => T::Op('{'),
        JsonToken::ObjectEnd => T::Op('}'),
        JsonToken::ArrayBegin => T::Op('['),
        JsonToken::ArrayEnd => T::Op(']'),
        JsonToken::Colon => T::Op(':'),
        JsonToken::Comma => T::Op(','),
        JsonToken::Equals => T::Op('='),
        JsonToken::Dot => T::Op('.'),
        JsonToken::Semicolon => T::Op(';'),
        JsonToken::OpeningParenthesis => T::Op('('),
        JsonToken::ClosingParenthesis => T::Op(')'),
        JsonToken::NewLine => T::Nl,
        JsonToken::ErrorToken(_) => T::Err,
    }
}

pub fn tokens<M: Manager + 'static>(m: M, text: &str) -> Vec<T> {
    tokenize(m, text.to_string()).iter().map(token).collect()
}

/// Tokens of the text pushed one character at a time; what is pending at the end is not included.
pub fn tokens_pushed<M: Manager + 'static>(m: M, text: &str) -> Vec<T> {
    let maps = create_transition_maps::<M>();
    let mut st = TokenizerState::<M::Dealloc>::default();
    let mut r = vec![];
    for c in text.chars() {
        r.extend(st.push_mut(m, c, &maps).iter().map(token));
    }
    r
}

/// A decimal big integer literal is read as this integer and written back as the same text.
pub fn bigint_numeral(text: &str, want: &RInt) -> CaseResult {
    let m = crate::mgr::Chk();
    let r = parse_any(m, text).map_err(|e| format!("{} is rejected: {e}", clip(text, 100)))?;
    let v = val::read(&r.any);
    val::iso(&Rc::new(Val::Big(want.clone())), &v)?;
    let out = djs(r.any, false)?;
    let exp = format!("export default {}n", want.decimal());
    if out != exp {
        return Err(format!("written as {}, expected {}", clip(&out, 200), clip(&exp, 200)));
    }
    Ok(())
}

/// What the incremental reader makes of a text.
pub enum Stepped<D: Dealloc> {
    Done(ParseResult<D>),
    Failed(Fail),
    /// It mentions a `require`, which this reader leaves to others.
    Require,
}

/// Reads a text token by token with the incremental reader, which reports the imports and is given
/// the modules.
pub fn parse_steps<M: Manager + 'static>(
    m: M,
    files: &crate::rparse::Files,
    path: &str,
    text: &str,
    complete: &mut std::collections::BTreeMap<String, Any<M::Dealloc>>,
) -> Stepped<M::Dealloc> {
    use nanvm_lib::parser::{
        any_state::AnyState,
        json_state::JsonState,
        root_state::{RootState, RootStatus},
    };
    let tokens = tokenize(m, text.to_string());
    if tokens.iter().any(|t| matches!(t, JsonToken::Id(s) if s == "require")) {
        return Stepped::Require;
    }
    let mut st = JsonState::ParseRoot(RootState {
        status: RootStatus::Initial,
        state: AnyState::default(),
        new_line: true,
    });
    for t in tokens {
        let (next, import) = st.push(m, t);
        st = next;
        let Some((id, module)) = import else { continue };
        let name = crate::rpath::resolve(path, &module);
        let value = match complete.get(&name) {
            Some(v) => v.clone(),
            None => {
                let Some(Some(t)) = files.get(&name) else { return Stepped::Failed(Fail::Read) };
                match parse_steps(m, files, &name, t, complete) {
                    Stepped::Done(r) => {
                        complete.insert(name, r.any.clone());
                        r.any
                    }
                    x => return x,
                }
            }
        };
        match &mut st {
            JsonState::ParseRoot(r) => {
                r.state.consts.insert(id, value);
            }
            _ => return Stepped::Failed(Fail::Circular),
        }
    }
    match st.end() {
        Ok(r) => Stepped::Done(r),
        Err(e) => Stepped::Failed(fail(&e)),
    }
}
