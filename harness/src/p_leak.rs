//! C16: nothing leaks, nothing freed is touched.
use crate::{
    check,
    fw::*,
    gdoc::{self, document, Env, Style},
    glong::long_text,
    glue, gtree, layout,
    mgr::{self, Chk, ChkAtomic},
    rparse::World,
    sim::Sim,
    val::{self, Opt},
    world::{names, sim as world},
};
use nanvm_lib::{
    app,
    js::{
        any::Any,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
    },
    parser::{
        parser::{parse, Context},
        shared::ModuleCache,
    },
    tokenizer::{create_transition_maps, tokenize, TokenizerState},
};
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "Valid documents of every kind, the same with token and character edits or cut anywhere, token soups, file trees with every kind of failure, single failing reads and caches kept across runs, value graphs, interrupted tokenizing, and requests for memory that are refused at any point; parsed, taken apart, serialised in every form and dropped in random order over an instrumented memory manager. After each step the live blocks must be exactly those reachable from what is held, freed memory stays poisoned, and the contents are read back. Non-trivial: at least two blocks were requested; distinct by text, tree or graph.",
        assumptions: &[
            "nesting is bounded (at most some dozens of levels)",
            "the command is observed through the global allocator",
        ],
        parts: &[
            Part { name: "documents", quick: 120_000, thorough: 3_000_000, run: documents },
            Part { name: "broken", quick: 200_000, thorough: 5_000_000, run: broken },
            Part { name: "large", quick: 120, thorough: 4_000, run: large },
            Part { name: "cuts", quick: 6_000, thorough: 200_000, run: cuts },
            Part { name: "trees", quick: 60_000, thorough: 1_500_000, run: trees },
            Part { name: "no-memory", quick: 20_000, thorough: 600_000, run: no_memory },
            Part { name: "values", quick: 60_000, thorough: 1_500_000, run: values },
            Part { name: "tokens", quick: 100_000, thorough: 2_000_000, run: tokens },
            Part { name: "command", quick: 30_000, thorough: 600_000, run: command },
        ],
    }
}

fn addr<T>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

/// Addresses of all objects reachable from a value.
fn reach<D: Dealloc>(a: &Any<D>, out: &mut HashSet<usize>) {
    match to_visitor(a.clone()) {
        Visitor::String(r) => {
            out.insert(addr(&*r));
        }
        Visitor::Bigint(r) => {
            out.insert(addr(&*r));
        }
        Visitor::Array(r) => {
            if out.insert(addr(&*r)) {
                r.items().iter().for_each(|x| reach(x, out));
            }
        }
        Visitor::Object(r) => {
            if out.insert(addr(&*r)) {
                for (k, x) in r.items() {
                    out.insert(addr(&**k));
                    reach(x, out);
                }
            }
        }
        _ => {}
    }
}

/// The live blocks are exactly those reachable from `held`.
fn exact<D: Dealloc>(held: &[Any<D>], when: &str) -> CaseResult {
    let mut r = HashSet::new();
    held.iter().for_each(|a| reach(a, &mut r));
    check!(mgr::live() == r.len(), "{when}: {} blocks are live of which {} are reachable", mgr::live(), r.len());
    mgr::verify().map_err(|e| format!("{when}: {e}"))
}

/// Handles to some parts of a value.
fn parts<D: Dealloc>(s: &mut Src, a: &Any<D>, out: &mut Vec<Any<D>>) {
    let mut all = vec![a.clone()];
    let mut i = 0;
    let mut seen = HashSet::new();
    while i < all.len() && all.len() < 60 {
        let x = all[i].clone();
        if seen.insert(hash_of(&x)) {
            let _: Result<(), ()> = x.for_each(|k, v| {
                all.push(k);
                all.push(v.clone());
                Ok(())
            });
        }
        i += 1;
    }
    for _ in 0..s.size(0, 3) {
        out.push(s.pick(&all).clone());
    }
}

/// Uses a value in every way and drops it.
fn consume<D: Dealloc>(s: &mut Src, a: Any<D>) -> CaseResult {
    let mut held = vec![a];
    exact(&held, "after reading")?;
    let before = val::read(&held[0]);
    // writing
    for k in 0..3 {
        if !s.chance(2, 3) {
            continue;
        }
        let x = held[0].clone();
        let small = k > 0 || val::tree_size(&before, 3001) <= 3000;
        if small {
            let _ = match k {
                0 => glue::json(x),
                1 => glue::djs(x, true),
                _ => glue::djs(x, false),
            };
        }
        exact(&held, "after writing")?;
    }
    val::iso(&before, &val::read(&held[0]))?;
    // only some parts stay
    if s.coin() {
        let root = held.pop().unwrap();
        parts(s, &root, &mut held);
        let models: Vec<_> = held.iter().map(val::read).collect();
        drop(root);
        exact(&held, "after dropping all but some parts")?;
        while !held.is_empty() {
            for (a, m) in held.iter().zip(&models) {
                val::iso(m, &val::read(a))?;
            }
            let last = held.pop();
            if s.coin() {
                // written at the end of its life
                let _ = glue::djs(last.unwrap(), s.coin());
            } else {
                drop(last);
            }
            exact(&held, "after dropping a part")?;
        }
    } else if s.coin() {
        let _ = glue::djs(held.pop().unwrap(), s.coin());
    } else if val::tree_size(&before, 3001) <= 3000 {
        let _ = glue::json(held.pop().unwrap());
    }
    drop(held);
    mgr::verify_empty()
}

fn run_text<M: Manager + 'static>(s: &mut Src, c: &mut Ctx, m: M, text: &str) -> CaseResult {
    let sim = world();
    c.show(|| text.to_string());
    let r = glue::parse_in(m, &sim, text);
    c.nt(mgr::served() >= 2, text);
    match r {
        Ok(r) => {
            c.label("accepted");
            consume(s, r.any)
        }
        Err(_) => {
            c.label("rejected");
            mgr::verify_empty().map_err(|e| format!("after a rejection: {e}"))
        }
    }
}

fn doc(s: &mut Src) -> Vec<crate::rlex::T> {
    let st = *s.pick(&[Style::Json, Style::Djs, Style::Cjs, Style::Mjs]);
    let mut files = names();
    if s.chance(1, 8) {
        files.push("bad".into());
        files.push("missing".into());
    }
    document(s, &Env { files, wrong: 1, depth: 4 }, st)
}

fn documents(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let toks = doc(s);
    let text = layout::text(s, &toks);
    if s.chance(1, 3) {
        run_text(s, c, ChkAtomic(), &text)
    } else {
        run_text(s, c, Chk(), &text)
    }
}

fn broken(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut toks = doc(s);
    let kind = s.below(3);
    if kind < 2 {
        for _ in 0..s.size(1, 3) {
            gdoc::mutate(s, &mut toks, &names());
        }
    }
    let mut text = layout::text(s, &toks);
    if kind > 0 {
        text = gdoc::mutate_text(s, &text);
    }
    run_text(s, c, Chk(), &text)
}

/// A document cut after every character.
fn cuts(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let toks = doc(s);
    let text: String = layout::text(s, &toks).chars().take(120).collect();
    c.show(|| format!("every start of {text}"));
    c.nt(text.len() >= 4, &text);
    let sim = world();
    let mut at = 0;
    for (i, ch) in text.char_indices() {
        at = i + ch.len_utf8();
        let r = glue::parse_in(Chk(), &sim, &text[..at]);
        drop(r);
        mgr::verify_empty().map_err(|e| format!("after {:?}: {e}", &text[..at]))?;
        mgr::reset();
    }
    let _ = at;
    Ok(())
}

fn trees(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = *s.pick(&[0, 30]);
    let t = gtree::tree(s, f);
    let mut w = World::new(&t.files);
    let _ = w.entry(&t.entry);
    let fail = if s.chance(1, 3) { Some(s.below(w.reads.len().max(1) as u64) as usize) } else { None };
    c.show(|| format!("failing read {fail:?}\n{}", t.show()));
    let sim = t.sim();
    sim.st.borrow_mut().fail_read = fail;
    // the cache keeps what it holds until it goes
    let mut cache = ModuleCache::default();
    let m = Chk();
    let r = {
        let mut ctx = Context::new(m, &sim, t.entry.clone(), &mut cache);
        parse(&mut ctx)
    };
    c.nt(mgr::served() >= 2 && w.reads.len() >= 2, &(t.show(), fail));
    mgr::verify()?;
    if s.coin() {
        drop(cache);
        match r {
            Ok(r) => {
                c.label("accepted");
                consume(s, r.any)
            }
            Err(_) => {
                c.label("rejected");
                mgr::verify_empty()
            }
        }
    } else {
        // the cache outlives the result
        c.label("cache kept");
        drop(r);
        mgr::verify()?;
        drop(cache);
        mgr::verify_empty()
    }
}

/// The manager refuses a request: what is held already stays complete, and nothing is returned
/// twice or used after it was returned.
fn no_memory(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gtree::tree(s, 0);
    let sim = t.sim();
    let mut cache = ModuleCache::default();
    let m = Chk();
    let mut run = |s: &mut Src, use_cache: bool| {
        let mut other = ModuleCache::default();
        let r = {
            let mut ctx = Context::new(m, &sim, t.entry.clone(), if use_cache { &mut cache } else { &mut other });
            parse(&mut ctx)
        };
        r.ok().map(|r| {
            let a = r.any;
            let _ = match s.below(3) {
                0 if val::tree_size(&val::read(&a), 3001) <= 3000 => glue::json(a.clone()),
                k => glue::djs(a.clone(), k == 1),
            };
            a
        })
    };
    // a value from before
    let held = run(s, false);
    let model = held.as_ref().map(val::read);
    let start = mgr::served();
    drop(run(s, false));
    let n = mgr::served() - start;
    let at = s.below(n + 1);
    let use_cache = s.coin();
    c.show(|| format!("{at} of {n} requests are served\n{}", t.show()));
    c.nt(n >= 2 && at < n, &(at, t.show()));
    c.label(if use_cache { "a cache stays" } else { "nothing stays" });
    let held_blocks = held.as_ref().map(|a| {
        let mut r = HashSet::new();
        reach(a, &mut r);
        r.len()
    });
    let live = mgr::live();
    check!(live == held_blocks.unwrap_or(0), "{live} blocks are live, {held_blocks:?} reachable");
    mgr::serve_only(Some(at));
    let r = guarded(|| drop(run(s, use_cache)));
    mgr::serve_only(None);
    // as many as before are enough
    check!(r.is_ok() || at < n, "{at} of {n} requests: {r:?}");
    mgr::verify()?;
    // what came before is as it was, and what the cache holds can go
    if let (Some(a), Some(v)) = (&held, &model) {
        val::iso(v, &val::read(a))?;
    }
    drop(run(s, false));
    drop(cache);
    if let (Some(a), Some(v)) = (&held, &model) {
        val::iso(v, &val::read(a))?;
    }
    drop(held);
    // what a construction that was given up had is not asked about
    mgr::verify()
}

fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = val::gen_val(s, Opt { big: true, lone: true, share: true, wild_keys: true, nan: true, max: 8 });
    c.show(|| val::show(&v));
    let a = val::build(Chk(), &v);
    c.nt(mgr::served() >= 2, &val::show(&v));
    consume(s, a)
}

fn tokens(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let toks = match s.below(3) {
        0 => doc(s),
        _ => s.many(1, 30, 8, |s| if s.chance(1, 3) { crate::rlex::T::Big(crate::gint::int(s, 3)) } else { gdoc::any_token(s, &[]) }),
    };
    let mut text = layout::text(s, &toks);
    if s.coin() {
        text = gdoc::mutate_text(s, &text);
    }
    c.show(|| text.clone());
    if s.coin() {
        let t = tokenize(Chk(), text.clone());
        c.nt(t.len() >= 2, &text);
        mgr::verify()?;
        drop(t);
        return mgr::verify_empty();
    }
    // interrupted anywhere
    let n = s.below(text.chars().count() as u64 + 1) as usize;
    let maps = create_transition_maps::<Chk>();
    let mut st = TokenizerState::<Chk>::default();
    let mut all = vec![];
    for ch in text.chars().take(n) {
        let mut t = st.push_mut(Chk(), ch, &maps);
        if s.coin() {
            all.append(&mut t);
        }
    }
    c.nt(n >= 2, &(&text, n));
    mgr::verify()?;
    if s.coin() {
        drop(st);
        drop(all);
    } else {
        drop(all);
        drop(st);
    }
    drop(maps);
    mgr::verify_empty()
}

/// The command itself, through the global allocator.
fn command(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = *s.pick(&[0, 30]);
    let t = gtree::tree(s, f);
    let out = *s.pick(&["out.json", "out.d.cjs", "out.d.mjs", "out.txt"]);
    let mut w = World::new(&t.files);
    if let Ok((_, v)) = w.entry(&t.entry) {
        if val::tree_size(&v, 3001) > 3000 {
            return Ok(());
        }
    }
    let fail = if s.chance(1, 4) { Some(s.below(w.reads.len().max(1) as u64) as usize) } else { None };
    let fault = s.below(4);
    c.show(|| format!("to {out}, failing read {fail:?}, fault {fault}\n{}", t.show()));
    c.nt(w.reads.len() >= 2, &(t.show(), out, fail, fault));
    let once = || {
        let mut sim = t.sim();
        sim.args = vec!["nanvm".into(), t.entry.clone(), out.into()];
        {
            let mut st = sim.st.borrow_mut();
            st.fail_read = fail;
            st.fail_create = fault == 1;
            st.fail_data = if fault == 2 { Some(3) } else { None };
        }
        let r = app::run(&sim);
        r.is_ok()
    };
    let bad = bad_releases();
    let a = once();
    let before = live_bytes();
    let b = once();
    let left = live_bytes() as isize - before as isize;
    check!(a == b, "the same run succeeds once and fails once");
    check!(left == 0, "{left} bytes are left by a run");
    check!(bad_releases() == bad, "memory was returned twice, or as another block");
    // the library with the global manager
    let once = || glue::parse_file(GLOBAL, &Sim { ..t.sim() }, &t.entry).is_ok();
    once();
    let before = live_bytes();
    once();
    let left = live_bytes() as isize - before as isize;
    check!(left == 0, "{left} bytes are left by reading");
    Ok(())
}

/// Long texts of every construct, whole and cut.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(8, 14);
    let (l, mut text) = long_text(s, n);
    if s.chance(1, 3) {
        let mut k = s.size(text.len() / 2, text.len());
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        text.truncate(k);
    }
    c.label(l);
    run_text(s, c, Chk(), &text).map_err(|e| clip(&e, 800))
}
