//! C08: modules.
use crate::{
    check,
    fw::*,
    glue,
    gtree::{self, Tree},
    mgr,
    mgr::Chk,
    rparse::{Fail, Files, World},
    rpath,
    sim::Sim,
    val,
};
use nanvm_lib::parser::{
    parser::{parse, Context},
    shared::{ModuleCache, ParseError, ParseResult},
};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "Random sets of up to seven files in several directories (relative, absolute, above), each mentioning others by random spellings of their paths, as CommonJS and ES modules, with look-alikes elsewhere; cycles of any length, missing, broken and unreadable files; each single read failing, at once or after some bytes, from files that give a few bytes at a time; layered graphs with exponentially many import paths. Non-trivial: at least two files read; distinct by tree.",
        assumptions: &[
            "oracle: a reference reader that resolves by the meaning of paths and loads depth first, left to right",
            "a file is identified by its lexically normalised path; every run has a fresh cache",
        ],
        parts: &[
            Part { name: "trees", quick: 120_000, thorough: 4_000_000, run: trees },
            Part { name: "faults", quick: 120_000, thorough: 4_000_000, run: faults },
            Part { name: "failing read", quick: 30_000, thorough: 1_000_000, run: failing },
            Part { name: "sessions", quick: 60_000, thorough: 2_000_000, run: sessions },
            Part { name: "cycles", quick: 20_000, thorough: 500_000, run: cycles },
            Part { name: "large", quick: 300, thorough: 8_000, run: large },
            Part { name: "layers", quick: 600, thorough: 20_000, run: layers },
        ],
    }
}

/// Everything that can be reached by mentions, textually.
fn verify(c: &mut Ctx, t: &Tree, fail_read: Option<usize>) -> CaseResult {
    verify_slow(c, t, fail_read, None, 0)
}

fn verify_slow(c: &mut Ctx, t: &Tree, fail_read: Option<usize>, after: Option<usize>, chunk: usize) -> CaseResult {
    let mut w = World::new(&t.files);
    w.fail_read = fail_read;
    let want = w.entry(&t.entry);
    let sim = t.sim();
    {
        let mut st = sim.st.borrow_mut();
        st.fail_read = fail_read;
        st.fail_read_after = after;
        st.chunk = chunk;
        st.interrupt = chunk % 2 == 1;
    }
    let got = glue::parse_file(Chk(), &sim, &t.entry);
    let reads: Vec<String> = sim.reads().iter().map(|p| rpath::normal(p)).collect();
    let distinct: BTreeSet<&String> = reads.iter().collect();
    c.nt(w.reads.len() >= 2, &(&t.show(), fail_read));
    check!(sim.log().iter().all(|o| matches!(o, crate::sim::Op::Read(_))), "something other than reading happened: {:?}", sim.log());
    check!(distinct.len() == reads.len(), "a file is read more than once: {reads:?}");
    match (&want, &got) {
        (Ok((k, v)), Ok(r)) => {
            c.label(&format!("{} files", w.reads.len().min(8)));
            check!(glue::kind(&r.data_type) == *k, "read as {:?} instead of {k:?}", glue::kind(&r.data_type));
            val::iso(v, &val::read(&r.any))?;
            let a: BTreeSet<&String> = w.reads.iter().collect();
            check!(a == distinct, "the files read are {reads:?}, expected {:?}", w.reads);
        }
        (Err(f), Err(e)) => {
            c.label(match f {
                Fail::Syntax => "invalid",
                Fail::Read => "unreadable",
                Fail::Circular => "circular",
            });
            check!(glue::fail(e) == *f, "the error is {e}, expected {f:?} (read {reads:?})");
            let all: BTreeSet<&String> = w.reads.iter().collect();
            check!(distinct.is_subset(&all), "read {reads:?}, of which only {:?} are due", w.reads);
        }
        (Ok(_), Err(e)) => return Err(format!("fails with {e}, files read {reads:?}")),
        (Err(f), Ok(r)) => return Err(format!("expected {f:?} but got {}", clip(&val::show(&val::read(&r.any)), 300))),
    }
    drop(got);
    mgr::verify_empty()
}

fn trees(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gtree::tree(s, 0);
    c.show(|| t.show());
    verify(c, &t, None)
}

fn faults(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gtree::tree(s, 30);
    c.show(|| t.show());
    verify(c, &t, None)
}

fn failing(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gtree::tree(s, 0);
    let mut w = World::new(&t.files);
    let _ = w.entry(&t.entry);
    let n = w.reads.len();
    let k = s.below(n.max(1) as u64) as usize;
    let after = if s.chance(1, 3) { Some(*s.pick(&[0, 1, 5, 20, 1000])) } else { None };
    let chunk = *s.pick(&[0, 0, 0, 1, 2, 5]);
    let fails = !s.chance(1, 8);
    c.show(|| format!("read {k} {} after {after:?} bytes, {chunk} bytes at a time\n{}", if fails { "fails" } else { "does not fail" }, t.show()));
    verify_slow(c, &t, if fails { Some(k) } else { None }, after, chunk)
}

/// Several files parsed one after another with one cache, or one file again and again in one
/// context; what fails is put right in between, at times.
fn sessions(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gtree::tree(s, 25);
    let sim = t.sim();
    let mut cache = ModuleCache::default();
    if s.chance(1, 4) {
        c.label("one context");
        let mut context = Context::new(Chk(), &sim, t.entry.clone(), &mut cache);
        session(s, c, t, &sim, true, &mut |_| parse(&mut context))?;
    } else {
        session(s, c, t, &sim, false, &mut |entry| parse(&mut Context::new(Chk(), &sim, entry.into(), &mut cache)))?;
    }
    drop(cache);
    mgr::verify_empty()
}

type Parsed = Result<ParseResult<Chk>, ParseError>;

fn session(s: &mut Src, c: &mut Ctx, mut t: Tree, sim: &Sim, same: bool, read: &mut dyn FnMut(&str) -> Parsed) -> CaseResult {
    let mut shown = t.show();
    let mut complete = BTreeMap::new();
    // loaded as part of something that failed later
    let mut unsure: BTreeSet<String> = BTreeSet::new();
    let mut entries: BTreeSet<String> = BTreeSet::new();
    let names: Vec<String> = t.files.keys().cloned().collect();
    let steps = s.size(2, 6);
    let mut failures = 0;
    for i in 0..steps {
        let entry = if i == 0 || same || s.chance(1, 4) { t.entry.clone() } else { let n = s.pick(&names).clone(); gtree::noisy(s, &n) };
        let fail_read = if s.chance(1, 8) { Some(s.below(4) as usize) } else { None };
        let mut whole = World::new(&t.files);
        let _ = whole.entry(&entry);
        let before: BTreeMap<String, val::V> = complete.clone();
        let mut w = World::new(&t.files);
        w.complete = std::mem::take(&mut complete);
        let want = w.entry(&entry);
        // a read that fails is one that is certainly due
        let fail_read = fail_read.filter(|&k| k < w.reads.len() && unsure.is_empty() && entries.is_empty());
        let (mut w, want) = match fail_read {
            None => (w, want),
            Some(_) => {
                let mut x = World::new(&t.files);
                x.fail_read = fail_read;
                // nothing of the first reading is kept
                x.complete = before;
                let want = x.entry(&entry);
                (x, want)
            }
        };
        shown += &format!("\n-- {entry}{}", fail_read.map(|k| format!(", read {k} fails")).unwrap_or_default());
        c.show(|| shown.clone());
        {
            let mut st = sim.st.borrow_mut();
            st.log.clear();
            st.reads = 0;
            st.fail_read = fail_read;
        }
        let got = read(&entry);
        let reads: Vec<String> = sim.reads().iter().map(|p| rpath::normal(p)).collect();
        let distinct: BTreeSet<&String> = reads.iter().collect();
        check!(distinct.len() == reads.len(), "{entry}: a file is read more than once: {reads:?}");
        match (&want, &got) {
            (Ok((k, v)), Ok(r)) => {
                check!(glue::kind(&r.data_type) == *k, "{entry} is read as {:?} instead of {k:?}", glue::kind(&r.data_type));
                val::iso(v, &val::read(&r.any)).map_err(|e| format!("{entry}: {e}"))?;
                let open = |n: &String| unsure.contains(n) || entries.contains(n);
                for n in &w.reads {
                    check!(open(n) || distinct.contains(n), "{entry}: the file {n} is not read");
                }
                let due: BTreeSet<&String> = w.reads.iter().collect();
                for n in &distinct {
                    check!(due.contains(n) || open(n), "{entry}: the file {n} is read again");
                }
                unsure.retain(|n| !w.complete.contains_key(n) || !whole.reads.contains(n));
                entries.insert(rpath::normal(&entry));
            }
            (Err(f), Err(e)) => {
                failures += 1;
                check!(glue::fail(e) == *f, "{entry}: the error is {e}, expected {f:?} (read {reads:?})");
                unsure.extend(w.reads.iter().cloned());
            }
            (Ok(_), Err(e)) => return Err(format!("{entry}: fails with {e}, files read {reads:?}")),
            (Err(f), Ok(r)) => return Err(format!("{entry}: expected {f:?} but got {}", clip(&val::show(&val::read(&r.any)), 300))),
        }
        drop(got);
        let failed = w.failed.take();
        complete = std::mem::take(&mut w.complete);
        if let Some(n) = failed {
            if t.files.contains_key(&n) && !entries.contains(&n) && s.chance(2, 3) {
                let text = s.pick(&["[]", "{\"a\":[1]}", "export default [[]]", "module.exports={}"]).to_string();
                shown += &format!("\n-- {n} becomes {text}");
                sim.put(&n, text.as_bytes());
                t.files.insert(n, Some(text));
            }
        }
    }
    c.label(&format!("{steps} files parsed"));
    c.label(&format!("{failures} of the files fail"));
    c.nt(steps >= 3 && names.len() >= 2, &(same, &shown));
    Ok(())
}

/// A chain closed into a cycle at some point, or left open.
fn cycles(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.size(1, 12);
    let dirs = ["", "d/", "d/e/", "x/"];
    let names: Vec<String> = (0..n).map(|i| format!("{}f{i}", s.pick(&dirs))).collect();
    let entry = gtree::noisy(s, &names[0]);
    let close = if s.chance(1, 5) { None } else { Some(s.below(n as u64) as usize) };
    let mut files = Files::new();
    for i in 0..n {
        let from = if i == 0 { entry.clone() } else { names[i].clone() };
        let next = if i + 1 < n {
            Some(gtree::mention(s, &from, &names[i + 1]))
        } else {
            close.map(|j| gtree::mention(s, &from, &names[j]))
        };
        let text = match next {
            None => "[]".to_string(),
            Some(m) => match s.below(5) {
                0 => format!("import a from \"{m}\"\nexport default [a,a]"),
                1 => format!("module.exports=[require(\"{m}\")]"),
                2 => format!("const a=require(\"{m}\");module.exports={{\"k\":a,\"l\":a}}"),
                3 => format!("module.exports={{\"k\":[1,{{\"z\":require(\"{m}\")}}]}}"),
                _ => format!("const x=1;import a from \"{m}\";export default {{a:a,x:x}}"),
            },
        };
        files.insert(names[i].clone(), Some(text));
    }
    let t = Tree { entry, files };
    c.show(|| t.show());
    verify(c, &t, None)
}

/// Layers of files each mentioning all of the next layer.
fn layers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let depth = s.size(1, 16);
    let width = s.size(1, 4);
    let mut files = Files::new();
    let name = |l: usize, i: usize| format!("l{l}/f{i}");
    for l in 0..depth {
        for i in 0..width {
            let from = name(l, i);
            let mut text = String::new();
            if l + 1 == depth {
                text = format!("[{i}]");
            } else if s.coin() {
                for j in 0..width {
                    text += &format!("import a{j} from \"{}\"\n", gtree::mention(s, &from, &name(l + 1, j)));
                }
                text += &format!("export default [{}]", (0..width).map(|j| format!("a{j}")).collect::<Vec<_>>().join(","));
            } else {
                let parts: Vec<String> = (0..width).map(|j| format!("require(\"{}\")", gtree::mention(s, &from, &name(l + 1, j)))).collect();
                text = format!("module.exports=[{}]", parts.join(","));
            }
            files.insert(from, Some(text));
        }
    }
    let t = Tree { entry: name(0, 0), files };
    c.show(|| format!("{depth} layers of {width}"));
    verify(c, &t, None)
}

/// Very many files: long chains, one file mentioning many, one file mentioned very often.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let kind = s.enumerate(4);
    let mut files = Files::new();
    let es = s.coin();
    let module = |m: &[String]| -> String {
        if es {
            let d: String = m.iter().enumerate().map(|(i, p)| format!("import a{i} from \"{p}\"\n")).collect();
            format!("{d}export default [{}]", (0..m.len()).map(|i| format!("a{i}")).collect::<Vec<_>>().join(","))
        } else {
            format!("module.exports=[{}]", m.iter().map(|p| format!("require(\"{p}\")")).collect::<Vec<_>>().join(","))
        }
    };
    let n;
    let what = match kind {
        0 => {
            n = s.large(5, 9).min(400);
            let close = if s.coin() { Some(s.below(n as u64) as usize) } else { None };
            for i in 0..n {
                let next = if i + 1 < n { Some(i + 1) } else { close };
                let t = match next {
                    Some(j) => module(&[gtree::mention(s, &format!("d/f{i}"), &format!("d/f{j}"))]),
                    None => "[]".into(),
                };
                files.insert(format!("d/f{i}"), Some(t));
            }
            "a chain"
        }
        1 => {
            n = s.large(6, 10);
            let names: Vec<String> = (0..n).map(|i| format!("d/e{}/f{i}", i % 3)).collect();
            let mentions: Vec<String> = names.iter().map(|x| gtree::mention(s, "d/f0", x)).collect();
            files.insert("d/f0".into(), Some(module(&mentions)));
            for (i, x) in names.into_iter().enumerate() {
                files.insert(x, Some(format!("[{i}]")));
            }
            "a wide one"
        }
        2 => {
            n = s.large(6, 12);
            let mentions: Vec<String> = (0..n).map(|_| gtree::mention(s, "d/f0", "d/x/f1")).collect();
            files.insert("d/f0".into(), Some(module(&mentions)));
            files.insert("d/x/f1".into(), Some("{\"a\":[1]}".into()));
            "one file very often"
        }
        _ => {
            // each mentions some of the later ones
            n = s.large(5, 8);
            for i in 0..n {
                let far = s.size(1, 40);
                let to: Vec<usize> = (0..3).map(|_| i + 1 + s.size(0, far)).filter(|&j| j < n).collect();
                let m: Vec<String> = to
                    .into_iter()
                    .map(|j| gtree::mention(s, &format!("d/f{i}"), &format!("d/f{j}")))
                    .collect();
                files.insert(format!("d/f{i}"), Some(if m.is_empty() { format!("[{i}]") } else { module(&m) }));
            }
            "a graph"
        }
    };
    let t = Tree { entry: "d/f0".into(), files };
    c.show(|| format!("{what} of {n} files, {}: {}", if es { "ES" } else { "CommonJS" }, clip(&t.show(), 400)));
    verify(c, &t, None).map_err(|e| clip(&e, 800))
}
