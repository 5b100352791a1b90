//! C10: the conversion command.
use crate::{
    check,
    fw::*,
    glue,
    gtree::{self, Tree},
    rparse::{parse_text, strict_json, Fail, Files, Kind, World},
    rpath,
    sim::{Op, Sim},
    val::{self, V},
};
use nanvm_lib::{app::run, mem::global::GLOBAL};
use std::{
    collections::BTreeMap,
    fs,
    os::unix::{fs::PermissionsExt, process::CommandExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "Random file trees (valid, invalid, circular, unreadable, with big integers and shared parts) converted to output names of every format and to look-alike names, with no fault, each single read failing (at once or after some bytes), the write failing at creation or after some bytes, files that give and take a few bytes at a time with interruptions, over a recorded file system; and the built command itself in a scratch directory. Non-trivial: the input is valid or at least two files are read; distinct by tree, output and fault.",
        assumptions: &[
            "oracle: the reference reader's value; the text must read back (independent readers) to it and equal the serialiser's text of the library's own value",
            "the format is chosen by .json, .d.cjs and .d.mjs at the end of the output name",
            "the command runs as an unprivileged user in its scratch directory",
        ],
        parts: &[
            Part { name: "names", quick: 120_000, thorough: 3_000_000, run: names },
            Part { name: "faults", quick: 120_000, thorough: 3_000_000, run: faults },
            Part { name: "arguments", quick: 2_000, thorough: 50_000, run: arguments },
            Part { name: "command", quick: 8_000, thorough: 100_000, run: command },
        ],
    }
}

const GOOD: [(&str, Kind); 16] = [
    ("out.json", Kind::Json),
    ("out.d.cjs", Kind::Cjs),
    ("out.d.mjs", Kind::Mjs),
    (".json", Kind::Json),
    (".d.cjs", Kind::Cjs),
    (".d.mjs", Kind::Mjs),
    ("x.d.cjs.json", Kind::Json),
    ("x.json.d.cjs", Kind::Cjs),
    ("x.json.d.mjs", Kind::Mjs),
    ("x.d.mjs.d.cjs", Kind::Cjs),
    ("x.d.cjs.d.mjs", Kind::Mjs),
    ("x.d.json", Kind::Json),
    ("d/o.json", Kind::Json),
    ("a b.d.mjs", Kind::Mjs),
    ("é.json", Kind::Json),
    ("..json", Kind::Json),
];
const BAD: [&str; 24] = [
    "out", "", "json", "d.cjs", "d.mjs", "out.cjs", "out.mjs", "out.js", "out.json ", "out.json5", "out.jsonx", "out.JSON", "out.Json", "out.d.cjs.bak", "out.d.mjs.txt", "out.json.bak",
    "outputd.cjs", "outd.mjs", "out.D.cjs", "out.d.MJS", "out.d.cjs~", "out.d.js", "out.json.", "out.djson",
];

fn kind_of(name: &str) -> Option<Kind> {
    if name.ends_with(".json") {
        Some(Kind::Json)
    } else if name.ends_with(".d.cjs") {
        Some(Kind::Cjs)
    } else if name.ends_with(".d.mjs") {
        Some(Kind::Mjs)
    } else {
        None
    }
}

fn gen_output(s: &mut Src) -> String {
    if s.chance(1, 10) {
        // of the pieces that extensions are made of
        let base = s.many(1, 6, 3, |s| *s.pick(&[".", ".", ".", "d", "d", "json", "cjs", "mjs", "js", "x", "D", "JSON", "out"])).concat();
        let dir = s.pick(&["", "", "d/", "d.cjs/", ".json/", "x.json/d/", ".d.mjs/"]);
        format!("{dir}{}", if base == "." || base == ".." { "json" } else { &base })
    } else if s.chance(1, 20) {
        (if s.chance(1, 3) { crate::layout::odd_name(s) } else { s.dict_name() }) + s.pick(&["", ".json", ".js", ".mjs", ".cjs", ".d.mjs", ".d.cjs", ".txt"])
    } else if s.chance(1, 4) {
        s.pick(&BAD).to_string()
    } else {
        s.pick(&GOOD).0.to_string()
    }
}

fn gen_tree(s: &mut Src) -> Tree {
    if s.chance(1, 3) {
        // one file of anything
        let o = val::Opt { big: false, lone: false, share: false, wild_keys: true, nan: false, max: 8 };
        let v = val::gen_val(s, o);
        let text = crate::spell::json(s, &v);
        let entry = s.pick(&["in.json", "in", "d/in.json", "out.json", "x.d.mjs"]).to_string();
        let mut files = Files::new();
        files.insert(entry.clone(), Some(text));
        files.insert("other.json".into(), Some("0".into()));
        return Tree { entry, files };
    }
    let f = *s.pick(&[0, 30]);
    gtree::tree(s, f)
}

/// The expected outcome: the value and format, or a failure.
fn expected(t: &Tree, output: &str, fail_read: Option<usize>) -> (Result<(V, Kind), String>, usize) {
    let Some(k) = kind_of(output) else { return (Err("unknown extension".into()), 0) };
    let mut w = World::new(&t.files);
    w.fail_read = fail_read;
    let r = match w.entry(&t.entry) {
        Err(Fail::Syntax) => Err("invalid input".into()),
        Err(Fail::Read) => Err("unreadable input".into()),
        Err(Fail::Circular) => Err("circular input".into()),
        Ok((_, v)) if k == Kind::Json && val::has_big(&v) => Err("no JSON form".into()),
        Ok((_, v)) => Ok((v, k)),
    };
    (r, w.reads.len())
}

/// The text denotes the value in the format.
fn denotes(text: &str, v: &V, k: Kind) -> CaseResult {
    if k == Kind::Json {
        let back = strict_json(text).map_err(|e| format!("the output is not JSON: {e}: {}", clip(text, 300)))?;
        val::eq(v, &back).map_err(|e| format!("the output differs: {e}: {}", clip(text, 300)))
    } else {
        let (rk, rv) = parse_text(text).map_err(|_| format!("the output is invalid: {}", clip(text, 300)))?;
        check!(rk == k, "the output is {rk:?}: {}", clip(text, 300));
        val::iso(v, &rv).map_err(|e| format!("the output differs: {e}: {}", clip(text, 300)))
    }
}

/// The serialiser's text of the value the library reads.
fn own_text(t: &Tree, k: Kind) -> Result<String, String> {
    let r = glue::parse_file(GLOBAL, &t.sim(), &t.entry).map_err(|e| format!("the library rejects the input: {e}"))?;
    match k {
        Kind::Json => glue::json(r.any),
        _ => glue::djs(r.any, k == Kind::Cjs),
    }
}

fn too_large(t: &Tree) -> bool {
    let mut w = World::new(&t.files);
    matches!(w.entry(&t.entry), Ok((_, v)) if val::tree_size(&v, 5_001) > 5_000)
}

struct Fault {
    read: Option<usize>,
    create: bool,
    data: Option<usize>,
    read_after: Option<usize>,
    chunk: usize,
    interrupt: bool,
}
const NONE: Fault = Fault { read: None, create: false, data: None, read_after: None, chunk: 0, interrupt: false };

fn verify(c: &mut Ctx, t: &Tree, output: &str, f: Fault) -> CaseResult {
    if too_large(t) {
        c.label("too large to write out");
        return Ok(());
    }
    let (want, reads) = expected(t, output, f.read);
    let mut sim = t.sim();
    sim.args = vec!["nanvm".into(), t.entry.clone(), output.into()];
    {
        let mut st = sim.st.borrow_mut();
        st.fail_read = f.read;
        st.fail_create = f.create;
        st.fail_data = f.data;
        st.fail_read_after = f.read_after;
        st.chunk = f.chunk;
        st.interrupt = f.interrupt;
    }
    let before: BTreeMap<String, Vec<u8>> = sim.st.borrow().files.clone();
    let r = run(&sim);
    c.nt(want.is_ok() || reads >= 2, &(t.show(), output, f.read, f.create, f.data));
    let log = sim.log();
    check!(!log.iter().any(|o| matches!(o, Op::Other(_))), "something else was done: {log:?}");
    let creates = log.iter().filter(|o| matches!(o, Op::Create(_))).count();
    let key = sim.key(output);
    let mut after = sim.st.borrow().files.clone();
    let mut rest = before.clone();
    let (now, old) = (after.remove(&key), rest.remove(&key));
    check!(after == rest, "another file changed");
    match want {
        Err(why) => {
            c.label(&why);
            check!(r.is_err(), "success reported although: {why}");
            check!(creates == 0 && now == old, "the output was touched although: {why}");
        }
        Ok((v, k)) => {
            // a failing write fails only when it is reached
            let text = own_text(t, k)?;
            denotes(&text, &v, k)?;
            let faulty = f.create || f.data.is_some_and(|n| n < text.len());
            if faulty {
                c.label("failing write");
                check!(r.is_err(), "success reported although the write failed");
                return Ok(());
            }
            c.label(match k {
                Kind::Json => "to JSON",
                Kind::Cjs => "to CommonJS",
                _ => "to ES module",
            });
            check!(r.is_ok(), "failed: {}", r.unwrap_err());
            check!(creates == 1, "the output was created {creates} times");
            let at = log.iter().position(|o| matches!(o, Op::Create(_))).unwrap();
            check!(log[at] == Op::Create(output.into()), "{:?} was created instead of {output:?}", log[at]);
            check!(!log[at..].iter().any(|o| matches!(o, Op::Read(_))), "reading went on after the output was created");
            check!(now == Some(text.clone().into_bytes()), "written {:?}, expected {}", now.map(|x| String::from_utf8_lossy(&x).into_owned()), clip(&text, 300));
        }
    }
    Ok(())
}

fn names(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gen_tree(s);
    let o = if s.chance(1, 12) { t.entry.clone() } else { gen_output(s) };
    c.show(|| format!("to {o:?}\n{}", t.show()));
    verify(c, &t, &o, NONE)
}

fn faults(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gen_tree(s);
    let o = if s.chance(1, 12) { s.pick(&BAD).to_string() } else { s.pick(&GOOD).0.to_string() };
    let mut f = NONE;
    if s.chance(1, 3) {
        f.chunk = *s.pick(&[1, 2, 3, 7, 10, 100]);
        f.interrupt = s.coin();
    }
    match s.weighted(&[4, 3, 3, 2]) {
        0 => {
            let (_, reads) = expected(&t, &o, None);
            f.read = Some(s.below(reads.max(1) as u64) as usize);
            if s.chance(1, 3) {
                f.read_after = Some(*s.pick(&[0, 1, 5, 20, 1000]));
            }
        }
        1 => f.create = true,
        2 => f.data = Some(*s.pick(&[0, 1, 2, 10, 15, 20, 50])),
        _ => {}
    }
    c.show(|| format!("to {o:?}, failing: read {:?} after {:?} bytes, creation {}, after bytes {:?}, {} bytes at a time{}\n{}", f.read, f.read_after, f.create, f.data, f.chunk, if f.interrupt { ", interrupted" } else { "" }, t.show()));
    verify(c, &t, &o, f)
}

/// Missing arguments are an error, further ones are not looked at.
fn arguments(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.size(0, 5);
    let pool = ["in.json", "out.json", "other.json", "x.d.mjs", "nothing", ""];
    let mut args: Vec<String> = vec!["in.json".into(), "out.d.cjs".into()];
    args.extend((0..3).map(|_| s.pick(&pool).to_string()));
    args.truncate(n.saturating_sub(1).min(args.len()));
    let mut all = if n == 0 { vec![] } else { vec!["nanvm".to_string()] };
    all.extend(args.clone());
    c.show(|| format!("{all:?}"));
    c.nt(all.len() >= 3, &all);
    let sim = Sim {
        args: all,
        ..Default::default()
    };
    for f in ["in.json", "other.json", "x.d.mjs"] {
        sim.put(f, b"[1,2,[]]");
    }
    let before = sim.st.borrow().files.clone();
    let r = run(&sim);
    let after = sim.st.borrow().files.clone();
    if args.len() < 2 {
        c.label("too few");
        check!(r.is_err(), "success without an input and an output");
        check!(before == after && !sim.log().iter().any(|o| matches!(o, Op::Create(_))), "something was written");
    } else {
        check!(r.is_ok(), "failed: {}", r.unwrap_err());
        let mut want = before;
        want.insert("out.d.cjs".into(), b"module.exports=[1,2,[]]".to_vec());
        check!(after == want, "the files are {after:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- the built command

struct Scratch {
    root: PathBuf,
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}

const USER: u32 = 65534;

thread_local! {
    /// A directory that other users can enter, with a copy of the command.
    static ROOT: Scratch = {
        let root = std::env::temp_dir().join(format!("verif-c10-{}", std::process::id()));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(&root).unwrap();
        fs::set_permissions(&root, fs::Permissions::from_mode(0o755)).unwrap();
        let exe = std::env::var("VERIF_NANVM").expect("VERIF_NANVM names the command");
        fs::copy(&exe, root.join("nanvm")).unwrap();
        fs::set_permissions(root.join("nanvm"), fs::Permissions::from_mode(0o755)).unwrap();
        Scratch { root }
    };
}

fn own(p: &Path) {
    let _ = std::os::unix::fs::chown(p, Some(USER), Some(USER));
}

fn snapshot(d: &Path, pre: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in fs::read_dir(d).unwrap().flatten() {
        let n = format!("{pre}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            out.insert(n.clone() + "/", None);
            snapshot(&e.path(), &(n + "/"), out);
        } else {
            out.insert(n, Some(fs::read(e.path()).unwrap()));
        }
    }
}

fn command(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut t = gen_tree(s);
    t.entry = rpath::normal(&t.entry);
    let o = if s.chance(1, 8) { format!("none/{}", s.pick(&GOOD).0) } else { gen_output(s) };
    let existing = s.chance(1, 3);
    if t.files.keys().any(|k| k.starts_with('/') || k.starts_with("..") || k.contains('\0')) || too_large(&t) {
        return Ok(());
    }
    // a name cannot be both a file and a directory
    let clash = |n: &str| t.files.keys().any(|k| k.starts_with(&format!("{n}/")));
    if t.files.keys().any(|k| clash(k)) || clash(&o) || o.split('/').scan(String::new(), |p, x| {
        *p += x;
        let r = t.files.contains_key(p.as_str()) && p.len() < o.len();
        p.push('/');
        Some(r)
    }).any(|x| x) {
        return Ok(());
    }
    c.show(|| format!("to {o:?}{}\n{}", if existing { " (exists)" } else { "" }, t.show()));
    let root = ROOT.with(|r| r.root.clone());
    let top = root.join("case");
    let _ = fs::remove_dir_all(&top);
    let cwd = top.join("a/b");
    fs::create_dir_all(&cwd).unwrap();
    let _guard = Scratch { root: top.clone() };
    for (n, text) in &t.files {
        let p = cwd.join(n);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, text.as_deref().map(|x| x.as_bytes().to_vec()).unwrap_or(vec![b'"', 0xFF, b'"'])).unwrap();
        own(&p);
    }
    let out = cwd.join(&o);
    let parent_ok = !o.starts_with("none/");
    if parent_ok && !o.is_empty() {
        fs::create_dir_all(out.parent().unwrap()).unwrap();
        own(out.parent().unwrap());
        if existing && !t.files.contains_key(&o) {
            fs::write(&out, "an earlier and longer text that must go away entirely".repeat(20)).unwrap();
            own(&out);
        }
    }
    own(&cwd);
    let mut before = BTreeMap::new();
    snapshot(&top, "", &mut before);
    let mut cmd = Command::new(root.join("nanvm"));
    cmd.arg(&t.entry).arg(&o).current_dir(&cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let as_root = unsafe { geteuid() } == 0;
    if as_root {
        cmd.uid(USER).gid(USER);
    }
    let r = cmd.output().map_err(|e| e.to_string()).unwrap();
    let mut after = BTreeMap::new();
    snapshot(&top, "", &mut after);
    let key = format!("a/b/{o}");
    let now = after.remove(&key);
    let old = before.remove(&key);
    check!(after == before, "another file changed");
    check!(r.status.code().is_some(), "the command crashed: {}", r.status);
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    check!(!err.contains("panicked"), "the command panicked: {err}");
    let (want, reads) = expected(&t, &o, None);
    c.nt(want.is_ok() || reads >= 2, &(t.show(), &o));
    match want {
        Ok((v, k)) if parent_ok => {
            c.label("converted");
            let text = own_text(&t, k)?;
            denotes(&text, &v, k)?;
            check!(r.status.success(), "failed: {err}");
            check!(now == Some(Some(text.clone().into_bytes())), "the output is not {}", clip(&text, 300));
        }
        w => {
            c.label("refused");
            let why = w.err().unwrap_or("no such directory".into());
            check!(!r.status.success(), "success although: {why}");
            check!(!err.trim().is_empty(), "no error is reported although: {why}");
            check!(now == old, "the output was touched although: {why}");
        }
    }
    Ok(())
}

extern "C" {
    fn geteuid() -> u32;
}
