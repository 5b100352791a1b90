//! C06: any text ends in a value or an error.
use crate::{
    check,
    fw::*,
    gdoc::{self, document, Env, Style},
    glit, glong::long_text, glue, gtree, layout,
    mgr::{self, Chk},
    rlex::T,
    sim::Sim,
    val::{self, Opt},
    world::{names, sim as world},
};
use nanvm_lib::{
    app,
    js::any::Any,
    mem::{global::GLOBAL, manager::Dealloc},
};
use std::{
    os::unix::process::ExitStatusExt,
    process::{Command, Stdio},
};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "Random characters, fragments of the language, token soups, valid documents with edits and cuts, edited file trees with faults, value graphs, each tokenized (at once and in pieces), parsed, read from files, serialised in every form, converted by the command, and dropped; and long runs of every construct (digits, exponents, names, escapes, comments, declarations, members, imports, nesting, repeated doubling) at growing sizes. No panic, signal or endless loop; a value that was read can be written; memory requested is bounded by a quadratic polynomial, and requests by a linear function, of input and output length. Nesting up to 10000 levels must pass in every operation, a chain of up to 1000 modules too, and reading at any depth; a value of 100000 levels and a chain of 10000 modules overflow the stack (known findings). Non-trivial: the text has at least two characters; distinct by text.",
        assumptions: &[
            "the stack has 8 MB",
            "JSON output of a value with shared parts is as long as the value written out, so output length is counted too",
            "CPU time is limited to seconds where milliseconds are usual",
        ],
        parts: &[
            Part { name: "soup", quick: 400_000, thorough: 20_000_000, run: soup },
            Part { name: "fragments", quick: 400_000, thorough: 20_000_000, run: fragments },
            Part { name: "edits", quick: 300_000, thorough: 10_000_000, run: edits },
            Part { name: "files", quick: 60_000, thorough: 2_000_000, run: files },
            Part { name: "values", quick: 60_000, thorough: 2_000_000, run: values },
            Part { name: "literals", quick: 25_000, thorough: 8_000_000, run: literals },
            Part { name: "long", quick: 2_400, thorough: 40_000, run: long },
            Part { name: "deep", quick: 100, thorough: 1_000, run: deep },
        ],
    }
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

/// CPU seconds of this thread.
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// Memory requested by one operation stays within bounds for `n` bytes of input and output.
struct Meter(u64, u64, f64);

impl Meter {
    fn start() -> Self {
        let (a, b) = alloc_counters();
        Meter(a, b, cpu())
    }
    fn bound(&self, what: &str, n: usize) -> CaseResult {
        let (a, b) = alloc_counters();
        let (a, b, t) = (a - self.0, b - self.1, cpu() - self.2);
        let n = n as u64;
        if std::env::var("VERIF_METER").is_ok() && n > 1000 {
            println!("METER {what} n {n} allocs/n {:.2} bytes/n {:.1} bytes/n2 {:.3} cpu {t:.3}", a as f64 / n as f64, b as f64 / n as f64, b as f64 / n as f64 / n as f64);
        }
        check!(a <= 20_000 + 400 * n, "{what}: {a} memory requests for {n} bytes of text");
        check!(b <= (16 << 20) + 20_000 * n + 20 * n * n, "{what}: {b} bytes requested for {n} bytes of text");
        check!(t <= 10.0, "{what}: {t:.1} s of CPU time for {n} bytes of text");
        Ok(())
    }
}

/// Length of a value written out as a tree, up to a limit.
fn written(v: &val::V) -> bool {
    val::tree_size(v, 20_001) <= 20_000
}

/// Serialises a value in every form and drops it.
fn write_all<D: Dealloc>(a: Any<D>, n: usize) -> CaseResult {
    let v = val::read(&a);
    for common in [false, true] {
        let m = Meter::start();
        let t = glue::djs(a.clone(), common).map_err(|e| format!("a value cannot be written: {e}"))?;
        m.bound("to_djs", n + t.len())?;
    }
    if written(&v) {
        let m = Meter::start();
        match glue::json(a) {
            Ok(t) => {
                m.bound("to_json", n + t.len())?;
                check!(!val::has_big(&v), "JSON was written for a big integer");
            }
            Err(e) => check!(val::has_big(&v), "a value cannot be written as JSON: {e}"),
        }
    }
    Ok(())
}

/// Everything that can be done with a text.
fn all(s: &mut Src, c: &mut Ctx, text: &str) -> CaseResult {
    c.show(|| text.to_string());
    c.nt(text.chars().nth(1).is_some(), text);
    every(c, text, s.below(4))
}

fn every(c: &mut Ctx, text: &str, also: u64) -> CaseResult {
    let n = text.len();
    let sim = world();
    let m = Meter::start();
    let r = glue::parse_in(Chk(), &sim, text);
    m.bound("parse", n + 100)?;
    match r {
        Ok(r) => {
            c.label("accepted");
            write_all(r.any, n + 100)?;
        }
        Err(e) => {
            let _ = e.to_string();
            c.label("rejected");
        }
    }
    mgr::verify_empty()?;
    match also {
        0 => {
            let m = Meter::start();
            let t = glue::tokens_pushed(GLOBAL, text);
            m.bound("push_mut", n + 100)?;
            check!(t.len() <= 2 * n + 2, "{} tokens from {n} bytes", t.len());
        }
        1 => {
            let m = Meter::start();
            let t = glue::tokens(GLOBAL, text);
            m.bound("tokenize", n + 100)?;
            check!(t.len() <= 2 * n + 2, "{} tokens from {n} bytes", t.len());
        }
        2 => {
            // as a file
            let sim = world();
            sim.put("t", text.as_bytes());
            let r = glue::parse_file(GLOBAL, &sim, "t");
            if let Ok(r) = r {
                write_all(r.any, n + 100)?;
            }
        }
        _ => {
            // by the command
            for out in ["o.json", "o.d.cjs", "o.d.mjs"] {
                let mut sim = world();
                sim.put("t", text.as_bytes());
                if out == "o.json" {
                    if let Ok(r) = glue::parse_file(GLOBAL, &sim, "t") {
                        if !written(&val::read(&r.any)) {
                            continue;
                        }
                    }
                }
                sim.args = vec!["nanvm".into(), "t".into(), out.into()];
                let m = Meter::start();
                let r = app::run(&sim);
                let len = sim.st.borrow().files.get(out).map_or(0, |f| f.len());
                m.bound("the command", n + 100 + len)?;
                if r.is_ok() {
                    check!(len > 0, "the command succeeds without output");
                }
            }
        }
    }
    Ok(())
}

const SOUP: [char; 72] = [
    ' ', '\n', '\t', '\r', '"', '"', '"', '\\', '\\', '/', '/', '*', '*', 'b', 'f', 'n', 'r', 't', 'u', 'e', 'E', '+', '-', '-', '.', '0', '0', '1', '9', '5', '[', ']', '{', '}', '(', ')', ':', ',', '=', ';', 'a', 'A', 'd', 'D', 'F',
    'x', 'z', '_', '$', '#', '\'', '`', '!', '<', '\u{0}', '\u{7}', '\u{7F}', '\u{80}', '\u{FF}', 'é', '\u{2028}', '\u{FEFF}', '\u{D7FF}', '\u{E000}', '\u{FFFF}', '\u{1F600}', '\u{10FFFF}', '8', '7', 'c', 'n', 'n',
];

fn soup(s: &mut Src, c: &mut Ctx) -> CaseResult {
    // a few characters, so that they meet
    let k = s.size(1, 12);
    let set: Vec<char> = (0..k).map(|_| if s.chance(1, 12) { val::gen_char(s) } else { *s.pick(&SOUP) }).collect();
    let open = *s.pick(&["", "", "", "\"", "1", "-", "1e", "/*", "//", "[", "\"\\u", "1n", "a"]);
    let body = s.many(0, 60, 12, |s| *s.pick(&set));
    let text: String = open.chars().chain(body).collect();
    all(s, c, &text)
}

const PIECES: [&str; 92] = [
    "const ", "export ", "default ", "export default ", "module", ".exports", "module.exports", "module.exports=", "=", " = ", "import ", " from ", "from", "require", "require(", "(", ")", "\"m1\"", "\"m2\"", "\"bad\"",
    "\"missing\"", "import a from \"m1\"\n", "const a=require(\"m1\")\n", "const b=1\n", "const b = [1]", "a", "b", "\n", "\n", ";", ";\n", ",", ":", "[", "]", "{", "}", "[]", "{}", "{a:1}", "{\"a\":1}", "[1,2]", "1", "-1", "0",
    "1n", "-0n", "1.5", "1e5", "1e+", "1e", "1.", ".", "-", "--", "00", "01", "0x", "1e1000", "-1e1000", "1e-1000", "99999999999999999999", "null", "true", "false", "undefined", "NaN", "\"", "\\", "\"\\u", "\"\\uD800\"", "\"\\uD83D\\uDE00\"",
    "\\u0000", "/", "//", "/*", "*/", "/**/", "/* */", "//\n", "\r", "\t", " ", "é", "\u{2028}", "\u{10FFFF}", "\u{0}", "_", "$", "constx", "exportdefault", "\"t\"",
];

fn fragments(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let text = s.many(1, 40, 8, |s| if s.chance(1, 24) { s.dict_string() } else { s.pick(&PIECES).to_string() }).concat();
    all(s, c, &text)
}

fn doc(s: &mut Src) -> Vec<T> {
    let st = *s.pick(&[Style::Json, Style::Djs, Style::Cjs, Style::Mjs]);
    let mut files = names();
    if s.chance(1, 8) {
        files.extend(["bad".into(), "missing".into()]);
    }
    document(s, &Env { files, wrong: 2, depth: 5 }, st)
}

fn edits(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut toks = if s.chance(1, 3) { s.many(1, 40, 12, |s| gdoc::any_token(s, &names())) } else { doc(s) };
    for _ in 0..s.size(0, 3) {
        gdoc::mutate(s, &mut toks, &names());
    }
    let mut text = layout::text(s, &toks);
    for _ in 0..s.size(0, 3) {
        text = gdoc::mutate_text(s, &text);
    }
    if s.chance(1, 3) {
        let n = text.chars().count();
        let k = s.below(n as u64 + 1) as usize;
        text = text.chars().take(k).collect();
    }
    all(s, c, &text)
}

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = *s.pick(&[0, 30, 60]);
    let mut t = gtree::tree(s, f);
    // edits of the files themselves
    for _ in 0..s.size(0, 2) {
        let keys: Vec<String> = t.files.keys().cloned().collect();
        let k = s.pick(&keys).clone();
        if let Some(Some(x)) = t.files.get(&k).cloned() {
            let e = gdoc::mutate_text(s, &x);
            t.files.insert(k, Some(e));
        }
    }
    let fail = if s.chance(1, 3) { Some(s.below(6) as usize) } else { None };
    let data = if s.chance(1, 4) { Some(s.below(20) as usize) } else { None };
    let out = *s.pick(&["o.json", "o.d.cjs", "o.d.mjs", "o", "", "\u{1F600}.json"]);
    let entry = if s.chance(1, 6) { s.pick(&["", "/", ".", "..", "a/..", "\u{10FFFF}", "//", "./../x"]).to_string() } else { t.entry.clone() };
    c.show(|| format!("entry {entry:?} to {out:?}, failing read {fail:?}, failing write {data:?}\n{}", t.show()));
    c.nt(t.files.len() >= 2, &(t.show(), out, fail, data, &entry));
    let sim = t.sim();
    sim.st.borrow_mut().fail_read = fail;
    match glue::parse_file(Chk(), &sim, &entry) {
        Ok(r) => {
            c.label("accepted");
            let n: usize = t.files.values().flatten().map(|f| f.len()).sum();
            if !written(&val::read(&r.any)) {
                return Ok(());
            }
            write_all(r.any, n)?;
        }
        Err(e) => {
            let _ = e.to_string();
            c.label("rejected");
        }
    }
    mgr::verify_empty()?;
    let mut sim = t.sim();
    {
        let mut st = sim.st.borrow_mut();
        st.fail_read = fail;
        st.fail_data = data;
    }
    sim.args = vec!["nanvm".into(), entry.clone(), out.into()];
    if s.chance(1, 20) {
        sim.args.truncate(s.below(3) as usize);
        if sim.args.len() == 2 {
            // too few arguments are C10's subject
            return Ok(());
        }
        return Ok(());
    }
    if let Err(e) = app::run(&sim) {
        let _ = e.to_string();
    }
    Ok(())
}

fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = val::gen_val(s, Opt { big: true, lone: true, share: true, wild_keys: true, nan: true, max: 8 });
    c.show(|| val::show(&v));
    c.nt(val::nodes(&v).len() >= 2, &val::show(&v));
    if !written(&v) {
        return Ok(());
    }
    let n: usize = val::show(&v).len() + val::tree_size(&v, 20_001) as usize;
    let a = val::build(Chk(), &v);
    write_all(a, n + 100)?;
    mgr::verify_empty()
}

/// Numbers at the places where rounding, underflow and overflow are decided, big integers, and
/// what is nearly one.
fn literals(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let lits = s.many(1, 4, 1, |s| {
        let mut l = glit::any(s);
        match s.weighted(&[12, 2, 2, 1]) {
            0 => {}
            1 => l = gdoc::mutate_text(s, &l),
            2 => l = format!("{}n", l.split(['.', 'e', 'E']).next().unwrap()),
            _ => l.push_str(s.pick(&["n", "e", ".", "-", "x", "0", "e5", ".5"])),
        }
        l
    });
    let text = match s.below(4) {
        0 => lits.join(" "),
        1 => format!("[{}]", lits.join(",")),
        2 => format!("const a={}\nexport default [a,{}]", lits[0], lits.join(",\n")),
        _ => format!("{{\"a\":{}}}", lits.join(",\"b\":")),
    };
    c.show(|| clip(&text, 600));
    c.nt(text.len() >= 2, &text);
    all(s, c, &text)
}

// ---------------------------------------------------------------- long runs

fn long(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = *s.pick(&[10usize, 100, 1_000, 4_000, 12_000, 40_000]);
    if s.chance(1, 12) {
        return many_files(s, c);
    }
    let (name, mut text) = long_text(s, n);
    c.label(name);
    if s.chance(1, 6) {
        // cut
        let k = text.chars().count() - s.size(1, 3).min(text.chars().count());
        text = text.chars().take(k).collect();
    }
    c.show(|| format!("{name}: {}", clip(&text, 300)));
    c.nt(text.len() >= 2, &text);
    let also = s.below(4);
    every(c, &text, also)
}

/// Modules that mention one another in ways that multiply.
fn many_files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.label("module chains");
    let n = s.size(2, 60);
    let k = s.size(1, 4);
    let kind = s.below(3);
    let cycle = s.chance(1, 8);
    let sim = Sim::default();
    let mut total = 0;
    for i in 0..n {
        let prev = if i > 0 {
            Some(format!("m{}", i - 1))
        } else if cycle {
            Some(format!("m{}", n - 1))
        } else {
            None
        };
        let text = match prev {
            None => "[1]".to_string(),
            Some(p) => match kind {
                0 => format!("module.exports=[{}]", vec![format!("require(\"{p}\")"); k].join(",")),
                1 => {
                    let d: String = (0..k).map(|j| format!("const a{j}=require(\"{p}\")\n")).collect();
                    format!("{d}module.exports=[{}]", (0..k).map(|j| format!("a{j}")).collect::<Vec<_>>().join(","))
                }
                _ => {
                    let d: String = (0..k).map(|j| format!("import a{j} from \"{p}\"\n")).collect();
                    format!("{d}export default [{}]", (0..k).map(|j| format!("a{j}")).collect::<Vec<_>>().join(","))
                }
            },
        };
        total += text.len();
        sim.put(&format!("m{i}"), text.as_bytes());
    }
    let entry = format!("m{}", n - 1);
    c.show(|| format!("{n} modules, each mentioning the one before {k} times, way {kind}, cycle {cycle}"));
    c.nt(true, &(n, k, kind, cycle));
    let m = Meter::start();
    let r = glue::parse_file(Chk(), &sim, &entry);
    m.bound("reading modules", total)?;
    match r {
        Ok(r) => {
            for common in [false, true] {
                let m = Meter::start();
                let t = glue::djs(r.any.clone(), common)?;
                m.bound("to_djs", total + t.len())?;
            }
        }
        Err(e) => check!(cycle, "modules are rejected: {e}"),
    }
    mgr::verify_empty()
}

// ---------------------------------------------------------------- deep nesting

const SHAPES: [&str; 5] = ["[", "{", "const", "open", "modules"];
const OPS: [&str; 4] = ["read", "drop", "to_json", "to_djs"];

fn deep_text(shape: &str, d: usize) -> String {
    match shape {
        "[" => format!("{}1{}", "[".repeat(d), "]".repeat(d)),
        "{" => format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)),
        "const" => {
            let mut t = String::from("const a0=1\n");
            for i in 1..=d {
                t.push_str(&format!("const a{i}=[a{}]\n", i - 1));
            }
            t.push_str(&format!("export default a{d}"));
            t
        }
        _ => "[{\"a\":".repeat(d / 2),
    }
}

/// In a process of its own: 0 unless something is wrong.
pub fn deep_process(shape: &str, op: &str, d: usize) -> i32 {
    let m = GLOBAL;
    let r = if shape == "modules" {
        let sim = Sim::default();
        sim.put("m0", b"1");
        for i in 1..=d {
            sim.put(&format!("m{i}"), format!("module.exports=[require(\"m{}\")]", i - 1).as_bytes());
        }
        glue::parse_file(m, &sim, &format!("m{d}"))
    } else {
        glue::parse_in(m, &Sim::default(), &deep_text(shape, d))
    };
    let a = match r {
        Ok(r) => r.any,
        Err(_) => return if shape == "open" { 0 } else { 4 },
    };
    match op {
        "read" => std::mem::forget(a),
        "drop" => drop(a),
        _ => {
            std::mem::forget(a.clone());
            let t = if op == "to_json" { glue::json(a) } else { glue::djs(a, true) };
            return match t {
                Ok(t) if t.len() > d => 0,
                _ => 5,
            };
        }
    }
    0
}

fn deep(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let i = s.enumerate(100) as usize;
    let (shape, op, k) = (SHAPES[i % 5], OPS[i / 5 % 4], i / 20);
    // reading nested modules is nested too
    let d = if shape == "modules" {
        [300usize, 500, 700, 1_000, 10_000][k]
    } else {
        [1_000usize, 3_000, 10_000, 100_000, 300_000][k]
    };
    c.show(|| format!("{d} levels of {shape:?}, then {op}"));
    c.nt(true, &(shape, op, d));
    let d_s = d.to_string();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["deep", shape, op, &d_s])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| format!("cannot start: {e}"))?;
    if st.success() {
        return Ok(());
    }
    let what = format!("{d} levels of {shape:?}, then {op}: {st}");
    let known = match (shape, op) {
        ("modules", _) if d >= 10_000 => "deep-modules",
        (_, "drop") if d >= 100_000 => "deep-drop",
        (_, "to_json") if d >= 100_000 => "deep-to_json",
        (_, "to_djs") if d >= 100_000 => "deep-to_djs",
        _ => return Err(what),
    };
    // stack overflow
    if st.signal() == Some(6) {
        return c.known(known, what);
    }
    Err(what)
}
