//! Orchestration: `check ID` (parent of 8 shard processes), `shard ...` (one worker),
//! `replay FILE`, `case ...` (a single case, used to shrink crashes and hangs).

use crate::fw::*;
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write as _,
    os::unix::fs::FileExt,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

const SHARDS: u64 = 8;
/// CPU seconds one case may take; ordinary cases take milliseconds.
const HANG_CPU_S: f64 = 30.0;
const WALL_LIMIT_S: u64 = 820;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn find(id: &str) -> Option<Prop> {
    crate::props().into_iter().find(|p| p.id == id)
}

/// Signatures listed (as open findings) for a property.
fn listed(id: &str) -> Vec<String> {
    let t = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let mut w = l.split_whitespace();
            if w.next()? != "finding:" {
                return None;
            }
            if w.next()?.strip_prefix("property=")? != id {
                return None;
            }
            Some(w.next()?.strip_prefix("signature=")?.to_string())
        })
        .collect()
}

pub fn main(a: &[String]) -> i32 {
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s.as_slice() {
        ["check", id] => check(id),
        ["shard", id, tier, seed, shard, dir] => {
            on_stack(|| shard_main(id, tier, seed.parse().unwrap(), shard.parse().unwrap(), dir))
        }
        ["replay", file] => on_stack(|| replay(file)),
        ["case", id, part, file] => on_stack(|| single(id, part, file)),
        ["logged", id, part, index, seed, file] => on_stack(|| {
            logged(id, part, index.parse().unwrap(), seed.parse().unwrap(), file)
        }),
        #[cfg(feature = "c06")]
        ["deep", shape, op, depth] => on_stack(|| crate::p_robust::deep_process(shape, op, depth.parse().unwrap())),
        #[cfg(feature = "c19")]
        ["exhaust", manager, kind, len] => {
            on_stack(|| crate::p_flex::exhaust_process(manager, kind, len.parse().unwrap()))
        }
        ["list"] => {
            for p in crate::props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE");
            2
        }
    }
}

/// Runs on a thread with the usual main-thread stack size.
fn on_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    install_panic_hook();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or(3)
    })
}

fn case_rng(seed: u64, id: &str, part: &str, index: u64) -> Rng {
    Rng::new(&[seed, hash_of(id), hash_of(part), index])
}

// ---------------------------------------------------------------- one shard

fn shard_main(id: &str, tier: &str, seed: u64, shard: u64, dir: &str) -> i32 {
    let prop = find(id).unwrap();
    let dir = Path::new(dir);
    let progress = fs::File::create(dir.join(format!("progress{shard}"))).unwrap();
    let known = listed(id);
    let mut evals = 0u64;
    let mut keys: Vec<u64> = Vec::new();
    let mut seen = BTreeSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut findings: Vec<(String, String)> = Vec::new();
    let mut failure: Option<(usize, u64, Vec<u64>, String, String)> = None;
    let only = std::env::var("VERIF_PART").ok();
    'parts: for (pi, part) in prop.parts.iter().enumerate() {
        if only.as_ref().is_some_and(|o| o != part.name) {
            continue;
        }
        let mut total = if tier == "thorough" { part.thorough } else { part.quick };
        if let Ok(s) = std::env::var("VERIF_CASES") {
            total = s.parse().unwrap();
        }
        if let Ok(s) = std::env::var("VERIF_SCALE") {
            // a fraction of every part's cases, for trying out changes
            total = ((total as f64 * s.parse::<f64>().unwrap()) as u64).max(SHARDS);
        }
        let mut sampled = 0;
        let mut i = shard;
        while i < total {
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(pi as u64).to_le_bytes());
            buf[8..].copy_from_slice(&i.to_le_bytes());
            progress.write_all_at(&buf, 0).unwrap();
            let mut src = Src::random(case_rng(seed, id, part.name, i), i);
            let want = shard == 0 && sampled < 3 && i >= shard + SHARDS;
            let mut ctx = Ctx {
                listed: known.clone(),
                want_text: want,
                ..Default::default()
            };
            let r = run_case(part, &mut src, &mut ctx);
            evals += 1;
            for (k, v) in std::mem::take(&mut ctx.labels) {
                *labels.entry(format!("{}: {}", part.name, k)).or_insert(0) += v;
            }
            if let Some(k) = ctx.nontrivial {
                if seen.insert(k ^ mix(pi as u64)) {
                    keys.push(k ^ mix(pi as u64));
                }
                if let (true, Some(t)) = (want, &ctx.text) {
                    samples.push(format!("{}: {}", part.name, clip(t, 600)));
                    sampled += 1;
                }
            }
            for k in ctx.known {
                if !findings.iter().any(|f| f.0 == k.0) {
                    findings.push(k);
                }
            }
            if let Err(msg) = r {
                // kept in case shrinking kills the process
                let c: Vec<String> = src.rec.iter().map(|x| x.to_string()).collect();
                let first = format!("{pi} {i}\n{}\n{msg}", c.join(" "));
                fs::write(dir.join(format!("first{shard}")), first).unwrap();
                let (choices, msg, text) = shrink(part, &known, src.rec, src.spans, msg, &progress);
                failure = Some((pi, i, choices, msg, text));
                break 'parts;
            }
            i += SHARDS;
        }
    }
    let mut out = String::new();
    let line = |out: &mut String, k: &str, v: &str| {
        out.push_str(k);
        out.push('\t');
        out.push_str(&v.replace('\\', "\\\\").replace('\n', "\\n"));
        out.push('\n');
    };
    line(&mut out, "evals", &evals.to_string());
    for (k, v) in &labels {
        line(&mut out, "label", &format!("{v} {k}"));
    }
    for s in &samples {
        line(&mut out, "sample", s);
    }
    for (k, v) in &findings {
        line(&mut out, "known", &format!("{k} {v}"));
    }
    if let Some((pi, i, c, msg, text)) = failure {
        line(&mut out, "fail", &format!("{pi} {i}"));
        line(
            &mut out,
            "choices",
            &c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        );
        line(&mut out, "message", &msg);
        line(&mut out, "text", &text);
    }
    line(&mut out, "done", "1");
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for k in keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    fs::write(dir.join(format!("keys{shard}")), kb).unwrap();
    fs::write(dir.join(format!("result{shard}")), out).unwrap();
    0
}

fn describe(part: &Part, known: &[String], choices: &[u64]) -> (CaseResult, String) {
    let mut src = Src::replay(choices.to_vec());
    let mut ctx = Ctx {
        listed: known.to_vec(),
        want_text: true,
        verbose: true,
        ..Default::default()
    };
    let r = run_case(part, &mut src, &mut ctx);
    (r, ctx.text.unwrap_or_default())
}

fn shrink(
    part: &Part,
    known: &[String],
    rec: Vec<u64>,
    spans: Vec<(usize, usize)>,
    msg: String,
    progress: &fs::File,
) -> (Vec<u64>, String, String) {
    let mut tick = 1u64 << 62;
    let mut fails = |c: &[u64]| {
        // shrinking is progress too (the parent watches for stalls)
        tick += 1;
        let _ = progress.write_all_at(&tick.to_le_bytes(), 8);
        let mut src = Src::replay(c.to_vec());
        let mut ctx = Ctx {
            listed: known.to_vec(),
            ..Default::default()
        };
        match run_case(part, &mut src, &mut ctx) {
            Ok(()) => None,
            Err(_) => Some((src.rec, src.spans)),
        }
    };
    let mut s = Shrinker {
        fails: &mut fails,
        best: rec,
        spans,
        budget: 20_000,
        deadline: Instant::now() + Duration::from_secs(20),
    };
    s.run();
    let best = s.best;
    let (r, text) = describe(part, known, &best);
    let msg = match r {
        Err(m) => m,
        Ok(()) => msg,
    };
    (best, msg, text)
}

// ---------------------------------------------------------------- replay

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn write_replay(prop: &str, part: &str, choices: &[u64], msg: &str, text: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{:016x}.json", hash_of(&(part, choices))));
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"part\": {},\n \"message\": {},\n \"case\": {},\n \"choices\": [{}]\n}}\n",
        json_str(prop),
        json_str(part),
        json_str(msg),
        json_str(text),
        c.join(",")
    );
    fs::write(&path, body).unwrap();
    path
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let p = t.find(&format!("\"{k}\": \""))? + k.len() + 5;
    let e = t[p..].find('"')? + p;
    Some(&t[p..e])
}

fn read_replay(file: &str) -> Option<(String, String, Vec<u64>)> {
    let t = fs::read_to_string(file).ok()?;
    let id = field(&t, "property")?.to_string();
    let part = field(&t, "part")?.to_string();
    let b = t.rfind("\"choices\": [")? + 12;
    let e = t[b..].find(']')? + b;
    let c = t[b..e].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    Some((id, part, c))
}

fn replay(file: &str) -> i32 {
    let Some((id, part, choices)) = read_replay(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Some(prop) = find(&id) else { return 2 };
    let Some(p) = prop.parts.iter().find(|p| p.name == part) else { return 2 };
    let (r, text) = describe(p, &listed(&id), &choices);
    println!("case: {text}");
    match r {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

/// One case from a choice file; used by the parent to shrink crashes. Exit 0 ok, 1 fails.
fn single(id: &str, part: &str, file: &str) -> i32 {
    let prop = find(id).unwrap();
    let p = prop.parts.iter().find(|p| p.name == part).unwrap();
    let c: Vec<u64> = fs::read_to_string(file)
        .unwrap()
        .split_whitespace()
        .map(|s| s.parse().unwrap())
        .collect();
    let mut src = Src::replay(c);
    let mut ctx = Ctx {
        listed: listed(id),
        want_text: true,
        sink: Some(PathBuf::from(format!("{file}.text"))),
        ..Default::default()
    };
    match run_case(p, &mut src, &mut ctx) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

/// A case by index with every choice logged before it is used (the case kills the process).
fn logged(id: &str, part: &str, index: u64, seed: u64, file: &str) -> i32 {
    let prop = find(id).unwrap();
    let p = prop.parts.iter().find(|p| p.name == part).unwrap();
    let mut src = Src::random(case_rng(seed, id, part, index), index);
    src.log = Some(fs::File::create(file).unwrap());
    let mut ctx = Ctx {
        listed: listed(id),
        ..Default::default()
    };
    match run_case(p, &mut src, &mut ctx) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

// ---------------------------------------------------------------- parent

fn cpu_seconds(pid: u32) -> f64 {
    let t = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let t = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = t.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn read_progress(p: &Path) -> (u64, u64) {
    let b = fs::read(p).unwrap_or_default();
    if b.len() < 16 {
        return (0, 0);
    }
    (
        u64::from_le_bytes(b[..8].try_into().unwrap()),
        u64::from_le_bytes(b[8..16].try_into().unwrap()),
    )
}

enum Death {
    Exit(i32),
    Signal(i32),
    Hang,
}

struct Running {
    child: Child,
    shard: u64,
    last: (u64, u64),
    cpu_at_last: f64,
    end: Option<Death>,
}

fn spawn(args: &[&str]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap()
}

struct Failure {
    part: usize,
    index: u64,
    choices: Vec<u64>,
    msg: String,
    text: String,
}

fn unescape(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c);
        }
    }
    r
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let Some(prop) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed = env_u64("VERIF_SEED", 1);
    let dir = verif_dir().join("work").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = check_in(&prop, tier, seed, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn check_in(prop: &Prop, tier: &str, seed: u64, dir: &Path, start: Instant) -> i32 {
    let id = prop.id;
    let d = dir.to_str().unwrap();
    let wall = if tier == "thorough" { 4 * 3600 } else { WALL_LIMIT_S };
    let mut run: Vec<Running> = (0..SHARDS)
        .map(|s| Running {
            child: spawn(&["shard", id, tier, &seed.to_string(), &s.to_string(), d]),
            shard: s,
            last: (u64::MAX, 0),
            cpu_at_last: 0.0,
            end: None,
        })
        .collect();
    let mut timed_out = false;
    loop {
        let mut open = 0;
        for r in run.iter_mut() {
            if r.end.is_some() {
                continue;
            }
            if let Some(st) = r.child.try_wait().unwrap() {
                r.end = Some(match st.code() {
                    Some(c) => Death::Exit(c),
                    None => Death::Signal(st.signal().unwrap_or(0)),
                });
                continue;
            }
            open += 1;
            let p = read_progress(&dir.join(format!("progress{}", r.shard)));
            let cpu = cpu_seconds(r.child.id());
            if p != r.last {
                r.last = p;
                r.cpu_at_last = cpu;
            } else if cpu - r.cpu_at_last > HANG_CPU_S {
                let _ = r.child.kill();
                let _ = r.child.wait();
                r.end = Some(Death::Hang);
            }
        }
        if open == 0 {
            break;
        }
        if start.elapsed().as_secs() > wall {
            timed_out = true;
            for r in run.iter_mut() {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if timed_out {
        eprintln!("{id}: out of time");
        return 2;
    }
    // collect
    let mut evals = 0u64;
    let mut keys: Vec<u64> = Vec::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut failures: Vec<Failure> = Vec::new();
    for r in &run {
        let text = fs::read_to_string(dir.join(format!("result{}", r.shard))).unwrap_or_default();
        let mut f: Option<Failure> = None;
        let mut done = false;
        for l in text.lines() {
            let Some((k, v)) = l.split_once('\t') else { continue };
            let v = unescape(v);
            match k {
                "evals" => evals += v.parse::<u64>().unwrap(),
                "label" => {
                    let (n, k) = v.split_once(' ').unwrap();
                    *labels.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "sample" => samples.push(v),
                "known" => {
                    let (s, t) = v.split_once(' ').unwrap();
                    known.entry(s.to_string()).or_insert(t.to_string());
                }
                "fail" => {
                    let (p, i) = v.split_once(' ').unwrap();
                    f = Some(Failure {
                        part: p.parse().unwrap(),
                        index: i.parse().unwrap(),
                        choices: Vec::new(),
                        msg: String::new(),
                        text: String::new(),
                    });
                }
                "choices" => {
                    f.as_mut().unwrap().choices =
                        v.split_whitespace().map(|x| x.parse().unwrap()).collect()
                }
                "message" => f.as_mut().unwrap().msg = v,
                "text" => f.as_mut().unwrap().text = v,
                "done" => done = true,
                _ => {}
            }
        }
        failures.extend(f);
        let kb = fs::read(dir.join(format!("keys{}", r.shard))).unwrap_or_default();
        keys.extend(kb.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        if done {
            continue;
        }
        // the worker died inside a case, or while shrinking a failure
        let (pi, index) = read_progress(&dir.join(format!("progress{}", r.shard)));
        let how = match r.end {
            Some(Death::Signal(9)) => {
                eprintln!("{id}: a worker was killed from outside (out of memory?)");
                return 2;
            }
            Some(Death::Signal(s)) => format!("the process died with signal {s}"),
            Some(Death::Hang) => format!("no end after {HANG_CPU_S} s of CPU time"),
            Some(Death::Exit(c)) if c == OOM_EXIT => "memory use without bound".to_string(),
            Some(Death::Exit(c)) => {
                eprintln!("{id}: a worker ended with exit code {c}");
                return 2;
            }
            None => unreachable!(),
        };
        if let Some((pi, index, choices, msg)) = read_first(&dir.join(format!("first{}", r.shard))) {
            let part = &prop.parts[pi];
            let (choices, text) = shrink_outside(id, part, choices, dir);
            failures.push(Failure { part: pi, index, choices, msg: format!("{msg}\n(or {how})"), text });
            continue;
        }
        let part = &prop.parts[pi as usize];
        let trace = dir.join(format!("trace{}", r.shard));
        let choices = trace_case(id, part, index, seed, &trace);
        let (choices, text) = shrink_crash(id, part, choices, dir, matches!(r.end, Some(Death::Hang)));
        failures.push(Failure {
            part: pi as usize,
            index,
            choices,
            msg: how,
            text,
        });
    }
    keys.sort();
    keys.dedup();
    failures.sort_by_key(|f| (f.part, f.index));
    let violations = failures.len();
    write_evidence(prop, tier, seed, evals, keys.len() as u64, &labels, &samples, &known, violations, start);
    for (s, t) in &known {
        println!("KNOWN-FINDING: property={id} {s}: {}", t.replace('\n', " "));
    }
    if let Some(f) = failures.first() {
        let part = prop.parts[f.part].name;
        let path = write_replay(id, part, &f.choices, &f.msg, &f.text);
        println!("{id}/{part}: {}", f.msg);
        println!("case: {}", clip(&f.text, 2000));
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    println!(
        "{id}: held on {evals} cases ({} distinct non-trivial) in {:.1} s",
        keys.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

fn trace_case(id: &str, part: &Part, index: u64, seed: u64, trace: &Path) -> Vec<u64> {
    let t = trace.to_str().unwrap();
    let mut c = spawn(&["logged", id, part.name, &index.to_string(), &seed.to_string(), t]);
    wait_limited(&mut c, 5.0);
    fs::read(trace)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn read_first(p: &Path) -> Option<(usize, u64, Vec<u64>, String)> {
    let t = fs::read_to_string(p).ok()?;
    let mut l = t.splitn(3, '\n');
    let (pi, i) = l.next()?.split_once(' ')?;
    let c = l.next()?.split_whitespace().map(|x| x.parse().unwrap()).collect();
    Some((pi.parse().ok()?, i.parse().ok()?, c, l.next()?.to_string()))
}

/// Some(exit code) or None for signal/timeout.
fn wait_limited(c: &mut Child, cpu: f64) -> Option<i32> {
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return st.code();
        }
        if cpu_seconds(c.id()) > cpu {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn shrink_crash(id: &str, part: &Part, choices: Vec<u64>, dir: &Path, hang: bool) -> (Vec<u64>, String) {
    shrink_child(id, part, choices, dir, hang, false)
}

/// Shrinks a failure whose variants may kill the process.
fn shrink_outside(id: &str, part: &Part, choices: Vec<u64>, dir: &Path) -> (Vec<u64>, String) {
    shrink_child(id, part, choices, dir, false, true)
}

fn shrink_child(
    id: &str,
    part: &Part,
    choices: Vec<u64>,
    dir: &Path,
    hang: bool,
    any: bool,
) -> (Vec<u64>, String) {
    let file = dir.join("crash-case");
    let f = file.to_str().unwrap().to_string();
    let cpu = if hang { 5.0 } else { 20.0 };
    let mut fails = |c: &[u64]| {
        let t: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        fs::write(&file, t.join(" ")).unwrap();
        let mut ch = spawn(&["case", id, part.name, &f]);
        match wait_limited(&mut ch, cpu) {
            Some(0) => None,
            Some(1) if any => Some((c.to_vec(), Vec::new())),
            Some(1) | Some(3) => None, // a different failure
            _ => Some((c.to_vec(), Vec::new())),
        }
    };
    let mut s = Shrinker {
        fails: &mut fails,
        best: choices,
        spans: Vec::new(),
        budget: if hang { 12 } else { 400 },
        deadline: Instant::now() + Duration::from_secs(60),
    };
    s.run();
    let best = s.best;
    (s.fails)(&best);
    let text = fs::read_to_string(dir.join("crash-case.text")).unwrap_or_default();
    (best, text)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    evals: u64,
    distinct: u64,
    labels: &BTreeMap<String, u64>,
    samples: &[String],
    known: &BTreeMap<String, String>,
    violations: usize,
    start: Instant,
) {
    let mut o = String::from("{\n");
    o += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n", json_str(prop.id), json_str(tier));
    o += " \"level\": \"exploration\",\n \"coverage\": {\n";
    o += &format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n");
    o += &format!("  \"rule\": {},\n", json_str(prop.rule));
    o += "  \"samples\": [\n";
    let s: Vec<String> = samples.iter().map(|s| format!("   {}", json_str(s))).collect();
    o += &s.join(",\n");
    o += "\n  ],\n  \"distribution\": {\n";
    let l: Vec<String> = labels.iter().map(|(k, v)| format!("   {}: {v}", json_str(k))).collect();
    o += &l.join(",\n");
    o += "\n  },\n  \"known_findings_hit\": [";
    let k: Vec<String> = known.keys().map(|k| json_str(k)).collect();
    o += &k.join(", ");
    o += "]\n },\n \"assumptions\": [";
    let a: Vec<String> = prop.assumptions.iter().map(|k| json_str(k)).collect();
    o += &a.join(", ");
    o += &format!("],\n \"violations\": {violations},\n \"wall_s\": {:.2}\n}}\n", start.elapsed().as_secs_f64());
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", prop.id));
    let mut f = fs::File::create(&tmp).unwrap();
    f.write_all(o.as_bytes()).unwrap();
    drop(f);
    fs::rename(&tmp, dir.join(format!("{}.json", prop.id))).unwrap();
}
