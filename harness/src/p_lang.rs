//! C05: the accepted language is exactly the documented subset.
use crate::{
    check,
    fw::*,
    gdoc::{self, document, id, op, Env, Style},
    glong::long_text,
    glue, layout, mgr,
    mgr::Chk,
    rlex::T,
    rparse::{Files, Kind, World},
    sim::Sim,
    val,
    world::{names, sim, FILES},
};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "Documents of every kind from a token grammar (statements, requires, imports, references, unquoted keys, trailing commas, line ends and comments wherever allowed), the same with one to three token or character edits, token soups, long texts of every construct, odd characters and pieces of other languages wherever one could stand, and all short token sequences after several openings; part of them read token by token, with the check supplying the modules that are reported. Non-trivial: at least four tokens; distinct by text.",
        assumptions: &[
            "oracle: a recursive descent reader written from the documented grammar, over a reference scanner",
            "modules mentioned are found in a small simulated file system",
        ],
        parts: &[
            Part { name: "fixed", quick: 120, thorough: 120, run: fixed },
            Part { name: "grammar", quick: 150_000, thorough: 3_000_000, run: grammar },
            Part { name: "token edits", quick: 300_000, thorough: 6_000_000, run: token_edits },
            Part { name: "text edits", quick: 150_000, thorough: 3_000_000, run: text_edits },
            Part { name: "words", quick: 60_000, thorough: 600_000, run: words },
            Part { name: "characters", quick: 90_000, thorough: 1_200_000, run: characters },
            Part { name: "texts of files", quick: 60_000, thorough: 1_200_000, run: texts_of_files },
            Part { name: "large", quick: 160, thorough: 5_000, run: large },
            Part { name: "incremental", quick: 150_000, thorough: 3_000_000, run: incremental },
            Part { name: "soup", quick: 150_000, thorough: 3_000_000, run: soup },
            Part { name: "short", quick: 200_000, thorough: 4_000_000, run: short },
        ],
    }
}

fn world() -> (Files, Sim) {
    (FILES.iter().map(|f| (f.0.to_string(), Some(f.1.to_string()))).collect(), sim())
}

fn verify(c: &mut Ctx, text: &str) -> CaseResult {
    let (files, sim) = world();
    let want = World::new(&files).text(text, "");
    let got = glue::parse_in(Chk(), &sim, text);
    match (&want, &got) {
        (Ok(_), Err(e)) => return Err(format!("in the language but rejected: {e}")),
        (Err(_), Ok(r)) => {
            return Err(format!("outside the language but read as {:?} {}", glue::kind(&r.data_type), clip(&val::show(&val::read(&r.any)), 300)))
        }
        (Err(_), Err(_)) => c.label("rejected"),
        (Ok((k, v)), Ok(r)) => {
            c.label(match k {
                Kind::Json => "plain JSON",
                Kind::Djs => "plain data-only JavaScript",
                Kind::Cjs => "CommonJS",
                Kind::Mjs => "ES module",
            });
            check!(glue::kind(&r.data_type) == *k, "read as {:?} instead of {k:?}", glue::kind(&r.data_type));
            val::iso(v, &val::read(&r.any))?;
        }
    }
    drop(got);
    mgr::verify()
}

/// The same through the incremental reader.
fn verify_steps(c: &mut Ctx, text: &str) -> CaseResult {
    let (files, _) = world();
    let want = World::new(&files).text(text, "");
    match (&want, glue::parse_steps(Chk(), &files, "", text, &mut Default::default())) {
        (_, glue::Stepped::Require) => c.label("requires, not read token by token"),
        (Ok(_), glue::Stepped::Failed(_)) => return Err("in the language but rejected token by token".into()),
        (Err(_), glue::Stepped::Done(r)) => {
            return Err(format!("outside the language but read token by token as {:?} {}", glue::kind(&r.data_type), clip(&val::show(&val::read(&r.any)), 300)))
        }
        (Err(_), glue::Stepped::Failed(_)) => {}
        (Ok((k, v)), glue::Stepped::Done(r)) => {
            check!(glue::kind(&r.data_type) == *k, "read token by token as {:?} instead of {k:?}", glue::kind(&r.data_type));
            val::iso(v, &val::read(&r.any)).map_err(|e| format!("token by token: {e}"))?;
        }
    }
    mgr::verify()
}

/// The same as the text of a file: the one that is read, and one that another requires or imports.
fn verify_files(c: &mut Ctx, text: &str) -> CaseResult {
    let (mut files, sim) = world();
    for (name, t) in [("t", text), ("require t", "[require(\"t\"),1]"), ("import t", "import a from \"t\"\nexport default {\"a\":[a]}")] {
        files.insert(name.into(), Some(t.into()));
        sim.put(name, t.as_bytes());
    }
    for entry in ["t", "require t", "import t"] {
        let want = World::new(&files).entry(entry);
        let got = glue::parse_file(Chk(), &sim, entry);
        match (&want, &got) {
            (Ok(_), Err(e)) => return Err(format!("{entry}: the text of the file is in the language but rejected: {e}")),
            (Err(_), Ok(r)) => return Err(format!("{entry}: the text of the file is outside the language but read as {}", clip(&val::show(&val::read(&r.any)), 300))),
            (Err(_), Err(_)) => {}
            (Ok((k, v)), Ok(r)) => {
                c.label("file");
                check!(glue::kind(&r.data_type) == *k, "{entry}: read as {:?} instead of {k:?}", glue::kind(&r.data_type));
                val::iso(v, &val::read(&r.any)).map_err(|e| format!("{entry}: {e}"))?;
            }
        }
    }
    mgr::verify()
}

/// Texts of files: documents, edited or with something before or after them.
fn texts_of_files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let st = style(s);
    let e = env(s);
    let toks = document(s, &e, st);
    let mut text = layout::text(s, &toks);
    match s.below(8) {
        0 => {}
        1 | 2 => text = gdoc::mutate_text(s, &text),
        3 => text.insert(0, layout::odd(s)),
        4 => text.push(layout::odd(s)),
        5 => text = layout::phrase_line(s) + &text,
        6 => text += &layout::phrase_line(s),
        _ => {
            // other line ends
            let e = s.pick(&["\r", "\r\n", "\n\n", "\\\n", "\u{85}", "\u{2028}", "\0", "\u{1a}\n"]).to_string();
            text = text.replace('\n', &e) + s.pick(&["", e.as_str()]);
        }
    }
    c.show(|| format!("{text:?}"));
    c.nt(toks.len() >= 4, &text);
    verify_files(c, &text)
}

/// Texts read token by token; `require`, which that reader leaves to others, is rare.
fn incremental(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let st = *s.pick(&[Style::Json, Style::Djs, Style::Mjs, Style::Mjs, Style::Cjs]);
    let e = env(s);
    let mut toks = document(s, &e, st);
    if s.coin() {
        for _ in 0..1 + s.weighted(&[6, 2, 1]) {
            gdoc::mutate(s, &mut toks, &e.files);
        }
    }
    let text = layout::text(s, &toks);
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify_steps(c, &text)
}

fn style(s: &mut Src) -> Style {
    *s.pick(&[Style::Json, Style::Djs, Style::Cjs, Style::Mjs])
}

fn env(s: &mut Src) -> Env {
    let mut files = names();
    if s.chance(1, 12) {
        files.push("bad".into());
        files.push("missing".into());
    }
    Env {
        files,
        wrong: 1,
        depth: 4,
    }
}

fn grammar(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let st = style(s);
    let e = env(s);
    let toks = document(s, &e, st);
    let text = layout::text(s, &toks);
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify(c, &text)
}

fn token_edits(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let st = style(s);
    let e = env(s);
    let mut toks = document(s, &e, st);
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        gdoc::mutate(s, &mut toks, &e.files);
    }
    let text = layout::text(s, &toks);
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify(c, &text)
}

fn text_edits(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let st = style(s);
    let e = env(s);
    let toks = document(s, &e, st);
    let text = layout::text(s, &toks);
    let text = gdoc::mutate_text(s, &text);
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify(c, &text)
}

/// Documents that begin in some way and go on at random.
fn soup(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut toks = if s.coin() { opening(s.below(12)) } else { vec![] };
    let e = names();
    toks.extend(s.many(0, 16, 4, |s| gdoc::any_token(s, &e)));
    let text = layout::text(s, &toks);
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify(c, &text)
}

fn opening(i: u64) -> Vec<T> {
    let a = || id("a");
    let one = || T::Num(1f64.to_bits());
    match i {
        0 => vec![],
        1 => vec![id("const"), a(), op('='), one()],
        2 => vec![id("const"), a(), op('='), one(), T::Nl],
        3 => vec![id("const"), a(), op('='), one(), op(';')],
        4 => vec![id("import"), a(), id("from"), T::Str("m2".into())],
        5 => vec![id("import"), a(), id("from"), T::Str("m2".into()), T::Nl],
        6 => vec![id("module"), op('.'), id("exports"), op('=')],
        7 => vec![id("export"), id("default")],
        8 => vec![op('[')],
        9 => vec![op('{')],
        10 => vec![id("const"), a(), op('='), op('[')],
        _ => vec![id("const"), a(), op('='), id("require"), op('('), T::Str("m2".into())],
    }
}

fn vocabulary() -> Vec<T> {
    let mut v: Vec<T> = "{}[]:,=.;()".chars().map(T::Op).collect();
    v.extend(["const", "import", "from", "export", "default", "module", "exports", "require", "null", "a"].map(id));
    v.extend([T::Num(1f64.to_bits()), T::Str("m2".into()), T::Nl, T::Big(crate::rint::RInt::int(7))]);
    v
}

/// All sequences of up to four tokens after each opening (a part of them in the quick tier).
fn short(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = vocabulary();
    let n = v.len() as u64;
    let total = 12 * n.pow(4);
    // 7_368_787 is prime
    let mut i = (s.enumerate(total) as u128 * 7_368_787 % total as u128) as u64;
    let mut toks = opening(i % 12);
    i /= 12;
    let mut text = String::new();
    let more = s.below(5);
    for k in 0..more {
        toks.push(v[(i % n) as usize].clone());
        i /= n;
        let _ = k;
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && layout::glue(&toks[i - 1], t) {
            text.push(' ');
        }
        text += &match t {
            T::Num(_) => "1".to_string(),
            T::Str(x) => format!("\"{x}\""),
            T::Big(_) => "7n".to_string(),
            T::Nl => "\n".to_string(),
            T::Op(c) => c.to_string(),
            T::Id(x) => x.clone(),
            T::Err => "#".to_string(),
        };
    }
    c.show(|| text.clone());
    c.nt(toks.len() >= 4, &text);
    verify(c, &text)
}

/// Every word of the dictionary wherever a word could stand.
fn words(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const W: &[&str] = &[
        "{@:1}", "@", "[@]", "{\"a\":@}", "{\"@\":1}", "{\"a\":1,@:2}", "[{@:[]}]", "const a=1\n{@:a}", "const @=1\n@", "const @=1;[@,@]", "const a=@\na", "const a=1\nconst @=2\n[@,a]",
        "module.exports=@", "module.exports={@:1,}", "const @=[]\nmodule.exports={@:@}", "export default @", "export default {@:1}", "const @={@:1}\nexport default [@]", "import @ from \"m2\"\nexport default @",
        "import a @ \"m2\"\nexport default a", "@ a=1\na", "@ a from \"m2\"\nexport default a", "@ default 1", "export @ 1", "@.exports=1", "module.@=1", "[@(\"m2\"),1]", "module.exports=@(\"m2\")",
        "import @ from \"m2\"\nconst a=@\nexport default {@:a}", "const @=require(\"m2\")\nmodule.exports=@", "[@:1]", "{@}", "{@,}", "{@@:1}", "[1]@", "@[1]", "1@", "@1", "{a:1,@:[{@:2}]}", "const a={@:1}\n[a,{@:a}]",
        "\"@\"", "[\"@\",null]", "[require(\"@\"),1]", "import a from \"@\"\nexport default a", "@@", "@ @", "@,@", "@;@", "@\n@", "const @ @", "-@", "{\"@\":{\"@\":[\"@\"]}}", "const a=1;@", "const a=1;[a,@]",
    ];
    let d = crate::dict::dict();
    let (n, m) = (d.ids.len() as u64, W.len() as u64);
    // in an order in which the words change first
    let i = s.enumerate(n * m);
    let w = &d.ids[(i % n) as usize];
    let w = match s.weighted(&[12, 1, 1, 1]) {
        0 => w.clone(),
        1 => format!("{w}{}", s.pick(&["_", "1", "$", "s", "x"])),
        2 => w[..w.len() - 1].to_string(),
        _ => w.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    };
    let text = W[((i / n) % m) as usize].replace('@', &w);
    c.show(|| text.clone());
    c.nt(!w.is_empty(), &text);
    verify_steps(c, &text)?;
    verify(c, &text)
}

/// Odd characters and foreign phrases wherever one could stand.
fn characters(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const W: &[&str] = &[
        "@", "@1", "1@", "[@]", "[@1]", "[1@]", "[1@,2]", "[1,@2]", "[1 @ 2]", "{@}", "{@\"a\":1}", "{\"a\"@:1}", "{\"a\":@1}", "{\"a\":1@}", "{\"a@b\":\"c@d\"}", "\"@\"", "\"@", "\"\\@\"", "\"\\u00@0\"",
        "1@n", "1@2", "1@.5", "1.@5", "1.5@", "1e@5", "1e5@", "-@1", "-1@", "0@", "0n@", "nul@l", "null@", "@null", "tru@e", "const a@=1\na@", "const a@b=1\na@b", "const @a=1\n@a", "const a@=1\na",
        "const a=1\na@", "const a=1@a", "const a=1@\na", "const a=1\n@a", "const a=1;@a", "const@a=1\na", "const a@=@1\na", "const a=1\n{a@:1}", "const a=1\n{@:1}", "const a=1\n{a:@a}", "export@default 1",
        "export default@1", "export default 1@", "export default {a@b:1}", "module@.exports=1", "module.@exports=1", "module.exports@=1", "module.exports=1@", "module.exports={a:1@b:2}", "@module.exports=1",
        "@export default 1", "@const a=1\na", "@import a from \"m2\"\nexport default a", "import a@from \"m2\"\nexport default a", "import a from@\"m2\"\nexport default a", "import a from \"m2\"@export default a",
        "import a from \"m2@\"\nexport default a", "[require(\"m2\"@),1]", "[require@(\"m2\"),1]", "[require(\"@m2\"),1]", "//@\n1", "//@1", "/*@*/1", "/*@", "/@*/1", "/*@/1", "[1,/*@*/2]", "[1//@\n,2]", "@/**/1", "1/**/@",
        "const a=1//@\na", "const a=1/*@*/\na", "const a=1/*@*/a", "const a=1@const b=2\n[a,b]",
    ];
    let n = W.len() as u64;
    let w = W[s.enumerate(n * 100_000) as usize % W.len()];
    let mut x = layout::odd(s).to_string();
    if s.chance(1, 4) {
        x.push(layout::odd(s));
    }
    if s.chance(1, 3) {
        x = layout::phrase_line(s);
    }
    let mut text = w.replace('@', &x);
    if s.chance(1, 12) {
        // before or after everything
        let p = layout::phrase_line(s);
        text = if s.coin() { p + &text } else { text + &p };
    }
    c.show(|| format!("{text:?}"));
    c.nt(true, &text);
    if s.chance(1, 4) {
        return verify_files(c, &text);
    }
    verify_steps(c, &text)?;
    verify(c, &text)
}

fn fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    const F: &[&str] = &[
        "", "\n", "1", "[1,]", "[,]", "[1,,2]", "{,}", "{\"a\":1,}", "{\"a\":1,,}", "{a:1}", "const x=1\n{a:1}", "const x=1;{a:1,b:2}", "const x=1\n{\"a\":1,b:x,}",
        "const x=1", "const x=1\n", "const x=1\nx", "const x=1;x", "const x=1 x", "const x=1;;x", "const x=1\n;x", "const x=1;\n\nx", "const x=1,y=2\nx", "const x=y\nx", "const x=x\nx",
        "const x=1\nconst x=2\nx", "const x=1\nconst y=x\nconst x=2\n[x,y]", "const\nx=1\nx", "const x\n=1\nx", "const x=\n1\nx", "const x=[]\n[x,x]", "const x={}\nmodule.exports=[x,x]",
        "const x=[]\nexport default [x,x]", "export default 1", "export\ndefault 1", "export default\n1", "export default", "export default 1 2", "export default 1;", "export default 1\n\n",
        "module.exports=1", "module.exports\n=1", "module.exports=\n1", "module.exports=1;", "module.exports 1", "module=1", "module.exports=module.exports=1",
        "module.exports=require(\"m2\")", "export default require(\"m2\")", "require(\"m2\")", "[require(\"m2\"),require(\"m2\")]", "[require(\"m2\"),require(\"./m2\")]", "[1,require(\"m1\")]", "{\"a\":require(\"m1\")}",
        "require(\"m2\"),", "require(\"m2\"", "require \"m2\"", "require(m2)", "require(\"missing\")", "require(\"bad\")", "require()", "require(\"m1\",\"m2\")", "require(\n\"m1\"\n)",
        "const a=require(\"m2\")\nexport default a", "const a=require(\"m2\")\nmodule.exports=a", "const a=require(\"m2\")\nimport b from \"m1\"\nmodule.exports=a", "const a=require(\"m2\")\na",
        "import a from \"m2\"\nexport default [a,a]", "import a from \"m2\"\na", "import a from \"m2\";export default a", "import a from \"m2\" export default a", "import a from \"m2\"\nmodule.exports=a",
        "import a from \"m2\"\nconst b=require(\"m1\")\nexport default b", "import a \"m2\"\nexport default a", "import from from \"m2\"\nexport default from", "import a from m2\nexport default a", "import\na from \"m2\"\na",
        "import a from \"missing\"\nexport default 1", "import a from \"bad\"\nexport default 1", "import a from \"m2\"\nimport b from \"m2\"\nexport default [a,b]", "const a=1\nimport a from \"m2\"\nexport default a",
        "import a from \"m2\"\nconst a=1\nexport default a", "const null=1\nnull", "const const=1\n[const]", "const const=1\nconst", "const require=1\nrequire", "const true=2;[true]", "{const:1}", "const x=1\n{const:1,null:null,import:x}",
        "[1 2]", "[1\n2]", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{\"a\"\n:\n1\n,\n\"b\":2}", "{1:1}", "{1n:1}", "{null:1}", "{[]:1}", "1n", "-1n", "[1n,]", "{\"a\":1n}", "1 2", "1,", "1;", "1\n2", "[]]", "[}", "{]", "[", "{", "{\"a\"", "{\"a\":", "{\"a\":1",
        "undefined", "NaN", "Infinity", "a", "[a]", "true", "True", "null null",
        "const a=[1];const b=[a,a];const c={x:b,y:b};export default [c,a,b]", "/**/1//", "[1,/**/]", "const a=1//\na", "const a=1/**/;a", "const a=1/*\n*/a", "\n\nconst a=1\n\n\nmodule.exports=a\n\n",
        "module.exports={a:1,\"b\":2,c:[3,],}", "export default {a:{b:{c:1}}}", "{\"a\":{b:1}}", "[{\"a\":{\"b\":1}},{c:1}]", "const x={y:1}\n{\"a\":x}", "[require(\"m1\"),{a:1}]", "[{a:1},require(\"m1\")]",
        "[require(\"m1\"),]", "[require(\"m1\")\n,\n1]", "{\"a\":require(\"m1\"),b:2,}", "export default {a:require(\"m1\")}",
    ];
    // part of them per case, so that the list can grow
    let n = F.len() as u64;
    let i = s.enumerate(120);
    let mut k = i;
    while k < n {
        let t = F[k as usize];
        c.show(|| t.to_string());
        c.nt(true, t);
        verify_steps(c, t).map_err(|e| format!("{t:?}: {e}"))?;
        verify(c, t).map_err(|e| format!("{t:?}: {e}"))?;
        verify_files(c, t).map_err(|e| format!("{t:?}: {e}"))?;
        k += 120;
    }
    Ok(())
}

/// Long texts of every construct, as they are and with one token or character changed.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.large(8, 16);
    let (l, mut text) = long_text(s, n);
    match s.weighted(&[4, 1, 1]) {
        0 => {}
        1 => {
            // cut
            let mut k = text.len() - s.size(1, 3).min(text.len());
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
        }
        _ => text.push_str(s.pick(&["\n", " ", ",", "]", "}", ";", "1", "n", "\"", "//", "/*", "a"])),
    }
    c.label(l);
    c.show(|| format!("{l}: {} ({} bytes)", clip(&text, 200), text.len()));
    c.nt(true, &text);
    verify_steps(c, &text).map_err(|e| clip(&e, 800))?;
    verify(c, &text).map_err(|e| clip(&e, 800))
}
