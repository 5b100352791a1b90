//! Reference paths: the meaning of a path as a walk.

/// The meaning of a path: absolute or not, upward steps, then names.
#[derive(PartialEq, Debug, Clone, Eq, Hash)]
pub struct Meaning {
    pub abs: bool,
    pub ups: usize,
    pub names: Vec<String>,
}

pub fn walk(mut m: Meaning, p: &str) -> Meaning {
    for c in p.split('/') {
        if c == ".." {
            if m.names.pop().is_none() && !m.abs {
                m.ups += 1;
            }
        } else if !(c.is_empty() || c == ".") {
            m.names.push(c.to_string());
        }
    }
    m
}

pub fn meaning(p: &str) -> Meaning {
    walk(
        Meaning {
            abs: p.starts_with('/'),
            ups: 0,
            names: vec![],
        },
        p,
    )
}

/// Meaning of `b` seen from directory `a`.
pub fn joined(a: &str, b: &str) -> Meaning {
    if b.starts_with('/') {
        meaning(b)
    } else {
        walk(meaning(a), b)
    }
}

pub fn canonical(m: &Meaning) -> String {
    let mut parts = vec!["..".to_string(); m.ups];
    parts.extend(m.names.iter().cloned());
    let s = parts.join("/");
    if m.abs {
        format!("/{s}")
    } else {
        s
    }
}

pub fn normal(p: &str) -> String {
    canonical(&meaning(p))
}

/// The file a mention names, seen from the file that contains it.
pub fn resolve(importer: &str, mention: &str) -> String {
    if mention.starts_with('/') {
        return normal(mention);
    }
    // the directory of the importer: all but its last step
    let dir = match importer.rfind('/') {
        Some(i) => &importer[..=i],
        None => "",
    };
    canonical(&walk(meaning(dir), mention))
}
