//! Directs the generator at what a change of the source mentions: literals in /repo/src that are not
//! in `baseline.txt`, the literals of the tree this was written for.  Only the choice of inputs
//! depends on it, never a verdict.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<u64>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let base: BTreeSet<&str> = include_str!("baseline.txt").lines().collect();
        let mut d = Dict::default();
        for l in literals() {
            if base.contains(l.as_str()) {
                continue;
            }
            match l.split_at(2) {
                ("s ", s) => d.strs.push(serde_json::from_str(s).unwrap_or_default()),
                (_, n) => d.ints.push(n.parse().unwrap_or(0)),
            }
        }
        d.strs.retain(|s| !s.is_empty() && s.len() < 200);
        d.strs.truncate(60);
        d.ints.retain(|n| *n > 1);
        d.ints.truncate(40);
        d
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let q = e.path();
        if q.is_dir() {
            walk(&q, out);
        } else if q.extension().is_some_and(|x| x == "rs") {
            out.push(q);
        }
    }
}
/// One line per literal, sorted.
pub fn literals() -> Vec<String> {
    let root = std::env::var("VSIM_SRC").unwrap_or("/repo/src".into());
    let mut files = vec![];
    walk(std::path::Path::new(&root), &mut files);
    files.sort();
    let mut out = BTreeSet::new();
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        scan(t.split("#[cfg(test)]").next().unwrap_or(""), &mut out);
    }
    out.into_iter().collect()
}
fn add(out: &mut BTreeSet<String>, s: &str) {
    let mut put = |s: &str| {
        if !s.is_empty() {
            out.insert(format!("s {}", serde_json::to_string(s).unwrap()));
        }
    };
    // the pieces between the places of a format string
    let mut rest = s;
    while let Some(i) = rest.find('{') {
        put(&rest[..i]);
        rest = rest[i..].split_once('}').map_or("", |x| x.1);
    }
    put(rest);
    if s.len() > 1 {
        for x in s.split(['/', ' ', ',', ';', '=']) {
            put(x);
        }
    }
}
fn scan(t: &str, out: &mut BTreeSet<String>) {
    let b: Vec<char> = t.chars().collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the last two tokens, for products and shifts of numbers
    let mut num: Option<u64> = None;
    let mut op = String::new();
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) {
            let mut h = 0;
            i += 1;
            while at(i) == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            let st = i;
            while i < b.len() && !(b[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#')) {
                i += 1;
            }
            let s: String = b[st..i.min(b.len())].iter().collect();
            if s.len() < 200 {
                add(out, &s);
            }
            i += 1 + h;
            num = None;
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    esc(&b, &mut i, &mut s);
                } else {
                    s.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            add(out, &s);
            num = None;
        } else if c == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            let mut s = String::new();
            i += 1;
            if b[i] == '\\' {
                i += 1;
                esc(&b, &mut i, &mut s);
            } else {
                s.push(b[i]);
                i += 1;
            }
            i += 1;
            out.insert(format!("s {}", serde_json::to_string(&s).unwrap()));
            num = None;
        } else if c.is_ascii_digit() {
            let st = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let s: String = b[st..i].iter().filter(|c| **c != '_').collect();
            let v = if let Some(h) = s.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                u64::from_str_radix(&h, 16).ok()
            } else {
                let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(v) = v {
                let mut v: u64 = v;
                if let Some(n) = num {
                    match op.as_str() {
                        "*" => v = n.saturating_mul(v),
                        "<<" => v = n.checked_shl(v as u32).unwrap_or(0),
                        _ => {}
                    }
                }
                out.insert(format!("i {v}"));
                num = Some(v);
                op.clear();
            }
        } else if c.is_alphabetic() || c == '_' {
            let st = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let s: String = b[st..i].iter().collect();
            if s.len() > 2 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                // constants name header fields and methods
                out.insert(format!("s {}", serde_json::to_string(&s).unwrap()));
                out.insert(format!("s {}", serde_json::to_string(&s.to_lowercase().replace('_', "-")).unwrap()));
            }
            num = None;
        } else {
            if c == '*' || c == '<' {
                op.push(c);
            } else if !c.is_whitespace() {
                num = None;
                op.clear();
            }
            i += 1;
        }
    }
}
fn esc(b: &[char], i: &mut usize, s: &mut String) {
    let c = b.get(*i).copied().unwrap_or(' ');
    *i += 1;
    match c {
        'n' => s.push('\n'),
        'r' => s.push('\r'),
        't' => s.push('\t'),
        '0' => s.push('\0'),
        'x' => {
            let h: String = b[*i..].iter().take(2).collect();
            *i += 2;
            s.push(u8::from_str_radix(&h, 16).unwrap_or(b' ') as char);
        }
        'u' => {
            let h: String = b[*i..].iter().take_while(|c| **c != '}').collect();
            *i += h.chars().count() + 1;
            s.push(u32::from_str_radix(h.trim_start_matches('{'), 16).ok().and_then(char::from_u32).unwrap_or(' '));
        }
        '\n' => {
            while b.get(*i).is_some_and(|c| c.is_whitespace()) {
                *i += 1;
            }
        }
        c => s.push(c),
    }
}
