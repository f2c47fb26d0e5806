//! Seeded generation of scenarios, with a focus per property.
use vcore::kern::{FsAct, FsFault, FsOp, SchedCfg, MS, SEC};
use crate::dict::dict;
use crate::model::{self, Flat};
use crate::oracle;
use vcore::rng::Rng;
use vcore::scenario::*;
use vapp::PNAMES;

/// Percentages and sizes that a focus changes.
#[derive(Clone, Debug)]
struct W {
    conns: (u64, u64),
    reqs: (u64, u64),
    routes: (u64, u64),
    mws: (u64, u64),
    nest: u64,
    statics: u64,
    logger: u64,
    state: u64,
    body: u64,
    decode: u64,
    bad_body: u64,
    query: u64,
    miss: u64,
    near: u64,
    pause: u64,
    cut: u64,
    garbage: u64,
    broken: u64,
    panic: u64,
    err: u64,
    noresp: u64,
    bad_header: u64,
    big: u64,
    stream: u64,
    abort: u64,
    file: u64,
    traverse: u64,
    mwact: u64,
    headers: u64,
    accept: u64,
    fsfault: u64,
    swap: u64,
    stdout: u64,
    clash: u64,
    jumps: u64,
    slow_read: u64,
    giant: u64,
    silent: u64,
    bump: u64,
    hold: u64,
    expect: u64,
    pipeline: u64,
    huge: u64,
    storm: u64,
    marathon: u64,
    burst: u64,
}
fn base() -> W {
    W {
        conns: (1, 6),
        reqs: (1, 5),
        routes: (2, 8),
        mws: (0, 4),
        nest: 25,
        statics: 15,
        logger: 15,
        state: 50,
        body: 35,
        decode: 60,
        bad_body: 8,
        query: 15,
        miss: 10,
        near: 10,
        pause: 40,
        cut: 12,
        garbage: 4,
        broken: 4,
        panic: 4,
        err: 10,
        noresp: 5,
        bad_header: 3,
        big: 6,
        stream: 6,
        abort: 15,
        file: 6,
        traverse: 10,
        mwact: 15,
        headers: 20,
        accept: 8,
        fsfault: 25,
        swap: 25,
        stdout: 10,
        clash: 0,
        jumps: 5,
        slow_read: 15,
        giant: 4,
        silent: 3,
        bump: 30,
        hold: 20,
        expect: 3,
        pipeline: 60,
        huge: 1,
        storm: 0,
        marathon: 0,
        burst: 0,
    }
}
fn focus(p: &str, w: &mut W) {
    match p {
        "marathon" => w.marathon = 1000,
        "burst" => w.burst = 1000,
        "C01" => {
            w.conns = (2, 10);
            w.reqs = (1, 8);
            w.pause = 60;
            w.pipeline = 75;
            w.slow_read = 25;
            w.huge = 3;
            w.marathon = 4;
            w.burst = 8;
        }
        "C02" => {
            w.routes = (4, 24);
            w.nest = 50;
            w.clash = 3;
            w.marathon = 2;
            w.miss = 15;
            w.near = 35;
            w.conns = (1, 4);
            w.reqs = (4, 14);
            w.statics = 8;
            w.mws = (0, 3);
            w.body = 15;
            w.pause = 20;
            w.cut = 15;
            w.big = 1;
        }
        "C03" => {
            w.mws = (2, 12);
            w.routes = (3, 10);
            w.nest = 40;
            w.mwact = 35;
            w.pause = 60;
            w.near = 15;
            w.reqs = (2, 8);
            w.err = 15;
            w.huge = 3;
            w.marathon = 3;
            w.burst = 3;
        }
        "C04" => {
            w.body = 95;
            w.decode = 92;
            w.cut = 25;
            w.broken = 10;
            w.bad_body = 10;
            w.miss = 3;
            w.near = 2;
            w.err = 3;
            w.expect = 8;
            w.mws = (0, 2);
            w.routes = (1, 4);
        }
        "C05" => {
            w.cut = 40;
            w.panic = 20;
            w.garbage = 20;
            w.broken = 10;
            w.accept = 50;
            w.conns = (3, 10);
            w.abort = 50;
            w.storm = 30;
            w.marathon = 4;
        }
        "C06" => {
            w.giant = 60;
            w.silent = 15;
            w.slow_read = 40;
            w.pause = 60;
            w.cut = 15;
            w.conns = (2, 8);
            w.file = 12;
            w.statics = 25;
            w.fsfault = 40;
            w.stream = 12;
            w.huge = 2;
            w.storm = 8;
            w.marathon = 4;
            w.burst = 4;
        }
        "C07" => {
            w.err = 35;
            w.noresp = 15;
            w.bad_header = 12;
            w.miss = 15;
            w.mwact = 30;
            w.mws = (0, 5);
            w.cut = 5;
            w.reqs = (2, 8);
            w.pipeline = 50;
            w.storm = 4;
            w.marathon = 2;
            w.burst = 2;
        }
        "C08" => {
            w.statics = 90;
            w.file = 35;
            w.fsfault = 60;
            w.swap = 50;
            w.traverse = 5;
            w.big = 3;
            w.cut = 8;
            w.routes = (1, 4);
            w.mws = (0, 2);
        }
        "C09" => {
            w.statics = 100;
            w.traverse = 60;
            w.file = 5;
            w.nest = 40;
            w.routes = (0, 4);
            w.mws = (0, 2);
            w.fsfault = 30;
            w.reqs = (2, 8);
        }
        "C10" => {
            w.state = 92;
            w.bump = 70;
            w.hold = 60;
            w.mws = (1, 8);
            w.pause = 60;
            w.conns = (2, 8);
            w.reqs = (2, 8);
            w.marathon = 4;
            w.burst = 4;
        }
        "C11" => {
            w.logger = 100;
            w.marathon = 3;
            w.burst = 3;
            w.stdout = 35;
            w.jumps = 30;
            w.noresp = 15;
            w.err = 20;
            w.mwact = 25;
        }
        "C12" => {
            w.cut = 50;
            w.panic = 10;
            w.broken = 8;
            w.garbage = 5;
            w.hold = 60;
            w.state = 80;
            w.pause = 60;
            w.stream = 12;
            w.big = 12;
            w.slow_read = 30;
            w.silent = 8;
            w.statics = 25;
            w.file = 10;
            w.conns = (2, 10);
            w.storm = 15;
            w.marathon = 10;
        }
        "C13" => {
            w.big = 35;
            w.stream = 30;
            w.headers = 50;
            w.slow_read = 50;
            w.mwact = 20;
            w.conns = (1, 5);
            w.cut = 12;
            w.routes = (1, 4);
        }
        "C14" => {
            w.query = 70;
            w.body = 70;
            w.decode = 95;
            w.bad_body = 20;
            w.conns = (2, 8);
            w.routes = (1, 4);
            w.mws = (0, 2);
            w.reqs = (2, 8);
            w.cut = 5;
        }
        _ => {}
    }
}

const WORDS: &[&str] = &[
    "te", "test", "team", "tea", "teams", "st", "a", "ab", "abc", "abd", "b", "users", "user", "us", "u", "x-1", "v1.2", "~me", "_", "am",
    "list", "li", "0", "00", "id", "name", "Te", "TEST", "a.b", "a:b", "a*", "b;c", "%41", "te%2Fst", "very-long-literal-segment-of-a-route-that-goes-on-and-on-0123456789-0123456789", "index.html",
];
const MANY: &[&str] = &[
    "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "wa", "wb", "wc", "wd", "we", "wf", "k", "kk", "kkk", "kkkk", "m1", "m10", "m100", "m2", "m20", "zz", "zy", "zx", "zw", "zv", "Q", "q",
];
const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE"];

struct G {
    r: Rng,
    w: W,
    next_hid: u32,
    next_mid: u32,
    next_base: u32,
    words: Vec<&'static str>,
    /// forms are written with fewer escapes than usual, as bodies may be
    raw: bool,
    /// paths of static mounts so far
    mounts: Vec<String>,
    /// segments are made distinct
    uniq: Option<u32>,
    /// malformed forms so far
    forms: Vec<String>,
    /// how often (percent) what the changed source mentions is used
    pm: u64,
    pn: u64,
    /// how often (percent) a path is a single word
    flat: u64,
    desert: u64,
}

fn style(r: &mut Rng, segs: &[String]) -> String {
    // the same path, written in the different ways that are accepted
    match r.below(8) {
        0 => segs.join("/"),
        1 => format!("/{}/", segs.join("/")),
        2 => format!("//{}", segs.join("//")),
        _ => format!("/{}", segs.join("/")),
    }
}

impl G {
    fn ppath(&mut self, root: &model::N, maxd: u64) -> Vec<String> {
        let _ = root;
        let d = if self.r.one_in(40) { self.r.range(8, 16) } else { self.r.range(0, maxd) };
        let mut v = vec![];
        let mut names: Vec<&str> = PNAMES.to_vec();
        for i in 0..d {
            if self.r.pct(22) && !names.is_empty() {
                let j = if self.r.pct(70) { 0 } else { self.r.us(names.len()) };
                v.push(format!(":{}", names.remove(j)));
            } else if self.r.pct(10) && i == d - 1 {
                v.push("*".into());
            } else {
                v.push(self.r.pick(&self.words).to_string());
            }
        }
        v
    }
    /// A registered path to put something at: often related to one already there.
    fn related(&mut self, pats: &[Vec<String>], maxd: u64) -> Vec<String> {
        if self.flat > 0 && self.r.pct(self.flat) {
            return vec![self.r.pick(&self.words).to_string()];
        }
        if !pats.is_empty() && self.r.pct(55) {
            let mut p = self.r.pick(pats).clone();
            match self.r.below(5) {
                0 | 1 => {
                    let n = self.r.us(p.len() + 1);
                    p.truncate(n);
                }
                2 => {
                    if p.last().map(|s| s != "*").unwrap_or(true) {
                        p.push(self.r.pick(&self.words).to_string());
                    }
                }
                3 => {
                    if let Some(l) = p.last_mut() {
                        *l = self.r.pick(&self.words).to_string();
                    }
                }
                _ => {
                    if let Some(l) = p.last_mut() {
                        *l = "*".into();
                    }
                }
            }
            return p;
        }
        self.ppath(&model::N::default(), maxd)
    }
    fn steps(&mut self, depth: u64, root: &mut model::N) -> Vec<Step> {
        let mut out: Vec<Step> = vec![];
        let mut pats: Vec<Vec<String>> = vec![];
        let nr = self.r.range(self.w.routes.0, self.w.routes.1) / (depth + 1) + (depth > 0) as u64;
        let nm = self.r.range(self.w.mws.0, self.w.mws.1) / (depth + 1);
        let mut todo: Vec<u8> = vec![];
        todo.extend(std::iter::repeat_n(0, nr as usize));
        todo.extend(std::iter::repeat_n(1, nm as usize));
        if depth < 3 {
            for _ in 0..3 {
                if self.r.pct(self.w.nest / (depth + 1)) {
                    todo.push(2);
                }
            }
        }
        if self.r.pct(self.w.statics / (depth + 1)) {
            todo.push(3);
            if self.r.pct(30) {
                todo.push(3);
            }
        }
        if self.r.pct(self.w.logger / (depth + 1)) {
            todo.push(4);
            if self.r.pct(25) {
                todo.push(4);
            }
        }
        self.r.shuffle(&mut todo);
        for t in todo {
            for _try in 0..6 {
                let maxd = 4;
                let st = match t {
                    0 => {
                        let p = self.related(&pats, maxd);
                        let m = if self.r.pct(50) { "GET" } else { *self.r.pick(METHODS) };
                        Step::Route { method: m.into(), path: style(&mut self.r, &p), hid: self.next_hid }
                    }
                    1 | 4 => {
                        let path = if self.r.pct(30) {
                            None
                        } else {
                            let p = self.related(&pats, maxd);
                            Some(style(&mut self.r, &p))
                        };
                        if t == 1 {
                            Step::Mw { path, mid: self.next_mid }
                        } else {
                            Step::Logger { path }
                        }
                    }
                    2 => {
                        let mut p = self.related(&pats, 2);
                        p.retain(|s| s != "*");
                        if p.is_empty() {
                            p.push(self.r.pick(&self.words).to_string());
                        }
                        let mut sub = model::N::default();
                        let steps = self.steps(depth + 1, &mut sub);
                        if p.len() == 1 && !p[0].starts_with(':') && self.r.pct(50) {
                            Step::Scope { name: p[0].clone(), steps }
                        } else {
                            let base = if self.r.pct(25) { self.next_base += 1; self.next_base } else { 0 };
                            Step::Mount { path: style(&mut self.r, &p), steps, base }
                        }
                    }
                    _ => {
                        let dir = self.r.pick(&["assets", "public/files", "assets/sub", "pub"]).to_string();
                        if self.r.pct(35) {
                            let d = if self.r.pct(30) { format!("/{dir}") } else { dir };
                            Step::Static { path: None, dir: d }
                        } else {
                            let mut p = self.related(&pats, 2);
                            p.retain(|s| s != "*");
                            let d = match self.r.below(4) {
                                0 => format!("{dir}/"),
                                1 => format!("./{dir}"),
                                _ => dir,
                            };
                            if !self.mounts.is_empty() && self.r.pct(35) {
                                // the same relative path again, in this router or another one
                                p = model::segs(&self.mounts[self.r.us(self.mounts.len())]);
                            }
                            // style "x" without leading slash gives "x/*", "" gives "/*"
                            Step::Static { path: Some(if p.is_empty() { "".into() } else { style(&mut self.r, &p) }), dir: d }
                        }
                    }
                };
                let mut trial = root.clone();
                if model::apply(&mut trial, &st).is_err() {
                    continue;
                }
                *root = trial;
                match &st {
                    Step::Route { path, .. } => {
                        self.next_hid += 1;
                        pats.push(model::segs(path));
                    }
                    Step::Mw { path, .. } => {
                        self.next_mid += 1;
                        if let Some(p) = path {
                            pats.push(model::segs(p));
                        }
                    }
                    Step::Static { path, dir } => {
                        let mut p = model::segs(path.as_deref().unwrap_or(dir));
                        self.mounts.push(p.join("/"));
                        p.push("*".into());
                        pats.push(p);
                    }
                    Step::Scope { name, .. } => pats.push(vec![name.clone()]),
                    Step::Mount { path, .. } => pats.push(model::segs(path)),
                    _ => {}
                }
                // the same router once more, or a copy of it with more routes, elsewhere
                let twin = match &st {
                    Step::Mount { path, steps, base } if *base != 0 => Some((model::segs(path), steps.clone(), *base)),
                    _ => None,
                };
                out.push(st);
                if let Some((p, mut steps, base)) = twin {
                    for _ in 0..self.r.below(3) {
                        let q = self.related(&pats, 3);
                        steps.push(Step::Route { method: self.r.pick(METHODS).to_string(), path: style(&mut self.r, &q), hid: self.next_hid });
                        self.next_hid += 1;
                    }
                    for _ in 0..self.r.below(3) {
                        let path = if self.r.pct(50) {
                            None
                        } else {
                            let p = self.related(&pats, maxd);
                            Some(style(&mut self.r, &p))
                        };
                        steps.push(Step::Mw { path, mid: self.next_mid });
                        self.next_mid += 1;
                    }
                    let mut p2 = self.related(&pats, 2);
                    if self.r.pct(25) {
                        // below the first one: its services are met twice
                        p2 = p.clone();
                        p2.extend(self.related(&pats, 2));
                    }
                    p2.retain(|s| s != "*");
                    if p2.is_empty() {
                        p2.push(self.r.pick(&self.words).to_string());
                    }
                    let st = Step::Mount { path: style(&mut self.r, &p2), steps, base };
                    let mut trial = root.clone();
                    if !p.starts_with(&p2) && model::apply(&mut trial, &st).is_ok() {
                        *root = trial;
                        pats.push(p2);
                        out.push(st);
                    }
                }
                break;
            }
        }
        out
    }
    fn app(&mut self) -> AppSpec {
        // a small vocabulary makes collisions and shared prefixes likely
        let mut words = WORDS.to_vec();
        self.r.shuffle(&mut words);
        let n = self.r.range(3, 10) as usize;
        words.truncate(n);
        let wide = self.r.one_in(15);
        if wide {
            // many children of one node
            if self.r.pct(50) {
                words.extend(MANY);
            } else {
                // which share no first letter
                for c in ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_~!$&'()+,;=@".chars()) {
                    let t = *self.r.pick(&["", "x", "yz"]);
                    words.push(Box::leak(format!("{c}{t}").into_boxed_str()));
                }
                self.flat = *self.r.pick(&[0, 50, 85]);
            }
            self.r.shuffle(&mut words);
            self.w.routes = (self.w.routes.0.max(20), self.w.routes.1.max(75));
        }
        self.words = words;
        for _ in 0..4 {
            if let Some(m) = self.magic_seg() {
                let m: String = m.chars().filter(|c| *c != '*' && *c != ':').take(24).collect();
                if !m.is_empty() && m != ".." && m != "." {
                    self.words.push(Box::leak(m.into_boxed_str()));
                }
            }
        }
        if let Some(n) = self.magic_n(45) {
            self.w.mws = (n, n + 1);
        }
        loop {
            let mut root = model::N::default();
            self.next_hid = 1;
            self.mounts.clear();
            self.next_mid = 1;
            let steps = self.steps(0, &mut root);
            let dflt = self.r.pct(self.w.logger / 2);
            let a = AppSpec {
                port: *self.r.pick(&[3000, 8080, 1, 65535]),
                state: if self.r.pct(self.w.state) { Some(format!("st{}", self.r.below(1000))) } else { None },
                dflt,
                steps,
            };
            let Ok(f) = model::flatten(&a) else { continue };
            let dup = f.patterns.iter().any(|(_, p)| {
                let mut n: Vec<&String> = p.iter().filter(|s| s.starts_with(':')).collect();
                let l = n.len();
                n.sort();
                n.dedup();
                n.len() != l
            });
            if dup || f.patterns.is_empty() {
                continue;
            }
            return a;
        }
    }
    /// What the changed source mentions: see `dict`.
    fn magic(&mut self) -> Option<String> {
        if self.pm == 0 || dict().strs.is_empty() || !self.r.pct(self.pm) {
            return None;
        }
        Some(self.r.pick(&dict().strs).clone())
    }
    /// A number at, next to or above one that the changed source mentions.
    fn magic_n(&mut self, cap: u64) -> Option<u64> {
        if self.pn == 0 || dict().ints.is_empty() || !self.r.pct(self.pn) {
            return None;
        }
        self.magic_at(cap)
    }
    fn magic_at(&mut self, cap: u64) -> Option<u64> {
        let n = *self.r.pick(&dict().ints);
        let n = match self.r.below(8) {
            0 => n - 1,
            1 | 2 => n,
            3 | 4 | 5 => n.saturating_add(1),
            6 => (n / 4).saturating_add(n).saturating_add(1),
            _ => n.saturating_mul(2).saturating_add(1),
        };
        if n <= cap {
            Some(n)
        } else {
            None
        }
    }
    fn magic_seg(&mut self) -> Option<String> {
        let m = self.magic()?;
        let mut m: String = m.chars().filter(|c| c.is_ascii_graphic() && !"?#/<>`\"".contains(*c)).collect();
        if m.is_empty() {
            return None;
        }
        let w = self.r.pick(&self.words).to_string();
        match self.r.below(6) {
            0 => m = w + &m,
            1 => m += &w,
            2 => m = format!("{}{m}{w}", &w[..w.len() / 2]),
            _ => {}
        }
        Some(m)
    }
    /// A header's name or value made from it.
    fn magic_tok(&mut self, name: bool) -> Option<String> {
        let m = self.magic()?;
        let m: String = if name {
            m.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').collect()
        } else {
            m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').collect::<String>().trim().into()
        };
        let l = m.to_ascii_lowercase();
        let hop = ["content-length", "transfer-encoding", "host", "connection", "expect", "upgrade", "trailer", "te", "date", "keep-alive"];
        if name && (m.len() < 2 || !m.starts_with(|c: char| c.is_ascii_alphabetic()) || hop.contains(&l.as_str())) {
            return None;
        }
        Some(m)
    }
    fn word(&mut self) -> String {
        if let Some(m) = self.magic_seg() {
            return m;
        }
        if let Some(n) = self.magic_n(3000) {
            return "n".repeat(n as usize);
        }
        if self.r.pct(60) {
            self.r.pick(&self.words).to_string()
        } else if self.r.one_in(30) {
            "long".repeat(self.r.range(1, 400) as usize)
        } else if self.r.pct(25) {
            // characters that mean something elsewhere
            let n = self.r.range(1, 4);
            (0..n)
                .map(|_| *self.r.pick(&["+", "%20", "%2F", "%", "*", "(", ")", "'", "&", "a", "b", "%C3%A9", "[", "]", "|", "^", "{", "}", "\"", "0", "-1", "\\"]))
                .collect::<String>()
        } else {
            let n = self.r.range(1, 8);
            (0..n).map(|_| *self.r.pick(&['a', 'b', 't', 'e', 's', '0', '9', '-', '.', '_', '~', 'Z', ':', '@', '!', '$', ',', ';', '='])).collect::<String>()
        }
    }
    fn seg_word(&mut self) -> String {
        // no more than other segments, outside of static mounts
        if self.r.one_in(40) {
            return self.r.pick(&[".", "..", "..."]).to_string();
        }
        if let Some(n) = &mut self.uniq {
            *n += 1;
            let n = *n;
            if self.r.pct(60) {
                return format!("{}-{n}", self.r.pick(&["item", "u", "order-number", "x"]));
            }
        }
        self.word()
    }
    fn path_for(&mut self, pat: &[String], files: &[String], statics: Option<&str>) -> Vec<String> {
        let mut v = vec![];
        for s in pat {
            if s == "*" {
                if let Some(dir) = statics {
                    v.extend(self.static_rest(dir, files));
                } else {
                    let n = self.magic_n(300).unwrap_or(0).max(self.r.range(1, 4));
                    for _ in 0..n {
                        v.push(self.seg_word());
                        if v.len() > 20 {
                            v.last_mut().unwrap().truncate(9);
                        }
                    }
                }
            } else if s.starts_with(':') {
                v.push(self.seg_word());
            } else {
                v.push(s.clone());
            }
        }
        v
    }
    fn static_rest(&mut self, dir: &str, files: &[String]) -> Vec<String> {
        let base = format!("/srv/app/{}", model::segs(dir).into_iter().filter(|s| s != ".").collect::<Vec<_>>().join("/"));
        let inside: Vec<&String> = files.iter().filter(|f| oracle::inside(f, &base)).collect();
        let mut v: Vec<String> = if !inside.is_empty() && self.r.pct(85) {
            let f = self.r.pick(&inside).to_string();
            model::segs(&f[base.len()..])
        } else {
            (0..self.r.range(1, 3)).map(|_| self.seg_word()).collect()
        };
        if self.r.pct(self.w.traverse) {
            // every way of writing a path that might leave the directory
            let outside = ["secret.txt", "etc/passwd", "srv/app/secret.txt", "app/secret.txt", "assets-private/key", "pub2/f", "assets/a.txt", "pub/f", "srv/secret.txt"];
            let up = self.r.range(1, 5) as usize;
            let abs = self.r.one_in(8);
            let dots = *self.r.pick(&["..", "..", "..", ".. ", "%2e%2e", "..%2f", "%2e.", "...", "..;", ".", "..\\", "%2E%2E", "....", "%252e%252e", "..%5c", "..%00", "~", "..%c0%af", ".%2e", "..?"]);
            let dots = dots.trim_end();
            let tail = model::segs(self.r.pick(&outside));
            let mut t: Vec<String> = vec![];
            let pre = self.r.us(v.len() + 1);
            if self.r.pct(50) {
                t.extend(v[..pre].iter().cloned());
            }
            if abs {
                // what is left after the mount begins with '/': an absolute path to whatever joins it
                t.clear();
                for _ in 0..self.r.range(1, 3) {
                    t.push("".into());
                }
            }
            for i in 0..if abs { self.r.below(2) as usize } else { up } {
                t.push(dots.to_string());
                if self.r.pct(20) && i + 1 < up {
                    t.push(if self.r.pct(50) { ".".into() } else { "sub".into() });
                }
            }
            if abs || self.r.pct(85) {
                if self.r.one_in(8) {
                    t.push(tail.join("%2f"));
                } else {
                    t.extend(tail);
                }
            }
            v = t;
        }
        v
    }
    fn content(&mut self, max: u64) -> Content {
        let kind = *self.r.pick(&[CKind::Ascii, CKind::Ascii, CKind::Ascii, CKind::Utf8, CKind::Utf8, CKind::Crlf, CKind::Crlf, CKind::Blank]);
        let cap = if self.r.one_in(8) { 8_000_000 } else { max.max(100_000) };
        let len = match self.magic_n(cap) {
            Some(n) => n as usize,
            None => len(&mut self.r, max),
        };
        Content { kind, len, seed: self.r.next() >> 12 }
    }
    /// mostly fractions of a second, sometimes minutes
    fn stall(&mut self) -> u64 {
        if let Some(n) = self.magic_n(4000) {
            return if n > 1200 { n * MS } else { n * SEC };
        }
        match self.r.below(8) {
            0 => self.r.logu(400 * SEC),
            1 => self.r.range(1, 100) * SEC,
            _ => self.r.logu(300 * MS),
        }
    }
    fn pauses(&mut self) -> Vec<Pause> {
        if !self.r.pct(self.w.pause) {
            return vec![];
        }
        let n = self.r.range(1, 2);
        (0..n)
            .map(|_| {
                if self.r.pct(40) {
                    Pause::Yield(self.r.range(1, 4) as u32)
                } else {
                    Pause::Sleep(if self.r.one_in(if self.pn > 0 { 12 } else { 50 }) { self.stall() } else { self.r.logu(80 * MS) })
                }
            })
            .collect()
    }
    fn enc(&mut self, s: &str) -> String {
        // application/x-www-form-urlencoded with random over-encoding
        if self.raw && self.r.pct(60) && !s.contains(['&', '+', '%']) {
            return s.into();
        }
        let mut o = String::new();
        for b in s.bytes() {
            if b == b' ' && self.r.pct(50) {
                o.push('+');
            } else if (b.is_ascii_alphanumeric() || b"-_.*".contains(&b)) && !self.r.pct(5) {
                o.push(b as char);
            } else {
                o.push_str(&format!("%{b:02X}"));
            }
        }
        o
    }
    fn value(&mut self) -> String {
        if let Some(m) = self.magic() {
            let w = self.r.pick(&self.words).to_string();
            return match self.r.below(5) {
                0 => w + &m,
                1 => m + &w,
                2 => format!("{w}{m}{w}"),
                _ => m,
            };
        }
        if let Some(n) = self.magic_n(5000) {
            return if self.r.pct(50) { "v".repeat(n as usize) } else { n.to_string() };
        }
        match self.r.below(8) {
            0 => self.r.pick(&["", "", " ", "\t", "  x ", "\n", "null", "0"]).to_string(),
            1 => "héllo wörld".into(),
            2 => self.r.pick(&["a&b=c", "a;b=c", ";", "x;tags=y", "=", "a=b"]).to_string(),
            3 => self.r.pick(&["100%", "%41", "%u0041", "a%2", "%zz"]).to_string(),
            4 => "x".repeat(self.r.range(1, 60) as usize),
            _ => self.word(),
        }
    }
    /// nearly, or in some types, a number or a truth value
    fn odd(&mut self) -> String {
        let n = self.r.next() >> self.r.range(30, 63);
        match self.r.below(14) {
            0 => format!("{n}."),
            1 => format!("{n}.0"),
            2 => format!("{}.00", n % 100),
            3 => format!(" {n}"),
            4 => format!("{n} "),
            5 => format!("0x{:x}", n % 256),
            6 => format!("{}e{}", n % 100, n % 3),
            7 => format!("{},{:03}", n % 10, n % 1000),
            8 => format!("{}_{:03}", n % 10, n % 1000),
            9 => self.r.pick(&["", "-", "+", ".", "e", "--1", "+-1", "-0", "1-", "0b1", "0o7", "١", "1\0"]).to_string(),
            10 => self.r.pick(&["True", "TRUE", "FALSE", "1", "0", "on", "off", "yes", "no", "t", "f", "true "]).to_string(),
            11 => self.r.pick(&["128", "-129", "256", "-1", "32768", "65536", "2147483648", "-2147483649", "4294967296", "9223372036854775808", "18446744073709551616"]).to_string(),
            12 => format!("\"{n}\""),
            _ => format!("{n}{}", self.r.pick(&["u8", "i32", "f", "L", "%", "\u{0}", "x"])),
        }
    }
    /// Now and then the same bytes again.
    fn form_text(&mut self, bad: bool, big: bool, max: u64) -> String {
        if !self.forms.is_empty() && self.r.pct(if bad { 35 } else { 12 }) {
            return self.r.pick(&self.forms).clone();
        }
        let t = self.fresh_form_text(bad, big, max);
        if t.len() < 3000 && bad && !self.raw {
            self.forms.push(t.clone());
        }
        t
    }
    fn fresh_form_text(&mut self, bad: bool, big: bool, max: u64) -> String {
        let mut v: Vec<String> = vec![];
        let mut add = |g: &mut G, k: &str, x: String| {
            let e = g.enc(&x);
            v.push(format!("{k}={e}"));
        };
        let id = self.r.next() >> self.r.below(64);
        if !(bad && self.r.pct(30)) {
            let x = if bad && self.r.pct(20) { self.odd() } else { id.to_string() };
            add(self, "id", x);
        }
        let nm = loop {
            let x = self.value();
            if !x.is_empty() {
                break x;
            }
        };
        if !(bad && self.r.pct(20)) {
            add(self, "name", nm);
        }
        if self.r.pct(30) {
            let x = self.value();
            add(self, "opt", x);
        }
        let nt = if big { self.r.range(20, 400) } else { self.r.below(4) };
        let nt = self.magic_n(3000).unwrap_or(nt);
        for _ in 0..nt {
            let x = self.value();
            add(self, "tags", x);
        }
        for _ in 0..self.r.below(4) {
            let x = if bad && self.r.pct(30) { self.word() } else { (self.r.next() as i32).to_string() };
            add(self, "n", x);
        }
        if self.r.pct(30) {
            let x = self.r.pick(&["true", "false", if bad { "yes" } else { "true" }]).to_string();
            add(self, "flag", x);
        }
        if self.r.pct(30) {
            let x = self.r.pick(&["1.5", "-0.25", "1e3", "0", if bad { "1,5" } else { "2" }]).to_string();
            add(self, "r", x);
        }
        if self.r.pct(20) {
            let x = self.r.pick(&["x", "é", "→", "0"]).to_string();
            add(self, "c", x);
        }
        if self.r.pct(30) {
            let x = if bad { self.r.pick(&["256", "-1", "1x"]).to_string() } else { self.r.below(256).to_string() };
            add(self, "small", x);
        }
        for _ in 0..self.r.below(3) {
            let x = self.value();
            let k = format!("other{}", self.r.below(3));
            add(self, &k, x);
        }
        if let Some(m) = self.magic() {
            let (m, x) = (self.enc(&m), self.value());
            v.push(format!("{m}={}", self.enc(&x)));
        }
        if let Some(n) = self.magic_n(2000) {
            v.extend((0..n).map(|i| format!("k{i}=1")));
        }
        let mut add = |g: &mut G, k: &str, x: String| {
            let e = g.enc(&x);
            v.push(format!("{k}={e}"));
        };
        // names that are nearly the expected ones
        for _ in 0..self.r.below(3) {
            let x = self.value();
            let k = self.r.pick(&["ID", "Id", "Name", "NAME", "Tags", "id%20", "+id", "names", "i", "", "tags[]", "Opt", "N", "flag.", "op%74x"]).to_string();
            add(self, &k, x);
        }
        if self.r.pct(20) {
            let x = if bad && self.r.pct(30) { self.r.pick(&["40000", "-", "0x1"]).to_string() } else { (self.r.next() as i16).to_string() };
            add(self, "w", x);
        }
        if self.r.pct(20) {
            let x = (self.r.next() as i32).to_string();
            add(self, "pair", x);
            if !bad {
                add(self, "pair", "second".into());
            }
        }
        if self.r.pct(20) {
            let x = (self.r.next() as i64).to_string();
            add(self, "long", x);
        }
        if self.r.pct(15) {
            let x = self.value();
            add(self, "present", x);
        }
        // further types; and numbers that are nearly right
        for _ in 0..self.r.below(4) {
            let k = *self.r.pick(&["tiny", "half", "word", "f", "names", "nick", "mark", "three"]);
            let wrong = bad && self.r.pct(30);
            let x = match k {
                _ if wrong => self.odd(),
                "tiny" => (self.r.next() as i8).to_string(),
                "half" => (self.r.next() as u16).to_string(),
                "word" => format!("{}{}", self.r.pick(&["", "", "+", "00"]), self.r.next() as u32),
                "f" => self.r.pick(&["1.5", "+3", "-0", "1e-3", "inf", "NaN", ".5", "7."]).to_string(),
                "three" => (self.r.below(256)).to_string(),
                _ => self.value(),
            };
            add(self, k, x);
            if k == "three" && !(bad && self.r.pct(20)) {
                let b = self.r.pick(&["true", "false"]).to_string();
                add(self, k, b);
                let f = if wrong { self.odd() } else { self.r.pick(&["1", "-2.5", "0.1"]).to_string() };
                add(self, k, f);
            }
        }
        if bad && self.r.pct(40) {
            let k = *self.r.pick(&["n", "flag", "r", "small", "w", "long", "pair", "tiny", "half", "word", "f"]);
            let x = self.odd();
            add(self, k, x);
        }
        if self.r.pct(25) {
            add(self, "id", "77".into());
        }
        if self.r.pct(15) {
            add(self, "name", "second".into());
        }
        if big && self.r.pct(50) {
            let x = self.content(max).text();
            add(self, "opt", x);
        }
        if self.r.pct(60) {
            // order across names is free, order within one name matters: rotate
            let k = self.r.us(v.len().max(1));
            let n = k.min(v.len());
            v.rotate_left(n);
        }
        if self.r.pct(10) {
            let i = self.r.us(v.len() + 1);
            v.insert(i, "".into());
        }
        v.join("&")
    }
    fn json_text(&mut self, depth: u32, big: bool) -> serde_json::Value {
        use serde_json::{json, Value};
        match if depth > 3 { self.r.below(4) } else { self.r.below(6) } {
            0 => json!(self.r.next() as i64),
            1 => json!(self.value()),
            2 => json!([true, false][self.r.us(2)]),
            3 => Value::Null,
            4 => {
                let n = if big && depth == 0 { self.r.range(50, 800) } else { self.r.below(4) };
                Value::Array((0..n).map(|_| self.json_text(depth + 1, false)).collect())
            }
            _ => {
                let n = self.r.below(4);
                Value::Object((0..n).map(|i| (format!("k{i}"), self.json_text(depth + 1, false))).collect())
            }
        }
    }
    /// Nearly JSON, or JSON at the edge.
    fn odd_json(&mut self, t: String) -> BodyData {
        let mut b = t.into_bytes();
        let inside = |b: &[u8]| b.iter().position(|c| *c == b'"').map(|i| i + 1);
        let at = self.r.us(b.len() + 1);
        match self.r.below(20) {
            0 | 1 => {
                b.splice(0..0, *b"\xef\xbb\xbf");
            }
            2 | 3 | 4 => {
                let x: &[u8] = self.r.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\xe9"]);
                let i = if self.r.pct(80) { inside(&b).unwrap_or(at) } else { at };
                b.splice(i..i, x.iter().cloned());
            }
            5 => {
                let x: &[u8] = self.r.pick(&[&b"\n"[..], b"\0", b"\t", b"\\x", b"\\ud800", b"\\ud83d\\ude00", b"\\/", b"\\u0000", b"\x7f", b"\\u00e9"]);
                let i = inside(&b).unwrap_or(at);
                b.splice(i..i, x.iter().cloned());
            }
            6 => {
                let n = *self.r.pick(&[100usize, 126, 127, 128, 129, 500, 5000]);
                let (o, c) = *self.r.pick(&[(&b"["[..], &b"]"[..]), (b"{\"a\":", b"}")]);
                b = [o.repeat(n), b, c.repeat(n)].concat();
            }
            7 => {
                let x = b.clone();
                b.extend(x);
            }
            8 => b = b.iter().flat_map(|c| [*c, 0]).collect(),
            9 => b = [&b"\xff\xfe"[..], &b.iter().flat_map(|c| [*c, 0]).collect::<Vec<u8>>()].concat(),
            10 => b.iter_mut().filter(|c| **c == b'"').for_each(|c| *c = b'\''),
            11 => {
                let x: &[u8] = self.r.pick(&[&b"1e400"[..], b"-0", b"01", b"+1", b".5", b"1.", b"NaN", b"Infinity", b"0x10", b"18446744073709551616", b"-9223372036854775809", b"1E5", b"1e-400", b"9007199254740993", b"0.1e1", b"True", b"nul", b"undefined", b"{}{}", b"[1 2]", b"[,]", b"{\"a\":1,}", b"[1,]", b"// c\n1", b"/* */ 1", b"{a:1}", b"\"", b"", b"  ", b"{\"a\":1,\"a\":2}"]);
                b = x.into();
            }
            12 => {
                let x: &[u8] = self.r.pick(&[&b"\0"[..], b",", b"\x0b", b"\xc2\xa0", b"\xe2\x80\xa8", b"}", b"]", b"\x1a", b"#", b";", b"\x0c", b"&", b"=", b"null"]);
                b.extend(x);
            }
            13 => {
                let x: &[u8] = self.r.pick(&[&b"\0"[..], b"\x0b", b"\xc2\xa0", b")]}',\n", b"while(1);", b"json=", b"\x0c", b"\x1e"]);
                b.splice(0..0, x.iter().cloned());
            }
            14 => {
                // the same member twice
                if let Some(i) = b.iter().rposition(|c| *c == b'}') {
                    let x: &[u8] = self.r.pick(&[&b",\"id\":1"[..], b",\"xx\":1", b",\"k0\":1"]);
                    b.splice(i..i, x.iter().cloned());
                }
            }
            15 => {
                let n = self.r.us(b.len() + 1);
                b.truncate(n);
            }
            _ => {
                if !b.is_empty() {
                    let i = self.r.us(b.len());
                    b[i] = self.r.next() as u8;
                }
            }
        }
        match String::from_utf8(b) {
            Ok(t) => BodyData::Text(t),
            Err(e) => BodyData::Raw(e.into_bytes()),
        }
    }
    fn body(&mut self, plan: &mut Plan) -> BodySpec {
        let bad = self.r.pct(self.w.bad_body);
        let big = self.r.pct(self.w.big.max(6));
        let vast = big && self.w.big > 0 && self.r.one_in(12);
        let vast_len = if self.r.one_in(12) { 24_000_000 } else { 4_000_000 };
        if self.r.pct(self.w.decode) {
            plan.mode = *self.r.pick(&[Mode::Form, Mode::Form, Mode::FormMap, Mode::FormMulti, Mode::Json, Mode::Json, Mode::JsonT, Mode::Bytes, Mode::Stream]);
        } else {
            plan.mode = *self.r.pick(&[Mode::Ignore, Mode::Drop, Mode::Bytes, Mode::Stream]);
        }
        let data = match plan.mode {
            Mode::Form | Mode::FormMap | Mode::FormMulti => {
                self.raw = self.r.pct(25);
                let mut t = self.form_text(bad, big, if vast { vast_len } else { 300_000 });
                if self.raw && self.r.pct(30) {
                    // part of the last value
                    t.push_str(self.r.pick(&["\n", "\r\n", " ", "\0", "\t\t", "=", "\u{feff}"]));
                }
                self.raw = false;
                BodyData::Text(t)
            }
            Mode::Json => {
                let v = self.json_text(0, big);
                let mut s = if self.r.pct(20) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
                if self.r.pct(15) {
                    s = format!("{}{s}{}", self.r.pick(&["", " ", "\r\n", "\t\t"]), self.r.pick(&["", "\n", " ", "\r\n\r\n"]));
                }
                if bad {
                    let mut n = self.r.us(s.len() + 1);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                }
                BodyData::Text(s)
            }
            Mode::JsonT => {
                let n = if big { self.r.range(50, 2000) } else { self.r.below(6) };
                let mut l = vec![];
                for _ in 0..n {
                    l.push((self.r.next() as i64 >> self.r.below(64)).to_string());
                }
                let v = if big && self.r.pct(60) { self.content(if vast { vast_len } else { 300_000 }).text() } else { self.value() };
                let v = serde_json::Value::String(v);
                BodyData::Text(format!(
                    "{{\"id\":{},\"name\":{},{}\"list\":[{}]{}}}{}",
                    self.r.next() >> 1,
                    v,
                    self.r.pick(&["", "", "\"Name\":7,", "\"ID\":[],", "\"other\":{\"id\":5},"]),
                    l.join(","),
                    if self.r.pct(20) { ",\"opt\":{\"id\":1,\"name\":\"in\"}" } else { "" },
                    if bad { "x" } else { "" }
                ))
            }
            _ => {
                let max = if !big {
                    3000
                } else if vast {
                    3_000_000
                } else {
                    300_000
                };
                let mut c = self.content(max);
                if self.r.pct(30) {
                    c.kind = CKind::Bin;
                }
                if self.r.pct(8) {
                    c.len = 0;
                }
                BodyData::Gen(c)
            }
        };
        let data = match data {
            BodyData::Text(t) if matches!(plan.mode, Mode::Json | Mode::JsonT) && self.r.pct(12) => self.odd_json(t),
            d => d,
        };
        let len = data.bytes().len();
        let frame = if self.r.pct(self.w.broken) {
            Frame::Broken(self.sizes(len), self.r.below(4) as u32)
        } else if self.r.pct(50) {
            Frame::Length
        } else {
            Frame::Chunked(self.sizes(len))
        };
        BodySpec { data, frame }
    }
    /// Cyclic sizes with at most a few thousand pieces.
    fn sizes(&mut self, total: usize) -> Vec<u32> {
        let min = (total as u64 / 600).max(1);
        let n = self.r.range(1, 3);
        (0..n)
            .map(|_| {
                let x = match self.r.below(4) {
                    0 => self.r.range(1, 8),
                    1 => self.r.logu(4000),
                    2 => total as u64 / 2 + 1,
                    _ => self.r.logu(total.max(2) as u64 + 1),
                };
                x.max(min) as u32
            })
            .collect()
    }
    fn hdrs(&mut self) -> Vec<(String, String)> {
        let names = ["x-a", "x-b", "content-type", "location", "cache-control", "set-cookie", "server", "etag", "x-c"];
        let n = if self.r.one_in(20) { self.r.range(20, 60) } else { self.r.range(0, 5) };
        let mixed = self.r.pct(30);
        let n = self.magic_n(80).unwrap_or(n);
        (0..n)
            .map(|i| {
                if let Some(k) = self.magic_tok(true) {
                    let v = self.magic_tok(false).unwrap_or("v".into());
                    return (k, v);
                }
                let mut k = if n > 10 { format!("x-h{}", i % 40) } else { self.r.pick(&names).to_string() };
                if mixed && self.r.pct(50) {
                    // names mean the same in every case
                    k = if self.r.pct(50) { k.to_ascii_uppercase() } else { k.split('-').map(|p| p[..1].to_ascii_uppercase() + &p[1..]).collect::<Vec<_>>().join("-") };
                }
                let v = match self.r.below(5) {
                    0 => "".to_string(),
                    1 if self.r.one_in(12) => "a".repeat(self.r.logu(20_000) as usize),
                    1 => "a".repeat(self.r.range(1, 300) as usize),
                    2 => self.r.pick(&["two words; q=0.5, \"x\"", "é", " spaced ", "a,b", "x: y"]).to_string(),
                    _ => format!("v{}", self.r.below(10)),
                };
                (k, v)
            })
            .collect()
    }
    fn out(&mut self, files: &[String]) -> Out {
        let w = self.w.clone();
        let x = self.r.below(100);
        let mut t = 0;
        let mut hit = |p: u64| {
            t += p;
            x < t
        };
        if hit(w.err) {
            if let Some(m) = self.magic() {
                return Out::Err(EKind::General(if self.r.pct(50) { m } else { format!("failed {m} here") }));
            }
            if let Some(n) = self.magic_n(300_000) {
                return Out::Err(EKind::General(if self.r.pct(70) { "e".repeat(n as usize) } else { "é".repeat(n as usize / 2 + 1) }));
            }
            return Out::Err(match self.r.below(7) {
                0 => EKind::Param(format!("param trouble {}", self.r.below(99))),
                1 => EKind::Form(format!("form trouble {}", self.r.below(99))),
                2 => EKind::Json(self.r.pick(&["{", "[1,", "nul", "\"abc"]).to_string()),
                3 => EKind::None,
                4 => EKind::NoParam,
                5 => EKind::General(self.r.pick(&["", "first line\nsecond line", "\nstarts empty", "a\r\nb\r\n\r\nc", "tab\there", "trailing\n", "{} {:?}", "<b>&amp;"]).to_string()),
                _ => EKind::General(if self.r.pct(10) { "long error ".repeat(*self.r.pick(&[900, 90, 25, 7000])) } else { format!("failed with é {}", self.r.below(99)) }),
            });
        }
        if hit(w.noresp) {
            return Out::NoResp;
        }
        if hit(w.bad_header) {
            return Out::BadHeader(self.r.below(4) as u8);
        }
        if hit(w.panic) {
            return Out::Panic(self.r.below(5) as u8);
        }
        if hit(w.file) && !files.is_empty() {
            let f = self.r.pick(files).clone();
            let p = match self.r.below(6) {
                0 => "no/such/file".into(),
                1 => "assets".into(),
                _ => f.strip_prefix("/srv/app/").map(|s| s.to_string()).unwrap_or(f),
            };
            return if self.r.pct(30) {
                Out::FileWith { path: p, headers: self.hdrs() }
            } else {
                Out::File { path: p, status: 0 }
            };
        }
        if hit(w.big) {
            let max = if self.r.pct(10) { 2_000_000 } else { 200_000 };
            let c = self.content(max);
            return match self.r.below(5) {
                0 => Out::Bytes(Content { kind: CKind::Bin, len: c.len / 4, seed: c.seed }),
                1 => Out::Json(c),
                _ => Out::Text(c),
            };
        }
        if hit(w.stream) {
            let data = self.content(60_000);
            let chunks = self.sizes(data.len * 12);
            return Out::Stream {
                data,
                chunks,
                pause: if self.r.pct(40) { self.r.logu(3 * MS) } else { 0 },
                abort: if self.r.pct(w.abort) { Some(self.r.below(5) as u32) } else { None },
            };
        }
        match self.r.below(13) {
            0 => Out::Text(self.content(2000)),
            1 => Out::Json(self.content(500)),
            2 => Out::Bytes(Content { kind: CKind::Bin, len: self.r.below(300) as usize, seed: self.r.next() >> 12 }),
            3 => Out::Status(*self.r.pick(&[200, 201, 204, 304, 400, 401, 404, 418, 500, 503, 599])),
            4 => Out::Unit,
            5 => Out::Shape(self.r.below(11) as u8),
            _ if self.r.pct(w.headers) => Out::EchoWith {
                status: *self.r.pick(&[200, 200, 201, 202, 400, 404, 500, 299, 451, 206, 301, 307, 405, 429, 502, 599, 207, 226, 511, 666, 999]),
                headers: self.hdrs(),
                via: self.r.below(9) as u8,
            },
            _ => Out::Echo,
        }
    }
    fn mwdirs(&mut self, n: u32) -> Vec<MwDir> {
        let mut v = vec![];
        for mid in 1..n {
            let mut d = MwDir { mid, ..Default::default() };
            d.pre = self.pauses();
            d.post = self.pauses();
            if self.r.pct(self.w.bump / 2) {
                d.bump = self.r.range(1, 9) as u32;
            }
            if self.r.pct(self.w.mwact) {
                let t = format!("mw{} says {}", mid, self.r.below(99));
                d.act = match self.r.below(14) {
                    12 | 13 => MwAct::Preset { status: *self.r.pick(&[200, 202, 404, 503]), text: t },
                    0 => MwAct::Short { status: *self.r.pick(&[200, 401, 403, 503]), text: t },
                    1 => MwAct::ShortNone,
                    2 => MwAct::ErrBefore(t),
                    3 => MwAct::ErrAfter(t),
                    4 | 5 => MwAct::Header(self.r.pick(&["x-mw", "x-a", "content-type", "x-b"]).to_string(), t),
                    6 => MwAct::Replace { status: 202, text: t },
                    7 => MwAct::Recover { status: 299 },
                    8 => MwAct::MapErr(t),
                    9 if self.r.pct(self.w.panic) => MwAct::PanicBefore,
                    10 if self.r.pct(self.w.panic) => MwAct::PanicAfter,
                    _ => MwAct::Pass,
                };
            }
            if d != (MwDir { mid, ..Default::default() }) {
                v.push(d);
            }
        }
        v
    }
    fn request(&mut self, f: &Flat, files: &[String], statics: &[(Vec<String>, String)], c: usize, i: usize, last: bool) -> ReqSpec {
        let mut q = ReqSpec::default();
        if last && self.r.pct(self.w.garbage) {
            let g = [
                "GARBAGE\r\n\r\n",
                "GET\r\n\r\n",
                "GET /x HTTP/9.9\r\n\r\n",
                "\0\0\0\0\0\0\0\0\0\0\r\n\r\n",
                "GET / HTTP/1.1\r\nbad header\r\n\r\n",
                "POST / HTTP/1.1\r\ncontent-length: ten\r\n\r\nxxxxxxxxxx",
                "POST / HTTP/1.1\r\ncontent-length: 3\r\ncontent-length: 4\r\n\r\nxxxx",
                "GET / HTTP/1.1\r\nhost: a\r\nx: \u{1}\r\n\r\n",
                "POST / HTTP/1.1\r\ntransfer-encoding: weird\r\n\r\n",
                "GET /a b c HTTP/1.1\r\n\r\n",
                "PRI * HTTP/2.0\r\n\r\nXX\r\n\r\n",
            ];
            q.garbage = Some(self.r.pick(&g).to_string());
            q.method = "GET".into();
            q.target = "/".into();
            return q;
        }
        // target
        let (mut m, pat) = self.r.pick(&f.patterns).clone();
        let st = statics.iter().find(|s| s.0 == pat && m == "GET").map(|s| s.1.clone());
        let mut v = self.path_for(&pat, files, st.as_deref());
        if self.r.pct(self.w.miss) {
            match self.r.below(5) {
                0 => m = self.r.pick(METHODS).to_string(),
                1 => m = self.r.pick(&["HEAD", "OPTIONS", "TRACE", "FOO"]).to_string(),
                2 => v = (0..self.r.range(0, 5)).map(|_| self.seg_word()).collect(),
                3 => {
                    let w = self.seg_word();
                    v.push(w);
                }
                _ => {
                    v.pop();
                }
            }
        }
        if self.r.pct(self.w.near) && !v.is_empty() {
            // nearly the same path
            let j = self.r.us(v.len());
            match self.r.below(9) {
                7 => v[j] = if v[j].chars().any(|c| c.is_ascii_lowercase()) { v[j].to_ascii_uppercase() } else { v[j].to_ascii_lowercase() },
                8 => {
                    // one character written as an escape, or an escape added
                    let s = v[j].clone();
                    if s.is_ascii() && !s.is_empty() {
                        let k = self.r.us(s.len());
                        v[j] = format!("{}%{:02x}{}", &s[..k], s.as_bytes()[k], &s[k + 1..]);
                    }
                }
                0 => {
                    let s = v[j].clone();
                    if s.len() > 1 && s.is_ascii() {
                        let k = 1 + self.r.us(s.len() - 1);
                        v[j] = s[..k].into();
                        v.insert(j + 1, s[k..].into());
                    }
                }
                1 => {
                    if j + 1 < v.len() {
                        let t = v.remove(j + 1);
                        v[j].push_str(&t);
                    }
                }
                2 => {
                    v[j].pop();
                    if v[j].is_empty() {
                        v.remove(j);
                    }
                }
                3 => {
                    let w = self.r.pick(&self.words).to_string();
                    v[j].push_str(&w);
                }
                4 => v[j] = self.r.pick(&self.words).to_string(),
                5 => {
                    v.truncate(j);
                }
                _ => {
                    let w = self.r.pick(&self.words).to_string();
                    v.insert(j, w);
                }
            }
        }
        let mut path = match self.r.below(10) {
            0 => format!("//{}", v.join("//")),
            1 => format!("/{}/", v.join("/")),
            _ => format!("/{}", v.join("/")),
        };
        if path.len() > 6000 {
            path.truncate(6000);
        }
        // methods are told apart by case: "get" is registered nowhere
        q.method = if m != "HEAD" && self.r.pct(2) { m.to_lowercase() } else { m };
        q.plan.out = self.out(files);
        q.plan.pre = self.pauses();
        q.plan.mid = self.pauses();
        q.plan.post = self.pauses();
        q.plan.tolerate = self.r.pct(40);
        if self.r.pct(self.w.bump) {
            q.plan.bump = self.r.range(1, 9) as u32;
        }
        q.plan.hold = self.r.pct(self.w.hold);
        let nm = self.next_mid;
        q.plan.mws = self.mwdirs(nm);
        if self.r.pct(self.w.query) {
            q.plan.query = true;
            let bad = self.r.pct(self.w.bad_body);
            let t = self.form_text(bad, false, 0);
            path.push('?');
            path.push_str(&t);
            path.push_str(&format!("&u={}", rid(c, i)));
        } else if let Some(m) = self.magic() {
            let (k, v) = (self.enc(&m), self.value());
            let v = self.enc(&v);
            path.push_str(&format!("?{k}={v}&u={}", rid(c, i)));
        } else if self.r.one_in(15) {
            path.push_str(&format!("?{}&u={}", self.r.pick(&["", "?", "/../..", "/a/b?c", "%", "a=b=c&&;", "*", ":id", "x=%00", "..", "//", "=", "'", "[0]=1"]), rid(c, i)));
        } else if f.has_logger || self.r.pct(30) {
            path.push_str(&format!("?u={}", rid(c, i)));
        }
        if path.len() > 30_000 {
            // hyper refuses targets of more than 65534 bytes
            let at = path.as_bytes()[..30_000].iter().rposition(|b| *b == b'&' || *b == b'?').unwrap_or(0);
            path.truncate(at);
            path.push_str(&format!("{}u={}", if path.contains('?') { "&" } else { "?" }, rid(c, i)));
        }
        if let Some((a, b)) = path.split_once('?') {
            // not allowed in a query
            path = format!("{a}?{}", b.replace('"', "'"));
        }
        q.target = path;
        if q.method != "GET" && q.method != "HEAD" && self.r.pct(if self.w.body == 0 { 0 } else { self.w.body.max(20) }) || self.r.pct(self.w.body / 2) {
            let mut plan = std::mem::take(&mut q.plan);
            q.body = Some(self.body(&mut plan));
            q.plan = plan;
            if self.r.pct(self.w.expect) {
                q.expect = true;
            }
        }
        if q.broken() && !last {
            if let Some(b) = &mut q.body {
                b.frame = Frame::Length;
            }
        }
        if self.r.one_in(12) {
            q.extra_headers = self.r.range(1, 30) as u32;
        }
        if self.r.one_in(25) {
            q.big_head = self.r.logu(150_000) as u32;
        }
        if let Some(n) = self.magic_n(90) {
            q.extra_headers = n as u32;
        }
        if let Some(n) = self.magic_n(150_000) {
            q.big_head = n as u32;
        }
        while let Some(k) = self.magic_tok(true) {
            let v = match self.magic_tok(false) {
                Some(v) => v,
                None => self.r.pick(&["1", "true", "", "x", "/a", "DELETE", "0", "gzip"]).to_string(),
            };
            if q.hdrs.len() < 4 && !q.hdrs.iter().any(|x| x.0.eq_ignore_ascii_case(&k)) {
                q.hdrs.push((k, v));
            }
        }
        q.abs = self.r.one_in(25);
        q.no_host = self.r.one_in(25);
        if self.r.pct(25) {
            let all = [
                ("connection", "keep-alive"),
                ("Connection", "Keep-Alive"),
                ("CONNECTION", "keep-alive, x-hop"),
                ("accept", "*/*"),
                ("accept", "application/json"),
                ("accept-encoding", "gzip, br"),
                ("if-none-match", "*"),
                ("if-modified-since", "Thu, 01 Jan 2099 00:00:00 GMT"),
                ("range", "bytes=0-3"),
                ("range", "bytes=5-"),
                ("cookie", "a=b; c=d"),
                ("x-forwarded-for", "1.2.3.4"),
                ("x-http-method-override", "DELETE"),
                ("content-type", "application/json"),
                ("content-type", "application/x-www-form-urlencoded"),
                ("content-type", "text/plain"),
                ("content-type", "application/x-www-form-urlencoded; charset=iso-8859-1"),
                ("content-type", "application/json; charset=utf-16"),
                ("content-encoding", "gzip"),
                ("content-encoding", "identity"),
                ("upgrade", "websocket"),
                ("upgrade", "h2c"),
                ("x-original-url", "/"),
                ("x-rewrite-url", "/te"),
                ("x-forwarded-prefix", "/a"),
                ("forwarded", "for=1.2.3.4;host=elsewhere"),
                ("if-match", "\"x\""),
                ("if-range", "Thu, 01 Jan 2099 00:00:00 GMT"),
                ("accept-language", "de, en;q=0.5"),
                ("prefer", "return=minimal"),
                ("priority", "u=0"),
                ("sec-fetch-mode", "navigate"),
                ("content-type", "multipart/form-data; boundary=x"),
                ("user-agent", "sim"),
                ("x-a", "first"),
                ("X-A", " second  "),
                ("x-a", ""),
                ("x-a", "\u{e9}"),
                ("x-request-id", "7"),
                ("cache-control", "no-cache"),
                ("te", "trailers"),
                ("origin", "http://elsewhere"),
                ("authorization", "Basic Og=="),
            ];
            for _ in 0..self.r.range(1, 5) {
                let h = self.r.pick(&all);
                let v = match self.magic_tok(false) {
                    Some(v) if !h.0.eq_ignore_ascii_case("connection") && h.0 != "upgrade" => v,
                    _ => h.1.to_string(),
                };
                if !q.hdrs.iter().any(|x| x.0.eq_ignore_ascii_case(h.0)) || h.0.eq_ignore_ascii_case("x-a") {
                    q.hdrs.push((h.0.into(), v));
                }
            }
        }
        if last {
            q.close = self.r.pct(12) && !q.hdrs.iter().any(|h| h.0.eq_ignore_ascii_case("connection"));
            q.http10 = !q.close && self.r.pct(6) && !q.expect;
            if q.http10 {
                if let Some(b) = &mut q.body {
                    b.frame = Frame::Length;
                }
            }
        }
        q
    }
    fn conn(&mut self, mut reqs: Vec<ReqSpec>, c: usize, tot: usize) -> ConnSpec {
        // the client leaves while its last request is being handled
        let desert = self.r.pct(self.desert) && reqs.iter().all(|q| q.body.is_none() && !q.expect && q.garbage.is_none());
        if desert {
            if let Some(q) = reqs.last_mut() {
                let d = self.r.range(15, 200) * SEC;
                let at = if self.r.pct(70) || q.plan.mws.is_empty() {
                    &mut q.plan.pre
                } else {
                    let k = self.r.us(q.plan.mws.len());
                    &mut q.plan.mws[k].pre
                };
                at.push(Pause::Sleep(d));
            }
        }
        let mut bytes = 0;
        let mut rbytes = 2000;
        for (i, q) in reqs.iter().enumerate() {
            let (h, b) = q.encode(rid(c, i));
            bytes += h.len() + b.len();
            rbytes += match &q.plan.out {
                Out::Text(c) | Out::Json(c) => c.len + 300,
                Out::Bytes(c) => c.len * 4 + 300,
                Out::Stream { data, .. } => data.len + 300,
                _ => 600,
            };
        }
        let slow = self.r.pct(self.w.slow_read);
        let cap = match self.r.below(5) {
            0 if slow => self.r.logu(400),
            1 => 1 << 20,
            2 => 65536,
            _ => self.r.logu(300_000),
        }
        .max(rbytes as u64 / 400 + 1) as usize;
        let seg = match self.r.below(4) {
            0 => vec![(bytes as u32).max(1)],
            _ => self.sizes(bytes),
        };
        let ngap = self.r.range(1, 3);
        let gap = (0..ngap)
            .map(|_| match self.r.below(3) {
                0 => 0,
                1 => self.r.logu(100_000),
                _ => self.r.logu(5 * MS),
            })
            .collect();
        let rd = if slow { self.sizes(rbytes) } else { vec![1 << 16] };
        let window = if self.r.pct(self.w.pipeline) { *self.r.pick(&[2, 3, 64]) } else { 1 };
        let mut s = ConnSpec {
            at: if self.r.pct(40) { 0 } else { self.r.logu(60 * MS) },
            cap,
            window,
            seg,
            gap,
            send_stalls: vec![],
            rd,
            rd_delay: if slow { self.r.logu(3 * MS) } else { self.r.logu(200_000) },
            rd_stalls: vec![],
            cut: None,
            linger: if self.r.one_in(12) { self.r.range(12, 40) * SEC } else { self.r.logu(20 * MS) },
            rst_close: self.r.pct(10),
            reqs,
        };
        if self.r.pct(12) {
            let d = self.stall();
            let mut at = self.r.below(bytes as u64 + 1);
            if self.r.pct(60) {
                // within a body, of which the server has part by then
                let mut p = 0;
                for (i, q) in s.reqs.iter().enumerate() {
                    let (h, b) = q.encode(rid(c, i));
                    p += h.len() as u64;
                    if b.len() > 1 && self.r.pct(50) {
                        at = p + self.r.below(b.len() as u64);
                        break;
                    }
                    p += b.len() as u64;
                }
            }
            s.send_stalls.push((at, d));
        }
        if self.r.pct(12) {
            let d = self.stall();
            s.rd_stalls.push((self.r.below(rbytes as u64), d));
        }
        if self.r.pct(self.w.cut) {
            let when = match self.r.below(5) {
                0 | 1 | 2 => CutWhen::Sent(self.r.below(bytes as u64 + 1)),
                3 => CutWhen::Received(self.r.below(rbytes as u64)),
                _ => CutWhen::At(self.r.logu(150 * MS)),
            };
            let kind = if self.r.pct(self.w.silent) {
                CutKind::Silent
            } else if self.r.pct(50) {
                CutKind::Rst
            } else {
                CutKind::Fin
            };
            s.cut = Some((when, kind));
        }
        if desert {
            s.cut = Some((CutWhen::At(self.r.logu(10 * SEC)), CutKind::Rst));
        } else if s.cut.is_none() && self.r.pct(self.w.silent) && tot > 1 {
            s.cut = Some((CutWhen::Sent(self.r.below(bytes as u64 + 1)), CutKind::Silent));
        }
        s
    }
}

/// Mostly spread evenly over the orders of magnitude, sometimes at a boundary.
fn len(r: &mut Rng, max: u64) -> usize {
    if r.one_in(8) {
        let b = 1u64 << r.range(6, 20);
        let n = (b * r.range(1, 3) + r.below(3)).saturating_sub(1);
        if n <= max {
            return n as usize;
        }
    }
    r.logu(max) as usize
}
fn files(g: &mut G) -> Vec<FsEntry> {
    let mut v = vec![];
    let mut extra = vec![];
    for _ in 0..6 {
        if let Some(m) = g.magic_seg() {
            if m != ".." && m != "." && m.len() < 60 {
                let d = *g.r.pick(&["assets/a.txt", "pub/f", "assets/", "pub/", "public/files/"]);
                extra.push(format!("{d}{m}"));
            }
        }
    }
    // one long file, or one whose size is special
    let long = g.magic_n(12_000_000).or(if g.r.one_in(150) { Some(g.r.range(2_500_000, 12_000_000)) } else { None });
    let small = g.magic_n(500_000);
    let r = &mut g.r;
    for d in ["/srv", "/srv/app", "/srv/app/assets", "/srv/app/assets/sub", "/srv/app/assets/sub/deep", "/srv/app/public", "/srv/app/public/files",
        "/srv/app/pub", "/srv/app/pub2", "/srv/app/assets-private", "/etc", "/srv/app/empty"]
    {
        v.push(FsEntry { path: d.into(), data: None });
    }
    let big = if r.pct(12) {
        300_000
    } else if r.one_in(60) {
        2_500_000
    } else {
        4000
    };
    for p in ["assets/a.txt", "assets/b.bin", "assets/index.html", "assets/sub/c.txt", "assets/sub/deep/d.bin", "assets/empty", "assets/a",
        "public/files/p.txt", "public/files/q.bin", "pub/f", "pub/te", "assets/A.TXT", "assets/.hidden", "assets/a.tar.gz", "assets/a..b",
        "assets/%41.txt", "assets/sub/index.html", "assets/...", "assets/a+b", "pub/x.", "pub/~", "assets/assets/a.txt", "pub/-", "assets/a.txt.gz", "assets/a.txt.br",
        "assets/a.txt~", "public/files/index.html", "pub/TE", "assets/b.bin.gz", "assets/sub.html"]
        .into_iter().chain(extra.iter().map(|x| x.as_str()))
    {
        if v.iter().any(|f: &FsEntry| f.path == format!("/srv/app/{p}")) {
            continue;
        }
        if r.pct(if v.len() < 25 { 80 } else { 35 }) {
            let kind = *r.pick(&[CKind::Ascii, CKind::Utf8, CKind::Bin, CKind::Bin, CKind::Crlf, CKind::Blank]);
            let len = if p.ends_with("empty") || r.one_in(15) { 0 } else { len(r, big) };
            v.push(FsEntry { path: format!("/srv/app/{p}"), data: Some(Content { kind, len, seed: r.next() >> 12 }) });
        }
    }
    for n in long.into_iter().chain(small) {
        let k = r.us(v.len());
        if let Some(d) = &mut v[k].data {
            d.len = n as usize;
        }
    }
    for p in ["/srv/app/secret.txt", "/srv/app/assets-private/key", "/srv/app/pub2/f", "/srv/secret.txt", "/etc/passwd"] {
        v.push(FsEntry { path: p.into(), data: Some(Content { kind: CKind::Ascii, len: 120, seed: r.next() >> 12 }) });
    }
    v
}

pub fn generate(profile: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed ^ fnv(profile.as_bytes()).rotate_left(17));
    let mut w = base();
    // a quarter of the runs is unfocused
    if !r.pct(20) {
        focus(profile, &mut w);
    }
    // swarm: switch some features off altogether
    for x in [
        &mut w.pause, &mut w.cut, &mut w.logger, &mut w.nest, &mut w.slow_read, &mut w.fsfault, &mut w.swap, &mut w.stdout, &mut w.accept,
        &mut w.mwact, &mut w.garbage, &mut w.broken, &mut w.panic, &mut w.expect, &mut w.giant,
    ] {
        if r.pct(15) {
            *x = 0;
        }
    }
    let huge = r.pct(w.huge);
    let mut g = G { r: r.fork(), w, next_hid: 1, next_mid: 1, next_base: 0, words: vec![], raw: false, mounts: vec![], uniq: None, forms: vec![], pm: 0, pn: 0, flat: 0, desert: if profile == "C12" { 6 } else { 1 } };
    if !dict().strs.is_empty() {
        g.pm = *g.r.pick(&[0, 4, 20]);
    }
    if !dict().ints.is_empty() {
        g.pn = *g.r.pick(&[0, 2, 10]);
    }
    if huge && g.r.pct(40) {
        g.w.mws = (16, 40);
    }
    let app = g.app();
    let flat = model::flatten(&app).unwrap();
    let fs = files(&mut g);
    let fnames: Vec<String> = fs.iter().filter(|f| f.data.is_some()).map(|f| f.path.clone()).collect();
    // patterns of static mounts
    let mut statics: Vec<(Vec<String>, String)> = vec![];
    collect_statics(&app.steps, &[], &mut statics);
    let (mut nc, mut nr) = (g.r.range(g.w.conns.0, g.w.conns.1), g.w.reqs);
    if huge {
        match g.r.below(3) {
            0 => nc = g.r.range(33, 80),
            1 => nr = (100, 300),
            _ => {}
        }
    }
    let mut nc_at = None;
    let mut nr_at = None;
    if g.pn > 0 && g.r.pct(20) {
        if g.r.pct(50) {
            nc_at = g.magic_at(600).filter(|n| *n > 1);
            nc = nc_at.unwrap_or(nc);
        } else {
            nr_at = g.magic_at(4000).filter(|n| *n > 1);
            nr = nr_at.map_or(nr, |n| (n, n));
            if nr_at.is_some() {
                nc = nc.min(3);
            }
        }
    }
    if nc > 30 || nr.1 > 90 {
        g.w.big = 0;
        g.w.pause /= 4;
    }
    if g.r.below(1000) < g.w.storm {
        // many short requests, most of which go wrong in the same way
        nc = nc_at.unwrap_or(g.r.range(60, 280)).max(20);
        nr = (1, 4);
        let w = &mut g.w;
        for x in [&mut w.big, &mut w.slow_read, &mut w.giant, &mut w.silent, &mut w.body, &mut w.cut, &mut w.err, &mut w.stream, &mut w.panic, &mut w.mwact, &mut w.garbage, &mut w.file] {
            *x /= 8;
        }
        w.pause = 20;
        match g.r.below(11) {
            0 | 1 => w.panic = 60,
            2 | 3 => {
                w.cut = 80;
                w.pause = 50;
            }
            4 => w.err = 75,
            5 => w.noresp = 75,
            6 => {
                w.body = 95;
                w.decode = 95;
                w.bad_body = 70;
                w.broken = 40;
            }
            7 => w.file = 80,
            8 => {
                w.mwact = 90;
                w.panic = 60;
            }
            9 => {
                w.stream = 80;
                w.abort = 90;
            }
            _ => w.miss = 90,
        }
    }
    // most clients are held up for long, the others must not notice
    let mass = g.r.below(1000) < g.w.giant / 4;
    if mass {
        nc = if g.r.one_in(4) { g.r.range(150, 700) } else { g.r.range(20, 150) };
        nc = nc_at.map_or(nc, |n| (n + 9).max(20));
        nr = (1, 3);
        for x in [&mut g.w.big, &mut g.w.slow_read, &mut g.w.stream, &mut g.w.body, &mut g.w.giant] {
            *x /= 8;
        }
    }
    // a long life: thousands of requests, of which hardly any goes wrong
    let marathon = !mass && (g.r.below(1000) < g.w.marathon || nr_at.is_some_and(|n| n > 90));
    // many clients at the very same time
    let burst = !mass && !marathon && (g.r.below(1000) < g.w.burst || nc_at.is_some_and(|n| n > 30) && g.r.pct(50));
    if marathon || burst {
        let w = &mut g.w;
        for x in [&mut w.big, &mut w.slow_read, &mut w.giant, &mut w.silent, &mut w.cut, &mut w.garbage, &mut w.broken, &mut w.stream, &mut w.panic, &mut w.abort] {
            *x = 0;
        }
        w.body = if marathon && g.r.pct(60) { 0 } else { w.body / 3 };
        w.file /= 3;
        w.pause = if g.r.pct(50) { 0 } else { 10 };
        w.expect = 0;
        if marathon {
            g.uniq = Some(0);
            nc = *g.r.pick(&[1, 2, 3, 8, 40, 400]);
            let total = g.r.range(2500, 7000);
            let n = (total / nc).clamp(2, 4000);
            nr = (n, n);
            if let Some(n) = nr_at {
                nc = g.r.range(1, 3);
                nr = (n, n);
            }
        } else {
            nc = nc_at.unwrap_or(g.r.range(130, 420));
            nr = (1, 2);
        }
    }
    let mut conns = vec![];
    for c in 0..nc as usize {
        let n = if huge && nr.1 > 90 && c > 1 { 2 } else { g.r.range(nr.0, nr.1) };
        let mut reqs: Vec<ReqSpec> = vec![];
        for i in 0..n as usize {
            let mut q = g.request(&flat, &fnames, &statics, c, i, i + 1 == n as usize);
            if i > 0 && g.r.one_in(7) && q.garbage.is_none() {
                // the same request again
                let mut p = reqs[g.r.us(reqs.len())].clone();
                let u = format!("u={}", rid(c, i));
                if let Some((a, _)) = p.target.rsplit_once("u=") {
                    p.target = format!("{a}{u}");
                }
                p.close = q.close;
                p.http10 = q.http10 && p.body.is_none();
                if p.garbage.is_none() && !p.broken() && !(q.http10 && p.expect) {
                    q = p;
                }
            }
            reqs.push(q);
        }
        let mut spec = g.conn(reqs, c, nc as usize);
        if marathon || burst {
            spec.send_stalls.clear();
            spec.rd_stalls.clear();
            let all = spec.seg.iter().map(|x| *x as u64).max().unwrap_or(1);
            if all < 200 {
                spec.seg = vec![200, 3000];
            }
            spec.rd = vec![1 << 16];
            spec.rd_delay /= 8;
            spec.gap.iter_mut().for_each(|x| *x /= 50);
            spec.cap = spec.cap.max(4000);
            if burst {
                spec.at /= 2000;
            }
        }
        conns.push(spec);
    }
    let pn = g.pn;
    let r = &mut g.r;
    let w = g.w.clone();
    let gap = match r.below(8) {
        0 => 0,
        1 => r.range(5, 20),
        2 | 3 | 4 => r.logu(40_000).max(20),
        _ => r.logu(4000).max(20),
    };
    let gap = if (marathon || burst) && gap > 0 { gap.max(600) } else { gap };
    let mut s = Scenario {
        profile: profile.into(),
        seed,
        sched: SchedCfg {
            seed: r.next() >> 1,
            gap,
            noise: *r.pick(&[0, 5, 20, 50, 100]),
            tick: *r.pick(&[10, 50, 200, 1000]),
            epoll_intr: if r.pct(15) { r.range(2, 9) as u32 } else { 0 },
            spurious: if r.pct(15) { r.range(2, 9) as u32 } else { 0 },
            hash_seed: r.next() >> 1,
            replay: None,
        },
        workers: *r.pick(&[0, 1, 2, 3, 4, 2]),
        app,
        conns,
        fs,
        ..Default::default()
    };
    s.fs_latency = if r.pct(50) { r.logu(400_000) } else { 0 };
    s.fs_max_read = if r.pct(30) { r.logu(5000) as usize + 16 } else { 0 };
    if s.fs_max_read > 0 {
        let most = s.fs.iter().filter_map(|f| f.data.as_ref()).map(|d| d.len).max().unwrap_or(0);
        s.fs_max_read = s.fs_max_read.max(most / 20_000);
    }
    if r.pct(w.accept) {
        let n = match r.below(12) {
            0 => r.range(5, 60),
            1 if pn > 0 => r.pick(&dict().ints).min(&300) + 1,
            _ => r.range(1, 4),
        };
        let near = r.logu(80 * MS);
        for i in 0..n {
            s.accept_faults.push((
                if n > 4 { near + i * 1000 } else { r.logu(80 * MS) },
                *r.pick(&[libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::EINTR, libc::ENOBUFS, libc::ECONNRESET, libc::EPROTO, libc::EPERM]),
            ));
        }
    }
    // paths that requests actually touch
    let mut touched: Vec<String> = vec![];
    for c in &s.conns {
        for q in &c.reqs {
            if let model::Route::Found { h: model::HK::Static(d), rest, .. } = flat.route(&q.method, q.path()) {
                let d: Vec<String> = model::segs(&d).into_iter().filter(|x| x != ".").collect();
                touched.push(format!("/srv/app/{}/{}", d.join("/"), rest.join("/")));
            }
            match &q.plan.out {
                Out::File { path, .. } | Out::FileWith { path, .. } => touched.push(format!("/srv/app/{path}")),
                _ => {}
            }
        }
    }
    if !touched.is_empty() && r.pct(w.fsfault) {
        for _ in 0..r.range(1, 4) {
            let path = r.pick(&touched).clone();
            let op = *r.pick(&[FsOp::Open, FsOp::Read, FsOp::Read, FsOp::Read, FsOp::Stat]);
            let act = match r.below(4) {
                0 => FsAct::Short(r.logu(2000) as usize),
                1 => FsAct::Stall(r.logu(400 * MS)),
                _ => FsAct::Err(*r.pick(&[libc::EIO, libc::EINTR, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EISDIR, libc::ESTALE])),
            };
            s.fs_faults.push(FsFault { path, op, nth: r.below(4) as u32, act });
        }
    }
    if !touched.is_empty() && r.pct(w.swap) {
        for _ in 0..r.range(1, 5) {
            let path = r.pick(&touched).clone();
            if !fnames.contains(&path) {
                continue;
            }
            let data = if r.pct(12) {
                None
            } else {
                let was = s.fs.iter().find(|f| f.path == path).and_then(|f| f.data.as_ref()).map_or(0, |d| d.len);
                let len = match r.below(5) {
                    0 => was,
                    1 => was / 2,
                    2 => was + r.logu(was as u64 + 2) as usize,
                    _ => r.logu(6000) as usize,
                };
                Some(Content { kind: *r.pick(&[CKind::Ascii, CKind::Bin, CKind::Utf8]), len, seed: r.next() >> 12 })
            };
            let on = if r.pct(50) {
                Some((*r.pick(&[FsOp::Open, FsOp::Read, FsOp::Read, FsOp::Stat]), r.logu(12) as u32))
            } else {
                None
            };
            s.fs_swaps.push(FsSwap { at: r.logu(120 * MS), path, data, on });
        }
        s.fs_swaps.sort_by_key(|x| x.at);
    }
    if flat.has_logger && r.pct(w.stdout) {
        for _ in 0..r.range(1, 6) {
            let n = if r.pct(85) { 8 + r.logu(200) } else { r.below(8) } as u32;
            let e = match r.below(5) {
                0 => -(r.range(1, 30) as i32),
                1 => libc::EINTR,
                _ => *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN]),
            };
            s.stdout_faults.push((n.max(if e < 0 || e == libc::EINTR { 0 } else { 16 }), e));
        }
        if r.pct(35) {
            s.stdout_dead = Some((r.range(16, 80) as u32, *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN])));
        }
    }
    if r.pct(w.stdout / 3) {
        s.stderr_dead = Some(*r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN, libc::EBADF]));
    }
    if w.clash > 0 && r.pct(w.clash) {
        for _ in 0..10 {
            let (m, p) = r.pick(&flat.patterns).clone();
            let st = if r.pct(50) {
                Step::Route { method: m, path: style(r, &p), hid: 9999 }
            } else {
                // a nested router over a path that has routes at or below it
                let n = r.us(p.len() + 1);
                let pre: Vec<String> = p[..n].to_vec();
                let steps = vec![Step::Route { method: "GET".into(), path: "/zz".into(), hid: 9999 }];
                if n == 1 && !pre[0].starts_with(':') && r.pct(50) {
                    Step::Scope { name: pre[0].clone(), steps }
                } else {
                    Step::Mount { path: style(r, &pre), steps, base: 0 }
                }
            };
            let mut root = model::flatten(&s.app).unwrap().root;
            match model::apply(&mut root, &st) {
                Err(e) if e == "duplicate" || e.starts_with("mount over") => {
                    s.clash = Some(st);
                    break;
                }
                _ => {}
            }
        }
    }
    if r.pct(w.jumps) {
        for _ in 0..r.range(1, 4) {
            let mag = r.logu(400_000 * SEC) as i64;
            let j = if r.pct(50) { mag } else { -mag };
            s.clock_jumps.push((r.logu(100 * MS), j));
        }
    }
    if mass {
        let kind = r.below(4);
        let d = r.range(250, 400) * SEC;
        let free = r.range(2, 8) as usize;
        for c in 0..s.conns.len().saturating_sub(free) {
            let n = s.conns[c].reqs.len();
            let qi = r.us(n);
            let q = &mut s.conns[c].reqs[qi];
            match if kind == 3 { r.below(3) } else { kind } {
                0 => q.plan.pre.push(Pause::Sleep(d)),
                1 => {
                    let l = q.encode(rid(c, qi)).0.len() as u64;
                    s.conns[c].send_stalls = vec![(r.below(l), d)];
                }
                _ => s.conns[c].rd_stalls = vec![(r.below(400), d)],
            }
        }
        let n = s.conns.len();
        for c in n.saturating_sub(free)..n {
            s.conns[c].at += r.logu(200 * MS);
        }
    }
    // one giant stall that others must not notice
    if s.conns.len() > 1 && r.pct(w.giant) {
        let c = r.us(s.conns.len());
        let d = r.range(250, 400) * SEC;
        let bytes: u64 = s.conns[c].reqs.iter().enumerate().map(|(i, q)| q.encode(rid(c, i)).0.len() as u64).sum();
        let nreq = s.conns[c].reqs.len();
        let qi = r.us(nreq);
        match r.below(5) {
            0 if r.pct(40) => {
                // idle between two requests
                let k = &s.conns[c];
                let upto: usize = k.reqs[..qi].iter().enumerate().map(|(i, q)| { let (h, b) = q.encode(rid(c, i)); h.len() + b.len() }).sum();
                s.conns[c].send_stalls = vec![(upto as u64, d)];
            }
            0 => s.conns[c].send_stalls = vec![(r.below(bytes.max(1)), d)],
            1 => s.conns[c].rd_stalls = vec![(r.below(2000), d)],
            2 => s.conns[c].reqs[qi].plan.pre.push(Pause::Sleep(d)),
            3 => {
                let nm = g.next_mid;
                if nm > 1 {
                    let mid = 1 + r.below(nm as u64 - 1) as u32;
                    let q = &mut s.conns[c].reqs[qi];
                    match q.plan.mws.iter_mut().find(|m| m.mid == mid) {
                        Some(m) => m.pre.push(Pause::Sleep(d)),
                        None => q.plan.mws.push(MwDir { mid, pre: vec![Pause::Sleep(d)], ..Default::default() }),
                    }
                }
            }
            _ => {
                if !touched.is_empty() {
                    let n = if r.pct(30) { r.range(2, 12) } else { 1 };
                    let mut stalled = vec![];
                    for _ in 0..n {
                        let path = r.pick(&touched).clone();
                        stalled.push(path.clone());
                        let nth = if r.pct(60) { 0 } else { r.below(3) as u32 };
                        s.fs_faults.push(FsFault { path, op: *r.pick(&[FsOp::Open, FsOp::Read]), nth, act: FsAct::Stall(d) });
                    }
                    // the others ask for other files meanwhile
                    let free: Vec<&String> = fnames.iter().filter(|f| !stalled.contains(f)).collect();
                    for k in &mut s.conns {
                        for q in &mut k.reqs {
                            let own = matches!(&q.plan.out, Out::File { .. } | Out::FileWith { .. });
                            if !own && q.garbage.is_none() && !free.is_empty() && r.pct(40) {
                                let f = r.pick(&free).to_string();
                                let f = f.strip_prefix("/srv/app/").map(|s| s.to_string()).unwrap_or(f);
                                q.plan.out = Out::File { path: f, status: 0 };
                            }
                        }
                    }
                }
            }
        }
    }
    bound(&mut s, &flat);
    s
}
/// Keeps the simulated duration of every connection well below the deadline.
pub fn bound(s: &mut Scenario, flat: &Flat) {
    let mut total = 0;
    for f in &mut s.fs_faults {
        if let FsAct::Stall(n) = &mut f.act {
            if total + *n > 900 * SEC {
                *n = SEC;
            }
            total += *n;
        }
    }
    for c in &mut s.conns {
        // long waits of one connection add up
        let mut left = 450 * SEC;
        let mut cut = |n: &mut u64| {
            if *n > SEC {
                if *n > left {
                    *n = SEC;
                } else {
                    left -= *n;
                }
            }
        };
        c.send_stalls.iter_mut().chain(&mut c.rd_stalls).for_each(|x| cut(&mut x.1));
        for q in &mut c.reqs {
            let p = &mut q.plan;
            let mws = p.mws.iter_mut().flat_map(|m| m.pre.iter_mut().chain(&mut m.post));
            for x in p.pre.iter_mut().chain(&mut p.mid).chain(&mut p.post).chain(mws) {
                if let Pause::Sleep(n) = x {
                    cut(n);
                }
            }
        }
    }
    for c in 0..s.conns.len() {
        for _ in 0..8 {
            let giant = own_giant(s, c);
            if oracle::own_delay(s, c, flat).saturating_sub(giant) < 100 * SEC {
                break;
            }
            let k = &mut s.conns[c];
            for g in &mut k.gap {
                *g /= 10;
            }
            k.rd_delay /= 10;
            for q in &mut k.reqs {
                if q.plan.mode == Mode::Stream {
                    q.plan.mid.clear();
                }
                if let Out::Stream { pause, .. } = &mut q.plan.out {
                    *pause = 0;
                }
            }
            s.fs_latency /= 4;
        }
    }
}
fn own_giant(s: &Scenario, _c: usize) -> u64 {
    s.fs_faults.iter().map(|f| if let FsAct::Stall(n) = f.act { n } else { 0 }).sum::<u64>() + 400 * SEC
}
fn collect_statics(steps: &[Step], pre: &[String], out: &mut Vec<(Vec<String>, String)>) {
    for s in steps {
        match s {
            Step::Static { path, dir } => {
                let mut p = pre.to_vec();
                p.extend(model::segs(path.as_deref().unwrap_or(dir)));
                p.push("*".into());
                out.push((p, dir.clone()));
            }
            Step::Scope { name, steps } => {
                let mut p = pre.to_vec();
                p.push(name.clone());
                collect_statics(steps, &p, out);
            }
            Step::Mount { path, steps, .. } => {
                let mut p = pre.to_vec();
                p.extend(model::segs(path));
                collect_statics(steps, &p, out);
            }
            _ => {}
        }
    }
}
