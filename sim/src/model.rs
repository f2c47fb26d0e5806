//! Reference model: what the properties say must happen for a request, computed from the
//! registrations and the request alone (no trie, no runtime).
use vcore::scenario::*;
use vapp::{digest, digest_bytes, Facts, FormT, JsonT, PNAMES};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum MwK {
    Tag(u32),
    Logger,
}
#[derive(Clone, Debug, PartialEq)]
pub enum HK {
    Script(u32),
    /// directory served, relative to the working directory
    Static(String),
}
#[derive(Clone, Debug, Default)]
pub struct N {
    lits: BTreeMap<String, N>,
    param: Option<Box<(String, N)>>,
    star: Option<Box<N>>,
    routes: BTreeMap<String, HK>,
    mws: Vec<MwK>,
}
pub struct Flat {
    pub root: N,
    pub patterns: Vec<(String, Vec<String>)>,
    /// directories under static mounts
    pub static_dirs: Vec<String>,
    pub has_logger: bool,
}
pub fn segs(p: &str) -> Vec<String> {
    p.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

impl N {
    fn is_empty(&self) -> bool {
        self.lits.is_empty() && self.param.is_none() && self.star.is_none() && self.routes.is_empty() && self.mws.is_empty()
    }
    /// The node for a registered path, or why the registration is not acceptable.
    pub fn at(&mut self, p: &[String]) -> Result<&mut N, String> {
        let Some((h, t)) = p.split_first() else { return Ok(self) };
        if h == "*" {
            if !t.is_empty() {
                return Err("* not last".into());
            }
            if self.param.is_some() {
                return Err("* against parameter".into());
            }
            return Ok(self.star.get_or_insert_with(Default::default));
        }
        if h.contains('*') {
            return Err("* inside segment".into());
        }
        if let Some(n) = h.strip_prefix(':') {
            if !self.lits.is_empty() || self.star.is_some() {
                return Err("parameter against literal".into());
            }
            match &self.param {
                Some(x) if x.0 != n => return Err("two parameters".into()),
                Some(_) => {}
                None => self.param = Some(Box::new((n.to_string(), N::default()))),
            }
            return self.param.as_mut().unwrap().1.at(t);
        }
        if self.param.is_some() {
            return Err("literal against parameter".into());
        }
        self.lits.entry(h.clone()).or_default().at(t)
    }
}
/// Applies one registration step; an error means the step is ambiguous and must not be generated.
pub fn apply(root: &mut N, st: &Step) -> Result<(), String> {
    match st {
        Step::Route { method, path, hid } => {
            let n = root.at(&segs(path))?;
            if n.routes.contains_key(method) {
                return Err("duplicate".into());
            }
            n.routes.insert(method.clone(), HK::Script(*hid));
        }
        Step::Mw { path, mid } => {
            let n = root.at(&segs(path.as_deref().unwrap_or("")))?;
            n.mws.push(MwK::Tag(*mid));
        }
        Step::Logger { path } => {
            let n = root.at(&segs(path.as_deref().unwrap_or("")))?;
            n.mws.push(MwK::Logger);
        }
        Step::Static { path, dir } => {
            let mut s = segs(path.as_deref().unwrap_or(dir));
            s.push("*".into());
            let n = root.at(&s)?;
            if n.routes.contains_key("GET") {
                return Err("duplicate".into());
            }
            n.routes.insert("GET".into(), HK::Static(dir.clone()));
        }
        Step::Scope { name, steps } => mount(root, &format!("/{name}"), steps)?,
        Step::Mount { path, steps, .. } => mount(root, path, steps)?,
    }
    Ok(())
}
fn mount(root: &mut N, path: &str, steps: &[Step]) -> Result<(), String> {
    let mut sub = N::default();
    for s in steps {
        apply(&mut sub, s)?;
    }
    let p = segs(path);
    if p.is_empty() && !root.is_empty() {
        return Err("mount over /".into());
    }
    // a mount at '*' would make deeper patterns below a wildcard
    if p.iter().any(|x| x.contains('*')) {
        return Err("mount at *".into());
    }
    let n = root.at(&p)?;
    if !n.is_empty() {
        return Err("mount over routes".into());
    }
    *n = sub;
    Ok(())
}
pub fn flatten(a: &AppSpec) -> Result<Flat, String> {
    let mut root = N::default();
    if a.dflt {
        root.mws.push(MwK::Logger);
    }
    for s in &a.steps {
        apply(&mut root, s)?;
    }
    let mut f = Flat { root: N::default(), patterns: vec![], static_dirs: vec![], has_logger: false };
    fn walk(n: &N, pre: &mut Vec<String>, f: &mut Flat) {
        for (m, h) in &n.routes {
            f.patterns.push((m.clone(), pre.clone()));
            if let HK::Static(d) = h {
                f.static_dirs.push(d.clone());
            }
        }
        f.has_logger |= n.mws.contains(&MwK::Logger);
        for (k, c) in &n.lits {
            pre.push(k.clone());
            walk(c, pre, f);
            pre.pop();
        }
        if let Some(p) = &n.param {
            pre.push(format!(":{}", p.0));
            walk(&p.1, pre, f);
            pre.pop();
        }
        if let Some(c) = &n.star {
            pre.push("*".into());
            walk(c, pre, f);
            pre.pop();
        }
    }
    walk(&root, &mut vec![], &mut f);
    f.root = root;
    Ok(f)
}
/// Whether `pattern` matches `path` at all, and with how many segments left for '*'.
fn pmatch(pat: &[String], path: &[String]) -> bool {
    match (pat.split_first(), path.split_first()) {
        (None, None) => true,
        (Some((p, _)), _) if p == "*" => true,
        (Some((p, pt)), Some((s, st))) => (p.starts_with(':') || p == s) && pmatch(pt, st),
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Route {
    Found { h: HK, chain: Vec<MwK>, params: BTreeMap<String, String>, rest: Vec<String> },
    NotFound,
    /// the properties leave this open
    Open,
}
struct Hit<'a> {
    n: &'a N,
    chain: Vec<MwK>,
    params: BTreeMap<String, String>,
    rest: Vec<String>,
    zero_star: bool,
}
fn search<'a>(n: &'a N, p: &[String], chain: &[MwK], params: &BTreeMap<String, String>) -> Option<Hit<'a>> {
    let mut chain = chain.to_vec();
    chain.extend(n.mws.iter().cloned());
    let hit = |n: &'a N, chain: Vec<MwK>, rest: Vec<String>, z: bool| {
        Some(Hit { n, chain, params: params.clone(), rest, zero_star: z })
    };
    let Some((h, t)) = p.split_first() else {
        if !n.routes.is_empty() || !n.mws.is_empty() {
            return hit(n, chain, vec![], false);
        }
        if let Some(s) = &n.star {
            return hit(s, chain, vec![], true);
        }
        return None;
    };
    if let Some(c) = n.lits.get(h) {
        if let Some(x) = search(c, t, &chain, params) {
            return Some(x);
        }
    }
    if let Some(pc) = &n.param {
        let mut ps = params.clone();
        ps.insert(pc.0.clone(), h.clone());
        if let Some(x) = search(&pc.1, t, &chain, &ps) {
            return Some(x);
        }
    }
    if let Some(s) = &n.star {
        let mut ch = chain.clone();
        ch.extend(s.mws.iter().cloned());
        return Some(Hit { n: s, chain: ch, params: params.clone(), rest: p.to_vec(), zero_star: false });
    }
    None
}
impl Flat {
    pub fn route(&self, method: &str, path: &str) -> Route {
        let p = segs(path);
        // any registered pattern with this method that matches the path at all
        let any = self.patterns.iter().any(|(m, pat)| m == method && pmatch(pat, &p));
        match search(&self.root, &p, &[], &BTreeMap::new()) {
            None => {
                if any {
                    Route::Open
                } else {
                    Route::NotFound
                }
            }
            Some(h) if h.zero_star => Route::Open,
            Some(h) => match h.n.routes.get(method) {
                Some(k) => Route::Found { h: k.clone(), chain: h.chain, params: h.params, rest: h.rest },
                None if any => Route::Open,
                None => Route::NotFound,
            },
        }
    }
}

// ---------------------------------------------------------------- decoding
fn unhex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}
fn pct(s: &[u8]) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'+' {
            o.push(b' ');
        } else if s[i] == b'%' && i + 2 < s.len() && unhex(s[i + 1]).is_some() && unhex(s[i + 2]).is_some() {
            o.push(unhex(s[i + 1]).unwrap() * 16 + unhex(s[i + 2]).unwrap());
            i += 2;
        } else {
            o.push(s[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
pub fn pairs(b: &[u8]) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    for part in b.split(|c| *c == b'&') {
        if part.is_empty() {
            continue;
        }
        let (k, val) = match part.iter().position(|c| *c == b'=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => (part, &part[part.len()..]),
        };
        let (k, val) = (pct(k), pct(val));
        if val.is_empty() {
            continue;
        }
        match v.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1.push(val),
            None => v.push((k, vec![val])),
        }
    }
    v
}
pub fn form(b: &[u8]) -> Result<FormT, ()> {
    let p = pairs(b);
    let all = |n: &str| p.iter().find(|x| x.0 == n).map(|x| x.1.clone());
    let one = |n: &str| all(n).map(|v| v[0].clone());
    fn num<T: std::str::FromStr>(s: Option<String>) -> Result<Option<T>, ()> {
        match s {
            None => Ok(None),
            Some(s) => s.parse().map(Some).map_err(|_| ()),
        }
    }
    let mut n = vec![];
    for x in all("n").unwrap_or_default() {
        n.push(x.parse().map_err(|_| ())?);
    }
    Ok(FormT {
        id: num(one("id"))?.ok_or(())?,
        name: one("name").ok_or(())?,
        opt: one("opt"),
        tags: all("tags").unwrap_or_default(),
        n,
        flag: num(one("flag"))?,
        r: num(one("r"))?,
        c: one("c").and_then(|s| s.chars().next()),
        small: num(one("small"))?.unwrap_or(0),
        w: num(one("w"))?.map(vapp::Wrap),
        pair: match all("pair") {
            None => None,
            Some(v) => Some((v[0].parse().map_err(|_| ())?, v.get(1).ok_or(())?.clone())),
        },
        long: num(one("long"))?,
        present: one("present").map(|_| ()),
        tiny: num(one("tiny"))?.unwrap_or(0),
        half: num(one("half"))?,
        word: num(one("word"))?,
        f: num(one("f"))?,
        names: all("names"),
        nick: one("nick").map(vapp::Nick),
        mark: one("mark").map(|_| vapp::Mark),
        three: match all("three") {
            None => None,
            Some(v) => Some((
                v[0].parse().map_err(|_| ())?,
                v.get(1).ok_or(())?.parse().map_err(|_| ())?,
                v.get(2).ok_or(())?.parse().map_err(|_| ())?,
            )),
        },
    })
}
pub fn form_multi(b: &[u8]) -> BTreeMap<String, Vec<String>> {
    pairs(b).into_iter().collect()
}
pub fn form_map(b: &[u8]) -> BTreeMap<String, String> {
    pairs(b).into_iter().map(|(k, v)| (k, v[0].clone())).collect()
}

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug, PartialEq)]
pub enum Txt {
    Exact(String),
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub enum BodyM {
    Exact(Vec<u8>),
    /// a proper prefix at most; never complete
    Aborted(Vec<u8>),
    /// the content of this file (path as given, relative to the working directory)
    File(String),
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RespM {
    /// 0: decided by the file
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: BodyM,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Oc {
    Resp(RespM),
    None,
    Err(Txt),
    Panic,
}
#[derive(Clone, Debug)]
pub struct Exp {
    pub route: Route,
    /// middleware entries in order: (id, trail before, state seen)
    pub before: Vec<(u32, String, String)>,
    /// middleware returns in order: (id, outcome); None text = not checked
    pub after: Vec<(u32, Option<String>)>,
    pub handler: Option<u32>,
    pub fin: Oc,
    pub panics: bool,
    /// outcome of decoding, if the handler decodes
    pub dec: Option<Result<String, ()>>,
    /// the handler (or whatever answers) reads the whole body
    pub reads_body: bool,
    pub loggers: Vec<LogExp>,
    pub query_err: bool,
}
/// What a logger on the path must print: arrival always; the outcome it saw (None: never returns)
#[derive(Clone, Debug)]
pub struct LogExp {
    pub out: Option<Oc>,
}

fn oc_text(o: &Oc) -> Option<String> {
    match o {
        Oc::Resp(r) if r.status == 0 => None,
        Oc::Resp(r) => Some(format!("ok:{}", r.status)),
        Oc::None => Some("ok:none".into()),
        Oc::Err(Txt::Exact(t)) => Some(format!("err:{t}")),
        Oc::Err(Txt::Any) => Some("err:*".into()),
        Oc::Panic => None,
    }
}
fn text_resp(status: u16, text: String, ct: Option<&str>) -> RespM {
    RespM {
        status,
        headers: ct.map(|c| vec![("content-type".to_string(), c.to_string())]).unwrap_or_default(),
        body: BodyM::Exact(text.into_bytes()),
    }
}
const PLAIN: &str = "text/plain; charset=utf-8";

pub fn expect(s: &Scenario, f: &Flat, id: u32, complete: bool) -> Exp {
    let q = s.req(id).unwrap();
    let route = f.route(&q.method, q.path());
    let mut e = Exp {
        route: route.clone(),
        before: vec![],
        after: vec![],
        handler: None,
        fin: Oc::None,
        panics: false,
        dec: None,
        reads_body: false,
        loggers: vec![],
        query_err: false,
    };
    let Route::Found { h, chain, params, rest } = route else {
        e.fin = Oc::Resp(RespM { status: 404, headers: vec![], body: BodyM::Any });
        return e;
    };
    let mut trail: Vec<u32> = vec![];
    let mut st = (0u32, vec![]);
    let fin = run(s, q, id, complete, &chain, &h, &params, &rest, &mut trail, &mut st, None, &mut e);
    e.panics = fin == Oc::Panic;
    e.fin = fin;
    e
}
fn st_text(s: &Scenario, st: &(u32, Vec<u32>)) -> String {
    match &s.app.state {
        Some(t) => format!("{}#{}{:?}", t, st.0, st.1),
        None => "none".into(),
    }
}
#[allow(clippy::too_many_arguments)]
fn run(
    s: &Scenario,
    q: &ReqSpec,
    id: u32,
    complete: bool,
    chain: &[MwK],
    h: &HK,
    params: &BTreeMap<String, String>,
    rest: &[String],
    trail: &mut Vec<u32>,
    st: &mut (u32, Vec<u32>),
    preset: Option<RespM>,
    e: &mut Exp,
) -> Oc {
    let absent = |p: Option<RespM>| p.map(Oc::Resp).unwrap_or(Oc::None);
    match chain.split_first() {
        None => match handler(s, q, id, complete, h, params, rest, trail, st, e) {
            Oc::None => absent(preset),
            o => o,
        },
        Some((MwK::Logger, t)) => {
            let i = e.loggers.len();
            e.loggers.push(LogExp { out: None });
            let o = run(s, q, id, complete, t, h, params, rest, trail, st, preset, e);
            if o != Oc::Panic {
                e.loggers[i].out = Some(o.clone());
            }
            o
        }
        Some((MwK::Tag(mid), t)) => {
            let d = q.plan.mws.iter().find(|m| m.mid == *mid).cloned().unwrap_or_default();
            let tt = if trail.is_empty() { "-".to_string() } else { format!("{trail:?}") };
            e.before.push((*mid, tt, st_text(s, st)));
            trail.push(*mid);
            if d.bump > 0 {
                st.0 += d.bump;
                st.1.push(d.bump);
            }
            match &d.act {
                MwAct::Short { status, text } => return Oc::Resp(text_resp(*status, text.clone(), Some(PLAIN))),
                MwAct::ShortNone => return absent(preset),
                MwAct::ErrBefore(t) => return Oc::Err(Txt::Exact(t.clone())),
                MwAct::PanicBefore => return Oc::Panic,
                _ => {}
            }
            let preset = match &d.act {
                MwAct::Preset { status, text } => Some(text_resp(*status, text.clone(), None)),
                _ => preset,
            };
            let mut o = run(s, q, id, complete, t, h, params, rest, trail, st, preset, e);
            if o == Oc::Panic {
                return o;
            }
            e.after.push((*mid, oc_text(&o)));
            match &d.act {
                MwAct::ErrAfter(t) => return Oc::Err(Txt::Exact(t.clone())),
                MwAct::PanicAfter => return Oc::Panic,
                MwAct::Header(k, v) => {
                    if let Oc::Resp(r) = &mut o {
                        r.headers.push((k.clone(), v.clone()));
                    }
                }
                MwAct::Replace { status, text } => {
                    if !matches!(o, Oc::Err(_)) {
                        return Oc::Resp(text_resp(*status, text.clone(), None));
                    }
                }
                MwAct::Recover { status } => {
                    if let Oc::Err(x) = &o {
                        let b = match x {
                            Txt::Exact(t) => BodyM::Exact(format!("recovered {id}: {t}").into_bytes()),
                            Txt::Any => BodyM::Any,
                        };
                        return Oc::Resp(RespM {
                            status: *status,
                            headers: vec![("content-type".into(), PLAIN.into())],
                            body: b,
                        });
                    }
                }
                MwAct::MapErr(t) => {
                    if let Oc::Err(x) = &o {
                        return Oc::Err(match x {
                            Txt::Exact(x) => Txt::Exact(format!("{t}: {x}")),
                            Txt::Any => Txt::Any,
                        });
                    }
                }
                _ => {}
            }
            o
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn handler(
    s: &Scenario,
    q: &ReqSpec,
    id: u32,
    complete: bool,
    h: &HK,
    params: &BTreeMap<String, String>,
    rest: &[String],
    trail: &[u32],
    st: &(u32, Vec<u32>),
    e: &mut Exp,
) -> Oc {
    let hid = match h {
        HK::Script(h) => *h,
        HK::Static(dir) => {
            let mut p = segs(dir);
            p.extend(rest.iter().cloned());
            return Oc::Resp(RespM { status: 0, headers: vec![], body: BodyM::File(p.join("/")) });
        }
    };
    e.handler = Some(hid);
    let p = &q.plan;
    if p.out == Out::Panic(3) {
        return Oc::Panic;
    }
    let mut f = Facts {
        rid: id,
        hid,
        method: q.method.clone(),
        path: q.path().to_string(),
        query: q.query_str().to_string(),
        params: PNAMES.iter().filter_map(|n| params.get(*n).map(|v| (n.to_string(), v.clone()))).collect(),
        trail: if trail.is_empty() { "-".into() } else { format!("{trail:?}") },
        st: st_text(s, st),
        tp: PNAMES
            .iter()
            .filter_map(|n| params.get(*n).map(|v| (n, v)))
            .map(|(_, v)| match (v.parse::<i32>(), v.parse::<bool>()) {
                (Ok(x), _) => format!("{x};"),
                (_, Ok(x)) => format!("{x};"),
                _ => "bad;".into(),
            })
            .collect(),
        pads: format!(
            "{}/{}/{:?}",
            q.extra_headers,
            q.big_head,
            q.hdrs.iter().filter(|h| h.0.eq_ignore_ascii_case("x-a")).map(|h| h.1.trim().to_string()).collect::<Vec<_>>()
        ),
        qd: "-".into(),
        body: "-".into(),
    };
    if p.query {
        match form(q.query_str().as_bytes()) {
            Ok(v) => f.qd = digest(&format!("{v:?}")),
            Err(()) => {
                e.query_err = true;
                if !p.tolerate {
                    return Oc::Err(Txt::Any);
                }
                f.qd = "error".into();
            }
        }
        f.qd += &digest(&format!(" {:?}", form_multi(q.query_str().as_bytes())));
    }
    let data = q.body.as_ref().map(|b| b.data.bytes()).unwrap_or_default();
    let mut exact_err: Option<String> = None;
    let dec: Option<Result<String, ()>> = match p.mode {
        Mode::Ignore | Mode::Drop => None,
        _ if !complete => Some(Err(())),
        Mode::Form => Some(form(&data).map(|v| format!("{v:?}"))),
        Mode::FormMap => Some(Ok(format!("{:?}", form_map(&data)))),
        Mode::FormMulti => Some(Ok(format!("{:?}", form_multi(&data)))),
        Mode::Json => Some(serde_json::from_slice::<serde_json::Value>(&data).map(|v| v.to_string()).map_err(|x| {
            exact_err = Some(x.to_string());
        })),
        Mode::JsonT => Some(serde_json::from_slice::<JsonT>(&data).map(|v| format!("{v:?}")).map_err(|x| {
            exact_err = Some(x.to_string());
        })),
        Mode::Bytes | Mode::Stream => Some(Ok(digest_bytes(&data))),
    };
    e.reads_body = dec.is_some();
    e.dec = dec.clone().map(|d| d.map(|s| digest(&s)));
    match dec {
        None => {}
        Some(Ok(s)) => f.body = digest(&s),
        Some(Err(())) => {
            if !p.tolerate {
                return Oc::Err(exact_err.map(Txt::Exact).unwrap_or(Txt::Any));
            }
            f.body = "error".into();
        }
    }
    match &p.out {
        Out::Echo => Oc::Resp(text_resp(200, f.text(), Some(PLAIN))),
        Out::EchoWith { status, headers, via } => {
            let ct = match via {
                0 | 1 => Some(PLAIN),
                2 | 4 | 5 | 6 | 7 => None,
                3 => Some("text/html"),
                _ => Some(PLAIN),
            };
            let mut r = text_resp(*status, f.text(), ct);
            r.headers.extend(headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())));
            Oc::Resp(r)
        }
        Out::Text(c) => Oc::Resp(text_resp(200, c.text(), Some(PLAIN))),
        Out::Bytes(c) => {
            Oc::Resp(text_resp(200, serde_json::to_string(&c.bytes()).unwrap(), None))
        }
        Out::Json(c) => {
            let v = vec![c.text(), id.to_string()];
            Oc::Resp(text_resp(200, serde_json::to_string(&v).unwrap(), Some("application/json")))
        }
        Out::Stream { data, abort, .. } => {
            let b = data.bytes();
            Oc::Resp(RespM {
                status: 200,
                headers: vec![],
                body: if abort.is_some() { BodyM::Aborted(b) } else { BodyM::Exact(b) },
            })
        }
        Out::Status(n) => Oc::Resp(RespM { status: *n, headers: vec![], body: BodyM::Exact(vec![]) }),
        Out::Unit => Oc::Resp(RespM { status: 200, headers: vec![], body: BodyM::Exact(vec![]) }),
        Out::Shape(n) => {
            let h = |r: &mut RespM, k: &str, v: &str| r.headers.push((k.into(), v.into()));
            let js = Some("application/json");
            Oc::Resp(match n {
                0 => text_resp(500, "refuses".into(), js),
                1 => text_resp(500, "refuses half way".into(), js),
                2 => text_resp(404, "Not Found".into(), None),
                3 => {
                    let mut r = text_resp(404, "Not Found".into(), None);
                    h(&mut r, "x-none", "1");
                    r
                }
                4 | 5 | 9 => text_resp(200, f.text(), Some(PLAIN)),
                6 => text_resp(203, serde_json::to_string(&f.text().into_bytes()).unwrap(), None),
                7 => text_resp(207, f.text(), Some("text/html")),
                8 => {
                    let mut r = text_resp(500, "refuses half way".into(), js);
                    h(&mut r, "x-a", "b");
                    r
                }
                _ => {
                    let mut r = text_resp(200, serde_json::to_string(&vec![f.text()]).unwrap(), js);
                    h(&mut r, "content-type", "text/x");
                    r
                }
            })
        }
        Out::Err(k) => Oc::Err(match k {
            EKind::General(s) | EKind::Param(s) | EKind::Form(s) => Txt::Exact(s.clone()),
            EKind::Json(s) => Txt::Exact(serde_json::from_str::<serde_json::Value>(s).unwrap_err().to_string()),
            EKind::None => Txt::Exact(vapp::obsidian::ObsidianError::NoneError.to_string()),
            EKind::NoParam => Txt::Any,
        }),
        Out::NoResp => Oc::None,
        Out::BadHeader(i) => {
            let mut r = text_resp(200, f.text(), Some(PLAIN));
            r.headers.push(("x-good".into(), "fine".into()));
            r.headers.push(("x-bad".into(), vapp::BAD_VALUES[*i as usize % 4].into()));
            Oc::Resp(r)
        }
        Out::Panic(_) => Oc::Panic,
        Out::File { path, .. } => {
            Oc::Resp(RespM { status: 0, headers: vec![], body: BodyM::File(path.clone()) })
        }
        Out::FileWith { path, headers } => {
            let headers = headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
            Oc::Resp(RespM { status: 0, headers, body: BodyM::File(path.clone()) })
        }
    }
}
