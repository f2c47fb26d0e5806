//! The application under test: obsidian's public API driven from the scenario.  Handlers and
//! middlewares are scripted per request and record what they observe.
pub use obsidian;
pub use vcore::scenario::{digest, digest_bytes};
use vcore::kern::{self, Ink};
use vcore::scenario::*;
use async_trait::async_trait;
use hyper::body::HttpBody;
use obsidian::context::Context;
use obsidian::header::{HeaderName, HeaderValue};
use obsidian::middleware::{logger::Logger, Middleware};
use obsidian::router::{FormError, Responder, Response, ResponseBody, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- history
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    MwB { rid: u32, mid: u32, trail: String, st: String },
    MwA { rid: u32, mid: u32, out: String },
    MwDrop { rid: u32, mid: u32 },
    /// what a stage hands back, and (`got`) what the stage around it is given
    Out { rid: u32, got: bool, out: String, data: String },
    HStart { rid: u32, hid: u32 },
    HDrop { rid: u32, hid: u32 },
    /// outcome of decoding a body: digest text or error
    Dec { rid: u32, res: Result<String, String> },
    /// the same for the query
    Qry { rid: u32, res: Result<String, String> },
    Panic { msg: String, loc: String },
    Resp { conn: usize, idx: usize },
}
pub struct Rec {
    pub t: u64,
    pub ev: Ev,
}
static mut HIST: Vec<Rec> = Vec::new();
static mut SCN: *const Scenario = std::ptr::null();
pub static LIVE: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
pub const T_STATE: usize = 0;
pub const T_EXT: usize = 1;
pub const T_FRAME: usize = 2;

#[allow(static_mut_refs)]
pub fn hist() -> &'static mut Vec<Rec> {
    unsafe { &mut HIST }
}
pub fn scn() -> &'static Scenario {
    unsafe { &*SCN }
}
pub fn set_scn(s: &'static Scenario) {
    unsafe { SCN = s }
}
pub fn ev(e: Ev) {
    let _g = Ink::new();
    // the history is not the server's: its memory is not counted
    let e = {
        let c = e.clone();
        drop(e);
        c
    };
    let k = kern::k();
    k.log(|| format!("{e:?}"));
    let (code, a) = match &e {
        Ev::MwB { rid, mid, .. } => (20, (*rid as u64) << 32 | *mid as u64),
        Ev::MwA { rid, mid, .. } => (21, (*rid as u64) << 32 | *mid as u64),
        Ev::HStart { rid, .. } => (22, *rid as u64),
        Ev::HDrop { rid, .. } => (23, *rid as u64),
        Ev::Dec { rid, .. } => (24, *rid as u64),
        _ => (25, 0),
    };
    k.note(code, a, 0);
    k.note_inter(code, a);
    hist().push(Rec { t: k.now, ev: e });
}
fn lk(s: &str) -> &'static str {
    let _g = Ink::new();
    Box::leak(s.to_string().into_boxed_str())
}

/// Something a request holds; when it goes away is recorded, and what is left when everything is over.
pub struct Token {
    kind: usize,
    id: usize,
}
pub struct TokRec {
    pub kind: usize,
    /// u32::MAX: not known to belong to a request
    pub rid: u32,
    pub born: u64,
    pub dropped: Option<u64>,
}
static mut TOKENS: Vec<TokRec> = Vec::new();
#[allow(static_mut_refs)]
pub fn tokens() -> &'static mut Vec<TokRec> {
    unsafe { &mut TOKENS }
}
impl Token {
    pub fn new(kind: usize, rid: u32) -> Token {
        let _g = Ink::new();
        LIVE[kind].fetch_add(1, SeqCst);
        let t = tokens();
        let born = if kern::ACTIVE.load(Relaxed) { kern::k().now } else { 0 };
        t.push(TokRec { kind, rid, born, dropped: None });
        Token { kind, id: t.len() - 1 }
    }
    fn belongs_to(&self, rid: u32) {
        tokens()[self.id].rid = rid;
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        Token::new(self.kind, u32::MAX)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LIVE[self.kind].fetch_sub(1, SeqCst);
        if kern::ACTIVE.load(Relaxed) {
            let _g = Ink::new();
            tokens()[self.id].dropped = Some(kern::k().now);
        }
    }
}

#[derive(Clone)]
pub struct AppSt {
    tag: String,
    n: u32,
    list: Vec<u32>,
    shared: Arc<AtomicI64>,
    tok: Token,
}
pub static SHARED: AtomicI64 = AtomicI64::new(0);
struct Trail(Vec<u32>, #[allow(dead_code)] Token);
struct Held(#[allow(dead_code)] Token);

fn own_state(ctx: &Context, rid: u32) {
    if let Some(s) = ctx.get::<AppSt>() {
        s.tok.belongs_to(rid);
    }
}
fn st_text(ctx: &Context) -> String {
    match ctx.get::<AppSt>() {
        Some(s) => format!("{}#{}{:?}", s.tag, s.n, s.list),
        None => "none".into(),
    }
}
fn trail_text(ctx: &Context) -> String {
    match ctx.get::<Trail>() {
        Some(t) => format!("{:?}", t.0),
        None => "-".into(),
    }
}
fn bump(ctx: &mut Context, by: u32) {
    if by > 0 {
        if let Some(s) = ctx.get_mut::<AppSt>() {
            s.n += by;
            s.list.push(by);
            s.shared.fetch_add(by as i64, SeqCst);
            if by % 4 == 1 {
                let s = s.clone();
                ctx.add(s);
            }
        }
    }
}
fn rid_of(ctx: &Context) -> u32 {
    ctx.headers().get("x-rid").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(u32::MAX)
}
fn plan_of(rid: u32) -> Plan {
    let _g = Ink::new();
    scn().req(rid).map(|r| r.plan.clone()).unwrap_or_default()
}
async fn pauses(p: &[Pause]) {
    for x in p {
        match x {
            Pause::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await
                }
            }
            Pause::Sleep(ns) => tokio::time::sleep(Duration::from_nanos(*ns)).await,
        }
    }
}

// ---------------------------------------------------------------- decoding targets
#[derive(Debug, Deserialize, Serialize)]
pub struct FormT {
    pub id: u64,
    pub name: String,
    pub opt: Option<String>,
    #[serde(default)]
    pub tags: Vec<String>,
    #[serde(default)]
    pub n: Vec<i32>,
    pub flag: Option<bool>,
    pub r: Option<f64>,
    pub c: Option<char>,
    #[serde(default)]
    pub small: u8,
    pub w: Option<Wrap>,
    pub pair: Option<(i32, String)>,
    pub long: Option<i64>,
    pub present: Option<()>,
    #[serde(default)]
    pub tiny: i8,
    pub half: Option<u16>,
    pub word: Option<u32>,
    pub f: Option<f32>,
    pub names: Option<Vec<String>>,
    pub nick: Option<Nick>,
    pub mark: Option<Mark>,
    pub three: Option<(u8, bool, f32)>,
}
#[derive(Debug, Deserialize, Serialize)]
pub struct Nick(pub String);
#[derive(Debug, Deserialize, Serialize)]
pub struct Mark;
#[derive(Debug, Deserialize, Serialize)]
pub struct Wrap(pub i16);
#[derive(Debug, Deserialize, Serialize)]
pub struct JsonT {
    pub id: u64,
    pub name: String,
    #[serde(default)]
    pub list: Vec<i64>,
    pub opt: Option<Box<JsonT>>,
}
/// Short values verbatim, long ones as length and hash.
// ---------------------------------------------------------------- handlers
pub struct Frame_ {
    rid: u32,
    id: u32,
    mw: bool,
    _t: Token,
}
impl Drop for Frame_ {
    fn drop(&mut self) {
        if self.mw {
            ev(Ev::MwDrop { rid: self.rid, mid: self.id })
        } else {
            ev(Ev::HDrop { rid: self.rid, hid: self.id })
        }
    }
}
pub const PNAMES: &[&str] = &["a", "b", "id", "name", "x", "year"];

/// What the handler saw, apart from its decoded body; also computed by the model.
pub struct Facts {
    pub rid: u32,
    pub hid: u32,
    pub method: String,
    pub path: String,
    pub query: String,
    pub params: Vec<(String, String)>,
    pub trail: String,
    pub st: String,
    pub tp: String,
    pub pads: String,
    pub qd: String,
    pub body: String,
}
impl Facts {
    pub fn text(&self) -> String {
        let p: Vec<String> = self.params.iter().map(|(k, v)| format!("{k}:{v}")).collect();
        format!(
            "rid={}\nhid={}\nm={}\npath={}\nquery={}\nparams={}\ntp={}\ntrail={}\nst={}\npads={}\nqd={}\nbody={}\nend",
            self.rid,
            self.hid,
            self.method,
            self.path,
            self.query,
            p.join(","),
            self.tp,
            self.trail,
            self.st,
            self.pads,
            self.qd,
            self.body
        )
    }
}

/// What is registered: a closure that does its first step before there is a future.
pub fn enter(hid: u32, ctx: Context) -> impl std::future::Future<Output = ContextResult> + Send {
    let rid = rid_of(&ctx);
    ev(Ev::HStart { rid, hid });
    if plan_of(rid).out == Out::Panic(3) {
        panic!("SCRIPTED panic before the handler's future exists {rid}");
    }
    handle(hid, ctx)
}
async fn handle(hid: u32, ctx: Context) -> ContextResult {
    let rid = rid_of(&ctx);
    let r = endpoint(hid, rid, ctx).await;
    note_out(rid, false, &r);
    r
}
async fn endpoint(hid: u32, rid: u32, mut ctx: Context) -> ContextResult {
    own_state(&ctx, rid);
    let _frame = Frame_ { rid, id: hid, mw: false, _t: Token::new(T_FRAME, rid) };
    let plan = plan_of(rid);
    pauses(&plan.pre).await;
    if plan.hold {
        ctx.add(Held(Token::new(T_EXT, rid)));
    }
    let mut f = Facts {
        rid,
        hid,
        method: ctx.method().to_string(),
        path: ctx.uri().path().to_string(),
        query: ctx.uri().query().unwrap_or("").to_string(),
        params: vec![],
        trail: trail_text(&ctx),
        st: st_text(&ctx),
        tp: String::new(),
        pads: format!(
            "{}/{}/{:?}",
            ctx.headers().keys().filter(|k| k.as_str().starts_with("x-pad-")).count(),
            ctx.headers().get_all("x-big").iter().map(|v| v.len()).sum::<usize>(),
            ctx.headers().get_all("x-a").iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect::<Vec<_>>()
        ),
        qd: "-".into(),
        body: "-".into(),
    };
    for n in PNAMES {
        if let Ok(v) = ctx.param::<String>(n) {
            f.params.push((n.to_string(), v));
            f.tp += &match (ctx.param::<i32>(n), ctx.param::<bool>(n)) {
                (Ok(x), _) => format!("{x};"),
                (_, Ok(x)) => format!("{x};"),
                _ => "bad;".into(),
            };
        }
    }
    bump(&mut ctx, plan.bump);
    if plan.query {
        let q = ctx.query_params::<FormT>();
        ev(Ev::Qry { rid, res: q.as_ref().map(|v| digest(&format!("{v:?}"))).map_err(|e| e.to_string()) });
        match q {
            Ok(v) => f.qd = digest(&format!("{v:?}")),
            Err(e) => {
                if !plan.tolerate {
                    return Err(e);
                }
                f.qd = "error".into();
            }
        }
        match ctx.query_params::<BTreeMap<String, Vec<String>>>() {
            Ok(v) => f.qd += &digest(&format!(" {v:?}")),
            Err(e) => f.qd += &format!(" error {e}"),
        }
    }
    let dec: Option<Result<String, ObsidianError>> = match plan.mode {
        Mode::Ignore => None,
        Mode::Drop => {
            drop(ctx.take_body());
            None
        }
        Mode::Form => Some(ctx.form::<FormT>().await.map(|v| format!("{v:?}"))),
        Mode::FormMap => Some(ctx.form::<BTreeMap<String, String>>().await.map(|v| format!("{v:?}"))),
        Mode::FormMulti => Some(ctx.form::<BTreeMap<String, Vec<String>>>().await.map(|v| format!("{v:?}"))),
        Mode::Json => Some(ctx.json::<serde_json::Value>().await.map(|v| v.to_string())),
        Mode::JsonT => Some(ctx.json::<JsonT>().await.map(|v| format!("{v:?}"))),
        Mode::Bytes => {
            let b = ctx.take_body();
            Some(
                hyper::body::to_bytes(b)
                    .await
                    .map(|b| digest_bytes(&b))
                    .map_err(|e| ObsidianError::GeneralError(format!("body: {e}"))),
            )
        }
        Mode::Stream => {
            let mut b = ctx.take_body();
            let mut all = vec![];
            let mut r = None;
            while let Some(x) = b.data().await {
                match x {
                    Ok(d) => all.extend_from_slice(&d),
                    Err(e) => {
                        r = Some(Err(ObsidianError::GeneralError(format!("body: {e}"))));
                        break;
                    }
                }
                pauses(&plan.mid).await;
            }
            Some(r.unwrap_or_else(|| Ok(digest_bytes(&all))))
        }
    };
    if let Some(d) = dec {
        ev(Ev::Dec { rid, res: d.as_ref().map(|s| digest(s)).map_err(|e| e.to_string()) });
        match d {
            Ok(s) => f.body = digest(&s),
            Err(e) => {
                if !plan.tolerate {
                    return Err(e);
                }
                f.body = "error".into();
            }
        }
    }
    pauses(&plan.mid).await;
    let r = outcome(ctx, &plan.out, &f).await;
    pauses(&plan.post).await;
    r
}

fn sc(n: u16) -> StatusCode {
    StatusCode::from_u16(n).unwrap()
}
fn hn(s: &str) -> HeaderName {
    HeaderName::from_bytes(s.as_bytes()).unwrap()
}
/// A panic whose payload is no text
pub struct OddPanic;
/// Cannot be turned into JSON: a map with keys that are no strings, or an error half way
struct Unserialisable(u8);
impl Serialize for Unserialisable {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        match self.0 {
            0 => Err(S::Error::custom("refuses")),
            _ => {
                let mut q = s.serialize_seq(None)?;
                for i in 0..self.0 {
                    q.serialize_element(&i)?;
                }
                Err(S::Error::custom("refuses half way"))
            }
        }
    }
}
struct Streamed(Body);
impl ResponseBody for Streamed {
    fn into_body(self) -> Body {
        self.0
    }
}
pub const BAD_VALUES: &[&str] = &["a\nb", "\r", "x\0y", "\u{7f}"];

fn make_err(e: &EKind, ctx: &Context) -> ObsidianError {
    match e {
        EKind::General(s) => ObsidianError::GeneralError(s.clone()),
        EKind::Param(s) => ObsidianError::ParamError(s.clone()),
        EKind::Form(s) => ObsidianError::FormError(FormError::Message(s.clone())),
        EKind::Json(s) => match serde_json::from_str::<serde_json::Value>(s) {
            Ok(_) => ObsidianError::NoneError,
            Err(e) => e.into(),
        },
        EKind::None => ObsidianError::NoneError,
        EKind::NoParam => ctx.param::<u32>("no-such-param").unwrap_err(),
    }
}

async fn outcome(ctx: Context, out: &Out, f: &Facts) -> ContextResult {
    match out {
        Out::Echo => ctx.build(f.text()).ok(),
        Out::EchoWith { status, headers, via } => {
            let text = f.text();
            let hs: Vec<(HeaderName, &'static str)> = headers.iter().map(|(k, v)| (hn(k), lk(v))).collect();
            let hss: Vec<(&'static str, &'static str)> = headers.iter().map(|(k, v)| (lk(k), lk(v))).collect();
            match via {
                0 => {
                    let mut b = ctx.build(text).with_status(sc(*status));
                    for (k, v) in hs {
                        b = b.with_header(k, v);
                    }
                    b.ok()
                }
                1 => ctx.build(text).with_status(sc(*status)).with_headers(hs).ok(),
                2 => ctx.build((sc(*status), text)).with_headers_str(hss).ok(),
                3 => ctx.build(Response::ok().html(text).with_headers_str(hss).with_status(sc(*status))).ok(),
                5 => {
                    // in three ways, one after the other
                    let mut r = Response::created();
                    let n = hs.len() / 3;
                    for (k, v) in &hss[..n] {
                        r = r.with_header_str(k, v);
                    }
                    r = r.set_headers(hs[n..2 * n].to_vec()).set_body(text);
                    ctx.build(r).with_headers_str(hss[2 * n..].to_vec()).with_status(sc(*status)).ok()
                }
                6 => {
                    let mut r = Responder::with_headers(text, hs);
                    *r.status_mut() = sc(*status);
                    ctx.build(r).ok()
                }
                7 => {
                    let mut ctx = ctx;
                    let mut r = Responder::with_headers_str(text, vec![]);
                    match r.headers_mut() {
                        Some(h) => h.extend(hs),
                        None => *r.headers_mut() = Some(hs),
                    }
                    *ctx.response_mut() = Some(r.with_status(sc(*status)));
                    Ok(ctx)
                }
                4 => {
                    let mut b = ctx.build(Responder::with_status(text, sc(*status)));
                    for (k, v) in hss {
                        b = b.with_header_str(k, v);
                    }
                    b.ok()
                }
                _ => ctx.build(Some(text)).with_headers(hs).with_status(sc(*status)).ok(),
            }
        }
        Out::Text(c) => {
            let t = with_ink(|| c.text());
            ctx.build(t).ok()
        }
        Out::Bytes(c) => {
            let b = with_ink(|| c.bytes());
            ctx.build(b).ok()
        }
        Out::Json(c) => {
            let v = with_ink(|| vec![c.text(), f.rid.to_string()]);
            ctx.build_json(v).ok()
        }
        Out::Shape(n) => match n {
            0 => ctx.build_json(Unserialisable(0)).ok(),
            1 => ctx.build_json(Unserialisable(40)).ok(),
            2 => ctx.build(None::<String>).ok(),
            3 => ctx.build(None::<&'static str>).with_header(hn("x-none"), "1").ok(),
            4 => ctx.build(lk(&f.text())).ok(),
            5 => ctx.build(Some(lk(&f.text()))).ok(),
            6 => ctx.build((sc(203), f.text().into_bytes())).ok(),
            7 => {
                let mut r = Response::internal_server_error().html(f.text());
                *r.status_mut() = sc(207);
                ctx.build(r).ok()
            }
            8 => ctx.build(Response::created().json(Unserialisable(3)).with_header_str("x-a", "b")).ok(),
            9 => {
                // an answer thrown away in favour of another
                let mut ctx = ctx.build("not this").with_status(sc(500)).with_header_str("x-lost", "1").ok()?;
                let old = ctx.response_mut().take();
                drop(old);
                ctx.build(f.text()).ok()
            }
            _ => ctx.build(Response::ok().set_body("early").json(vec![f.text()])).with_header_str("content-type", "text/x").ok(),
        },
        Out::Stream { data, chunks, pause, abort } => {
            let (mut tx, body) = Body::channel();
            let data = with_ink(|| data.bytes());
            let (chunks, pause, abort) = (chunks.clone(), *pause, *abort);
            let tok = Token::new(T_FRAME, f.rid);
            tokio::spawn(async move {
                let _tok = tok;
                let mut p = 0;
                let mut i = 0;
                while p < data.len() {
                    if Some(i as u32) == abort {
                        tx.abort();
                        return;
                    }
                    let n = (chunks[i % chunks.len()].max(1) as usize).min(data.len() - p);
                    if tx.send_data(data[p..p + n].to_vec().into()).await.is_err() {
                        return;
                    }
                    p += n;
                    i += 1;
                    if pause > 0 {
                        tokio::time::sleep(Duration::from_nanos(pause)).await;
                    }
                }
                if abort.is_some() {
                    tx.abort();
                }
            });
            ctx.build(Response::new(Streamed(body))).ok()
        }
        Out::Status(s) => ctx.build(sc(*s)).ok(),
        Out::Unit => ctx.build(()).ok(),
        Out::Err(e) => {
            let e = make_err(e, &ctx);
            Err(e)
        }
        Out::NoResp => Ok(ctx),
        Out::BadHeader(i) => ctx
            .build(f.text())
            .with_header(hn("x-good"), "fine")
            .with_header(hn("x-bad"), BAD_VALUES[*i as usize % BAD_VALUES.len()])
            .ok(),
        Out::Panic(i) => match i {
            0 => panic!("SCRIPTED panic in handler {}", f.rid),
            1 => {
                let c = ctx;
                let v: Option<u32> = None;
                let n = v.expect("SCRIPTED expect");
                drop(c);
                Err(ObsidianError::GeneralError(n.to_string()))
            }
            4 => std::panic::panic_any(OddPanic),
            _ => std::panic::panic_any(format!("SCRIPTED any {}", f.rid)),
        },
        Out::File { path, .. } => ctx.build_file(path).await.ok(),
        Out::FileWith { path, headers } => {
            let hs: Vec<(HeaderName, &'static str)> = headers.iter().map(|(k, v)| (hn(k), lk(v))).collect();
            ctx.build_file(path).await.with_headers(hs).ok()
        }
    }
}
fn with_ink<R>(f: impl FnOnce() -> R) -> R {
    let _g = Ink::new();
    f()
}

// ---------------------------------------------------------------- middleware
pub struct Tag {
    pub mid: u32,
}
pub fn out_text(r: &ContextResult) -> String {
    match r {
        Ok(c) => match c.response() {
            Some(r) => format!("ok:{}", r.status().as_u16()),
            None => "ok:none".into(),
        },
        Err(e) => format!("err:{e}"),
    }
}
fn note_out(rid: u32, got: bool, r: &ContextResult) {
    let (out, data) = match r {
        Ok(c) => {
            let o = match c.response() {
                Some(r) => digest(&format!("{} {:?}", r.status().as_u16(), r.headers())),
                None => "none".into(),
            };
            (o, format!("{} {}", trail_text(c), st_text(c)))
        }
        Err(e) => (digest(&format!("{e:?}")), String::new()),
    };
    ev(Ev::Out { rid, got, out, data });
}
#[async_trait]
impl Middleware for Tag {
    async fn handle<'a>(&'a self, ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let rid = rid_of(&ctx);
        let r = self.stage(rid, ctx, ex).await;
        note_out(rid, false, &r);
        r
    }
}
impl Tag {
    async fn stage(&self, rid: u32, mut ctx: Context, ex: EndpointExecutor<'_>) -> ContextResult {
        let mid = self.mid;
        ev(Ev::MwB { rid, mid, trail: trail_text(&ctx), st: st_text(&ctx) });
        own_state(&ctx, rid);
        let _frame = Frame_ { rid, id: mid, mw: true, _t: Token::new(T_FRAME, rid) };
        let d = plan_of(rid).mws.iter().find(|m| m.mid == mid).cloned().unwrap_or_default();
        pauses(&d.pre).await;
        match ctx.get_mut::<Trail>() {
            // data is changed in place by some stages and replaced by others
            Some(t) if mid % 3 == 1 => {
                let mut v = t.0.clone();
                v.push(mid);
                ctx.add(Trail(v, Token::new(T_EXT, rid)));
            }
            Some(t) => t.0.push(mid),
            None => ctx.add(Trail(vec![mid], Token::new(T_EXT, rid))),
        }
        bump(&mut ctx, d.bump);
        match &d.act {
            MwAct::Short { status, text } => {
                return ctx.build(text.clone()).with_status(sc(*status)).ok();
            }
            MwAct::ShortNone => return Ok(ctx),
            MwAct::ErrBefore(t) => return Err(ObsidianError::GeneralError(t.clone())),
            MwAct::PanicBefore => panic!("SCRIPTED panic before {mid}"),
            MwAct::Preset { status, text } => {
                *ctx.response_mut() = Some(Response::new(text.clone()).set_status(sc(*status)));
            }
            _ => {}
        }
        let mut r = ex.next(ctx).await;
        ev(Ev::MwA { rid, mid, out: out_text(&r) });
        note_out(rid, true, &r);
        pauses(&d.post).await;
        match d.act {
            MwAct::ErrAfter(t) => return Err(ObsidianError::GeneralError(t)),
            MwAct::PanicAfter => panic!("SCRIPTED panic after {mid}"),
            MwAct::Header(k, v) => {
                if let Ok(c) = &mut r {
                    if let Some(resp) = c.response_mut().take() {
                        *c.response_mut() = Some(resp.set_header(hn(&k), lk(&v)));
                    }
                }
            }
            MwAct::Replace { status, text } => {
                if let Ok(c) = &mut r {
                    *c.response_mut() = Some(Response::new(text).set_status(sc(status)));
                }
            }
            MwAct::Recover { status } => {
                if let Err(e) = r {
                    let text = format!("recovered {rid}: {e}");
                    let c = Context::new(hyper::Request::new(Body::empty()), Default::default());
                    r = c.build(text).with_status(sc(status)).ok();
                }
            }
            MwAct::MapErr(t) => {
                if let Err(e) = r {
                    r = Err(ObsidianError::GeneralError(format!("{t}: {e}")));
                }
            }
            _ => {}
        }
        r
    }
}

// ---------------------------------------------------------------- registration
type Bases = std::cell::RefCell<std::collections::HashMap<u32, (Vec<Step>, Router)>>;
thread_local!(static BASES: Bases = Default::default());
/// A router for these steps: new, or a clone of an earlier one with further registrations.
fn router(steps: &[Step], base: u32) -> Router {
    let old = BASES.with(|b| b.borrow().get(&base).filter(|b| steps.starts_with(&b.0)).map(|b| (b.0.len(), b.1.clone())));
    let (n, mut r) = match old {
        Some(o) if base != 0 => o,
        _ => (0, Router::new()),
    };
    reg_router(&mut r, &steps[n..]);
    if base != 0 && n == 0 {
        BASES.with(|b| b.borrow_mut().insert(base, (steps.to_vec(), r.clone())));
    }
    r
}
fn reg_router(r: &mut Router, steps: &[Step]) {
    for s in steps {
        match s {
            Step::Route { method, path, hid } => {
                let hid = *hid;
                let h = move |ctx: Context| enter(hid, ctx);
                match method.as_str() {
                    "GET" => r.get(path, h),
                    "POST" => r.post(path, h),
                    "PUT" => r.put(path, h),
                    "PATCH" => r.patch(path, h),
                    _ => r.delete(path, h),
                }
            }
            Step::Mw { path: Some(p), mid } => r.use_service_to(p, Tag { mid: *mid }),
            Step::Mw { path: None, mid } => r.use_service(Tag { mid: *mid }),
            Step::Logger { path: Some(p) } => r.use_service_to(p, Logger::new()),
            Step::Logger { path: None } => r.use_service(Logger::new()),
            Step::Scope { name, steps } => {
                let mut n = Router::new();
                reg_router(&mut n, steps);
                r.use_router(&format!("/{name}"), n);
            }
            Step::Mount { path, steps, base } => r.use_router(path, router(steps, *base)),
            Step::Static { path: Some(p), dir } => r.use_static_to(p, dir),
            Step::Static { path: None, dir } => r.use_static(dir),
        }
    }
}
pub fn build(spec: &AppSpec, clash: Option<&Step>) -> App<AppSt> {
    let mut a: App<AppSt> = if spec.dflt { App::default() } else { App::new() };
    for s in spec.steps.iter().chain(clash) {
        match s {
            Step::Route { method, path, hid } => {
                let hid = *hid;
                let h = move |ctx: Context| enter(hid, ctx);
                match method.as_str() {
                    "GET" => a.get(path, h),
                    "POST" => a.post(path, h),
                    "PUT" => a.put(path, h),
                    "PATCH" => a.patch(path, h),
                    _ => a.delete(path, h),
                }
            }
            Step::Mw { path: Some(p), mid } => a.use_service_to(p, Tag { mid: *mid }),
            Step::Mw { path: None, mid } => a.use_service(Tag { mid: *mid }),
            Step::Logger { path: Some(p) } => a.use_service_to(p, Logger::new()),
            Step::Logger { path: None } => a.use_service(Logger::new()),
            Step::Scope { name, steps } => a.scope(name, |r| reg_router(r, steps)),
            Step::Mount { path, steps, base } => a.use_router(path, router(steps, *base)),
            Step::Static { path: Some(p), dir } => a.use_static_to(p, dir),
            Step::Static { path: None, dir } => a.use_static(dir),
        }
    }
    BASES.with(|b| b.take());
    if let Some(tag) = &spec.state {
        a.set_app_state(AppSt {
            tag: tag.clone(),
            n: 0,
            list: vec![],
            shared: Arc::new(AtomicI64::new(0)),
            tok: Token::new(T_STATE, u32::MAX),
        });
    }
    a
}
#[allow(dead_code)]
fn _unused(_: HeaderValue) {}
