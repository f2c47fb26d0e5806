//! A scenario is everything that decides one simulated run: what is registered with the server,
//! what the clients send and when, which faults happen, and how threads are scheduled.  A run is
//! a pure function of the scenario.
use crate::kern::{FsFault, FsOp, SchedCfg};
use serde::{Deserialize, Serialize};

fn is_def<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub sched: SchedCfg,
    /// 0: current-thread runtime, n > 0: multi-thread runtime with n workers
    pub workers: usize,
    pub app: AppSpec,
    pub conns: Vec<ConnSpec>,
    #[serde(default)]
    pub fs: Vec<FsEntry>,
    #[serde(default)]
    pub fs_faults: Vec<FsFault>,
    #[serde(default)]
    pub fs_swaps: Vec<FsSwap>,
    #[serde(default)]
    pub fs_latency: u64,
    #[serde(default)]
    pub fs_max_read: usize,
    /// (time after the server listens, errno)
    #[serde(default)]
    pub accept_faults: Vec<(u64, i32)>,
    /// (n-th write to standard output, errno or -(bytes accepted))
    #[serde(default)]
    pub stdout_faults: Vec<(u32, i32)>,
    /// (time, jump of the wall clock)
    #[serde(default)]
    pub clock_jumps: Vec<(u64, i64)>,
    /// time after which the standard output stays broken with this errno
    #[serde(default, skip_serializing_if = "is_def")]
    pub stdout_dead: Option<(u32, i32)>,
    /// every write to standard error fails with this errno
    #[serde(default, skip_serializing_if = "is_def")]
    pub stderr_dead: Option<i32>,
    /// a last registration that competes with an earlier one and must be refused
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub clash: Option<Step>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct AppSpec {
    pub port: u16,
    /// tag of the application state, if one is set
    pub state: Option<String>,
    /// App::default() (installs the logger at the root) instead of App::new()
    pub dflt: bool,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Route { method: String, path: String, hid: u32 },
    Mw { path: Option<String>, mid: u32 },
    Logger { path: Option<String> },
    /// App::scope(name, ..) at the top level, use_router below it
    Scope { name: String, steps: Vec<Step> },
    Mount {
        path: String,
        steps: Vec<Step>,
        /// mounts of the same number are clones of one router, as far as their steps agree
        #[serde(default, skip_serializing_if = "is_def")]
        base: u32,
    },
    /// use_static_to(path, dir), or use_static(dir)
    Static { path: Option<String>, dir: String },
}

/// Deterministic content: `len` bytes of kind `kind` from `seed`.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Content {
    pub kind: CKind,
    pub len: usize,
    pub seed: u64,
}
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum CKind {
    #[default]
    Ascii,
    Utf8,
    Bin,
    Crlf,
    /// begins and ends with what looks like nothing
    Blank,
}
impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        let mut r = crate::rng::Rng::new(self.seed);
        let mut v = Vec::with_capacity(self.len + 4);
        match self.kind {
            CKind::Ascii => {
                // numbered so that loss, repetition and reordering are visible
                let mut i = 0u64;
                while v.len() < self.len {
                    v.extend_from_slice(format!("{:x}.{:x};", i, r.next() & 0xffff).as_bytes());
                    i += 1;
                }
                v.truncate(self.len);
            }
            CKind::Utf8 => {
                let set = ['a', 'é', '→', '😀', 'Ж', '\n', ' ', '%'];
                while v.len() < self.len {
                    let mut b = [0; 4];
                    let s = r.pick(&set).encode_utf8(&mut b);
                    if v.len() + s.len() > self.len {
                        v.push(b'.');
                    } else {
                        v.extend_from_slice(s.as_bytes());
                    }
                }
            }
            CKind::Bin => {
                while v.len() < self.len {
                    v.push(r.next() as u8);
                }
            }
            CKind::Blank => {
                let set = ["\u{feff}", " ", "\n", "\t", "\r\n", "\0", "\u{a0}", "\u{2028}"];
                for _ in 0..r.below(4) {
                    v.extend_from_slice(r.pick(&set).as_bytes());
                }
                let tail: String = (0..r.below(4)).map(|_| *r.pick(&set)).collect();
                let mut i = 0u64;
                while v.len() + tail.len() < self.len {
                    v.extend_from_slice(format!("{:x}.{:x};", i, r.next() & 0xffff).as_bytes());
                    i += 1;
                }
                while v.len() > self.len.saturating_sub(tail.len()) && v.last().is_some_and(|b| b.is_ascii()) {
                    v.pop();
                }
                v.extend_from_slice(tail.as_bytes());
            }
            CKind::Crlf => {
                // looks like HTTP inside a body
                let pat = b"\r\n0\r\n\r\nHTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n";
                while v.len() < self.len {
                    v.extend_from_slice(pat);
                }
                v.truncate(self.len);
            }
        }
        v
    }
    pub fn text(&self) -> String {
        String::from_utf8(self.bytes()).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FsEntry {
    pub path: String,
    /// None: directory
    pub data: Option<Content>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FsSwap {
    pub at: u64,
    pub path: String,
    /// None: unlink
    pub data: Option<Content>,
    /// instead of at a time, during the n-th such operation on the file
    #[serde(default)]
    pub on: Option<(FsOp, u32)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum CutKind {
    /// orderly shutdown of the sending side
    Fin,
    Rst,
    /// the client falls silent and stops reading; it goes away at the end of the run
    Silent,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CutWhen {
    Sent(u64),
    Received(u64),
    At(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConnSpec {
    /// connect time, after the server listens
    pub at: u64,
    /// capacity of the server-side send buffer plus the client's receive window
    pub cap: usize,
    pub reqs: Vec<ReqSpec>,
    /// at most this many requests outstanding
    pub window: usize,
    /// segment sizes and gaps, used cyclically
    pub seg: Vec<u32>,
    pub gap: Vec<u64>,
    /// sending pauses once at these stream offsets
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub send_stalls: Vec<(u64, u64)>,
    /// read sizes (cyclic), delay before each read, and pauses at received offsets
    pub rd: Vec<u32>,
    pub rd_delay: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rd_stalls: Vec<(u64, u64)>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub cut: Option<(CutWhen, CutKind)>,
    /// time between the last response and closing
    pub linger: u64,
    /// close with RST instead of FIN
    #[serde(default, skip_serializing_if = "is_def")]
    pub rst_close: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ReqSpec {
    pub method: String,
    pub target: String,
    #[serde(default, skip_serializing_if = "is_def")]
    pub http10: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub close: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub expect: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub extra_headers: u32,
    /// further headers as sent
    #[serde(default, skip_serializing_if = "is_def")]
    pub hdrs: Vec<(String, String)>,
    /// this many bytes of further header values
    #[serde(default, skip_serializing_if = "is_def")]
    pub big_head: u32,
    /// request target in absolute form
    #[serde(default, skip_serializing_if = "is_def")]
    pub abs: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub no_host: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub body: Option<BodySpec>,
    /// send these bytes instead of a well-formed request
    #[serde(default, skip_serializing_if = "is_def")]
    pub garbage: Option<String>,
    pub plan: Plan,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BodySpec {
    pub data: BodyData,
    pub frame: Frame,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BodyData {
    Text(String),
    Raw(Vec<u8>),
    Gen(Content),
}
impl BodyData {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            BodyData::Text(s) => s.clone().into_bytes(),
            BodyData::Raw(b) => b.clone(),
            BodyData::Gen(c) => c.bytes(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Frame {
    Length,
    /// chunk sizes, cyclic
    Chunked(Vec<u32>),
    /// chunked, with the framing broken after so many chunks
    Broken(Vec<u32>, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pause {
    Yield(u32),
    /// simulated nanoseconds
    Sleep(u64),
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    #[default]
    Ignore,
    Drop,
    Form,
    FormMap,
    FormMulti,
    Json,
    JsonT,
    Bytes,
    /// read chunk by chunk, pausing in between
    Stream,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    #[serde(default, skip_serializing_if = "is_def")]
    pub mode: Mode,
    #[serde(default, skip_serializing_if = "is_def")]
    pub query: bool,
    #[serde(default, skip_serializing_if = "is_def")]
    pub pre: Vec<Pause>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub mid: Vec<Pause>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub post: Vec<Pause>,
    /// on a decoding error: answer with the error (false) or carry on and report it (true)
    #[serde(default, skip_serializing_if = "is_def")]
    pub tolerate: bool,
    /// how much to add to the state clone's counter
    #[serde(default, skip_serializing_if = "is_def")]
    pub bump: u32,
    /// hold an extra token in the context
    #[serde(default, skip_serializing_if = "is_def")]
    pub hold: bool,
    pub out: Out,
    #[serde(default, skip_serializing_if = "is_def")]
    pub mws: Vec<MwDir>,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Out {
    /// everything the handler saw, as text
    #[default]
    Echo,
    /// echo with status and headers
    EchoWith { status: u16, headers: Vec<(String, String)>, via: u8 },
    Text(Content),
    /// `Vec<u8>`, which the framework answers as a JSON array
    Bytes(Content),
    Json(Content),
    /// streamed in chunks of these sizes (cyclic) with pauses; aborted after n chunks if set
    Stream { data: Content, chunks: Vec<u32>, pause: u64, abort: Option<u32> },
    Status(u16),
    Unit,
    /// one of the other ways to make a response
    Shape(u8),
    Err(EKind),
    NoResp,
    BadHeader(u8),
    Panic(u8),
    File { path: String, status: u16 },
    /// Ok with a response taken from a file plus headers
    FileWith { path: String, headers: Vec<(String, String)> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EKind {
    General(String),
    Param(String),
    Form(String),
    /// parse failure of this text as JSON
    Json(String),
    None,
    /// ctx.param of a name that is not there
    NoParam,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct MwDir {
    pub mid: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub pre: Vec<Pause>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub post: Vec<Pause>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub bump: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub act: MwAct,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum MwAct {
    #[default]
    Pass,
    /// answer without calling on
    Short { status: u16, text: String },
    /// Ok without a response and without calling on
    ShortNone,
    /// put a response into the context, then call on
    Preset { status: u16, text: String },
    ErrBefore(String),
    /// discard the inner outcome and fail
    ErrAfter(String),
    PanicBefore,
    PanicAfter,
    /// add a header to the inner response, if there is one
    Header(String, String),
    /// replace the inner response
    Replace { status: u16, text: String },
    /// turn an inner error into a response
    Recover { status: u16 },
    /// turn an inner error into another error
    MapErr(String),
}

pub fn rid(conn: usize, req: usize) -> u32 {
    ((conn as u32) << 12) | req as u32
}
pub fn unrid(r: u32) -> (usize, usize) {
    ((r >> 12) as usize, (r & 0xfff) as usize)
}
impl Scenario {
    pub fn req(&self, r: u32) -> Option<&ReqSpec> {
        let (c, q) = unrid(r);
        self.conns.get(c)?.reqs.get(q)
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl ReqSpec {
    pub fn sent_target(&self) -> String {
        if self.abs {
            format!("http://sim.example:80{}", self.target)
        } else {
            self.target.clone()
        }
    }
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap()
    }
    pub fn query_str(&self) -> &str {
        self.target.split_once('?').map(|x| x.1).unwrap_or("")
    }
    /// The request as sent: head and body.
    pub fn encode(&self, rid: u32) -> (Vec<u8>, Vec<u8>) {
        if let Some(g) = &self.garbage {
            return (g.clone().into_bytes(), vec![]);
        }
        let mut h = format!(
            "{} {} HTTP/1.{}\r\n{}x-rid: {}\r\n",
            self.method,
            self.sent_target(),
            if self.http10 { 0 } else { 1 },
            if self.no_host { "" } else { "host: sim\r\n" },
            rid
        );
        for (k, v) in &self.hdrs {
            h.push_str(&format!("{k}: {v}\r\n"));
        }
        let mut left = self.big_head as usize;
        while left > 0 {
            let n = left.min(self.big_head as usize / 4 + 1);
            h.push_str(&format!("x-big: {}\r\n", "h".repeat(n)));
            left -= n;
        }
        if self.close {
            h.push_str("connection: close\r\n");
        }
        if self.expect {
            h.push_str("expect: 100-continue\r\n");
        }
        for i in 0..self.extra_headers {
            h.push_str(&format!("x-pad-{i}: {}\r\n", "v".repeat((i as usize * 7) % 90)));
        }
        let mut b = vec![];
        if let Some(body) = &self.body {
            let data = body.data.bytes();
            match &body.frame {
                Frame::Length => {
                    h.push_str(&format!("content-length: {}\r\n", data.len()));
                    b = data;
                }
                Frame::Chunked(sz) => {
                    h.push_str("transfer-encoding: chunked\r\n");
                    b = chunked(&data, sz, u32::MAX);
                }
                Frame::Broken(sz, n) => {
                    h.push_str("transfer-encoding: chunked\r\n");
                    b = chunked(&data, sz, *n);
                }
            }
        }
        h.push_str("\r\n");
        (h.into_bytes(), b)
    }
    pub fn broken(&self) -> bool {
        matches!(self.body, Some(BodySpec { frame: Frame::Broken(..), .. }))
    }
}
fn chunked(data: &[u8], sz: &[u32], break_after: u32) -> Vec<u8> {
    let mut b = vec![];
    let mut p = 0;
    let mut i = 0;
    // chunk extensions, capital and zero-padded sizes, a trailer: allowed, and seldom seen
    let fancy = break_after == u32::MAX && sz.iter().sum::<u32>() % 4 == 1;
    while p < data.len() {
        if i as u32 >= break_after {
            b.extend_from_slice(b"zz\r\n");
            return b;
        }
        let n = (sz[i % sz.len()].max(1) as usize).min(data.len() - p);
        if fancy && i % 2 == 0 {
            b.extend_from_slice(format!("0{:X};ext=\"{}\"\r\n", n, i).as_bytes());
        } else {
            b.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
        }
        b.extend_from_slice(&data[p..p + n]);
        b.extend_from_slice(b"\r\n");
        p += n;
        i += 1;
    }
    if break_after != u32::MAX {
        b.extend_from_slice(b"zz\r\n");
        return b;
    }
    b.extend_from_slice(if fancy { b"000\r\nx-trailer: t\r\n\r\n" } else { b"0\r\n\r\n" });
    b
}

pub fn digest(s: &str) -> String {
    let clean: String = s.chars().map(|c| if c.is_control() { '~' } else { c }).collect();
    if s.len() <= 200 {
        clean
    } else {
        format!("{}..len={} fnv={:016x}", clean.chars().take(24).collect::<String>(), s.len(), fnv(s.as_bytes()))
    }
}
pub fn digest_bytes(b: &[u8]) -> String {
    format!("len={} fnv={:016x}", b.len(), fnv(b))
}
