//! The world around the server: clients, their network, and the scripted faults.
use vcore::kern::{self, End, Env, Kernel, Node, MS, SEC};
use vcore::scenario::*;
use vapp::Ev;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub version: u8,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub complete: bool,
    /// delimited by the end of the connection
    pub until_close: bool,
    pub t_first: u64,
    pub t_done: u64,
}
#[derive(Clone, Debug)]
enum PState {
    Head,
    Len(usize),
    ChunkHead,
    Chunk(usize),
    ChunkEnd,
    Trailer,
    Eof,
    Dead,
}
/// Incremental parser of a response stream, strict about framing.
#[derive(Clone, Debug)]
pub struct Parser {
    buf: Vec<u8>,
    pos: usize,
    st: PState,
    pub cur: Option<Resp>,
    pub err: Option<String>,
    pub interim: u32,
}
impl Parser {
    pub fn new() -> Parser {
        Parser { buf: vec![], pos: 0, st: PState::Head, cur: None, err: None, interim: 0 }
    }
    fn line(&mut self) -> Option<String> {
        let i = self.buf[self.pos..].windows(2).position(|w| w == b"\r\n")?;
        let l = String::from_utf8_lossy(&self.buf[self.pos..self.pos + i]).into_owned();
        self.pos += i + 2;
        Some(l)
    }
    fn fail(&mut self, m: String) {
        self.err = Some(m);
        self.st = PState::Dead;
    }
    /// bytes received that belong to no complete response
    pub fn leftover(&self) -> bool {
        self.cur.is_some() || self.pos < self.buf.len()
    }
    pub fn feed(&mut self, data: &[u8], now: u64) {
        if self.pos > 65536 {
            self.buf.drain(..self.pos);
            self.pos = 0;
        }
        self.buf.extend_from_slice(data);
        if self.cur.is_none() && !data.is_empty() {
            let _ = now;
        }
    }
    /// Next complete response; `head` tells whether the request it answers is HEAD.
    pub fn next(&mut self, now: u64, head: bool, eof: bool) -> Option<Resp> {
        loop {
            match self.st.clone() {
                PState::Dead => return None,
                PState::Head => {
                    let Some(end) = self.buf[self.pos..].windows(4).position(|w| w == b"\r\n\r\n") else {
                        if self.pos < self.buf.len() && !b"HTTP/1.".starts_with(&self.buf[self.pos..(self.pos + 7).min(self.buf.len())]) {
                            let s = String::from_utf8_lossy(&self.buf[self.pos..(self.pos + 40).min(self.buf.len())]).into_owned();
                            self.fail(format!("not a response: {s:?}"));
                        }
                        return None;
                    };
                    let stop = self.pos + end + 4;
                    let l = self.line().unwrap();
                    let mut r = Resp { t_first: now, ..Default::default() };
                    let b = l.as_bytes();
                    if !(l.starts_with("HTTP/1.") && b.len() >= 12) {
                        self.fail(format!("bad status line {l:?}"));
                        return None;
                    }
                    r.version = b[7] - b'0';
                    r.status = match l[9..12].parse() {
                        Ok(n) => n,
                        Err(_) => {
                            self.fail(format!("bad status line {l:?}"));
                            return None;
                        }
                    };
                    while self.pos < stop - 2 {
                        let l = self.line().unwrap();
                        match l.split_once(':') {
                            Some((k, v)) => r.headers.push((k.to_ascii_lowercase(), v.trim().to_string())),
                            None => {
                                self.fail(format!("bad header line {l:?}"));
                                return None;
                            }
                        }
                    }
                    self.pos = stop;
                    if r.status / 100 == 1 {
                        self.interim += 1;
                        continue;
                    }
                    let all = |n: &str| -> Vec<String> {
                        r.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect()
                    };
                    let (cl, te) = (all("content-length"), all("transfer-encoding"));
                    if cl.len() + te.len() > 1 {
                        self.fail(format!("several framings: {:?}", r.headers));
                        return None;
                    }
                    let nobody = head || r.status == 204 || r.status == 304;
                    self.cur = Some(r);
                    self.st = if nobody {
                        PState::Len(0)
                    } else if let Some(c) = cl.first() {
                        match c.parse() {
                            Ok(n) => PState::Len(n),
                            Err(_) => {
                                self.fail(format!("bad content-length {c:?}"));
                                return None;
                            }
                        }
                    } else if let Some(t) = te.first() {
                        if t != "chunked" {
                            self.fail(format!("bad transfer-encoding {t:?}"));
                            return None;
                        }
                        PState::ChunkHead
                    } else {
                        PState::Eof
                    };
                }
                PState::Len(n) => {
                    let m = n.min(self.buf.len() - self.pos);
                    let c = self.cur.as_mut().unwrap();
                    c.body.extend_from_slice(&self.buf[self.pos..self.pos + m]);
                    self.pos += m;
                    if m < n {
                        self.st = PState::Len(n - m);
                        return None;
                    }
                    return self.done(now);
                }
                PState::ChunkHead => {
                    let l = self.line()?;
                    match usize::from_str_radix(l.split(';').next().unwrap().trim(), 16) {
                        Ok(0) => self.st = PState::Trailer,
                        Ok(n) => self.st = PState::Chunk(n),
                        Err(_) => {
                            self.fail(format!("bad chunk size {l:?}"));
                            return None;
                        }
                    }
                }
                PState::Chunk(n) => {
                    let m = n.min(self.buf.len() - self.pos);
                    let c = self.cur.as_mut().unwrap();
                    c.body.extend_from_slice(&self.buf[self.pos..self.pos + m]);
                    self.pos += m;
                    if m < n {
                        self.st = PState::Chunk(n - m);
                        return None;
                    }
                    self.st = PState::ChunkEnd;
                }
                PState::ChunkEnd => {
                    let l = self.line()?;
                    if !l.is_empty() {
                        self.fail("chunk not followed by CRLF".into());
                        return None;
                    }
                    self.st = PState::ChunkHead;
                }
                PState::Trailer => {
                    let l = self.line()?;
                    if l.is_empty() {
                        return self.done(now);
                    }
                }
                PState::Eof => {
                    let c = self.cur.as_mut().unwrap();
                    c.body.extend_from_slice(&self.buf[self.pos..]);
                    self.pos = self.buf.len();
                    if eof {
                        c.until_close = true;
                        return self.done(now);
                    }
                    return None;
                }
            }
        }
    }
    fn done(&mut self, now: u64) -> Option<Resp> {
        self.st = PState::Head;
        let mut r = self.cur.take().unwrap();
        r.complete = true;
        r.t_done = now;
        Some(r)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CEnd {
    Open,
    /// the client closed in an orderly way, everything answered
    Closed,
    /// the server closed (after `eof`)
    ServerClosed,
    Cut,
    Refused,
}
pub struct Client {
    pub conn: Option<usize>,
    pub out: VecDeque<u8>,
    pub sent: u64,
    pub enq: usize,
    pub req_head_end: Vec<u64>,
    pub req_end: Vec<u64>,
    /// when the last byte of the request was sent
    pub req_sent_at: Vec<u64>,
    pub seg_i: usize,
    pub pump: bool,
    pub stalls: VecDeque<(u64, u64)>,
    pub reading: bool,
    pub rd_i: usize,
    pub rd_stalls: VecDeque<(u64, u64)>,
    pub received: u64,
    pub parser: Parser,
    pub resps: Vec<Resp>,
    pub eof: bool,
    pub eof_at: u64,
    pub fin_sent: bool,
    pub cut_done: Option<CutKind>,
    pub end: CEnd,
    pub end_at: u64,
    pub connected_at: u64,
    pub silent: bool,
    pub server_closed_fd: bool,
    /// waited until the deadline of the run
    pub hung: bool,
}
pub const SETTLE: u64 = 30 * SEC;
pub const DEADLINE: u64 = 1800 * SEC;

pub struct World {
    pub s: &'static Scenario,
    pub cl: Vec<Client>,
    pub listened: Option<(u32, u16, u64)>,
    pub settling: bool,
    pub killed_silent: bool,
    pub deadline_hit: bool,
    pub base: Option<((usize, usize, usize), [i64; 3], i64)>,
    pub end_census: Option<((usize, usize, usize), [i64; 3], i64)>,
    pub probe_ok: Option<bool>,
    pub versions: Vec<(String, u64, Option<Rc<Vec<u8>>>)>,
    pub by_conn: Vec<Option<usize>>,
}
const CONNECT: u64 = 1;
const SEND: u64 = 2;
const READ: u64 = 3;
const CLOSE: u64 = 4;
const CUTAT: u64 = 5;
const KILL: u64 = 6;
const SETTLED: u64 = 7;
const DEAD: u64 = 8;
const ACCEPTF: u64 = 9;
const SWAP: u64 = 10;
const JUMP: u64 = 11;
const PROBE: u64 = 12;

impl World {
    pub fn new(s: &'static Scenario) -> World {
        let cl = s
            .conns
            .iter()
            .map(|c| Client {
                conn: None,
                out: VecDeque::new(),
                sent: 0,
                enq: 0,
                req_head_end: vec![],
                req_end: vec![],
                req_sent_at: vec![],
                seg_i: 0,
                pump: false,
                stalls: c.send_stalls.iter().cloned().collect(),
                reading: false,
                rd_i: 0,
                rd_stalls: c.rd_stalls.iter().cloned().collect(),
                received: 0,
                parser: Parser::new(),
                resps: vec![],
                eof: false,
                eof_at: 0,
                fin_sent: false,
                cut_done: None,
                end: CEnd::Open,
                end_at: 0,
                connected_at: 0,
                silent: false,
                server_closed_fd: false,
                hung: false,
            })
            .collect();
        World {
            s,
            cl,
            listened: None,
            settling: false,
            killed_silent: false,
            deadline_hit: false,
            base: None,
            end_census: None,
            probe_ok: None,
            versions: vec![],
            by_conn: vec![],
        }
    }
    fn enqueue(&mut self, k: &mut Kernel, c: usize) {
        let spec = &self.s.conns[c];
        let cl = &mut self.cl[c];
        while cl.enq < spec.reqs.len() && cl.enq - cl.resps.len().min(cl.enq) < spec.window.max(1) {
            let (h, b) = spec.reqs[cl.enq].encode(rid(c, cl.enq));
            let base = cl.sent + cl.out.len() as u64;
            cl.req_head_end.push(base + h.len() as u64);
            cl.req_end.push(base + (h.len() + b.len()) as u64);
            cl.out.extend(h);
            cl.out.extend(b);
            cl.enq += 1;
        }
        if !cl.pump && !cl.out.is_empty() && cl.cut_done.is_none() && !cl.fin_sent {
            cl.pump = true;
            let g = if spec.gap.is_empty() { 0 } else { spec.gap[cl.seg_i % spec.gap.len()] };
            k.after(g, SEND, c as u64);
        }
    }
    fn do_cut(&mut self, k: &mut Kernel, c: usize, kind: CutKind) {
        let cl = &mut self.cl[c];
        if cl.cut_done.is_some() || cl.end != CEnd::Open {
            return;
        }
        cl.cut_done = Some(kind);
        k.log(|| format!("client {c}: cut {kind:?}"));
        let Some(conn) = cl.conn else { return };
        match kind {
            CutKind::Fin => {
                cl.fin_sent = true;
                k.arrive_fin(conn);
            }
            CutKind::Rst => {
                k.arrive_rst(conn);
                cl.end = CEnd::Cut;
                cl.end_at = k.now;
            }
            CutKind::Silent => {
                cl.silent = true;
            }
        }
        self.check_all(k);
    }
    fn send(&mut self, k: &mut Kernel, c: usize) {
        let spec = &self.s.conns[c];
        let cl = &mut self.cl[c];
        cl.pump = false;
        if cl.end != CEnd::Open || cl.cut_done.is_some() || cl.fin_sent || cl.out.is_empty() {
            return;
        }
        if let Some(&(off, d)) = cl.stalls.front() {
            if cl.sent >= off {
                cl.stalls.pop_front();
                cl.pump = true;
                k.after(d, SEND, c as u64);
                return;
            }
        }
        let mut n = spec.seg[cl.seg_i % spec.seg.len()].max(1) as usize;
        cl.seg_i += 1;
        n = n.min(cl.out.len());
        if let Some(&(off, _)) = cl.stalls.front() {
            n = n.min((off - cl.sent).max(1) as usize);
        }
        let mut cut = None;
        if let Some((CutWhen::Sent(at), kind)) = &spec.cut {
            if cl.sent + n as u64 >= *at {
                n = (*at - cl.sent.min(*at)) as usize;
                cut = Some(*kind);
            }
        }
        let b: Vec<u8> = cl.out.drain(..n).collect();
        cl.sent += n as u64;
        while cl.req_sent_at.len() < cl.req_end.len() && cl.req_end[cl.req_sent_at.len()] <= cl.sent {
            cl.req_sent_at.push(k.now);
        }
        let conn = cl.conn.unwrap();
        k.log(|| format!("client {c}: {n} bytes arrive"));
        if n > 0 {
            k.arrive(conn, &b);
        }
        if let Some(kind) = cut {
            self.do_cut(k, c, kind);
            return;
        }
        let cl = &mut self.cl[c];
        if !cl.out.is_empty() {
            cl.pump = true;
            let g = if spec.gap.is_empty() { 0 } else { spec.gap[cl.seg_i % spec.gap.len()] };
            k.after(g, SEND, c as u64);
        }
    }
    fn sched_read(&mut self, k: &mut Kernel, c: usize) {
        let cl = &mut self.cl[c];
        if cl.reading || cl.silent || cl.end != CEnd::Open || cl.cut_done == Some(CutKind::Rst) {
            return;
        }
        cl.reading = true;
        let mut d = self.s.conns[c].rd_delay;
        if let Some(&(off, x)) = cl.rd_stalls.front() {
            if cl.received >= off {
                cl.rd_stalls.pop_front();
                d += x;
            }
        }
        k.after(d, READ, c as u64);
    }
    fn read(&mut self, k: &mut Kernel, c: usize) {
        let spec = &self.s.conns[c];
        let cl = &mut self.cl[c];
        cl.reading = false;
        if cl.silent || cl.end != CEnd::Open {
            return;
        }
        let conn = cl.conn.unwrap();
        let mut n = spec.rd[cl.rd_i % spec.rd.len()].max(1) as usize;
        cl.rd_i += 1;
        if let Some(&(off, _)) = cl.rd_stalls.front() {
            n = n.min((off.saturating_sub(cl.received)).max(1) as usize);
        }
        let mut cut = None;
        if let Some((CutWhen::Received(at), kind)) = &spec.cut {
            if cl.cut_done.is_none() && cl.received + (n as u64) >= *at {
                n = at.saturating_sub(cl.received) as usize;
                cut = Some(*kind);
            }
        }
        let d = k.take(conn, n);
        cl.received += d.len() as u64;
        let short = d.len() < n;
        cl.parser.feed(&d, k.now);
        if k.conns[conn].tx.is_empty() && k.conns[conn].tx_fin && short {
            cl.eof = true;
            cl.eof_at = k.now;
        }
        loop {
            let head = spec.reqs.get(cl.resps.len()).map(|r| r.method == "HEAD").unwrap_or(false);
            match cl.parser.next(k.now, head, cl.eof) {
                Some(r) => {
                    cl.resps.push(r);
                    let idx = cl.resps.len() - 1;
                    vapp::ev(Ev::Resp { conn: c, idx });
                }
                None => break,
            }
        }
        if let (Some(kind), false) = (cut, short) {
            self.do_cut(k, c, kind);
            if kind != CutKind::Fin {
                return;
            }
        }
        let cl = &mut self.cl[c];
        let more = !k.conns[conn].tx.is_empty() || (k.conns[conn].tx_fin && !cl.eof);
        if cl.eof {
            cl.end = CEnd::ServerClosed;
            cl.end_at = k.now;
            if !cl.fin_sent {
                cl.fin_sent = true;
                k.arrive_fin(conn);
            }
            self.check_all(k);
            return;
        }
        if more {
            self.sched_read(k, c);
        }
        self.enqueue(k, c);
        let cl = &mut self.cl[c];
        if cl.resps.len() >= spec.reqs.len() && !cl.fin_sent && cl.cut_done.is_none() {
            k.after(spec.linger, CLOSE, c as u64);
        }
    }
    fn close(&mut self, k: &mut Kernel, c: usize) {
        let cl = &mut self.cl[c];
        if cl.end != CEnd::Open || cl.fin_sent || cl.cut_done.is_some() {
            return;
        }
        cl.fin_sent = true;
        let conn = cl.conn.unwrap();
        if self.s.conns[c].rst_close {
            k.arrive_rst(conn);
            cl.end = CEnd::Closed;
            cl.end_at = k.now;
            self.check_all(k);
        } else {
            k.arrive_fin(conn);
        }
    }
    /// When every client is through: reset the silent ones, let the server settle, end the run.
    fn check_all(&mut self, k: &mut Kernel) {
        if self.cl.iter().all(|c| c.end != CEnd::Open || c.silent) {
            if !self.killed_silent {
                self.killed_silent = true;
                k.after(SEC, KILL, 0);
            } else if !self.settling && self.cl.iter().all(|c| c.end != CEnd::Open) {
                self.settling = true;
                k.after(1, PROBE, 0);
                // a stalled disk operation keeps what it works on until it returns
                let disk: u64 = self
                    .s
                    .fs_faults
                    .iter()
                    .map(|f| if let vcore::kern::FsAct::Stall(n) = f.act { n } else { 0 })
                    .sum();
                // and so does a handler whose script sleeps
                let own = crate::model::flatten(&self.s.app)
                    .map(|f| (0..self.s.conns.len()).map(|c| crate::oracle::own_delay(&self.s, c, &f)).max().unwrap_or(0))
                    .unwrap_or(0);
                k.after(SETTLE + disk + own, SETTLED, 0);
            }
        }
    }
    fn census(&self, k: &Kernel) -> ((usize, usize, usize), [i64; 3], i64) {
        use std::sync::atomic::Ordering::SeqCst;
        (k.fd_census(), [0, 1, 2].map(|i| vapp::LIVE[i].load(SeqCst)), vcore::alloc::LIVE.load(SeqCst))
    }
}
impl Env for World {
    fn on_event(&mut self, k: &mut Kernel, a: u64, b: u64) {
        let c = b as usize;
        match a {
            CONNECT => {
                let spec = &self.s.conns[c];
                match k.connect(self.s.app.port, spec.cap) {
                    Some(conn) => {
                        self.cl[c].conn = Some(conn);
                        self.cl[c].connected_at = k.now;
                        while self.by_conn.len() <= conn {
                            self.by_conn.push(None);
                        }
                        self.by_conn[conn] = Some(c);
                        if let Some((CutWhen::At(t), _)) = &spec.cut {
                            k.after(*t, CUTAT, b);
                        }
                        self.enqueue(k, c);
                        if spec.reqs.is_empty() {
                            k.after(spec.linger, CLOSE, b);
                        }
                    }
                    None => {
                        self.cl[c].end = CEnd::Refused;
                        self.check_all(k);
                    }
                }
            }
            SEND => self.send(k, c),
            READ => self.read(k, c),
            CLOSE => self.close(k, c),
            CUTAT => {
                if let Some((_, kind)) = self.s.conns[c].cut {
                    self.do_cut(k, c, kind)
                }
            }
            KILL => {
                for c in 0..self.cl.len() {
                    if self.cl[c].silent && self.cl[c].end == CEnd::Open {
                        self.cl[c].end = CEnd::Cut;
                        self.cl[c].end_at = k.now;
                        if let Some(conn) = self.cl[c].conn {
                            k.arrive_rst(conn);
                        }
                    }
                }
                self.check_all(k);
            }
            PROBE => {
                // the server must still be listening
                self.probe_ok = Some(k.listener(self.s.app.port).is_some());
            }
            SETTLED => {
                self.end_census = Some(self.census(k));
                k.finish(End::Done);
            }
            DEAD if !self.deadline_hit => {
                // clients that still wait give up; everything must settle all the same
                self.deadline_hit = true;
                for c in 0..self.cl.len() {
                    if self.cl[c].end == CEnd::Open && !self.cl[c].silent {
                        self.cl[c].hung = true;
                        self.cl[c].end = CEnd::Cut;
                        self.cl[c].end_at = k.now;
                        k.log(|| format!("client {c}: gives up"));
                        if let Some(conn) = self.cl[c].conn {
                            k.arrive_rst(conn);
                        }
                    }
                }
                k.after(DEADLINE, DEAD, 0);
                self.check_all(k);
            }
            DEAD => {
                self.end_census = Some(self.census(k));
                k.finish(End::Done);
            }
            ACCEPTF => k.accept_fault(self.s.app.port, b as i32),
            SWAP => {
                let sw = &self.s.fs_swaps[c];
                k.log(|| format!("file {} replaced", sw.path));
                let d = sw.data.as_ref().map(|d| Rc::new(d.bytes()));
                self.versions.push((sw.path.clone(), k.now, d.clone()));
                match d {
                    Some(d) => {
                        k.fs.insert(sw.path.clone(), Node::File(d));
                    }
                    None => {
                        k.fs.remove(&sw.path);
                    }
                }
            }
            JUMP => {
                k.real_skew += self.s.clock_jumps[c].1;
                k.stats.clock_jumps += 1;
            }
            _ => {}
        }
    }
    fn on_listen(&mut self, k: &mut Kernel, ip: u32, port: u16) {
        if self.listened.is_some() {
            return;
        }
        self.listened = Some((ip, port, k.now));
        for (i, c) in self.s.conns.iter().enumerate() {
            k.after(c.at, CONNECT, i as u64);
        }
        for (t, e) in &self.s.accept_faults {
            k.after(*t, ACCEPTF, *e as u64);
        }
        for (i, sw) in self.s.fs_swaps.iter().enumerate() {
            match sw.on {
                None => k.after(sw.at, SWAP, i as u64),
                Some((op, n)) => k.fs_triggers.push((sw.path.clone(), op, n, SWAP, i as u64)),
            }
        }
        for (i, j) in self.s.clock_jumps.iter().enumerate() {
            k.after(j.0, JUMP, i as u64);
        }
        k.after(DEADLINE, DEAD, 0);
    }
    fn on_accept(&mut self, k: &mut Kernel, _conn: usize) {
        if self.base.is_none() {
            // idle: everything is set up, nothing has been accepted before this call
            let mut b = self.census(k);
            b.0 .0 -= 1;
            b.0 .2 -= 1;
            self.base = Some(b);
        }
    }
    fn on_write(&mut self, k: &mut Kernel, conn: usize) {
        if let Some(Some(c)) = self.by_conn.get(conn).cloned() {
            self.sched_read(k, c);
        }
    }
    fn on_shut(&mut self, k: &mut Kernel, conn: usize, closed: bool) {
        if let Some(Some(c)) = self.by_conn.get(conn).cloned() {
            self.cl[c].server_closed_fd |= closed;
            self.sched_read(k, c);
        }
    }
    fn on_end(&mut self, k: &mut Kernel, why: End) -> Vec<u8> {
        let r = crate::oracle::judge(self, k, why);
        serde_json::to_vec(&r).unwrap()
    }
}
#[allow(dead_code)]
pub fn ms(n: u64) -> u64 {
    n * MS
}
#[allow(dead_code)]
fn _k() {
    let _ = kern::FDBASE;
}
