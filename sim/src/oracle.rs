//! Judges a finished run against the properties.
use vcore::kern::{End, FsAct, Kernel, Node, Trace, SEC};
use crate::model::{self, BodyM, Exp, Flat, Oc, Route, Txt};
use vcore::scenario::*;
use vapp::Ev;
use crate::world::{CEnd, Resp, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    /// kind of violation, without run-specific data
    pub sig: String,
    pub msg: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Verdict {
    pub end: String,
    pub viol: Vec<Viol>,
    pub harness: Vec<String>,
    pub stats: vcore::kern::KStats,
    pub digest: u64,
    pub inter: u64,
    pub now: u64,
    pub rec: Trace,
    pub reqs: u64,
    pub resps: u64,
    pub cuts: BTreeMap<String, u64>,
    pub conns: u64,
    pub panics: u64,
    pub log: Vec<String>,
    /// response (status, digest of body) per connection, for comparing runs
    pub outcome: u64,
}

struct Ck<'a> {
    v: Vec<Viol>,
    s: &'a Scenario,
}
impl Ck<'_> {
    fn viol(&mut self, props: &[&str], sig: &str, msg: String) {
        if self.v.len() < 40 {
            let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
            p.sort();
            p.dedup();
            self.v.push(Viol { props: p, sig: sig.into(), msg });
        }
    }
}
fn bad_value(v: &str) -> bool {
    v.bytes().any(|b| (b < 32 && b != b'\t') || b == 127)
}
fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    if b.len() > 400 {
        format!("{s:?}... ({} bytes, fnv {:016x})", b.len(), fnv(b))
    } else {
        format!("{s:?}")
    }
}
fn features(s: &Scenario, e: &Exp, q: &ReqSpec) -> Vec<&'static str> {
    let mut p = vec!["C01", "C13"];
    match &e.fin {
        Oc::Resp(r) => {
            if r.headers.iter().any(|h| bad_value(&h.1)) {
                p.push("C07");
            }
            if matches!(r.body, BodyM::File(_)) {
                p.push("C08");
            }
            if r.status == 404 {
                p.push("C07");
                p.push("C02");
            }
        }
        Oc::None | Oc::Err(_) => p.push("C07"),
        Oc::Panic => p.push("C05"),
    }
    if !e.before.is_empty() {
        p.push("C03");
    }
    if s.app.state.is_some() {
        p.push("C10");
    }
    if e.reads_body {
        p.push("C04");
    }
    if q.plan.query || matches!(q.plan.mode, Mode::Form | Mode::FormMap | Mode::FormMulti) {
        p.push("C14");
    }
    if !e.loggers.is_empty() {
        p.push("C11");
    }
    if s.conns.iter().any(|c| c.cut.is_some() || c.reqs.iter().any(|r| r.garbage.is_some() || has_panic(&r.plan)))
        || !s.accept_faults.is_empty()
    {
        p.push("C05");
    }
    p
}
pub fn has_panic(p: &Plan) -> bool {
    matches!(p.out, Out::Panic(_)) || p.mws.iter().any(|m| matches!(m.act, MwAct::PanicAfter | MwAct::PanicBefore))
}
/// Which properties the differing lines of an echo speak about.
fn echo_tags(want: &[u8], got: &[u8]) -> Option<Vec<&'static str>> {
    let (w, g) = (std::str::from_utf8(want).ok()?, std::str::from_utf8(got).ok()?);
    if !w.starts_with("rid=") || !g.starts_with("rid=") {
        return None;
    }
    let (w, g): (Vec<&str>, Vec<&str>) = (w.lines().collect(), g.lines().collect());
    if w.len() != g.len() {
        return None;
    }
    let mut t = vec!["C01", "C13"];
    for (a, b) in w.iter().zip(&g) {
        if a != b {
            match a.split('=').next().unwrap() {
                "hid" | "m" | "path" | "params" | "tp" => t.push("C02"),
                "trail" => t.extend(["C03", "C10"]),
                "st" => t.push("C10"),
                "qd" => t.push("C14"),
                "body" => t.extend(["C04", "C14"]),
                _ => {}
            }
        }
    }
    Some(t)
}

struct FileView {
    /// contents over time: (from, content); None: not a readable regular file
    hist: Vec<(u64, Option<Rc<Vec<u8>>>)>,
}
fn file_view(w: &World, k: &Kernel, rel: &str) -> (String, FileView) {
    // lexical resolution: scripted trees have no links
    let mut cur: Vec<&str> = k.cwd.split('/').filter(|s| !s.is_empty()).collect();
    if rel.starts_with('/') {
        cur.clear();
    }
    for c in rel.split('/').filter(|s| !s.is_empty()) {
        match c {
            "." => {}
            ".." => {
                cur.pop();
            }
            c => cur.push(c),
        }
    }
    let p = format!("/{}", cur.join("/"));
    let init = w.s.fs.iter().find(|f| f.path == p).and_then(|f| f.data.as_ref()).map(|d| Rc::new(d.bytes()));
    let mut hist = vec![(0, init)];
    for (path, t, d) in &w.versions {
        if *path == p {
            hist.push((*t, d.clone()));
        }
    }
    (p, FileView { hist })
}
impl FileView {
    fn during(&self, a: u64, b: u64) -> Vec<Option<Rc<Vec<u8>>>> {
        let mut v = vec![];
        for (i, (t, d)) in self.hist.iter().enumerate() {
            let end = self.hist.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
            if *t <= b && end >= a {
                v.push(d.clone());
            }
        }
        v
    }
}
pub fn inside(p: &str, dir: &str) -> bool {
    p == dir || (p.starts_with(dir) && p.as_bytes().get(dir.len()) == Some(&b'/'))
}
fn lexical(cwd: &str, raw: &str) -> String {
    let mut cur: Vec<&str> = if raw.starts_with('/') { vec![] } else { cwd.split('/').filter(|s| !s.is_empty()).collect() };
    for c in raw.split('/').filter(|s| !s.is_empty()) {
        match c {
            "." => {}
            ".." => {
                cur.pop();
            }
            c => cur.push(c),
        }
    }
    format!("/{}", cur.join("/"))
}

/// Checks one received response (possibly cut short); `partial` allows a prefix.
#[allow(clippy::too_many_arguments)]
fn check_resp(ck: &mut Ck, w: &World, k: &Kernel, c: usize, i: usize, e: &Exp, r: &Resp, partial: bool, from: u64) {
    let q = &w.s.conns[c].reqs[i];
    let id = rid(c, i);
    let head = format!("conn {c} request {i} ({} {}, rid {id})", q.method, short(q.target.as_bytes()));
    let tags = features(w.s, e, q);
    let cmp = |ck: &mut Ck, want: &[u8]| {
        let bad = if partial { !want.starts_with(&r.body) } else { want != &r.body[..] };
        if bad {
            let t = echo_tags(want, &r.body).unwrap_or_else(|| tags.clone());
            ck.viol(&t, "wrong body", format!("{head}: body differs\n  want {}\n  got  {}", short(want), short(&r.body)));
        }
        !bad
    };
    let status = |ck: &mut Ck, want: u16| {
        if r.status != want {
            ck.viol(&tags, "wrong status", format!("{head}: status {} instead of {want}; body {}", r.status, short(&r.body)));
        }
        r.status == want
    };
    match &e.fin {
        Oc::Panic => {
            if r.status < 500 {
                ck.viol(&["C01", "C05"], "response to a panicked request", format!("{head}: status {}", r.status));
            }
        }
        Oc::None => {
            if status(ck, 200) {
                cmp(ck, b"");
            }
        }
        Oc::Err(t) => {
            if status(ck, 500) {
                if let Txt::Exact(t) = t {
                    cmp(ck, t.as_bytes());
                }
            }
        }
        Oc::Resp(m) => {
            if m.headers.iter().any(|h| bad_value(&h.1)) {
                status(ck, 500);
                return;
            }
            let mut ok = true;
            match &m.body {
                BodyM::File(path) => {
                    let odd = path.split('/').any(|c| c == "." || c == "..");
                    let (abs, fv) = file_view(w, k, path);
                    let vs = fv.during(from, r.t_done.max(r.t_first).max(k.now * partial as u64));
                    if (200..300).contains(&r.status) {
                        ok = vs.iter().flatten().any(|d| if partial { d.starts_with(&r.body) } else { d[..] == r.body[..] });
                        if !ok {
                            ck.viol(
                                &["C08", "C13", "C01"],
                                "served file is not the file",
                                format!(
                                    "{head}: file {abs} answered {} with {}; versions {:?}",
                                    r.status,
                                    short(&r.body),
                                    vs.iter().map(|v| v.as_ref().map(|d| short(d))).collect::<Vec<_>>()
                                ),
                            );
                        } else if r.status != 200 {
                            ck.viol(&["C08", "C13"], "wrong status", format!("{head}: file {abs} answered {}", r.status));
                        }
                    } else {
                        let fault = w.s.fs_faults.iter().any(|f| f.path == abs && matches!(f.act, FsAct::Err(_)));
                        if !odd && !fault && !vs.is_empty() && vs.iter().all(|v| v.is_some()) {
                            ck.viol(
                                &["C08", "C01", "C02"],
                                "existing file not served",
                                format!("{head}: file {abs} answered {} {}", r.status, short(&r.body)),
                            );
                        }
                        if r.status < 400 {
                            ck.viol(&["C08", "C13"], "wrong status", format!("{head}: file {abs} answered {}", r.status));
                        }
                    }
                }
                _ => {
                    ok = status(ck, m.status);
                    if ok {
                        match &m.body {
                            BodyM::Exact(b) => ok = cmp(ck, b),
                            BodyM::Aborted(b) => {
                                // a body that ends with the connection never looks complete
                                if !partial && !r.until_close {
                                    ck.viol(
                                        &["C13"],
                                        "aborted body presented as complete",
                                        format!("{head}: {} of {} bytes", r.body.len(), b.len()),
                                    );
                                } else if !b.starts_with(&r.body) {
                                    ck.viol(&["C13", "C01"], "wrong body", format!("{head}: aborted body differs: {}", short(&r.body)));
                                }
                            }
                            _ => return,
                        }
                    }
                }
            }
            if !ok {
                return;
            }
            let mut want: BTreeMap<&str, &str> = BTreeMap::new();
            for (n, v) in &m.headers {
                want.insert(n, v);
            }
            for (n, v) in &want {
                let got: Vec<&str> = r.headers.iter().filter(|h| h.0 == *n).map(|h| h.1.as_str()).collect();
                if got != [v.trim()] {
                    ck.viol(&["C13", "C01"], "wrong header", format!("{head}: header {n}: want {v:?} got {got:?}"));
                }
            }
            for (n, _) in &r.headers {
                if !want.contains_key(n.as_str())
                    && !["date", "content-length", "transfer-encoding", "connection"].contains(&n.as_str())
                {
                    ck.viol(&["C13", "C01"], "unexpected header", format!("{head}: header {n} was not set"));
                }
            }
        }
    }
}

pub fn judge(w: &mut World, k: &mut Kernel, why: End) -> Verdict {
    let s = w.s;
    let mut ck = Ck { v: vec![], s };
    let mut harness = vec![];
    let flat = match model::flatten(&s.app) {
        Ok(f) => f,
        Err(e) => {
            harness.push(format!("scenario registers something ambiguous: {e}"));
            model::flatten(&AppSpec::default()).unwrap()
        }
    };
    let all_faulty = ["C05", "C06"];
    match why {
        End::Done => {}
        End::StepLimit => ck.viol(&["C06"], "no progress", "the server keeps computing without ever becoming idle".into()),
        End::MainReturned | End::Exit => ck.viol(&all_faulty, "server stopped", format!("listen() ended ({why:?})")),
        End::Rejected if s.clash.is_some() => {}
        End::Rejected => ck.viol(&["C02"], "registration rejected", "an unambiguous set of routes was refused".into()),
        End::Quiescent => ck.viol(&all_faulty, "server never listened", "nothing left to do before listening".into()),
    }
    if let (Some(x), true) = (&s.clash, why != End::Rejected) {
        ck.viol(&["C02"], "competing registration accepted", format!("{x:?} on top of registrations it replaces or hides"));
    }
    if let Some((ip, port, _)) = w.listened {
        if ip != 0x7f000001 || port != s.app.port {
            ck.viol(&["C06"], "wrong address", format!("bound to {:x}:{port}", ip));
        }
    }
    if w.probe_ok == Some(false) {
        ck.viol(&all_faulty, "listener gone", "the server no longer listens".into());
    }

    // ---- per-request histories
    let mut seq: BTreeMap<u32, Vec<String>> = BTreeMap::new();
    let mut ran: BTreeMap<u32, u32> = BTreeMap::new();
    let mut before: BTreeMap<u32, Vec<(u32, String, String)>> = BTreeMap::new();
    let mut after: BTreeMap<u32, Vec<(u32, String)>> = BTreeMap::new();
    let mut decs: BTreeMap<u32, Vec<Result<String, String>>> = BTreeMap::new();
    // outcomes of decoding the same bytes, with the first request that saw each
    let mut same: BTreeMap<(u8, Vec<u8>), BTreeMap<Result<String, String>, u32>> = BTreeMap::new();
    let mut npanic = 0;
    let mut handed: BTreeMap<u32, (String, String)> = BTreeMap::new();
    let hist = std::mem::take(vapp::hist());
    for r in &hist {
        match &r.ev {
            Ev::MwB { rid, mid, trail, st } => {
                seq.entry(*rid).or_default().push(format!("B{mid}"));
                before.entry(*rid).or_default().push((*mid, trail.clone(), st.clone()));
            }
            Ev::MwA { rid, mid, out } => {
                seq.entry(*rid).or_default().push(format!("A{mid}"));
                after.entry(*rid).or_default().push((*mid, out.clone()));
            }
            Ev::HStart { rid, hid } => {
                seq.entry(*rid).or_default().push(format!("H{hid}"));
                *ran.entry(*rid).or_default() += 1;
            }
            Ev::Out { rid, got: false, out, data } => {
                handed.insert(*rid, (out.clone(), data.clone()));
            }
            // what the stage inside handed back reaches the one around it unchanged
            Ev::Out { rid, got: true, out, data } => {
                if let (Some((o, d)), true) = (handed.get(rid), *rid != u32::MAX) {
                    if o != out {
                        let t: &[&'static str] = if flat.has_logger { &["C03", "C11"] } else { &["C03"] };
                        ck.viol(t, "outcome changed between stages", format!("request {rid}: {o} became {out}"));
                    }
                    if d != data {
                        ck.viol(&["C10"], "context data changed between stages", format!("request {rid}: {d} became {data}"));
                    }
                }
            }
            Ev::Dec { rid, res } => decs.entry(*rid).or_default().push(res.clone()),
            Ev::Qry { rid, res } => {
                if let Some(q) = s.req(*rid) {
                    let t = q.query_str();
                    // without the number that makes the request's target unique
                    let t = t.rsplit_once("&u=").map_or(t, |x| x.0);
                    same.entry((Mode::Ignore as u8, t.as_bytes().to_vec())).or_default().entry(res.clone()).or_insert(*rid);
                }
            }
            Ev::Panic { msg, loc } => {
                npanic += 1;
                if loc.contains("sim/src") || loc.starts_with("src/") {
                    if !msg.contains("SCRIPTED") {
                        harness.push(format!("harness panic {msg} at {loc}"));
                    }
                } else if msg.contains("can_write_head") && s.conns.iter().any(|c| c.reqs.iter().any(|r| r.garbage.is_some() || r.broken())) {
                    // hyper's own debug assertion, on a connection that carried malformed bytes;
                    // what the client misses because of it is judged below
                } else if !msg.contains("SCRIPTED") {
                    let l: String = loc.chars().filter(|c| !c.is_ascii_digit()).collect();
                    let mut t = vec!["C05", "C06", "C07"];
                    if flat.has_logger {
                        t.push("C11");
                    }
                    if l.contains("response.rs") {
                        t.push("C08");
                    }
                    if l.contains("deser") || l.contains("context.rs") {
                        t.extend(["C14", "C04"]);
                    }
                    ck.viol(&t, "server code panicked", format!("{msg} at {loc}"));
                }
            }
            _ => {}
        }
    }
    for id in seq.keys() {
        if s.req(*id).is_none() {
            ck.viol(&["C01", "C02"], "request nobody sent", format!("rid {id} reached the application"));
        }
    }

    // ---- per connection
    let mut nreq = 0u64;
    let mut nresp = 0u64;
    let mut cuts: BTreeMap<String, u64> = BTreeMap::new();
    let mut log_min: Vec<(String, bool)> = vec![]; // (what, certain)
    let mut arrivals: Vec<(String, usize, bool)> = vec![];
    let mut outcome = 0u64;
    let cpu = (k.stats.sps - k.stats.cov) * k.cfg.tick;
    let mut stuck_ok: Vec<bool> = vec![]; // per client
    let mut worst_isolation: Vec<(usize, u64, u64)> = vec![];
    let faulty_elsewhere = s.conns.iter().any(|c| c.cut.is_some());
    for c in 0..s.conns.len() {
        let spec = &s.conns[c];
        let cl = &w.cl[c];
        nresp += cl.resps.len() as u64;
        if let Some(kind) = cl.cut_done {
            *cuts.entry(format!("{kind:?}")).or_default() += 1;
        }
        for r in &cl.resps {
            outcome = (outcome ^ fnv(&r.body) ^ r.status as u64).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        if cl.end == CEnd::Refused {
            ck.viol(&["C05", "C06"], "connection refused", format!("conn {c}: nobody listens"));
            stuck_ok.push(false);
            continue;
        }
        let started = cl.connected_at;
        let mut tainted = cl.cut_done.is_some();
        let mut unread = false; // a request so far has a body that nobody read
        let blocked = cl.conn.map(|n| k.conns[n].blocked).unwrap_or(false);
        let mut may_close = false; // the server may close after the responses so far
        let mut must_stop = false; // nothing after this request is answered
        let mut usable = vec![]; // features that earlier requests exercised
        let mut missing_reported = false;
        for i in 0..spec.reqs.len() {
            let q = &spec.reqs[i];
            let id = rid(c, i);
            let head_sent = i < cl.req_head_end.len() && cl.sent >= cl.req_head_end[i];
            let all_sent = i < cl.req_end.len() && cl.sent >= cl.req_end[i];
            let any_sent = i < cl.req_end.len() && cl.sent > if i == 0 { 0 } else { cl.req_end[i - 1] };
            nreq += any_sent as u64;
            let garbage = q.garbage.is_some() || !head_sent;
            let complete = all_sent && !q.broken() && q.garbage.is_none();
            let e = model::expect(s, &flat, id, complete);
            let resp = cl.resps.get(i);
            let hseq = seq.get(&id).cloned().unwrap_or_default();
            if garbage || must_stop {
                if garbage && any_sent {
                    tainted = true;
                }
                if !hseq.is_empty() {
                    ck.viol(&["C02", "C03", "C01"], "ran without a request", format!("conn {c} request {i}: {hseq:?} ran"));
                }
                if let Some(r) = resp {
                    if must_stop || r.status < 400 {
                        ck.viol(&["C01", "C05"], "answer without a request", format!("conn {c} request {i}: status {}", r.status));
                    }
                }
                must_stop = true;
                continue;
            }
            if !complete && !tainted && !unread && !q.broken() && !cl.hung && (resp.is_some() || !decs.get(&id).map_or(true, |d| d.is_empty())) {
                // nobody disturbs this client: it is still sending, so nothing that needs the
                // whole body can be through
                let x = model::expect(s, &flat, id, true);
                let gave_up = decs.get(&id).map_or(false, |v| v.iter().any(|d| d.is_err()));
                if x.route != Route::Open && matches!(x.dec, Some(Ok(_))) && (resp.is_some() || gave_up) {
                    let mut t = vec!["C04", "C06"];
                    if matches!(q.plan.mode, Mode::Form | Mode::FormMap | Mode::FormMulti) {
                        t.push("C14");
                    }
                    ck.viol(&t, "gave up on a body that was still arriving", format!("conn {c} request {i}: {:?}, status {:?}", decs.get(&id), resp.map(|r| r.status)));
                }
            }
            if !complete {
                tainted = true;
            }
            let open = e.route == Route::Open;
            // events
            let mut want: Vec<String> = e.before.iter().map(|b| format!("B{}", b.0)).collect();
            if let Some(h) = e.handler {
                want.push(format!("H{h}"));
            }
            want.extend(e.after.iter().map(|a| format!("A{}", a.0)));
            let answered = resp.is_some();
            if !open {
                let full = hseq == want;
                let pre = want.starts_with(&hseq);
                let nh = hseq.iter().filter(|x| x.starts_with('H')).count();
                if (answered && !full) || !pre {
                    let mut t = vec![];
                    let hs = |v: &Vec<String>| v.iter().filter(|x| x.starts_with('H')).cloned().collect::<Vec<_>>();
                    if hs(&hseq) != hs(&want) {
                        t.push("C02");
                    }
                    if nh > 1 {
                        t.push("C01");
                    }
                    let ms = |v: &Vec<String>| v.iter().filter(|x| !x.starts_with('H')).cloned().collect::<Vec<_>>();
                    if ms(&hseq) != ms(&want) || t.is_empty() {
                        t.push("C03");
                    }
                    ck.viol(
                        &t,
                        "wrong execution",
                        format!("conn {c} request {i} ({} {}): ran {hseq:?} instead of {want:?}", q.method, q.target),
                    );
                }
                for (x, y) in before.get(&id).iter().flat_map(|v| v.iter()).zip(&e.before) {
                    if x.0 == y.0 && x.1 != y.1 {
                        ck.viol(&["C10", "C03"], "wrong context data", format!("rid {id} middleware {}: trail {} instead of {}", x.0, x.1, y.1));
                    }
                    if x.0 == y.0 && x.2 != y.2 {
                        ck.viol(&["C10"], "wrong state", format!("rid {id} middleware {}: state {} instead of {}", x.0, x.2, y.2));
                    }
                }
                for (x, y) in after.get(&id).iter().flat_map(|v| v.iter()).zip(&e.after) {
                    if let (true, Some(t)) = (x.0 == y.0, &y.1) {
                        let same = if t == "err:*" { x.1.starts_with("err:") } else { x.1 == *t };
                        // a cut connection may turn a decoding result into an error
                        if !same && !(tainted && x.1.starts_with("err:") && e.reads_body) {
                            let tags: &[&str] = if e.loggers.is_empty() { &["C03", "C07"] } else { &["C03", "C07", "C11"] };
                            ck.viol(tags, "wrong outcome seen by middleware", format!("rid {id} middleware {}: {} instead of {t}", x.0, x.1));
                        }
                    }
                }
            }
            // decoding
            let mut dec_err = false;
            for d in decs.get(&id).iter().flat_map(|v| v.iter()) {
                let mut t = vec!["C04"];
                if matches!(q.plan.mode, Mode::Form | Mode::FormMap | Mode::FormMulti) {
                    t.push("C14");
                }
                if complete && !tainted && matches!(q.plan.mode, Mode::Form | Mode::FormMap | Mode::FormMulti) {
                    let b = q.body.as_ref().map(|b| b.data.bytes()).unwrap_or_default();
                    same.entry((q.plan.mode as u8, b)).or_default().entry(d.clone()).or_insert(id);
                }
                if open {
                    dec_err |= d.is_err();
                    continue;
                }
                match (d, &e.dec) {
                    (Ok(v), Some(Ok(x))) if v == x => {}
                    (Err(_), Some(Err(()))) => {}
                    (Err(_), _) if tainted => dec_err = true,
                    (Ok(v), Some(Err(()))) if !complete => {
                        ck.viol(&["C04"], "decoded an incomplete body", format!("rid {id}: body not received completely, decoded as {v}"))
                    }
                    (d, x) => ck.viol(&t, "wrong decoding", format!("rid {id}: decoded {d:?} instead of {x:?}")),
                }
            }
            let has_body = q.body.as_ref().map(|b| !b.data.bytes().is_empty() || b.frame != Frame::Length).unwrap_or(false);
            let unread_now = has_body && !(e.reads_body && !dec_err);
            // the response
            if let Some(r) = resp {
                // a body that ends with the connection: cut by the client, or by hyper (known finding)
                let f1 = r.until_close && blocked && unread_now;
                if f1 && !open && !dec_err {
                    if let Oc::Resp(m) = &e.fin {
                        if matches!(&m.body, BodyM::Exact(b) if b.len() > r.body.len()) {
                            ck.viol(&["C06"], "response cut short after an unread request body", format!("conn {c} request {i}: closed after {} bytes of the body", r.body.len()));
                        }
                    }
                }
                let from = if i < cl.req_sent_at.len() { started.max(if i == 0 { 0 } else { cl.connected_at }) } else { started };
                if !open && !dec_err {
                    // a body that ends with the connection is short when the client ended it
                    check_resp(&mut ck, w, k, c, i, &e, r, f1 || r.until_close && cl.cut_done.is_some(), from);
                }
            } else if cl.resps.len() == i {
                if let Some(r) = &cl.parser.cur {
                    if !open && !dec_err {
                        check_resp(&mut ck, w, k, c, i, &e, r, true, started);
                    }
                }
            }
            let aborted = matches!(&e.fin, Oc::Resp(m) if matches!(m.body, BodyM::Aborted(_)));
            if e.panics && !open {
                tainted |= !hseq.is_empty();
            }
            // it is not specified which handler decided; whichever ran may have aborted
            if open && (has_panic(&q.plan) || !s.fs_faults.is_empty() || matches!(&q.plan.out, Out::Stream { .. } | Out::File { .. } | Out::FileWith { .. })) {
                tainted = true;
            }
            if aborted {
                tainted |= !hseq.is_empty();
            }
            if resp.is_none() && !tainted && !missing_reported && blocked && unread_now && cl.eof && !may_close {
                missing_reported = true;
                ck.viol(
                    &["C06"],
                    "response cut short after an unread request body",
                    format!("conn {c} request {i}: closed with {} bytes of the response sent", cl.parser.cur.as_ref().map(|r| r.body.len()).unwrap_or(0)),
                );
            }
            if resp.is_none() && !tainted && !missing_reported && blocked && unread && cl.hung {
                missing_reported = true;
                ck.viol(
                    &["C06"],
                    "stuck after an unread request body",
                    format!("conn {c} request {i}: neither answered nor closed"),
                );
            }
            unread |= unread_now;
            if resp.is_none() && !tainted && !missing_reported && !(may_close && cl.eof) {
                missing_reported = true;
                let mut t = features(s, &e, q);
                t.push("C06");
                t.extend(usable.iter().cloned());
                if faulty_elsewhere {
                    t.push("C05");
                }
                ck.viol(
                    &t,
                    "no response",
                    format!(
                        "conn {c} request {i} ({} {}) of {}: no complete response; client {:?}, server closed: {}, partial: {:?}, ran {hseq:?}",
                        q.method,
                        short(q.target.as_bytes()),
                        spec.reqs.len(),
                        cl.end,
                        cl.eof,
                        cl.parser.cur.as_ref().map(|r| (r.status, r.body.len()))
                    ),
                );
            }
            match &e.fin {
                Oc::Err(_) | Oc::None => usable.push("C07"),
                Oc::Resp(r) if r.status == 404 || r.headers.iter().any(|h| bad_value(&h.1)) => usable.push("C07"),
                Oc::Resp(r) if r.status == 0 => usable.push("C08"),
                _ => {}
            }
            if !e.loggers.is_empty() {
                usable.push("C11");
            }
            // a request whose body nobody reads allows the server to close
            if unread_now || q.expect {
                may_close = true;
            }
            if open {
                may_close = true;
            }
            if q.close || q.http10 {
                must_stop = true;
            }
            // logger lines
            if open {
                for _ in 0..1 {
                    log_min.push(("open".into(), false));
                }
            }
            let certain = answered && !open && !dec_err;
            let reached = e.loggers.len();
            if reached > 0 {
                arrivals.push((format!("{} {}", q.method, q.sent_target()), reached, certain));
            }
            for l in &e.loggers {
                match &l.out {
                    None => {}
                    Some(Oc::Resp(m)) if m.status == 0 => log_min.push(("S*".into(), certain)),
                    Some(Oc::Resp(m)) => log_min.push((format!("S{}", m.status), certain)),
                    Some(Oc::None) => log_min.push(("S200".into(), certain)),
                    Some(Oc::Err(Txt::Exact(t))) => log_min.push((format!("E{}", t.lines().next().unwrap_or("")), certain)),
                    Some(Oc::Err(Txt::Any)) => log_min.push(("E*".into(), certain)),
                    Some(Oc::Panic) => {}
                }
            }
        }
        if cl.resps.len() > spec.reqs.len() {
            ck.viol(&["C01", "C13"], "extra response", format!("conn {c}: {} responses to {} requests", cl.resps.len(), spec.reqs.len()));
        }
        if let Some(e) = &cl.parser.err {
            ck.viol(&["C01", "C13"], "broken response framing", format!("conn {c} after {} responses: {e}", cl.resps.len()));
        } else if cl.resps.len() >= spec.reqs.len() && cl.parser.leftover() {
            ck.viol(&["C01", "C13"], "extra bytes", format!("conn {c}: bytes after the last response"));
        }
        stuck_ok.push(unread && blocked);
        if cl.end == CEnd::Open || cl.hung && !missing_reported {
            ck.viol(
                &["C06", "C12"],
                if unread && blocked { "stuck after an unread request body" } else { "connection never ends" },
                format!("conn {c}: client closed its side ({:?}) but the server never closed; {} responses", cl.cut_done, cl.resps.len()),
            );
        }
        // isolation: nobody waits for somebody else's stall
        if !tainted && !cl.resps.is_empty() && cl.resps.len() == spec.reqs.len() {
            let last = cl.resps.last().unwrap().t_done - started;
            let lim = 40 * SEC + own_delay(s, c, &flat) * 2 + 2 * cpu + s.accept_faults.len() as u64 * 2 * SEC;
            worst_isolation.push((c, last, lim));
            if last > lim {
                ck.viol(
                    &["C06"],
                    "waited for others",
                    format!("conn {c}: took {} ms although nothing it depends on took longer than {} ms", last / 1_000_000, lim / 1_000_000),
                );
            }
        }
    }

    for ((m, b), outs) in &same {
        if outs.len() > 1 {
            let t: &[&str] = if *m == Mode::Ignore as u8 { &["C14"] } else { &["C14", "C04"] };
            ck.viol(t, "same bytes, different outcome", format!("{:?} decoded as {outs:?}", String::from_utf8_lossy(&b[..b.len().min(300)])));
        }
    }

    // ---- static mounts
    let dirs: Vec<String> = flat.static_dirs.iter().map(|d| lexical(&k.cwd, d.trim_start_matches('/'))).collect();
    let mut free: Vec<String> = vec![];
    // the directory that a request may see, if it is known which one that is
    let own = |q: &ReqSpec| match flat.route(&q.method, q.path()) {
        Route::Found { h: model::HK::Static(d), .. } => Some(lexical(&k.cwd, d.trim_start_matches('/'))),
        _ => None,
    };
    let mut asked: Vec<String> = vec![];
    let mut any = false;
    for c in &s.conns {
        for q in &c.reqs {
            match own(q) {
                Some(d) => asked.push(d),
                None => any |= matches!(flat.route(&q.method, q.path()), Route::Open) || q.garbage.is_some(),
            }
            match &q.plan.out {
                Out::File { path, .. } | Out::FileWith { path, .. } => free.push(lexical(&k.cwd, path)),
                _ => {}
            }
        }
    }
    for o in &k.opens {
        let p = o.resolved.clone().unwrap_or_else(|| lexical(&k.cwd, &o.raw));
        if o.kind != "open" || p.starts_with("/proc") || p.starts_with("/sys") || p.starts_with("/dev") || p.starts_with("/etc") {
            continue;
        }
        if dirs.iter().any(|d| inside(&p, d) && (any || asked.contains(d))) || free.contains(&p) {
            continue;
        }
        ck.viol(&["C09"], "opened outside the mount", format!("open({:?}) = {p}; mounts {dirs:?}", o.raw));
    }
    // content of files outside of every mount must not appear in any response
    for f in &s.fs {
        let Some(d) = &f.data else { continue };
        let mounted = dirs.iter().any(|x| inside(&f.path, x));
        if free.contains(&f.path) || d.len < 24 || matches!(d.kind, CKind::Crlf | CKind::Blank) {
            continue;
        }
        let b = d.bytes();
        for (c, cl) in w.cl.iter().enumerate() {
            for (i, r) in cl.resps.iter().enumerate() {
                let q = &s.conns[c].reqs[i];
                if mounted && own(q).is_none_or(|o| inside(&f.path, &o)) {
                    continue;
                }
                if r.body.windows(24).any(|x| x == &b[..24]) && !plan_has(q, d) {
                    ck.viol(&["C09"], "disclosed a file outside the mount", format!("conn {c} request {i} ({}): contains {}", s.conns[c].reqs[i].target, f.path));
                }
            }
        }
    }

    // ---- logger
    if flat.has_logger && why == End::Done {
        check_log(&mut ck, k, &arrivals, &log_min);
    }

    // ---- release
    for t in vapp::tokens() {
        let (c, i) = (t.rid as usize / 4096, t.rid as usize % 4096);
        let Some(r) = w.cl.get(c).and_then(|cl| cl.resps.get(i)) else { continue };
        if t.rid == u32::MAX || rid(c, i) != t.rid {
            continue;
        }
        let held = t.dropped.unwrap_or(k.now).saturating_sub(r.t_done);
        if held > 10 * SEC {
            let n = ["its clone of the application state", "its context data", "a handler, middleware or stream of it"][t.kind];
            ck.viol(&["C12"], "held after the response", format!("conn {c} request {i}: {n} was held for {} ms after its response was received", held / 1_000_000));
        }
    }
    // a client that resets its connection while a request of it is being handled: everything it sent has been
    // read (the request has no body and nothing follows it), so the server learns of it at once
    let gone: Vec<Option<u64>> = (0..s.conns.len())
        .map(|c| {
            let (cl, reqs) = (&w.cl[c], &s.conns[c].reqs);
            let plain = |i: usize| reqs[i].body.is_none() && !reqs[i].expect && reqs[i].garbage.is_none();
            let reset = cl.cut_done == Some(CutKind::Rst) && cl.end == CEnd::Cut;
            let last = reset && cl.enq > 0 && cl.req_end.get(cl.enq - 1) == Some(&cl.sent) && (0..cl.enq).all(plain);
            (last && cl.resps.len() + 1 >= cl.enq).then_some(cl.end_at)
        })
        .collect();
    for t in vapp::tokens() {
        let (c, i) = (t.rid as usize / 4096, t.rid as usize % 4096);
        if t.rid == u32::MAX || rid(c, i) != t.rid {
            continue;
        }
        let Some(Some(at)) = gone.get(c) else { continue };
        let held = t.dropped.unwrap_or(k.now).saturating_sub(t.born.max(*at));
        if held > 10 * SEC {
            let n = ["its clone of the application state", "its context data", "a handler, middleware or stream of it"][t.kind];
            ck.viol(&["C12"], "held after the client was gone", format!("conn {c} request {i}: {n} was held for {} ms after its client had reset the connection", held / 1_000_000));
        }
    }
    if let (Some(b), Some(e), End::Done) = (&w.base, &w.end_census, why) {
        let left: Vec<usize> = (0..s.conns.len()).filter(|c| w.cl[*c].conn.map(|n| k.conns[n].accepted && !k.conns[n].closed).unwrap_or(false)).collect();
        let known_left = !left.is_empty() && e.0 .0 == b.0 .0 + left.len() && left.iter().all(|c| stuck_ok[*c]);
        if known_left {
            ck.viol(&["C12"], "not released after an unread request body", format!("connections of clients {left:?} left"));
        } else {
            if e.0 .0 > b.0 .0 {
                ck.viol(&["C12"], "connection not released", format!("{} connection descriptors left, clients {left:?}", e.0 .0));
            }
            if e.0 .1 > b.0 .1 {
                ck.viol(&["C12"], "file not released", format!("{} file descriptors left", e.0 .1));
            }
            // 83 kB are taken once, at the first connection and request; pools grow with what is in
            // flight at once (112 kB were the most in 60,000 clean runs)
            if std::env::var("VSIM_SHOW").is_ok() {
                eprintln!("heap {} after {nreq} requests on {} connections", e.2 - b.2, s.conns.len());
            }
            let limit = 100_000 + 150 * s.conns.len() as i64;
            if left.is_empty() && e.2 - b.2 > limit {
                ck.viol(&["C12"], "memory not released", format!("{} bytes allocated since the server was idle remain, after {nreq} requests on {} connections", e.2 - b.2, s.conns.len()));
            }
            for (i, n) in ["application state clones", "context data", "suspended handlers or middlewares"].iter().enumerate() {
                if e.1[i] != b.1[i] {
                    ck.viol(&["C12"], "not released", format!("{n}: {} alive at the end, {} when idle before", e.1[i], b.1[i]));
                }
            }
        }
    }
    for u in &k.unknown {
        harness.push(format!("unsupported call: {u}"));
    }
    if std::env::var("VSIM_SHOW").is_ok() {
        k.verbose = true;
        let so = String::from_utf8_lossy(&k.stdout).into_owned();
        k.log(|| format!("STDOUT\n{so}"));
        k.log(|| format!("isolation {worst_isolation:?}"));
    }
    let _ = ck.s;
    if s.clash.is_some() && why == End::Rejected {
        ck.v.clear(); // refused as it must be: there is no server
    }
    Verdict {
        end: format!("{why:?}{}", if w.deadline_hit { " (deadline)" } else { "" }),
        viol: ck.v,
        harness,
        stats: k.stats.clone(),
        digest: k.digest,
        inter: k.inter,
        now: k.now,
        rec: k.rec.clone(),
        reqs: nreq,
        resps: nresp,
        cuts,
        conns: s.conns.len() as u64,
        panics: npanic,
        log: std::mem::take(&mut k.logbuf),
        outcome,
    }
}
fn plan_has(q: &ReqSpec, d: &Content) -> bool {
    match &q.plan.out {
        Out::Text(c) | Out::Bytes(c) | Out::Json(c) => c.seed == d.seed,
        Out::Stream { data, .. } => data.seed == d.seed,
        _ => false,
    }
}
fn pause_ns(p: &[Pause]) -> u64 {
    p.iter()
        .map(|x| match x {
            Pause::Sleep(n) => n + 2_000_000,
            Pause::Yield(_) => 0,
        })
        .sum()
}
/// Upper bound on the delays that belong to connection `c` itself.
pub fn own_delay(s: &Scenario, c: usize, f: &Flat) -> u64 {
    let spec = &s.conns[c];
    let mut t = spec.linger;
    let mut bytes = 0u64;
    let mut rbytes = 4096u64;
    for (i, q) in spec.reqs.iter().enumerate() {
        let (h, b) = q.encode(rid(c, i));
        bytes += (h.len() + b.len()) as u64;
        rbytes += 4096;
        let p = &q.plan;
        t += pause_ns(&p.pre) + pause_ns(&p.post) + pause_ns(&p.mid);
        if p.mode == Mode::Stream {
            t += pause_ns(&p.mid) * (b.len() as u64 + 2);
        }
        for m in &p.mws {
            t += pause_ns(&m.pre) + pause_ns(&m.post);
        }
        match &p.out {
            Out::Text(c) | Out::Json(c) => rbytes += c.len as u64 * 6,
            Out::Bytes(c) => rbytes += c.len as u64 * 5,
            Out::Stream { data, pause, chunks, .. } => {
                rbytes += data.len as u64 * 8;
                let m = chunks.iter().min().copied().unwrap_or(1).max(1) as u64;
                t += (pause + 2_000_000) * (data.len as u64 / m + 2);
            }
            _ => {}
        }
        let path = match f.route(&q.method, q.path()) {
            Route::Found { h: model::HK::Static(d), rest, .. } => Some(format!("{d}/{}", rest.join("/"))),
            Route::Open => Some("*".into()),
            _ => match &p.out {
                Out::File { path, .. } | Out::FileWith { path, .. } => Some(path.clone()),
                _ => None,
            },
        };
        if let Some(p) = path {
            let abs = match p.starts_with('/') {
                true if matches!(f.route(&q.method, q.path()), Route::Found { h: model::HK::Static(_), .. }) => lexical("/srv/app", p.trim_start_matches('/')),
                _ => lexical("/srv/app", &p),
            };
            let len = s
                .fs
                .iter()
                .filter(|x| x.path == abs)
                .filter_map(|x| x.data.as_ref().map(|d| d.len))
                .chain(s.fs_swaps.iter().filter(|x| x.path == abs).filter_map(|x| x.data.as_ref().map(|d| d.len)))
                .max()
                .unwrap_or(0) as u64;
            rbytes += len;
            let per = if s.fs_max_read == 0 { 4096 } else { s.fs_max_read as u64 };
            t += s.fs_latency * (len / per.min(32).max(1) + 40);
            for x in &s.fs_faults {
                if x.path == abs || p == "*" {
                    if let FsAct::Stall(n) = x.act {
                        t += n;
                    }
                }
            }
        }
    }
    let mseg = spec.seg.iter().min().copied().unwrap_or(1).max(1) as u64;
    let mgap = spec.gap.iter().max().copied().unwrap_or(0);
    t += (bytes / mseg + 2 * spec.reqs.len() as u64 + 2) * mgap;
    t += spec.send_stalls.iter().map(|x| x.1).sum::<u64>() + spec.rd_stalls.iter().map(|x| x.1).sum::<u64>();
    let mrd = spec.rd.iter().min().copied().unwrap_or(1).min(spec.cap as u32).max(1) as u64;
    t + (rbytes / mrd + 10 * spec.reqs.len() as u64 + 10) * (spec.rd_delay + 1)
}

fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn check_log(ck: &mut Ck, k: &Kernel, arrivals: &[(String, usize, bool)], outs: &[(String, bool)]) {
    let text = String::from_utf8_lossy(&k.stdout).into_owned();
    let mut arr: BTreeMap<String, usize> = BTreeMap::new();
    let mut sent: BTreeMap<String, usize> = BTreeMap::new();
    let mut errs: BTreeMap<String, usize> = BTreeMap::new();
    for l in text.lines() {
        let l = strip_ansi(l);
        let tok: Vec<&str> = l.split(' ').collect();
        if tok[0] == "[info]" && tok.get(1) == Some(&"Sent") {
            *sent.entry(format!("S{}", tok.get(2).unwrap_or(&"?"))).or_default() += 1;
        } else if tok[0] == "[error]" {
            *errs.entry(format!("E{}", l.strip_prefix("[error] ").unwrap_or(""))).or_default() += 1;
        } else if tok[0] == "[info]" && tok.len() == 3 {
            *arr.entry(format!("{} {}", tok[1], tok[2])).or_default() += 1;
        }
    }
    // A failed write may lose the rest of its line and spoil the next one, and no more than that
    let hard = k.stdout_hard as usize;
    let mut lost = 0;
    let uncertain_open = outs.iter().any(|o| o.0 == "open");
    // arrivals
    let mut want: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    for (t, n, certain) in arrivals {
        let e = want.entry(t).or_default();
        if *certain {
            e.0 += n;
        }
        e.1 += n;
    }
    for (t, (lo, hi)) in &want {
        let got = arr.get(*t).copied().unwrap_or(0);
        if hard > 0 {
            lost += lo.saturating_sub(got);
        } else if got < *lo || (got > *hi && !uncertain_open) {
            ck.viol(&["C11"], "wrong arrival lines", format!("{t:?}: {got} arrival lines instead of {lo}..{hi}"));
        }
    }
    for (t, n) in &arr {
        if !want.contains_key(t.as_str()) && !uncertain_open && hard == 0 {
            ck.viol(&["C11"], "arrival line without request", format!("{n} x {t:?}"));
        }
    }
    // outcomes
    let count = |p: &str, f: &dyn Fn(&str) -> bool| {
        let v: Vec<&(String, bool)> = outs.iter().filter(|o| o.0.starts_with(p) && f(&o.0)).collect();
        (v.iter().filter(|o| o.1).count(), v.len())
    };
    let anys = count("S*", &|_| true).1;
    let (lo, hi) = count("S", &|_| true);
    let got: usize = sent.values().sum();
    if hard > 0 {
        lost += lo.saturating_sub(got);
        lost += count("E", &|_| true).0.saturating_sub(errs.values().sum());
        if lost > 4 * hard + 2 {
            ck.viol(&["C11"], "lines lost after a failed write", format!("{lost} lines are missing after {hard} failed writes"));
        }
        return;
    }
    // a connection cut at the right moment can turn an outcome into an error and back
    let loose = outs.iter().any(|o| !o.1);
    if got < lo || (got > hi && !loose) {
        ck.viol(&["C11"], "wrong outcome lines", format!("{got} lines with a sent status instead of {lo}..{hi}"));
    }
    let codes: std::collections::BTreeSet<String> =
        outs.iter().map(|o| o.0.clone()).filter(|o| o.starts_with('S') && o != "S*").chain(sent.keys().cloned()).collect();
    for c in codes {
        let (lo, hi) = count("S", &|x| x == c);
        let got = sent.get(&c).copied().unwrap_or(0);
        if got < lo || (got > hi + anys && !loose) {
            ck.viol(&["C11"], "wrong outcome lines", format!("{got} lines for {c} instead of {lo}..{}", hi + anys));
        }
    }
    let (lo, hi) = count("E", &|_| true);
    let got: usize = errs.values().sum();
    if got < lo || (got > hi && !loose) {
        ck.viol(&["C11"], "wrong error lines", format!("{got} error lines instead of {lo}..{hi}"));
    }
    let texts: std::collections::BTreeSet<String> = outs.iter().map(|o| o.0.clone()).filter(|o| o.starts_with('E') && o != "E*").collect();
    for t in texts {
        let lo = count("E", &|x| x == t).0;
        let got = errs.get(&t).copied().unwrap_or(0);
        if got < lo {
            ck.viol(&["C11"], "wrong error lines", format!("{got} error lines for {t:?} instead of at least {lo}"));
        }
    }
}
#[allow(dead_code)]
fn _n(n: &Node) -> bool {
    matches!(n, Node::Dir)
}
