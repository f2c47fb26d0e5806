//! Minimises a failing scenario while it keeps failing in the same way.
use crate::exec;
use vcore::kern::Trace;
use crate::oracle::{Verdict, Viol};
use vcore::scenario::*;
use std::time::{Duration, Instant};

pub fn same(v: &Verdict, prop: &str, sig: &str) -> Option<Viol> {
    if !v.harness.is_empty() {
        return None;
    }
    v.viol.iter().find(|x| x.sig == sig && x.props.iter().any(|p| p == prop)).cloned()
}
struct Sh {
    best: Scenario,
    v: Viol,
    rec: Trace,
    prop: String,
    sig: String,
    shm: *mut u8,
    until: Instant,
    pub tries: u32,
}
impl Sh {
    fn time(&self) -> bool {
        Instant::now() < self.until
    }
    fn attempt(&mut self, c: Scenario) -> bool {
        if !self.time() || crate::model::flatten(&c.app).is_err() {
            return false;
        }
        self.tries += 1;
        let v = exec::run(&c, self.shm);
        if let Some(x) = same(&v, &self.prop, &self.sig) {
            self.best = c;
            self.v = x;
            self.rec = v.rec;
            return true;
        }
        false
    }
    fn with(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.attempt(c)
    }
    /// Removes chunks of a list.
    fn ddmin<T: Clone>(&mut self, get: impl Fn(&mut Scenario) -> &mut Vec<T>, min: usize) {
        let mut n = get(&mut self.best.clone()).len();
        let mut sz = n.div_ceil(2).max(1);
        while n > min && self.time() {
            let mut i = 0;
            let mut any = false;
            while i < n && n > min && self.time() {
                let e = (i + sz).min(n);
                if n - (e - i) < min {
                    break;
                }
                if self.with(|c| {
                    get(c).drain(i..e);
                }) {
                    n = get(&mut self.best.clone()).len();
                    any = true;
                } else {
                    i = e;
                }
            }
            if sz == 1 && !any {
                break;
            }
            sz = (sz / 2).max(1);
        }
    }
}
fn simple_conn(c: &mut ConnSpec) {
    c.seg = vec![1 << 20];
    c.gap = vec![0];
    c.rd = vec![1 << 20];
    c.rd_delay = 0;
    c.cap = 1 << 20;
}
pub fn minimise(s: &Scenario, prop: &str, v0: &Viol, rec: Trace, shm: *mut u8, budget: Duration) -> (Scenario, Viol, u32) {
    let mut sh = Sh {
        best: s.clone(),
        v: v0.clone(),
        rec,
        prop: prop.into(),
        sig: v0.sig.clone(),
        shm,
        until: Instant::now() + budget,
        tries: 0,
    };
    // pass 1: the situation (schedule still drawn from the seed)
    for _round in 0..3 {
        let before = sh.tries;
        let size = serde_json::to_string(&sh.best).unwrap().len();
        // quiet schedule first: often the schedule does not matter
        sh.with(|c| {
            c.sched.gap = 0;
            c.sched.noise = 0;
            c.sched.epoll_intr = 0;
            c.sched.spurious = 0;
        });
        sh.with(|c| c.workers = 0);
        sh.with(|c| c.fs_latency = 0);
        sh.with(|c| c.fs_max_read = 0);
        sh.with(|c| c.accept_faults.clear());
        sh.with(|c| c.clock_jumps.clear());
        sh.with(|c| c.stdout_dead = None);
        sh.with(|c| c.stderr_dead = None);
        sh.ddmin(|c| &mut c.conns, 1);
        sh.ddmin(|c| &mut c.stdout_faults, 0);
        sh.ddmin(|c| &mut c.accept_faults, 0);
        sh.ddmin(|c| &mut c.fs_faults, 0);
        sh.ddmin(|c| &mut c.fs_swaps, 0);
        sh.ddmin(|c| &mut c.fs, 0);
        let nc = sh.best.conns.len();
        for i in 0..nc {
            sh.ddmin(move |c| &mut c.conns[i].reqs, 0);
            sh.with(|c| c.conns[i].cut = None);
            sh.with(|c| simple_conn(&mut c.conns[i]));
            sh.with(|c| c.conns[i].send_stalls.clear());
            sh.with(|c| c.conns[i].rd_stalls.clear());
            sh.with(|c| c.conns[i].rst_close = false);
            sh.with(|c| c.conns[i].at = 0);
            sh.with(|c| c.conns[i].linger = 0);
            let nq = sh.best.conns[i].reqs.len();
            for j in 0..nq {
                sh.with(|c| c.conns[i].reqs[j].plan = Plan::default());
                sh.with(|c| c.conns[i].reqs[j].plan.mws.clear());
                sh.with(|c| {
                    let p = &mut c.conns[i].reqs[j].plan;
                    p.pre.clear();
                    p.mid.clear();
                    p.post.clear();
                });
                sh.with(|c| {
                    let p = &mut c.conns[i].reqs[j].plan;
                    p.query = false;
                    p.bump = 0;
                    p.hold = false;
                });
                sh.with(|c| c.conns[i].reqs[j].plan.mode = Mode::Ignore);
                sh.with(|c| c.conns[i].reqs[j].plan.out = Out::Echo);
                sh.with(|c| c.conns[i].reqs[j].body = None);
                sh.with(|c| {
                    let q = &mut c.conns[i].reqs[j];
                    q.extra_headers = 0;
                    q.expect = false;
                });
                sh.with(|c| {
                    let q = &mut c.conns[i].reqs[j];
                    q.target = q.path().to_string();
                });
                let nm = sh.best.conns[i].reqs[j].plan.mws.len();
                for m in 0..nm {
                    sh.with(|c| {
                        let m = &mut c.conns[i].reqs[j].plan.mws[m];
                        m.pre.clear();
                        m.post.clear();
                        m.bump = 0;
                    });
                }
            }
        }
        sh.ddmin(|c| &mut c.app.steps, 0);
        let ns = sh.best.app.steps.len();
        for i in 0..ns {
            if matches!(sh.best.app.steps[i], Step::Scope { .. } | Step::Mount { .. }) {
                sh.ddmin(
                    move |c| match &mut c.app.steps[i] {
                        Step::Scope { steps, .. } | Step::Mount { steps, .. } => steps,
                        _ => unreachable!(),
                    },
                    0,
                );
            }
        }
        sh.with(|c| c.app.state = None);
        sh.with(|c| c.app.dflt = false);
        if sh.tries == before || serde_json::to_string(&sh.best).unwrap().len() >= size || !sh.time() {
            break;
        }
    }
    // pass 2: the schedule, as a list of deviations from the default
    sh.until = sh.until.max(Instant::now() + budget / 3);
    let rec = sh.rec.clone();
    if !sh.with(|c| c.sched.replay = Some(Trace::default())) && sh.with(|c| c.sched.replay = Some(rec)) {
        sh.ddmin(|c| &mut c.sched.replay.as_mut().unwrap().preempts, 0);
        sh.ddmin(|c| &mut c.sched.replay.as_mut().unwrap().picks, 0);
    }
    (sh.best, sh.v, sh.tries)
}
