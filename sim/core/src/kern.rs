//! The simulated kernel: one run token, a seeded scheduler, simulated time, sockets, epoll,
//! eventfd, files and stdio.  Everything here runs with the token held and with `INK` > 0, so
//! there is no real concurrency inside it.
use crate::rng::Rng;
use crate::sys;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
thread_local! {
    pub static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static INK: Cell<u32> = const { Cell::new(0) };
}
static mut KERN: *mut Kernel = std::ptr::null_mut();
static mut ENV: Option<Box<dyn Env>> = None;

pub const FDBASE: i32 = 1000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// What the world outside the server does; implemented by `world.rs`.
pub trait Env {
    fn on_event(&mut self, k: &mut Kernel, a: u64, b: u64);
    fn on_listen(&mut self, k: &mut Kernel, ip: u32, port: u16);
    fn on_accept(&mut self, k: &mut Kernel, conn: usize);
    fn on_write(&mut self, k: &mut Kernel, conn: usize);
    fn on_shut(&mut self, k: &mut Kernel, conn: usize, closed: bool);
    fn on_end(&mut self, k: &mut Kernel, why: End) -> Vec<u8>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Quiescent,
    StepLimit,
    MainReturned,
    /// a registration panicked
    Rejected,
    Exit,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TState {
    Run,
    Ready,
    Futex(usize, u32),
    Epoll(usize),
    Sleep,
    Join(usize),
    Done,
}
pub struct Th {
    pub state: TState,
    pub park: Box<AtomicU32>,
    pub timed_out: bool,
    pub deadline: Option<u64>,
    pub pthread: usize,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Trace {
    /// (decision number, choice) where the choice was not the default (oldest ready thread, first waiter)
    pub picks: Vec<(u64, u32)>,
    /// scheduling points at which the running thread was preempted
    pub preempts: Vec<u64>,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    /// mean distance between preemptions, in scheduling points; 0 = never preempt
    pub gap: u64,
    /// percentage of non-default picks
    pub noise: u64,
    pub tick: u64,
    pub epoll_intr: u32,
    pub spurious: u32,
    pub hash_seed: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub replay: Option<Trace>,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum FsAct {
    Err(i32),
    /// stall the calling thread for that many simulated ns, then continue normally
    Stall(u64),
    /// deliver at most n bytes
    Short(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum FsOp {
    Open,
    Stat,
    Read,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct FsFault {
    /// resolved path it applies to
    pub path: String,
    pub op: FsOp,
    /// n-th such operation on that path (0-based), counted over the run
    pub nth: u32,
    pub act: FsAct,
}
#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    File(Rc<Vec<u8>>),
    Link(String),
}
pub struct OpenRec {
    pub raw: String,
    pub resolved: Option<String>,
    pub ok: bool,
    pub kind: &'static str,
}

pub struct EpItem {
    pub fd: i32,
    pub obj: usize,
    pub events: u32,
    pub data: u64,
    pub queued: bool,
    pub armed: bool,
}
pub struct OpenFile {
    pub path: String,
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    pub dir: bool,
}
pub enum Obj {
    Free,
    Epoll(Vec<EpItem>),
    Event(u64),
    Sock,
    Listener { backlog: VecDeque<usize>, faults: VecDeque<i32>, ip: u32, port: u16, live: bool },
    Conn(usize),
    File(OpenFile),
    Pipe,
}
pub struct ObjEnt {
    pub obj: Obj,
    pub refs: u32,
}
pub struct Conn {
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rst: bool,
    pub rst_seen: bool,
    pub tx: VecDeque<u8>,
    pub cap: usize,
    pub tx_fin: bool,
    pub nospace: bool,
    /// a send has found the buffer full or filled it
    pub blocked: bool,
    pub obj: usize,
    pub accepted: bool,
    pub closed: bool,
}

#[derive(Default, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct KStats {
    pub sps: u64,
    /// of them: inside instrumented code
    pub cov: u64,
    pub switches: u64,
    pub preempts: u64,
    pub threads: u64,
    pub events: u64,
    pub epoll_waits: u64,
    pub epoll_intr: u64,
    pub spurious: u64,
    pub eagain_tx: u64,
    pub short_tx: u64,
    pub accept_faults: u64,
    pub fs_opens: u64,
    pub fs_reads: u64,
    pub fs_err: u64,
    pub fs_stall: u64,
    pub fs_short: u64,
    pub stdout_faults: u64,
    pub stderr_faults: u64,
    pub clock_jumps: u64,
    pub unknown: u64,
}

pub struct Kernel {
    pub now: u64,
    pub cfg: SchedCfg,
    pub threads: Vec<Th>,
    pub cur: usize,
    ready: VecDeque<usize>,
    rng: Rng,
    hrng: Rng,
    dec_no: u64,
    next_preempt: u64,
    replay_picks: BTreeMap<u64, u32>,
    replay_preempts: BTreeSet<u64>,
    pub rec: Trace,
    events: BinaryHeap<Reverse<(u64, u64, u64, u64)>>,
    seq: u64,
    next_ev: u64,
    pub objs: Vec<ObjEnt>,
    pub fds: Vec<Option<(usize, bool)>>,
    pub conns: Vec<Conn>,
    pub fs: BTreeMap<String, Node>,
    pub cwd: String,
    pub fs_faults: Vec<FsFault>,
    pub fs_counts: BTreeMap<(String, u8), u32>,
    pub fs_latency: u64,
    /// (path, operation, n-th, event to raise during it)
    pub fs_triggers: Vec<(String, FsOp, u32, u64, u64)>,
    pub fs_max_read: usize,
    pub opens: Vec<OpenRec>,
    pub real_base: u64,
    pub real_skew: i64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub stdout_plan: Vec<(u32, i32)>,
    pub stdout_dead: Option<(u32, i32)>,
    pub stdout_writes: u32,
    /// failed writes, without interrupted ones
    pub stdout_hard: u64,
    pub stderr_dead: Option<i32>,
    pub stats: KStats,
    pub digest: u64,
    /// coarse digest: order of thread switches, environment events and history events only
    pub inter: u64,
    pub verbose: bool,
    pub logbuf: Vec<String>,
    pub max_sp: u64,
    pub join_wait: u32,
    pub unknown: Vec<String>,
    pub shm: *mut u8,
    pub shm_len: usize,
}

pub fn k() -> &'static mut Kernel {
    unsafe { &mut *KERN }
}
fn env() -> &'static mut dyn Env {
    unsafe { &mut **(*std::ptr::addr_of_mut!(ENV)).as_mut().unwrap() }
}

/// RAII: harness code, not server code.
pub struct Ink;
impl Ink {
    #[inline]
    pub fn new() -> Ink {
        INK.with(|c| c.set(c.get() + 1));
        Ink
    }
}
impl Drop for Ink {
    #[inline]
    fn drop(&mut self) {
        INK.with(|c| c.set(c.get() - 1));
    }
}
#[inline]
pub fn active() -> bool {
    ACTIVE.load(Relaxed) && INK.with(|c| c.get()) == 0 && TID.with(|t| t.get()) != usize::MAX
}

/// Runs `f` with the kernel if called from a simulated thread (from harness code inside handlers).
pub fn with<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    let _g = Ink::new();
    f(k())
}

impl Kernel {
    pub fn new(cfg: SchedCfg) -> Kernel {
        let mut rng = Rng::new(cfg.seed);
        let hrng = Rng::new(cfg.hash_seed);
        let (mut rp, mut rs) = (BTreeMap::new(), BTreeSet::new());
        if let Some(t) = &cfg.replay {
            rp = t.picks.iter().cloned().collect();
            rs = t.preempts.iter().cloned().collect();
        }
        let next_preempt = if cfg.replay.is_some() {
            rs.iter().next().copied().unwrap_or(u64::MAX)
        } else if cfg.gap == 0 {
            u64::MAX
        } else {
            1 + rng.below(2 * cfg.gap)
        };
        Kernel {
            now: 0,
            threads: vec![],
            cur: 0,
            ready: VecDeque::new(),
            rng,
            hrng,
            dec_no: 0,
            next_preempt,
            replay_picks: rp,
            replay_preempts: rs,
            rec: Trace::default(),
            events: BinaryHeap::new(),
            seq: 0,
            next_ev: u64::MAX,
            objs: vec![],
            fds: vec![],
            conns: vec![],
            fs: BTreeMap::new(),
            cwd: "/srv/app".into(),
            fs_faults: vec![],
            fs_counts: BTreeMap::new(),
            fs_latency: 0,
            fs_triggers: vec![],
            fs_max_read: usize::MAX,
            opens: vec![],
            real_base: 1_700_000_000 * SEC,
            real_skew: 0,
            stdout: vec![],
            stderr: vec![],
            stdout_plan: vec![],
            stdout_dead: None,
            stdout_writes: 0,
            stdout_hard: 0,
            stderr_dead: None,
            stats: KStats::default(),
            digest: 0xcbf29ce484222325,
            inter: 0xcbf29ce484222325,
            verbose: false,
            logbuf: vec![],
            max_sp: 20_000_000,
            join_wait: 0,
            unknown: vec![],
            shm: std::ptr::null_mut(),
            shm_len: 0,
            cfg,
        }
    }

    // ---------------------------------------------------------------- logging
    #[inline]
    pub fn note(&mut self, code: u64, a: u64, b: u64) {
        for x in [code, a, b, self.now] {
            self.digest = (self.digest ^ x).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
    #[inline]
    pub fn note_inter(&mut self, code: u64, a: u64) {
        for x in [code, a] {
            self.inter = (self.inter ^ x).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            let l = format!("{:>12}ns t{} {}", self.now, self.cur, s);
            self.logbuf.push(l);
        }
    }

    // ---------------------------------------------------------------- decisions
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.dec_no;
        self.dec_no += 1;
        let v = if self.cfg.replay.is_some() {
            (self.replay_picks.get(&i).copied().unwrap_or(0) as usize).min(n - 1)
        } else if self.cfg.noise > 0 && self.rng.below(100) < self.cfg.noise {
            self.rng.us(n)
        } else {
            0
        };
        if v != 0 {
            self.rec.picks.push((i, v as u32));
        }
        v
    }

    pub fn random_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.hrng.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }

    // ---------------------------------------------------------------- events and time
    pub fn at(&mut self, t: u64, a: u64, b: u64) {
        let t = t.max(self.now);
        self.seq += 1;
        self.events.push(Reverse((t, self.seq, a, b)));
        self.next_ev = self.events.peek().map(|r| r.0 .0).unwrap_or(u64::MAX);
    }
    pub fn after(&mut self, d: u64, a: u64, b: u64) {
        self.at(self.now + d, a, b)
    }
    fn next_deadline(&self) -> u64 {
        self.threads.iter().filter_map(|t| t.deadline).min().unwrap_or(u64::MAX)
    }
    fn fire_due(&mut self) {
        while self.next_ev <= self.now {
            let Reverse((_, s, a, b)) = self.events.pop().unwrap();
            self.next_ev = self.events.peek().map(|r| r.0 .0).unwrap_or(u64::MAX);
            self.stats.events += 1;
            self.note(1, a, b);
            self.note_inter(1, s);
            env().on_event(self, a, b);
        }
    }
    fn expire(&mut self) {
        for i in 0..self.threads.len() {
            if let Some(d) = self.threads[i].deadline {
                if d <= self.now {
                    self.threads[i].timed_out = true;
                    self.make_ready(i);
                }
            }
        }
    }
    fn make_ready(&mut self, t: usize) {
        let th = &mut self.threads[t];
        if !matches!(th.state, TState::Run | TState::Ready | TState::Done) {
            th.state = TState::Ready;
            th.deadline = None;
            self.ready.push_back(t);
        }
    }

    // ---------------------------------------------------------------- scheduling
    /// The current thread has set its state; find who runs next and hand over.
    fn schedule(&mut self) {
        let me = self.cur;
        loop {
            self.fire_due();
            self.expire();
            if !self.ready.is_empty() {
                break;
            }
            let t = self.next_ev.min(self.next_deadline());
            if t == u64::MAX {
                self.finish(End::Quiescent);
            }
            self.now = self.now.max(t);
        }
        let i = self.choose(self.ready.len());
        let next = self.ready.remove(i).unwrap();
        self.threads[next].state = TState::Run;
        self.cur = next;
        if next != me {
            self.stats.switches += 1;
            self.note(2, me as u64, next as u64);
            self.note_inter(2, next as u64);
            let park: *const AtomicU32 = &*self.threads[next].park;
            let mine: *const AtomicU32 = &*self.threads[me].park;
            std::hint::black_box(self as *mut Kernel);
            let done = self.threads[me].state == TState::Done;
            unsafe {
                (*park).store(1, SeqCst);
                sys::futex_wake(&*park, 1);
                if done {
                    return;
                }
                park_self(&*mine);
                std::hint::black_box(self as *mut Kernel);
            }
        }
    }
    pub fn block(&mut self, st: TState, deadline: Option<u64>) -> bool {
        let me = self.cur;
        self.threads[me].timed_out = false;
        self.threads[me].deadline = deadline;
        self.threads[me].state = st;
        self.schedule();
        let th = &mut k().threads[me];
        th.deadline = None;
        th.timed_out
    }
    pub fn yield_now(&mut self) {
        let me = self.cur;
        self.threads[me].state = TState::Ready;
        self.ready.push_back(me);
        // the yielding thread goes behind the others; pick among the others if any
        self.fire_due();
        self.expire();
        self.schedule_prefer_other(me);
    }
    fn schedule_prefer_other(&mut self, me: usize) {
        let others = self.ready.len() - 1;
        if others == 0 {
            self.ready.clear();
            self.threads[me].state = TState::Run;
            return;
        }
        let pos = self.ready.iter().position(|&t| t == me).unwrap();
        self.ready.remove(pos);
        let i = self.choose(self.ready.len());
        let next = self.ready.remove(i).unwrap();
        self.ready.push_back(me);
        self.threads[next].state = TState::Run;
        self.cur = next;
        self.stats.switches += 1;
        self.note(2, me as u64, next as u64);
        self.note_inter(2, next as u64);
        let park: *const AtomicU32 = &*self.threads[next].park;
        let mine: *const AtomicU32 = &*self.threads[me].park;
        std::hint::black_box(self as *mut Kernel);
        unsafe {
            (*park).store(1, SeqCst);
            sys::futex_wake(&*park, 1);
            park_self(&*mine);
            std::hint::black_box(self as *mut Kernel);
        }
    }

    /// A scheduling point: time passes, due events happen, the thread may be preempted.
    #[inline]
    pub fn sp(&mut self) {
        self.stats.sps += 1;
        self.now += self.cfg.tick;
        if self.now >= self.next_ev {
            self.fire_due();
        }
        if self.stats.sps >= self.next_preempt {
            self.preempt();
        }
        if self.stats.sps - self.stats.cov > self.max_sp {
            self.finish(End::StepLimit);
        }
    }
    /// A scheduling point inside obsidian's own code: costs no simulated time.
    #[inline]
    pub fn cov_point(&mut self) {
        self.stats.sps += 1;
        self.stats.cov += 1;
        if self.stats.sps >= self.next_preempt {
            self.preempt();
        }
        if self.stats.cov > 15 * self.max_sp {
            self.finish(End::StepLimit);
        }
    }
    #[cold]
    fn preempt(&mut self) {
        let at = self.stats.sps;
        if self.cfg.replay.is_some() {
            self.next_preempt =
                self.replay_preempts.range(at + 1..).next().copied().unwrap_or(u64::MAX);
            if !self.replay_preempts.contains(&at) {
                return;
            }
        } else {
            self.next_preempt = at + 1 + self.rng.below(2 * self.cfg.gap);
        }
        self.expire();
        if self.ready.is_empty() {
            return;
        }
        self.rec.preempts.push(at);
        self.stats.preempts += 1;
        self.yield_now();
    }

    pub fn finish(&mut self, why: End) -> ! {
        let out = env().on_end(self, why);
        unsafe {
            let n = out.len().min(self.shm_len - 8);
            std::ptr::copy_nonoverlapping(out.as_ptr(), self.shm.add(8), n);
            (self.shm as *mut u64).write_volatile(n as u64);
        }
        sys::exit_group(0)
    }

    // ---------------------------------------------------------------- futex
    pub fn futex_wait(&mut self, addr: usize, val: u32, bits: u32, deadline: Option<u64>) -> i32 {
        let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
        if cur != val {
            return libc::EAGAIN;
        }
        if self.cfg.spurious > 0 {
            self.stats.spurious += 1;
            if self.stats.spurious % self.cfg.spurious as u64 == 0 {
                return libc::EINTR;
            }
        }
        if let Some(d) = deadline {
            if d <= self.now {
                return libc::ETIMEDOUT;
            }
        }
        if self.block(TState::Futex(addr, bits), deadline) {
            libc::ETIMEDOUT
        } else {
            0
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: u32, bits: u32) -> u32 {
        let mut woken = 0;
        while woken < n {
            let w: Vec<usize> = self
                .threads
                .iter()
                .enumerate()
                .filter(|(_, t)| matches!(t.state, TState::Futex(a, b) if a == addr && b & bits != 0))
                .map(|(i, _)| i)
                .collect();
            if w.is_empty() {
                break;
            }
            let t = if n as usize >= w.len() { w[0] } else { w[self.choose(w.len())] };
            self.make_ready(t);
            woken += 1;
        }
        woken
    }

    // ---------------------------------------------------------------- descriptors
    pub fn new_obj(&mut self, o: Obj) -> usize {
        for (i, e) in self.objs.iter_mut().enumerate() {
            if e.refs == 0 {
                *e = ObjEnt { obj: o, refs: 0 };
                return i;
            }
        }
        self.objs.push(ObjEnt { obj: o, refs: 0 });
        self.objs.len() - 1
    }
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        self.objs[obj].refs += 1;
        for (i, e) in self.fds.iter_mut().enumerate() {
            if e.is_none() {
                *e = Some((obj, false));
                return FDBASE + i as i32;
            }
        }
        self.fds.push(Some((obj, false)));
        FDBASE + self.fds.len() as i32 - 1
    }
    pub fn obj_of(&self, fd: i32) -> Option<usize> {
        if fd < FDBASE {
            return None;
        }
        self.fds.get((fd - FDBASE) as usize).copied().flatten().map(|x| x.0)
    }
    pub fn close(&mut self, fd: i32) -> i32 {
        let i = (fd - FDBASE) as usize;
        let Some(Some((o, _))) = self.fds.get(i).copied() else { return libc::EBADF };
        self.fds[i] = None;
        self.objs[o].refs -= 1;
        if self.objs[o].refs == 0 {
            for e in self.objs.iter_mut() {
                if let Obj::Epoll(items) = &mut e.obj {
                    items.retain(|it| it.obj != o);
                }
            }
            let old = std::mem::replace(&mut self.objs[o].obj, Obj::Free);
            if let Obj::Conn(c) = old {
                self.note(3, c as u64, 0);
                self.conns[c].closed = true;
                self.conns[c].tx_fin = true;
                env().on_shut(self, c, true);
            }
        }
        0
    }
    /// open descriptors by kind: (connections, files, all)
    pub fn fd_census(&self) -> (usize, usize, usize) {
        let (mut c, mut f, mut a) = (0, 0, 0);
        for e in self.fds.iter().flatten() {
            a += 1;
            match self.objs[e.0].obj {
                Obj::Conn(_) => c += 1,
                Obj::File(_) => f += 1,
                _ => {}
            }
        }
        (c, f, a)
    }

    // ---------------------------------------------------------------- epoll
    fn readiness(&self, obj: usize) -> u32 {
        const IN: u32 = libc::EPOLLIN as u32;
        const OUT: u32 = libc::EPOLLOUT as u32;
        const RDHUP: u32 = libc::EPOLLRDHUP as u32;
        const HUP: u32 = libc::EPOLLHUP as u32;
        const ERR: u32 = libc::EPOLLERR as u32;
        match &self.objs[obj].obj {
            Obj::Event(n) => (if *n > 0 { IN } else { 0 }) | OUT,
            Obj::Listener { backlog, faults, .. } => {
                if backlog.is_empty() && faults.is_empty() {
                    0
                } else {
                    IN
                }
            }
            Obj::Conn(c) => {
                let c = &self.conns[*c];
                let mut r = 0;
                if !c.rx.is_empty() || c.rx_fin || c.rst {
                    r |= IN;
                }
                if c.rst || (!c.tx_fin && c.tx.len() < c.cap) {
                    r |= OUT;
                }
                if c.rx_fin {
                    r |= RDHUP;
                }
                if c.rst || (c.rx_fin && c.tx_fin) {
                    r |= HUP;
                }
                if c.rst && !c.rst_seen {
                    r |= ERR;
                }
                r
            }
            _ => 0,
        }
    }
    /// Something changed on `obj`: queue an edge on every epoll that watches it.
    pub fn notify(&mut self, obj: usize) {
        for e in 0..self.objs.len() {
            let mut hit = false;
            if let Obj::Epoll(items) = &mut self.objs[e].obj {
                for it in items.iter_mut() {
                    if it.obj == obj && it.armed {
                        it.queued = true;
                        hit = true;
                    }
                }
            }
            if hit {
                for t in 0..self.threads.len() {
                    if self.threads[t].state == TState::Epoll(e) {
                        self.make_ready(t);
                    }
                }
            }
        }
    }
    pub fn epoll_ctl(&mut self, ep: usize, op: i32, fd: i32, events: u32, data: u64) -> i32 {
        let Some(obj) = self.obj_of(fd) else { return libc::EBADF };
        if matches!(self.objs[obj].obj, Obj::File(_)) {
            return libc::EPERM;
        }
        let Obj::Epoll(items) = &mut self.objs[ep].obj else { return libc::EINVAL };
        let pos = items.iter().position(|i| i.fd == fd && i.obj == obj);
        match (op, pos) {
            (libc::EPOLL_CTL_ADD, None) => {
                items.push(EpItem { fd, obj, events, data, queued: true, armed: true })
            }
            (libc::EPOLL_CTL_ADD, Some(_)) => return libc::EEXIST,
            (libc::EPOLL_CTL_MOD, Some(p)) => {
                items[p] = EpItem { fd, obj, events, data, queued: true, armed: true }
            }
            (libc::EPOLL_CTL_DEL, Some(p)) => {
                items.remove(p);
            }
            (_, None) => return libc::ENOENT,
            _ => return libc::EINVAL,
        }
        for t in 0..self.threads.len() {
            if self.threads[t].state == TState::Epoll(ep) {
                self.make_ready(t);
            }
        }
        0
    }
    fn epoll_collect(&mut self, ep: usize, max: usize) -> Vec<(u32, u64)> {
        let mut items = match &mut self.objs[ep].obj {
            Obj::Epoll(i) => std::mem::take(i),
            _ => return vec![],
        };
        let mut out = vec![];
        let mut cand: Vec<usize> = (0..items.len())
            .filter(|&i| {
                let it = &items[i];
                it.armed && (it.queued || it.events & libc::EPOLLET as u32 == 0)
            })
            .filter(|&i| {
                let it = &items[i];
                let m = it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
                self.readiness(it.obj) & m != 0
            })
            .collect();
        if cand.len() > 1 {
            let r = self.choose(cand.len());
            cand.rotate_left(r);
        }
        for i in cand {
            if out.len() >= max {
                break;
            }
            let r = self.readiness(items[i].obj);
            let it = &mut items[i];
            let m = it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
            out.push((r & m, it.data));
            it.queued = false;
            if it.events & libc::EPOLLONESHOT as u32 != 0 {
                it.armed = false;
            }
        }
        if let Obj::Epoll(i) = &mut self.objs[ep].obj {
            *i = items;
        }
        out
    }
    pub fn epoll_wait(&mut self, ep: usize, max: usize, timeout_ms: i32) -> Result<Vec<(u32, u64)>, i32> {
        self.stats.epoll_waits += 1;
        let out = self.epoll_collect(ep, max);
        if !out.is_empty() || timeout_ms == 0 {
            return Ok(out);
        }
        if self.cfg.epoll_intr > 0 && self.stats.epoll_waits % self.cfg.epoll_intr as u64 == 0 {
            self.stats.epoll_intr += 1;
            return Err(libc::EINTR);
        }
        let dl = if timeout_ms < 0 { None } else { Some(self.now + timeout_ms as u64 * MS) };
        loop {
            let to = self.block(TState::Epoll(ep), dl);
            let out = self.epoll_collect(ep, max);
            if !out.is_empty() || to {
                return Ok(out);
            }
        }
    }

    // ---------------------------------------------------------------- sockets
    pub fn listener(&self, port: u16) -> Option<usize> {
        self.objs.iter().position(
            |e| matches!(&e.obj, Obj::Listener { port: p, live: true, .. } if *p == port && e.refs > 0),
        )
    }
    pub fn listen(&mut self, obj: usize) -> i32 {
        if let Obj::Listener { live, ip, port, .. } = &mut self.objs[obj].obj {
            *live = true;
            let (ip, port) = (*ip, *port);
            env().on_listen(self, ip, port);
            0
        } else {
            libc::EINVAL
        }
    }
    pub fn connect(&mut self, port: u16, cap: usize) -> Option<usize> {
        let l = self.listener(port)?;
        let c = self.conns.len();
        self.conns.push(Conn {
            rx: VecDeque::new(),
            rx_fin: false,
            rst: false,
            rst_seen: false,
            tx: VecDeque::new(),
            cap,
            tx_fin: false,
            nospace: false,
            blocked: false,
            obj: usize::MAX,
            accepted: false,
            closed: false,
        });
        if let Obj::Listener { backlog, .. } = &mut self.objs[l].obj {
            backlog.push_back(c);
        }
        self.notify(l);
        Some(c)
    }
    pub fn accept_fault(&mut self, port: u16, e: i32) {
        if let Some(l) = self.listener(port) {
            if let Obj::Listener { faults, .. } = &mut self.objs[l].obj {
                faults.push_back(e);
            }
            self.notify(l);
        }
    }
    pub fn accept(&mut self, obj: usize) -> Result<(i32, usize), i32> {
        let Obj::Listener { backlog, faults, .. } = &mut self.objs[obj].obj else {
            return Err(libc::EINVAL);
        };
        if let Some(e) = faults.pop_front() {
            self.stats.accept_faults += 1;
            self.note(4, e as u64, 0);
            self.log(|| format!("accept -> errno {e}"));
            return Err(e);
        }
        let Some(c) = backlog.pop_front() else { return Err(libc::EAGAIN) };
        let o = self.new_obj(Obj::Conn(c));
        let fd = self.new_fd(o);
        self.conns[c].obj = o;
        self.conns[c].accepted = true;
        self.note(5, c as u64, 0);
        self.note_inter(5, c as u64);
        self.log(|| format!("accept -> conn {c}"));
        env().on_accept(self, c);
        Ok((fd, c))
    }
    pub fn recv(&mut self, c: usize, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
        let cn = &mut self.conns[c];
        if !cn.rx.is_empty() {
            let n = buf.len().min(cn.rx.len());
            for (i, b) in cn.rx.iter().take(n).enumerate() {
                buf[i] = *b;
            }
            if !peek {
                cn.rx.drain(..n);
            }
            self.note(6, c as u64, n as u64);
            self.note_inter(6, c as u64);
            self.log(|| format!("recv conn {c} -> {n}"));
            return Ok(n);
        }
        if cn.rst {
            if cn.rst_seen {
                return Ok(0);
            }
            cn.rst_seen = true;
            self.log(|| format!("recv conn {c} -> ECONNRESET"));
            return Err(libc::ECONNRESET);
        }
        if cn.rx_fin {
            return Ok(0);
        }
        Err(libc::EAGAIN)
    }
    pub fn send(&mut self, c: usize, bufs: &[&[u8]]) -> Result<usize, i32> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let cn = &mut self.conns[c];
        if cn.rst {
            if !cn.rst_seen {
                cn.rst_seen = true;
                return Err(libc::ECONNRESET);
            }
            return Err(libc::EPIPE);
        }
        if cn.tx_fin {
            return Err(libc::EPIPE);
        }
        if total == 0 {
            return Ok(0);
        }
        let space = cn.cap.saturating_sub(cn.tx.len());
        if space == 0 {
            cn.nospace = true;
            cn.blocked = true;
            self.stats.eagain_tx += 1;
            return Err(libc::EAGAIN);
        }
        let mut left = space.min(total);
        let n = left;
        for b in bufs {
            let t = left.min(b.len());
            cn.tx.extend(&b[..t]);
            left -= t;
        }
        if n < total {
            cn.nospace = true;
            cn.blocked = true;
            self.stats.short_tx += 1;
        }
        self.note(7, c as u64, n as u64);
        self.note_inter(7, c as u64);
        self.log(|| format!("send conn {c} {n}/{total}"));
        env().on_write(self, c);
        Ok(n)
    }
    pub fn shutdown_wr(&mut self, c: usize) {
        if !self.conns[c].tx_fin {
            self.conns[c].tx_fin = true;
            env().on_shut(self, c, false);
        }
    }
    // client side
    pub fn arrive(&mut self, c: usize, data: &[u8]) {
        let cn = &mut self.conns[c];
        if cn.closed || cn.rst {
            return;
        }
        cn.rx.extend(data);
        let o = cn.obj;
        if o != usize::MAX {
            self.notify(o);
        }
    }
    pub fn arrive_fin(&mut self, c: usize) {
        let cn = &mut self.conns[c];
        if cn.closed || cn.rst {
            return;
        }
        cn.rx_fin = true;
        let o = cn.obj;
        if o != usize::MAX {
            self.notify(o);
        }
    }
    pub fn arrive_rst(&mut self, c: usize) {
        let cn = &mut self.conns[c];
        if cn.closed {
            return;
        }
        cn.rst = true;
        cn.tx.clear();
        let o = cn.obj;
        if o != usize::MAX {
            self.notify(o);
        }
    }
    pub fn take(&mut self, c: usize, max: usize) -> Vec<u8> {
        let cn = &mut self.conns[c];
        let n = max.min(cn.tx.len());
        let v: Vec<u8> = cn.tx.drain(..n).collect();
        let free = cn.cap - cn.tx.len().min(cn.cap);
        if cn.nospace && !cn.closed && free * 3 >= cn.cap {
            cn.nospace = false;
            let o = cn.obj;
            self.notify(o);
        }
        v
    }

    // ---------------------------------------------------------------- files
    pub fn resolve(&self, raw: &str) -> Result<String, i32> {
        self.resolve_d(raw, 0)
    }
    fn resolve_d(&self, raw: &str, depth: u32) -> Result<String, i32> {
        if raw.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 8 {
            return Err(libc::ELOOP);
        }
        let mut cur: Vec<String> = if raw.starts_with('/') {
            vec![]
        } else {
            self.cwd.split('/').filter(|s| !s.is_empty()).map(|s| s.into()).collect()
        };
        let comps: Vec<&str> = raw.split('/').filter(|s| !s.is_empty()).collect();
        let n = comps.len();
        for (i, comp) in comps.iter().enumerate() {
            if comp.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let here = format!("/{}", cur.join("/"));
            match self.fs.get(&here) {
                Some(Node::Dir) => {}
                Some(_) => return Err(libc::ENOTDIR),
                None if cur.is_empty() => {}
                None => return Err(libc::ENOENT),
            }
            match *comp {
                "." => {}
                ".." => {
                    cur.pop();
                }
                c => {
                    cur.push(c.to_string());
                    let p = format!("/{}", cur.join("/"));
                    if let Some(Node::Link(t)) = self.fs.get(&p) {
                        let rest = comps[i + 1..].join("/");
                        let base = if t.starts_with('/') { t.clone() } else { format!("{here}/{t}") };
                        let full = if rest.is_empty() { base } else { format!("{base}/{rest}") };
                        return self.resolve_d(&full, depth + 1);
                    }
                    let _ = n;
                }
            }
        }
        let p = format!("/{}", cur.join("/"));
        match self.fs.get(&p) {
            Some(Node::File(_)) if raw.ends_with('/') => Err(libc::ENOTDIR),
            Some(_) => Ok(p),
            None if p == "/" => Ok(p),
            None => Err(libc::ENOENT),
        }
    }
    /// Latency and faults of one disk operation; returns an error or a byte limit.
    pub fn disk(&mut self, path: &str, op: FsOp) -> Result<usize, i32> {
        let n = {
            let e = self.fs_counts.entry((path.to_string(), op as u8)).or_insert(0);
            *e += 1;
            *e - 1
        };
        let acts: Vec<FsAct> = self
            .fs_faults
            .iter()
            .filter(|f| f.path == path && f.op == op && f.nth == n)
            .map(|f| f.act.clone())
            .collect();
        let mut lim = self.fs_max_read;
        let mut delay = self.fs_latency;
        let hits: Vec<(u64, u64)> = self.fs_triggers.iter().filter(|t| t.0 == path && t.1 == op && t.2 == n).map(|t| (t.3, t.4)).collect();
        for (a, b) in hits {
            self.after(delay / 2, a, b);
            delay = delay.max(1);
        }
        let mut e = None;
        for a in acts {
            match a {
                FsAct::Err(x) => {
                    self.stats.fs_err += 1;
                    e = Some(x)
                }
                FsAct::Stall(ns) => {
                    self.stats.fs_stall += 1;
                    delay += ns
                }
                FsAct::Short(n) => {
                    self.stats.fs_short += 1;
                    lim = lim.min(n.max(1))
                }
            }
        }
        self.note(8, op as u64, n as u64);
        self.note_inter(8, op as u64);
        if delay > 0 {
            let d = self.now + delay;
            self.block(TState::Sleep, Some(d));
        }
        match e {
            Some(x) => Err(x),
            None => Ok(lim),
        }
    }
    pub fn open(&mut self, raw: &str, flags: i32) -> Result<i32, i32> {
        self.stats.fs_opens += 1;
        let r0 = self.resolve(raw);
        let key = r0.clone().unwrap_or_else(|_| raw.to_string());
        let rec = self.opens.len();
        self.opens.push(OpenRec { raw: raw.into(), resolved: r0.ok(), ok: false, kind: "open" });
        self.log(|| format!("open {raw}"));
        if flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0 {
            return Err(libc::EROFS);
        }
        self.disk(&key, FsOp::Open)?;
        // the tree may have changed while the call was in progress
        let p = self.resolve(raw)?;
        let f = match self.fs.get(&p) {
            Some(Node::File(d)) => OpenFile { path: p, data: d.clone(), pos: 0, dir: false },
            _ => OpenFile { path: p, data: Rc::new(vec![]), pos: 0, dir: true },
        };
        self.opens[rec].ok = true;
        let o = self.new_obj(Obj::File(f));
        Ok(self.new_fd(o))
    }
    pub fn read_file(&mut self, fd: i32, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        self.stats.fs_reads += 1;
        let o = self.obj_of(fd).ok_or(libc::EBADF)?;
        let Obj::File(f) = &self.objs[o].obj else { return Err(libc::EBADF) };
        if f.dir {
            return Err(libc::EISDIR);
        }
        let path = f.path.clone();
        let lim = self.disk(&path, FsOp::Read)?;
        let Obj::File(f) = &mut self.objs[o].obj else { return Err(libc::EBADF) };
        let pos = at.unwrap_or(f.pos);
        let avail = f.data.len().saturating_sub(pos);
        let n = buf.len().min(avail).min(lim);
        buf[..n].copy_from_slice(&f.data[pos..pos + n]);
        if at.is_none() {
            f.pos += n;
        }
        self.log(|| format!("read {path} -> {n}"));
        Ok(n)
    }
    pub fn write_stdio(&mut self, fd: i32, b: &[u8]) -> Result<usize, i32> {
        if fd == 1 {
            let n = self.stdout_writes;
            self.stdout_writes += 1;
            if let Some((_, e)) = self.stdout_plan.iter().find(|p| p.0 == n) {
                self.stats.stdout_faults += 1;
                if *e < 0 {
                    // short write
                    let m = b.len().min((-*e) as usize).max(1);
                    self.stdout.extend_from_slice(&b[..m]);
                    return Ok(m);
                }
                if *e != libc::EINTR {
                    self.stdout_hard += 1;
                }
                return Err(*e);
            }
            if let Some((from, e)) = self.stdout_dead {
                if n >= from {
                    self.stats.stdout_faults += 1;
                    self.stdout_hard += 1;
                    return Err(e);
                }
            }
            self.stdout.extend_from_slice(b);
        } else {
            if let Some(e) = self.stderr_dead {
                self.stats.stderr_faults += 1;
                return Err(e);
            }
            self.stderr.extend_from_slice(b);
        }
        Ok(b.len())
    }
    pub fn unknown(&mut self, what: &str) {
        self.stats.unknown += 1;
        if self.unknown.len() < 20 && !self.unknown.iter().any(|u| u == what) {
            self.unknown.push(what.into());
        }
    }
}

fn park_self(p: &AtomicU32) {
    loop {
        // short spin: handoffs are frequent and usually immediate
        for _ in 0..50 {
            if p.load(Acquire) == 1 {
                p.store(0, SeqCst);
                return;
            }
            std::hint::spin_loop();
        }
        sys::futex_wait(p, 0);
    }
}

// -------------------------------------------------------------------- thread life cycle
pub fn start(mut kern: Box<Kernel>, e: Box<dyn Env>) {
    kern.threads.push(Th {
        state: TState::Run,
        park: Box::new(AtomicU32::new(0)),
        timed_out: false,
        deadline: None,
        pthread: 0,
    });
    kern.cur = 0;
    unsafe {
        KERN = Box::into_raw(kern);
        ENV = Some(e);
    }
    TID.with(|t| t.set(0));
    ACTIVE.store(true, SeqCst);
}
pub fn end_main(why: End) -> ! {
    let _g = Ink::new();
    k().finish(why)
}
/// Registers a new thread (called by the creator, holding the token).
pub fn thread_new() -> usize {
    let kk = k();
    kk.threads.push(Th {
        state: TState::Ready,
        park: Box::new(AtomicU32::new(0)),
        timed_out: false,
        deadline: None,
        pthread: 0,
    });
    let t = kk.threads.len() - 1;
    kk.ready.push_back(t);
    kk.stats.threads += 1;
    kk.note(9, t as u64, 0);
    t
}
/// First thing a new thread does.
pub fn thread_enter(tid: usize) {
    // KERN.threads may be reallocated while we look at it, so the park word address is passed by value
    TID.with(|t| t.set(tid));
}
pub fn thread_park_addr(tid: usize) -> usize {
    &*k().threads[tid].park as *const AtomicU32 as usize
}
pub fn thread_wait_first(addr: usize) {
    park_self(unsafe { &*(addr as *const AtomicU32) });
}
/// Last thing a thread does (from a pthread key destructor).
pub fn thread_exit() {
    let _ = INK.with(|c| c.set(c.get() + 1));
    let kk = k();
    let me = kk.cur;
    kk.threads[me].state = TState::Done;
    for t in 0..kk.threads.len() {
        if kk.threads[t].state == TState::Join(me) {
            kk.make_ready(t);
        }
    }
    kk.schedule();
}
impl Kernel {
    pub fn join(&mut self, pt: usize) {
        if let Some(t) = self.threads.iter().position(|t| t.pthread == pt && t.state != TState::Done) {
            if self.threads[t].state != TState::Done {
                self.block(TState::Join(t), None);
            }
        }
    }
}
