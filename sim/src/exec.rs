//! One run in one forked process.
use vcore::kern::{self, End, Ink, Kernel, Node};
use crate::oracle::{Verdict, Viol};
use vcore::scenario::*;
use vapp::Ev;
use crate::world::World;
use std::rc::Rc;

pub const SHM: usize = 64 << 20;
pub fn shm_new(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut u8
    }
}
fn shm_put(p: *mut u8, d: &[u8]) {
    unsafe {
        let n = d.len().min(SHM - 8);
        std::ptr::copy_nonoverlapping(d.as_ptr(), p.add(8), n);
        (p as *mut u64).write_volatile(n as u64);
    }
}
pub fn shm_get(p: *mut u8) -> Vec<u8> {
    unsafe {
        let n = (p as *const u64).read_volatile() as usize;
        std::slice::from_raw_parts(p.add(8), n.min(SHM - 8)).to_vec()
    }
}

/// seconds of processor time after which a run counts as hanging, and of wall time after which
/// the harness gives up on it
const CPU_LIMIT: i64 = 25;
const WALL_LIMIT: u32 = 400;

fn child(s: &Scenario, shm: *mut u8) -> ! {
    let s: &'static Scenario = unsafe { &*(s as *const Scenario) };
    vapp::set_scn(s);
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: CPU_LIMIT, tv_usec: 0 },
        };
        setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
        libc::alarm(WALL_LIMIT);
    }
    std::panic::set_hook(Box::new(|i| {
        let _g = Ink::new();
        let msg = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None if i.payload().is::<vapp::OddPanic>() => "SCRIPTED odd".into(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_else(|| "?".into()),
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if kern::ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && kern::TID.with(|t| t.get()) != usize::MAX {
            vapp::ev(Ev::Panic { msg, loc });
        } else {
            vcore::sys::write_fd(2, format!("vsim: panic {msg} at {loc}\n").as_bytes());
        }
    }));
    let mut k = Box::new(Kernel::new(s.sched.clone()));
    k.fs_faults = s.fs_faults.clone();
    k.fs_latency = s.fs_latency;
    k.fs_max_read = if s.fs_max_read == 0 { usize::MAX } else { s.fs_max_read };
    k.stdout_plan = s.stdout_faults.clone();
    k.stdout_dead = s.stdout_dead;
    k.stderr_dead = s.stderr_dead;
    for d in ["/srv", "/srv/app", "/etc", "/proc", "/dev", "/tmp"] {
        k.fs.insert(d.into(), Node::Dir);
    }
    for f in &s.fs {
        let mut p = f.path.as_str();
        while let Some(i) = p.rfind('/') {
            p = &p[..i];
            if !p.is_empty() {
                k.fs.insert(p.into(), Node::Dir);
            }
        }
        k.fs.insert(
            f.path.clone(),
            match &f.data {
                Some(d) => Node::File(Rc::new(d.bytes())),
                None => Node::Dir,
            },
        );
    }
    k.verbose = std::env::var("VSIM_SHOW").is_ok();
    k.shm = shm;
    k.shm_len = SHM;
    kern::start(k, Box::new(World::new(s)));
    let app = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| vapp::build(&s.app, s.clash.as_ref()))) {
        Ok(a) => a,
        Err(_) => kern::end_main(End::Rejected),
    };
    let rt = if s.workers == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(s.workers).enable_all().build().unwrap()
    };
    let port = s.app.port;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(app.listen(port))));
    kern::end_main(End::MainReturned)
}
extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

pub fn run(s: &Scenario, shm: *mut u8) -> Verdict {
    unsafe {
        (shm as *mut u64).write_volatile(0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child(s, shm);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        let d = shm_get(shm);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && !d.is_empty() {
            return match serde_json::from_slice(&d) {
                Ok(v) => v,
                Err(e) => Verdict { harness: vec![format!("unreadable result: {e}")], ..Default::default() },
            };
        }
        let mut v = Verdict { end: "died".into(), ..Default::default() };
        if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGALRM => v.harness.push("run exceeded the wall-clock limit".into()),
                libc::SIGKILL => v.harness.push("run was killed".into()),
                libc::SIGPROF => v.viol.push(Viol {
                    props: vec!["C06".into(), "C05".into(), "C02".into(), "C01".into(), "C04".into()],
                    sig: "server hangs".into(),
                    msg: format!("the server computed for {CPU_LIMIT} s of processor time without a scheduling point"),
                }),
                n => v.viol.push(died(format!("signal {n}"))),
            }
        } else {
            v.viol.push(died(format!("exit status {}", libc::WEXITSTATUS(st))));
        }
        v
    }
}
fn died(how: String) -> Viol {
    Viol {
        props: vec!["C05".into(), "C06".into(), "C07".into()],
        sig: "server process died".into(),
        msg: format!("the server process ended: {how}"),
    }
}
#[allow(dead_code)]
pub fn put(p: *mut u8, d: &[u8]) {
    shm_put(p, d)
}
