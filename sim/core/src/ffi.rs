//! Definitions of the libc entry points the server's layers use.  Inside a simulated run, on a
//! simulated thread, they act on the simulated kernel; otherwise they are plain system calls.
#![allow(non_camel_case_types)]
use crate::kern::*;
use crate::sys::{self, err, raw3, raw6, ret};
use libc::*;
use std::ffi::CStr;
use std::slice;

type P = *mut c_void;

unsafe fn cs<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap_or("\u{fffd}")
}
fn simfd(fd: c_int) -> bool {
    fd >= FDBASE
}
/// One scheduling point, then the operation.
#[inline]
fn op<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    let _g = Ink::new();
    let kk = k();
    kk.sp();
    f(kk)
}
unsafe fn res(r: Result<usize, i32>) -> ssize_t {
    match r {
        Ok(n) => n as ssize_t,
        Err(e) => err(e) as ssize_t,
    }
}

// ---------------------------------------------------------------- time, randomness, cpu
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if !active() {
        return ret(raw3(SYS_clock_gettime as usize, clk as usize, ts as usize, 0)) as c_int;
    }
    op(|k| {
        let t = match clk {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => {
                (k.real_base as i64 + k.now as i64 + k.real_skew).max(0) as u64
            }
            _ => 1000 * SEC + k.now,
        };
        (*ts).tv_sec = (t / SEC) as i64;
        (*ts).tv_nsec = (t % SEC) as i64;
        0
    })
}
unsafe fn sim_sleep(ns: u64) {
    op(|k| {
        let d = k.now + ns;
        k.block(TState::Sleep, Some(d));
    })
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return ret(raw3(SYS_nanosleep as usize, req as usize, rem as usize, 0)) as c_int;
    }
    sim_sleep((*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if !active() {
        let r = raw6(SYS_clock_nanosleep as usize, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
        return (-r) as c_int;
    }
    let ns = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    if flags & TIMER_ABSTIME != 0 {
        let now = with(|k| 1000 * SEC + k.now);
        sim_sleep(ns.saturating_sub(now));
    } else {
        sim_sleep(ns);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: P, len: size_t, flags: c_uint) -> ssize_t {
    if !active() {
        return ret(raw3(SYS_getrandom as usize, buf as usize, len, flags as usize)) as ssize_t;
    }
    let _g = Ink::new();
    k().random_bytes(slice::from_raw_parts_mut(buf as *mut u8, len));
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return ret(raw3(SYS_sched_yield as usize, 0, 0, 0)) as c_int;
    }
    op(|k| k.yield_now());
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, sz: size_t, set: *mut cpu_set_t) -> c_int {
    if !active() {
        let r = raw3(SYS_sched_getaffinity as usize, pid as usize, sz, set as usize);
        if r > 0 {
            let n = r as usize;
            if n < sz {
                std::ptr::write_bytes((set as *mut u8).add(n), 0, sz - n);
            }
            return 0;
        }
        return ret(r) as c_int;
    }
    std::ptr::write_bytes(set as *mut u8, 0, sz);
    *(set as *mut u8) = 0x0f;
    0
}

// ---------------------------------------------------------------- futex
unsafe fn abs_deadline(k: &Kernel, fop: c_int, ts: *const timespec, relative: bool) -> Option<u64> {
    if ts.is_null() {
        return None;
    }
    let t = ((*ts).tv_sec as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec as u64);
    if relative {
        return Some(k.now.saturating_add(t));
    }
    let base = if fop & FUTEX_CLOCK_REALTIME != 0 {
        (k.real_base as i64 + k.real_skew) as u64
    } else {
        1000 * SEC
    };
    Some(t.saturating_sub(base))
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !active() {
        return ret(raw6(n as usize, a, b, c, d, e, f)) as c_long;
    }
    match n {
        SYS_futex => {
            let fop = b as c_int;
            match fop & 127 {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    let bits = if fop & 127 == FUTEX_WAIT { u32::MAX } else { f as u32 };
                    let r = op(|k| {
                        let dl = abs_deadline(k, fop, d as *const timespec, fop & 127 == FUTEX_WAIT);
                        k.futex_wait(a, c as u32, bits, dl)
                    });
                    if r == 0 {
                        0
                    } else {
                        err(r) as c_long
                    }
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    let bits = if fop & 127 == FUTEX_WAKE { u32::MAX } else { f as u32 };
                    op(|k| k.futex_wake(a, c as u32, bits) as c_long)
                }
                _ => {
                    with(|k| k.unknown(&format!("futex op {}", fop & 127)));
                    err(ENOSYS) as c_long
                }
            }
        }
        SYS_getrandom => getrandom(a as P, b, c as c_uint) as c_long,
        SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut statx) as c_long,
        SYS_eventfd2 => eventfd(a as c_uint, b as c_int) as c_long,
        SYS_epoll_create1 => epoll_create1(a as c_int) as c_long,
        SYS_timerfd_create => timerfd_create(a as c_int, b as c_int) as c_long,
        SYS_gettid => ret(raw6(n as usize, a, b, c, d, e, f)) as c_long,
        SYS_copy_file_range | SYS_sendfile | SYS_splice => err(ENOSYS) as c_long,
        _ => {
            with(|k| k.unknown(&format!("syscall {n}")));
            err(ENOSYS) as c_long
        }
    }
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(P) -> P;
struct Boot {
    start: Start,
    arg: P,
    tid: usize,
    park: usize,
}
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
static mut KEY: pthread_key_t = 0;

pub unsafe fn init() {
    REAL_CREATE = dlsym(RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
    REAL_JOIN = dlsym(RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
    assert!(REAL_CREATE != 0 && REAL_JOIN != 0);
    assert_eq!(pthread_key_create(std::ptr::addr_of_mut!(KEY), Some(key_dtor)), 0);
}
unsafe extern "C" fn key_dtor(v: P) {
    // Run last: other destructors may still execute server code.
    let n = v as usize;
    if n < 4 {
        pthread_setspecific(KEY, (n + 1) as P);
    } else {
        thread_exit();
    }
}
extern "C" fn trampoline(p: P) -> P {
    unsafe {
        let (start, arg, tid, park) = {
            let b = p as *mut Boot;
            ((*b).start, (*b).arg, (*b).tid, (*b).park)
        };
        INK.with(|c| c.set(1));
        thread_enter(tid);
        pthread_setspecific(KEY, 1 as P);
        thread_wait_first(park);
        drop(Box::from_raw(p as *mut Boot));
        INK.with(|c| c.set(0));
        start(arg)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    start: Start,
    arg: P,
) -> c_int {
    if REAL_CREATE == 0 {
        init();
    }
    let real: unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, P) -> c_int =
        std::mem::transmute(REAL_CREATE);
    if !active() {
        return real(t, attr, start, arg);
    }
    op(|k| {
        let tid = thread_new();
        let b = Box::new(Boot { start, arg, tid, park: thread_park_addr(tid) });
        let r = real(t, attr, trampoline, Box::into_raw(b) as P);
        if r == 0 {
            k.threads[tid].pthread = *t as usize;
        } else {
            k.unknown("pthread_create failed");
            k.threads[tid].state = TState::Done;
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, v: *mut P) -> c_int {
    if REAL_JOIN == 0 {
        init();
    }
    let real: unsafe extern "C" fn(pthread_t, *mut P) -> c_int = std::mem::transmute(REAL_JOIN);
    if active() {
        op(|k| k.join(t as usize));
    }
    real(t, v)
}

// ---------------------------------------------------------------- epoll and eventfd
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_epoll_create1 as usize, flags as usize, 0, 0)) as c_int;
    }
    op(|k| {
        let o = k.new_obj(Obj::Epoll(vec![]));
        k.new_fd(o)
    })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, o: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if !active() || !simfd(ep) {
        return ret(raw6(SYS_epoll_ctl as usize, ep as usize, o as usize, fd as usize, ev as usize, 0, 0)) as c_int;
    }
    op(|k| {
        let Some(e) = k.obj_of(ep) else { return err(EBADF) as c_int };
        let (events, data) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
        match k.epoll_ctl(e, o, fd, events, data) {
            0 => 0,
            x => err(x) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !active() || !simfd(ep) {
        return ret(raw6(SYS_epoll_wait as usize, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0))
            as c_int;
    }
    op(|k| {
        let Some(e) = k.obj_of(ep) else { return err(EBADF) as c_int };
        match k.epoll_wait(e, max as usize, timeout) {
            Ok(v) => {
                for (i, (ev, d)) in v.iter().enumerate() {
                    (*evs.add(i)).events = *ev;
                    (*evs.add(i)).u64 = *d;
                }
                v.len() as c_int
            }
            Err(x) => err(x) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(
    ep: c_int,
    evs: *mut epoll_event,
    max: c_int,
    timeout: c_int,
    mask: *const sigset_t,
) -> c_int {
    if !active() || !simfd(ep) {
        return ret(raw6(
            SYS_epoll_pwait as usize,
            ep as usize,
            evs as usize,
            max as usize,
            timeout as usize,
            mask as usize,
            8,
        )) as c_int;
    }
    epoll_wait(ep, evs, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_eventfd2 as usize, init as usize, flags as usize, 0)) as c_int;
    }
    op(|k| {
        let o = k.new_obj(Obj::Event(init as u64));
        k.new_fd(o)
    })
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(clk: c_int, flags: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_timerfd_create as usize, clk as usize, flags as usize, 0)) as c_int;
    }
    err(ENOSYS) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_poll as usize, fds as usize, n as usize, timeout as usize)) as c_int;
    }
    with(|k| k.unknown("poll"));
    err(ENOSYS) as c_int
}

// ---------------------------------------------------------------- sockets
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_socket as usize, d as usize, t as usize, p as usize)) as c_int;
    }
    op(|k| {
        if d != AF_INET {
            return err(EAFNOSUPPORT) as c_int;
        }
        let o = k.new_obj(Obj::Sock);
        k.new_fd(o)
    })
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_bind as usize, fd as usize, a as usize, l as usize)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        let a = a as *const sockaddr_in;
        let port = u16::from_be((*a).sin_port);
        let ip = u32::from_be((*a).sin_addr.s_addr);
        if k.listener(port).is_some() {
            return err(EADDRINUSE) as c_int;
        }
        k.objs[o].obj = Obj::Listener {
            backlog: Default::default(),
            faults: Default::default(),
            ip,
            port,
            live: false,
        };
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_listen as usize, fd as usize, n as usize, 0)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        match k.listen(o) {
            0 => 0,
            e => err(e) as c_int,
        }
    })
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, ip: u32, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let a = a as *mut sockaddr_in;
    if (*l as usize) < std::mem::size_of::<sockaddr_in>() {
        return;
    }
    std::ptr::write_bytes(a as *mut u8, 0, std::mem::size_of::<sockaddr_in>());
    (*a).sin_family = AF_INET as u16;
    (*a).sin_port = port.to_be();
    (*a).sin_addr.s_addr = ip.to_be();
    *l = std::mem::size_of::<sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_accept4 as usize, fd as usize, a as usize, l as usize, flags as usize, 0, 0)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        match k.accept(o) {
            Ok((fd, c)) => {
                put_addr(a, l, 0x7f000001, 40000 + c as u16);
                fd
            }
            Err(e) => err(e) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_getsockname as usize, fd as usize, a as usize, l as usize)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        match &k.objs[o].obj {
            Obj::Listener { ip, port, .. } => put_addr(a, l, *ip, *port),
            _ => put_addr(a, l, 0x7f000001, 3000),
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_getpeername as usize, fd as usize, a as usize, l as usize)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        match &k.objs[o].obj {
            Obj::Conn(c) if !k.conns[*c].rst => put_addr(a, l, 0x7f000001, 40000 + *c as u16),
            _ => return err(ENOTCONN) as c_int,
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, n: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_setsockopt as usize, fd as usize, lv as usize, n as usize, v as usize, l as usize, 0))
            as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, n: c_int, v: P, l: *mut socklen_t) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_getsockopt as usize, fd as usize, lv as usize, n as usize, v as usize, l as usize, 0))
            as c_int;
    }
    if !v.is_null() && !l.is_null() {
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_shutdown as usize, fd as usize, how as usize, 0)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        let Obj::Conn(c) = k.objs[o].obj else { return err(ENOTCONN) as c_int };
        if k.conns[c].rst {
            return err(ENOTCONN) as c_int;
        }
        if how == SHUT_WR || how == SHUT_RDWR {
            k.shutdown_wr(c);
        }
        0
    })
}
unsafe fn conn_recv(fd: c_int, buf: P, len: size_t, peek: bool) -> ssize_t {
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as ssize_t };
        match k.objs[o].obj {
            Obj::Conn(c) => res(k.recv(c, slice::from_raw_parts_mut(buf as *mut u8, len), peek)),
            Obj::Event(n) => {
                if len < 8 {
                    return err(EINVAL) as ssize_t;
                }
                if n == 0 {
                    return err(EAGAIN) as ssize_t;
                }
                *(buf as *mut u64) = n;
                k.objs[o].obj = Obj::Event(0);
                8
            }
            Obj::File(_) => res(k.read_file(fd, slice::from_raw_parts_mut(buf as *mut u8, len), None)),
            _ => err(EBADF) as ssize_t,
        }
    })
}
unsafe fn conn_send(fd: c_int, bufs: &[&[u8]]) -> ssize_t {
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as ssize_t };
        match k.objs[o].obj {
            Obj::Conn(c) => res(k.send(c, bufs)),
            Obj::Event(n) => {
                let v = u64::from_ne_bytes(bufs[0][..8].try_into().unwrap());
                k.objs[o].obj = Obj::Event(n.wrapping_add(v));
                k.notify(o);
                8
            }
            _ => err(EBADF) as ssize_t,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: P, len: size_t, flags: c_int) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_recvfrom as usize, fd as usize, buf as usize, len, flags as usize, 0, 0)) as ssize_t;
    }
    conn_recv(fd, buf, len, flags & MSG_PEEK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    buf: P,
    len: size_t,
    flags: c_int,
    a: *mut sockaddr,
    l: *mut socklen_t,
) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_recvfrom as usize, fd as usize, buf as usize, len, flags as usize, a as usize, l as usize))
            as ssize_t;
    }
    conn_recv(fd, buf, len, flags & MSG_PEEK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_sendto as usize, fd as usize, buf as usize, len, flags as usize, 0, 0)) as ssize_t;
    }
    conn_send(fd, &[slice::from_raw_parts(buf as *const u8, len)])
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    buf: *const c_void,
    len: size_t,
    flags: c_int,
    a: *const sockaddr,
    l: socklen_t,
) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_sendto as usize, fd as usize, buf as usize, len, flags as usize, a as usize, l as usize))
            as ssize_t;
    }
    conn_send(fd, &[slice::from_raw_parts(buf as *const u8, len)])
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: P, len: size_t) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_read as usize, fd as usize, buf as usize, len)) as ssize_t;
    }
    conn_recv(fd, buf, len, false)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: P, len: size_t, off: off64_t) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw6(SYS_pread64 as usize, fd as usize, buf as usize, len, off as usize, 0, 0)) as ssize_t;
    }
    op(|k| res(k.read_file(fd, slice::from_raw_parts_mut(buf as *mut u8, len), Some(off as usize))))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: P, len: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, len, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_readv as usize, fd as usize, iov as usize, n as usize)) as ssize_t;
    }
    let v = slice::from_raw_parts(iov, n as usize);
    let Some(x) = v.iter().find(|x| x.iov_len > 0) else { return 0 };
    conn_recv(fd, x.iov_base, x.iov_len, false)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if !active() {
        return ret(raw3(SYS_write as usize, fd as usize, buf as usize, len)) as ssize_t;
    }
    let b = slice::from_raw_parts(buf as *const u8, len);
    if fd == 1 || fd == 2 {
        return op(|k| res(k.write_stdio(fd, b)));
    }
    if !simfd(fd) {
        return err(EBADF) as ssize_t;
    }
    conn_send(fd, &[b])
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !active() {
        return ret(raw3(SYS_writev as usize, fd as usize, iov as usize, n as usize)) as ssize_t;
    }
    let v: Vec<&[u8]> = {
        let _g = Ink::new();
        slice::from_raw_parts(iov, n as usize)
            .iter()
            .filter(|x| x.iov_len > 0)
            .map(|x| slice::from_raw_parts(x.iov_base as *const u8, x.iov_len))
            .collect()
    };
    let r = if fd == 1 || fd == 2 {
        op(|k| {
            let all: Vec<u8> = v.concat();
            res(k.write_stdio(fd, &all))
        })
    } else {
        conn_send(fd, &v)
    };
    let _g = Ink::new();
    drop(v);
    r
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_close as usize, fd as usize, 0, 0)) as c_int;
    }
    op(|k| match k.close(fd) {
        0 => 0,
        e => err(e) as c_int,
    })
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_dup as usize, fd as usize, 0, 0)) as c_int;
    }
    fcntl(fd, F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_fcntl as usize, fd as usize, cmd as usize, arg)) as c_int;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as c_int };
        match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => k.new_fd(o),
            F_GETFD => FD_CLOEXEC,
            F_GETFL => O_RDWR | O_NONBLOCK,
            _ => 0,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if !active() {
        return ret(raw3(SYS_ioctl as usize, fd as usize, req as usize, arg)) as c_int;
    }
    if !simfd(fd) {
        return err(ENOTTY) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !active() {
        let mut t: termios = std::mem::zeroed();
        let r = raw3(SYS_ioctl as usize, fd as usize, TCGETS as usize, &mut t as *mut _ as usize);
        if r == 0 {
            return 1;
        }
    }
    err(ENOTTY);
    0
}

// ---------------------------------------------------------------- files
unsafe fn sim_open(path: *const c_char, flags: c_int) -> c_int {
    op(|k| match k.open(cs(path), flags) {
        Ok(fd) => fd,
        Err(e) => err(e) as c_int,
    })
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return ret(raw6(SYS_openat as usize, AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0))
            as c_int;
    }
    sim_open(path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
unsafe fn at_path(dir: c_int, path: *const c_char) -> String {
    let p = cs(path);
    if p.starts_with('/') || dir == AT_FDCWD {
        return p.to_string();
    }
    let kk = k();
    if let Some(o) = kk.obj_of(dir) {
        if let Obj::File(f) = &kk.objs[o].obj {
            return format!("{}/{}", f.path, p);
        }
    }
    p.to_string()
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return ret(raw6(SYS_openat as usize, dir as usize, path as usize, flags as usize, mode as usize, 0, 0))
            as c_int;
    }
    op(|k| match k.open(&at_path(dir, path), flags) {
        Ok(fd) => fd,
        Err(e) => err(e) as c_int,
    })
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}

struct St {
    dir: bool,
    link: bool,
    size: u64,
}
fn node_st(n: Option<&Node>) -> Result<St, i32> {
    match n {
        Some(Node::Dir) => Ok(St { dir: true, link: false, size: 4096 }),
        Some(Node::File(d)) => Ok(St { dir: false, link: false, size: d.len() as u64 }),
        Some(Node::Link(t)) => Ok(St { dir: false, link: true, size: t.len() as u64 }),
        None => Err(ENOENT),
    }
}
fn stat_path(k: &mut Kernel, raw: &str, kind: &'static str) -> Result<St, i32> {
    let r = k.resolve(raw);
    let key = r.clone().unwrap_or_else(|_| raw.to_string());
    k.opens.push(OpenRec { raw: raw.into(), resolved: r.ok(), ok: false, kind });
    k.disk(&key, FsOp::Stat)?;
    let p = k.resolve(raw)?;
    let st = if p == "/" { node_st(Some(&Node::Dir)) } else { node_st(k.fs.get(&p)) };
    if let Some(last) = k.opens.last_mut() {
        last.ok = st.is_ok();
    }
    st
}
fn stat_fd(k: &mut Kernel, fd: c_int) -> Result<St, i32> {
    let o = k.obj_of(fd).ok_or(EBADF)?;
    match &k.objs[o].obj {
        Obj::File(f) => {
            let (dir, size, path) = (f.dir, f.data.len() as u64, f.path.clone());
            k.disk(&path, FsOp::Stat)?;
            Ok(St { dir, link: false, size })
        }
        _ => Ok(St { dir: false, link: false, size: 0 }),
    }
}
fn mode_of(s: &St) -> u32 {
    if s.dir {
        S_IFDIR | 0o755
    } else if s.link {
        S_IFLNK | 0o777
    } else {
        S_IFREG | 0o644
    }
}
unsafe fn fill_stat(b: *mut stat64, r: Result<St, i32>) -> c_int {
    match r {
        Ok(s) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<stat64>());
            (*b).st_mode = mode_of(&s);
            (*b).st_size = s.size as i64;
            (*b).st_nlink = 1;
            (*b).st_blksize = 4096;
            0
        }
        Err(e) => err(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat64) -> c_int {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_fstat as usize, fd as usize, b as usize, 0)) as c_int;
    }
    op(|k| fill_stat(b, stat_fd(k, fd)))
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat64) -> c_int {
    if !active() {
        return ret(raw3(SYS_stat as usize, p as usize, b as usize, 0)) as c_int;
    }
    op(|k| fill_stat(b, stat_path(k, cs(p), "stat")))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat64) -> c_int {
    if !active() {
        return ret(raw3(SYS_lstat as usize, p as usize, b as usize, 0)) as c_int;
    }
    op(|k| fill_stat(b, stat_path(k, cs(p), "stat")))
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut stat64, fl: c_int) -> c_int {
    if !active() {
        return ret(raw6(SYS_newfstatat as usize, d as usize, p as usize, b as usize, fl as usize, 0, 0)) as c_int;
    }
    op(|k| fill_stat(b, stat_path(k, &at_path(d, p), "stat")))
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut statx) -> c_int {
    if !active() {
        return ret(raw6(SYS_statx as usize, d as usize, p as usize, fl as usize, mask as usize, b as usize, 0))
            as c_int;
    }
    // std probes for the call's existence with null pointers
    if b.is_null() || p.is_null() {
        return err(EFAULT) as c_int;
    }
    op(|k| {
        let path = cs(p);
        let r = if path.is_empty() {
            if simfd(d) {
                stat_fd(k, d)
            } else {
                Ok(St { dir: false, link: false, size: 0 })
            }
        } else {
            stat_path(k, &at_path(d, p), "stat")
        };
        match r {
            Ok(s) => {
                std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<statx>());
                (*b).stx_mask = STATX_BASIC_STATS;
                (*b).stx_mode = mode_of(&s) as u16;
                (*b).stx_size = s.size;
                (*b).stx_nlink = 1;
                (*b).stx_blksize = 4096;
                0
            }
            Err(e) => err(e) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !active() {
        return ret(raw3(SYS_access as usize, p as usize, m as usize, 0)) as c_int;
    }
    op(|k| match stat_path(k, cs(p), "stat") {
        Ok(_) => 0,
        Err(e) => err(e) as c_int,
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !active() || !simfd(fd) {
        return ret(raw3(SYS_lseek as usize, fd as usize, off as usize, wh as usize)) as off64_t;
    }
    op(|k| {
        let Some(o) = k.obj_of(fd) else { return err(EBADF) as off64_t };
        let Obj::File(f) = &mut k.objs[o].obj else { return err(ESPIPE) as off64_t };
        let base = match wh {
            SEEK_SET => 0,
            SEEK_CUR => f.pos as i64,
            _ => f.data.len() as i64,
        };
        if base + off < 0 {
            return err(EINVAL) as off64_t;
        }
        f.pos = (base + off) as usize;
        f.pos as off64_t
    })
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return ret(raw3(SYS_readlink as usize, p as usize, b as usize, n)) as ssize_t;
    }
    op(|k| {
        let path = cs(p);
        let abs = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", k.cwd, path) };
        match k.fs.get(&abs) {
            Some(Node::Link(t)) => {
                let m = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, m);
                m as ssize_t
            }
            Some(_) => err(EINVAL) as ssize_t,
            None => err(ENOENT) as ssize_t,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        static mut REAL: usize = 0;
        if REAL == 0 {
            REAL = dlsym(RTLD_NEXT, c"realpath".as_ptr()) as usize;
        }
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(REAL);
        return f(p, out);
    }
    op(|k| {
        let raw = cs(p);
        let r = k.resolve(raw);
        k.opens.push(OpenRec { raw: raw.into(), resolved: r.clone().ok(), ok: r.is_ok(), kind: "realpath" });
        match r {
            Ok(s) => {
                let o = if out.is_null() { malloc(s.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(s.as_ptr(), o as *mut u8, s.len());
                *o.add(s.len()) = 0;
                o
            }
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        let r = raw3(SYS_getcwd as usize, b as usize, n, 0);
        if r < 0 {
            err((-r) as i32);
            return std::ptr::null_mut();
        }
        return b;
    }
    op(|k| {
        let s = k.cwd.clone();
        if n < s.len() + 1 {
            err(ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), b as *mut u8, s.len());
        *b.add(s.len()) = 0;
        b
    })
}
macro_rules! refuse {
    ($($name:ident($($a:ident: $t:ty),*) => $sys:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if !active() {
                let args = [$($a as usize),*];
                let g = |i: usize| args.get(i).copied().unwrap_or(0);
                return ret(raw6($sys as usize, g(0), g(1), g(2), g(3), g(4), g(5))) as c_int;
            }
            with(|k| k.unknown(stringify!($name)));
            err(EROFS) as c_int
        }
    )*};
}
refuse! {
    unlink(p: *const c_char) => SYS_unlink;
    rmdir(p: *const c_char) => SYS_rmdir;
    mkdir(p: *const c_char, m: mode_t) => SYS_mkdir;
    rename(a: *const c_char, b: *const c_char) => SYS_rename;
    symlink(a: *const c_char, b: *const c_char) => SYS_symlink;
    chmod(a: *const c_char, m: mode_t) => SYS_chmod;
    ftruncate64(fd: c_int, n: off64_t) => SYS_ftruncate;
    connect(fd: c_int, a: *const sockaddr, l: socklen_t) => SYS_connect;
}
pub fn keep() {
    // referenced from main so that this module is always linked
    let _ = sys::raw3 as usize;
}
