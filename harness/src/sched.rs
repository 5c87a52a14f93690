//! Rust side of the shim: scheduled threads, the virtual clock, the private
//! network and the fault hooks.
use crate::engine::Oracle;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};

extern "C" {
    fn mc_sched_begin(max_steps: u64, devs: c_int, early: c_int);
    fn mc_sched_go() -> c_int;
    fn mc_sched_stop();
    fn mc_sched_left(out: *mut c_char, n: c_int) -> c_int;
    fn mc_sched_steps() -> u64;
    fn mc_sched_devs_used() -> c_int;
    fn mc_sched_point();
    fn mc_sched_sleep(ns: u64);
    fn mc_sched_self() -> c_int;
    fn mc_sched_held() -> c_int;
    fn mc_sched_abort();
    pub fn mc_vnow() -> u64;
    pub fn mc_vset(n: u64);
    pub fn mc_vbase(secs: u64);
    pub fn mc_vadvance(n: u64);
    fn mc_single_step(
        f: extern "C" fn(*mut c_void),
        arg: *mut c_void,
        at: u64,
        at2: u64,
        g: extern "C" fn(c_int),
    ) -> u64;
    /// every argument a long
    fn mc_watch(addr: *const usize, n: c_int, g: extern "C" fn(c_int, c_int));
    fn mc_unwatch();
    fn mc_raw_syscall(nr: libc::c_long, ...) -> libc::c_long;
    fn mc_arg(i: c_int, s: *mut c_char) -> c_int;
    fn mc_argc() -> c_int;
    fn mc_exit_code() -> c_int;
    fn mc_signal(sig: c_int);
    fn mc_blocked(sig: c_int) -> c_int;
    fn mc_sched_devs(n: c_int);
    static mut mc_vclock_on: c_int;
    static mut mc_vnet_on: c_int;
    static mut mc_vnet_epoch: c_int;
    static mut mc_hook_on: c_int;
    static mut mc_block_on: c_int;
}

static mut CUR: *mut Oracle = std::ptr::null_mut();
static mut IO: Option<Box<dyn FnMut(&mut Io) -> Answer>> = None;
static mut IN_IO: bool = false;

pub const OP_RECV: c_int = 0;
pub const OP_SEND: c_int = 1;
pub const OP_CONNECT: c_int = 2;
pub const OP_READ: c_int = 3;
pub const OP_OPEN: c_int = 4;
pub const OP_ACCEPT: c_int = 5;
pub const OP_WRITE: c_int = 6;
pub const OP_AFTER_RECV: c_int = 7;
pub const OP_AFTER_READ: c_int = 8;
pub const OP_BLOCK: c_int = 10;
pub const OP_WAIT: c_int = 9;

pub struct Io<'a> {
    pub op: c_int,
    pub fd: c_int,
    pub data: &'a [u8],
    pub len: usize,
    /// for OP_AFTER_*: what the call returned, negative errno on failure
    pub ret: isize,
}
pub enum Answer {
    Go,
    /// go ahead with at most this many bytes
    Limit(usize),
    /// the call returns this
    Ret(isize),
    /// the call fails with this errno
    Err(c_int),
}

#[no_mangle]
pub extern "C" fn mc_choose(n: u32) -> u32 {
    unsafe {
        if CUR.is_null() {
            return 0;
        }
        match (*CUR).choose_quiet(n as usize) {
            Some(i) => i as u32,
            None => {
                mc_sched_stop();
                0
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn mc_sched_state(h: u64) {
    unsafe {
        if !CUR.is_null() {
            (*CUR).step();
            (*CUR).state(&h);
        }
    }
}

#[no_mangle]
pub extern "C" fn mc_io(
    op: c_int,
    fd: c_int,
    buf: *const u8,
    len: usize,
    n: *mut usize,
    ret: *mut isize,
    err: *mut c_int,
) -> c_int {
    unsafe {
        if IN_IO {
            return 0;
        }
        let data: &[u8] = if (op == OP_SEND || op == OP_WRITE || op == OP_OPEN) && !buf.is_null() {
            std::slice::from_raw_parts(buf, len)
        } else {
            &[]
        };
        let ans = if let Some(ref mut f) = IO {
            IN_IO = true;
            let mut io = Io { op, fd, data, len, ret: if op == OP_AFTER_RECV || op == OP_AFTER_READ { *ret } else { 0 } };
            let a = f(&mut io);
            IN_IO = false;
            a
        } else {
            Answer::Go
        };
        match ans {
            Answer::Go => 0,
            Answer::Limit(k) => {
                *n = k.min(len);
                0
            }
            Answer::Ret(r) => {
                *ret = r;
                1
            }
            Answer::Err(e) => {
                *ret = -1;
                *err = e;
                1
            }
        }
    }
}

/// Let the shim ask this oracle (from any thread, one at a time).
pub fn attach(o: &mut Oracle) {
    unsafe { CUR = o }
}
pub fn detach() {
    unsafe { CUR = std::ptr::null_mut() }
}
/// A decision made away from the scenario function (another thread, a hook).
pub fn decide(n: usize) -> usize {
    mc_choose(n as u32) as usize
}

/// Install (or remove) the handler for socket and file calls.
pub fn set_io(f: Option<Box<dyn FnMut(&mut Io) -> Answer>>) {
    unsafe {
        mc_hook_on = f.is_some() as c_int;
        mc_block_on = 0;
        IO = f;
        IN_IO = false;
    }
}
/// Have the handler also told (OP_BLOCK) of a thread about to wait.
pub fn tell_blocks() {
    unsafe { mc_block_on = 1 }
}
pub fn vclock(on: bool) {
    unsafe { mc_vclock_on = on as c_int }
}
pub fn vnet(on: bool) {
    unsafe {
        mc_vnet_on = on as c_int;
        mc_vnet_epoch += on as c_int;
    }
}
/// Put every switch back.
pub fn reset() {
    set_io(None);
    vclock(false);
    vnet(false);
    unsafe {
        mc_vset(0);
        mc_vbase(1_600_000_000);
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub max_steps: u64,
    /// how often the schedule may deviate from the default
    pub devs: i32,
    /// may a sleeper wake although others could run?
    pub early: bool,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Outcome {
    AllDone,
    Stuck,
    TooLong,
    TooManyThreads,
    Stopped,
}
pub struct Run {
    pub outcome: Outcome,
    pub left: String,
    pub steps: u64,
    pub devs_used: i32,
}

pub type Root = Box<dyn FnOnce() + Send + 'static>;

/// Run the roots (and every thread they create) under the scheduler.
pub fn run(o: &mut Oracle, opts: Opts, roots: Vec<Root>) -> Run {
    unsafe {
        attach(o);
        mc_sched_begin(opts.max_steps, opts.devs, opts.early as c_int);
        for r in roots {
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || r()).unwrap();
        }
        let out = mc_sched_go();
        let mut buf = [0 as c_char; 1024];
        mc_sched_left(buf.as_mut_ptr(), 1024);
        let r = Run {
            outcome: match out {
                1 => Outcome::AllDone,
                2 => Outcome::Stuck,
                3 => Outcome::TooLong,
                4 => Outcome::TooManyThreads,
                _ => Outcome::Stopped,
            },
            left: CStr::from_ptr(buf.as_ptr()).to_string_lossy().into_owned(),
            steps: mc_sched_steps(),
            devs_used: mc_sched_devs_used(),
        };
        detach();
        r
    }
}
pub fn point() {
    unsafe { mc_sched_point() }
}
/// Sleep in virtual time.
pub fn sleep(ns: u64) {
    unsafe { mc_sched_sleep(ns) }
}
pub fn current() -> i32 {
    unsafe { mc_sched_self() }
}
/// Threads that still run, or whose end nobody has taken note of.
pub fn held() -> i32 {
    unsafe { mc_sched_held() }
}
/// From now on the schedule may deviate this often.
pub fn deviate(n: i32) {
    unsafe { mc_sched_devs(n) }
}
/// Have the process see these arguments (as many as it was given).
pub fn args(a: &[&str]) {
    unsafe {
        assert!(a.len() == mc_argc() as usize, "ENGINE: number of arguments");
        for (i, s) in a.iter().enumerate() {
            mc_arg(i as c_int, std::ffi::CString::new(*s).unwrap().into_raw());
        }
    }
}
/// What a thread under the scheduler called exit() with.
pub fn exit_code() -> Option<i32> {
    match unsafe { mc_exit_code() } {
        -1 => None,
        n => Some(n),
    }
}
/// Does the first thread block this signal?
pub fn blocked(sig: c_int) -> bool {
    unsafe { mc_blocked(sig) == 1 }
}
/// Send a signal to whoever waits for one.
pub fn signal(sig: c_int) {
    unsafe { mc_signal(sig) }
}
/// End the run here and now (never returns to the caller).
pub fn abort() {
    unsafe { mc_sched_abort() }
}

extern "C" fn call_box(p: *mut c_void) {
    unsafe {
        let f = &mut *(p as *mut &mut dyn FnMut());
        f();
    }
}
static mut INJECT: Option<Box<dyn FnMut(i32)>> = None;
extern "C" fn inject(i: c_int) {
    unsafe {
        if let Some(ref mut g) = INJECT {
            g(i)
        }
    }
}
/// Run `f` one machine instruction at a time and call `g` after instructions
/// `at` and `at2`; returns the number of instructions.
pub fn single_step(f: &mut dyn FnMut(), at: u64, at2: u64, g: Box<dyn FnMut(i32)>) -> u64 {
    unsafe {
        INJECT = Some(g);
        let mut ff: &mut dyn FnMut() = f;
        let n = mc_single_step(call_box, &mut ff as *mut _ as *mut c_void, at, at2, inject);
        INJECT = None;
        n
    }
}

static mut SEEN: Option<Box<dyn FnMut(usize, usize)>> = None;
extern "C" fn accessed(i: c_int, k: c_int) {
    unsafe {
        if let Some(ref mut g) = SEEN {
            g(i as usize, k as usize)
        }
    }
}
/// From now on call `g(i, k)` right before the k-th access of word i. It may
/// change these words and little else: it runs in the middle of anything.
pub fn watch(addr: &[usize], g: Box<dyn FnMut(usize, usize)>) {
    unsafe {
        SEEN = Some(g);
        mc_watch(addr.as_ptr(), addr.len() as c_int, accessed);
    }
}
pub fn unwatch() {
    unsafe {
        mc_unwatch();
        SEEN = None;
    }
}

/// Zero-initialised words of this program whose symbol contains `path`: their
/// names and addresses.
pub fn words(path: &str) -> Vec<(String, usize)> {
    let f = std::fs::read("/proc/self/exe").expect("ENGINE: own image");
    let u16_ = |at: usize| usize::from(f[at]) | usize::from(f[at + 1]) << 8;
    let u32_ = |at: usize| u16_(at) | u16_(at + 2) << 16;
    let u64_ = |at: usize| u32_(at) | u32_(at + 4) << 32;
    let text = |at: usize| {
        let n = f[at..].iter().position(|b| *b == 0).unwrap_or(0);
        String::from_utf8_lossy(&f[at..at + n]).into_owned()
    };
    let (shoff, shsize, shnum) = (u64_(0x28), u16_(0x3a), u16_(0x3c));
    let mut out = vec![];
    let mut base = 0;
    for i in 0..shnum {
        let h = shoff + i * shsize;
        if u32_(h + 4) != 2 {
            continue;
        }
        let strings = u64_(shoff + u32_(h + 0x28) * shsize + 0x18);
        let (at, len) = (u64_(h + 0x18), u64_(h + 0x20));
        for s in (at..at + len).step_by(24) {
            let name = text(strings + u32_(s));
            let value = u64_(s + 8);
            if name == "mc_io" {
                base = mc_io as usize - value;
            }
            if f[s + 4] & 15 == 1 && u64_(s + 16) == 8 && name.contains(path) {
                out.push((name, value));
            }
        }
    }
    out.sort();
    out.dedup();
    out.into_iter().map(|(n, v)| (n, v + base)).collect()
}

// ---- raw socket calls for the harness's own peers (no hooks) ---------------
pub mod raw {
    use std::os::raw::c_int;
    /// connect to a private-network TCP port; nonblocking afterwards
    pub fn connect(port: u16) -> c_int {
        unsafe {
            let fd = super::mc_raw_syscall(
                libc::SYS_socket,
                libc::AF_UNIX,
                libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC,
                0,
            ) as c_int;
            let (a, n) = name(port, libc::SOCK_STREAM);
            let r = super::mc_raw_syscall(libc::SYS_connect, fd, &a as *const _, n);
            if r != 0 {
                close(fd);
                return -1;
            }
            fd
        }
    }
    fn name(port: u16, ty: c_int) -> (libc::sockaddr_un, libc::socklen_t) {
        unsafe {
            let mut a: libc::sockaddr_un = std::mem::zeroed();
            a.sun_family = libc::AF_UNIX as u16;
            let s = format!("cernan-mc-{}-{}-{}-{}", libc::getpid(), super::mc_vnet_epoch, port, ty);
            for (i, b) in s.bytes().enumerate() {
                a.sun_path[i + 1] = b as _;
            }
            (a, (2 + 1 + s.len()) as libc::socklen_t)
        }
    }
    pub fn listen(port: u16) -> c_int {
        unsafe {
            let fd = super::mc_raw_syscall(
                libc::SYS_socket,
                libc::AF_UNIX,
                libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC,
                0,
            ) as c_int;
            let (a, n) = name(port, libc::SOCK_STREAM);
            assert!(super::mc_raw_syscall(libc::SYS_bind, fd, &a as *const _, n) == 0);
            assert!(super::mc_raw_syscall(libc::SYS_listen, fd, 64) == 0);
            fd
        }
    }
    pub fn accept(fd: c_int) -> c_int {
        unsafe {
            super::mc_raw_syscall(
                libc::SYS_accept4,
                fd,
                0,
                0,
                libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC,
            ) as c_int
        }
    }
    pub fn udp_to(port: u16, data: &[u8]) -> isize {
        unsafe {
            let fd = super::mc_raw_syscall(
                libc::SYS_socket,
                libc::AF_UNIX,
                libc::SOCK_DGRAM | libc::SOCK_CLOEXEC,
                0,
            ) as c_int;
            let (a, n) = name(port, libc::SOCK_DGRAM);
            let r = super::mc_raw_syscall(
                libc::SYS_sendto,
                fd,
                data.as_ptr(),
                data.len(),
                libc::MSG_DONTWAIT,
                &a as *const _,
                n,
            );
            close(fd);
            r as isize
        }
    }
    pub fn write(fd: c_int, data: &[u8]) -> isize {
        unsafe {
            super::mc_raw_syscall(
                libc::SYS_sendto,
                fd,
                data.as_ptr(),
                data.len(),
                libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL,
                0,
                0,
            ) as isize
        }
    }
    pub fn read(fd: c_int, buf: &mut [u8]) -> isize {
        unsafe {
            super::mc_raw_syscall(
                libc::SYS_recvfrom,
                fd,
                buf.as_mut_ptr(),
                buf.len(),
                libc::MSG_DONTWAIT,
                0,
                0,
            ) as isize
        }
    }
    pub fn read_all(fd: c_int) -> (Vec<u8>, bool) {
        let mut out = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let r = read(fd, &mut b);
            if r > 0 {
                out.extend_from_slice(&b[..r as usize]);
            } else {
                return (out, r == 0);
            }
        }
    }
    /// unread input bytes
    pub fn pending(fd: c_int) -> usize {
        let mut n: c_int = 0;
        unsafe {
            super::mc_raw_syscall(libc::SYS_ioctl, fd, libc::FIONREAD, &mut n as *mut c_int);
        }
        n as usize
    }
    pub fn inode(fd: c_int) -> u64 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            super::mc_raw_syscall(libc::SYS_fstat, fd, &mut st as *mut _);
            st.st_ino as u64
        }
    }
    pub fn shutdown_write(fd: c_int) {
        unsafe {
            super::mc_raw_syscall(libc::SYS_shutdown, fd, libc::SHUT_WR);
        }
    }
    pub fn close(fd: c_int) {
        unsafe {
            super::mc_raw_syscall(libc::SYS_close, fd);
        }
    }
}
