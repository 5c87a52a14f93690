//! An HTTP server the harness plays from within the I/O of the code under test
//! (whenever a thread of it is about to wait), so that no thread of the
//! harness takes part in the schedule.
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::Event;
use cernan::sink::Sink;
use std::cell::RefCell;
use std::os::raw::c_int;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Request {
    pub conn: usize,
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// what became of it
    pub fate: String,
}

/// What the server does with a request.
pub enum Act {
    Say(Vec<u8>),
    SayAndClose(Vec<u8>),
    Close,
    /// never answers
    Silence,
}

struct Conn {
    fd: c_int,
    buf: Vec<u8>,
    /// yet to be sent
    out: Vec<u8>,
    /// close once that is sent
    last: bool,
    deaf: bool,
}

pub struct Site {
    listener: c_int,
    conns: Vec<Conn>,
    pub requests: Vec<Request>,
    /// faults of connections, in order
    pub faults: Vec<String>,
    /// client ends of connections: descriptor and inode
    ends: Vec<(c_int, u64)>,
    answer: Box<dyn FnMut(&Request) -> (String, Act)>,
    /// faults the explorer may still place
    budget: usize,
}

fn find(h: &[(String, String)], name: &str) -> Option<String> {
    h.iter().find(|x| x.0.eq_ignore_ascii_case(name)).map(|x| x.1.clone())
}

/// Take one complete request off the front.
fn take(buf: &mut Vec<u8>, conn: usize) -> Option<Request> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&buf[..end]).into_owned();
    let mut lines = head.split("\r\n");
    let first: Vec<String> = lines.next()?.split(' ').map(|s| s.to_string()).collect();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| {
            let i = l.find(':')?;
            Some((l[..i].to_string(), l[i + 1..].trim().to_string()))
        })
        .collect();
    let mut at = end + 4;
    let mut body = vec![];
    if find(&headers, "transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        loop {
            let nl = at + buf[at..].windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&buf[at..nl]).ok()?.trim(), 16).ok()?;
            at = nl + 2;
            if buf.len() < at + n + 2 {
                return None;
            }
            body.extend_from_slice(&buf[at..at + n]);
            at += n + 2;
            if n == 0 {
                break;
            }
        }
    } else {
        let n: usize = find(&headers, "content-length").and_then(|n| n.parse().ok()).unwrap_or(0);
        if buf.len() < at + n {
            return None;
        }
        body.extend_from_slice(&buf[at..at + n]);
        at += n;
    }
    buf.drain(..at);
    Some(Request {
        conn,
        method: first.get(0).cloned().unwrap_or_default(),
        target: first.get(1).cloned().unwrap_or_default(),
        headers,
        body,
        fate: String::new(),
    })
}

pub fn reply(status: u32, headers: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\n{}\r\n", status, body.len(), headers).into_bytes();
    v.extend_from_slice(body);
    v
}

impl Site {
    pub fn new(port: u16, budget: usize, answer: Box<dyn FnMut(&Request) -> (String, Act)>) -> Site {
        Site {
            listener: raw::listen(port),
            conns: vec![],
            requests: vec![],
            faults: vec![],
            ends: vec![],
            answer,
            budget,
        }
    }
    fn pump(&mut self) {
        loop {
            let fd = raw::accept(self.listener);
            if fd < 0 {
                break;
            }
            self.conns.push(Conn { fd, buf: vec![], out: vec![], last: false, deaf: false });
        }
        for i in 0..self.conns.len() {
            loop {
                if self.conns[i].fd < 0 {
                    break;
                }
                let (d, over) = raw::read_all(self.conns[i].fd);
                self.conns[i].buf.extend(d);
                if !self.conns[i].out.is_empty() {
                    self.say(i, vec![]);
                }
                if !self.conns[i].deaf && !self.conns[i].last {
                    if let Some(mut r) = take(&mut self.conns[i].buf, i) {
                        let (fate, act) = (self.answer)(&r);
                        r.fate = fate;
                        self.requests.push(r);
                        match act {
                            Act::Say(b) => self.say(i, b),
                            Act::SayAndClose(b) => {
                                self.conns[i].last = true;
                                self.say(i, b);
                            }
                            Act::Close => self.close(i),
                            Act::Silence => self.conns[i].deaf = true,
                        }
                        continue;
                    }
                }
                if over {
                    self.close(i);
                }
                break;
            }
        }
    }
    fn say(&mut self, i: usize, b: Vec<u8>) {
        let c = &mut self.conns[i];
        c.out.extend(b);
        while !c.out.is_empty() {
            let n = c.out.len().min(32_768);
            let r = raw::write(c.fd, &c.out[..n]);
            if r <= 0 {
                return;
            }
            c.out.drain(..r as usize);
        }
        if c.last {
            self.close(i);
        }
    }
    /// Is it the client's end of a connection (still)?
    fn is_end(&self, fd: c_int) -> bool {
        self.ends.iter().any(|e| e.0 == fd && e.1 == raw::inode(fd))
    }
    fn close(&mut self, i: usize) {
        raw::close(self.conns[i].fd);
        self.conns[i].fd = -1;
    }
    /// Leave every connection.
    pub fn hang_up(&mut self) {
        self.pump();
        for i in 0..self.conns.len() {
            if self.conns[i].fd >= 0 {
                self.close(i);
            }
        }
    }
    fn fault(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let c = sched::decide(n);
        if c > 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn io(&mut self, io: &mut sched::Io) -> Answer {
        match io.op {
            sched::OP_CONNECT => {
                let c = self.fault(3);
                if c > 0 {
                    self.faults.push(["connection refused", "connection timed out"][c - 1].to_string());
                    return Answer::Err([libc::ECONNREFUSED, libc::ETIMEDOUT][c - 1]);
                }
                self.ends.retain(|e| e.0 != io.fd);
                self.ends.push((io.fd, raw::inode(io.fd)));
                Answer::Go
            }
            sched::OP_SEND | sched::OP_WRITE if self.is_end(io.fd) => {
                self.pump();
                let c = self.fault(5);
                let whole = || if io.len > 65_536 { Answer::Limit(65_536) } else { Answer::Go };
                if c == 0 {
                    return whole();
                }
                self.faults.push(
                    ["write failed", "write interrupted", "wrote 1 byte", "wrote half"][c - 1].to_string(),
                );
                match c {
                    1 => Answer::Err(libc::EPIPE),
                    2 => Answer::Err(libc::EINTR),
                    3 => Answer::Limit(1),
                    _ => Answer::Limit((io.len / 2).max(1).min(65_536)),
                }
            }
            sched::OP_RECV | sched::OP_READ if self.is_end(io.fd) => {
                self.pump();
                if raw::pending(io.fd) == 0 {
                    return Answer::Go;
                }
                let c = self.fault(4);
                if c == 0 {
                    return Answer::Go;
                }
                self.faults.push(["read failed", "read interrupted", "read 1 byte"][c - 1].to_string());
                match c {
                    1 => Answer::Err(libc::ECONNRESET),
                    2 => Answer::Err(libc::EINTR),
                    _ => Answer::Limit(1),
                }
            }
            sched::OP_WAIT | sched::OP_BLOCK => {
                self.pump();
                Answer::Go
            }
            _ => Answer::Go,
        }
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        for c in &self.conns {
            if c.fd >= 0 {
                raw::close(c.fd);
            }
        }
        raw::close(self.listener);
    }
}

/// Shared with threads that run one at a time.
pub struct Held<T>(pub Rc<RefCell<T>>);
unsafe impl<T> Send for Held<T> {}
impl<T> Clone for Held<T> {
    fn clone(&self) -> Self {
        Held(self.0.clone())
    }
}

/// Put up a server; connection faults are decided by the explorer.
pub fn site(port: u16, budget: usize, answer: Box<dyn FnMut(&Request) -> (String, Act)>) -> Held<Site> {
    sched::vnet(true);
    sched::vclock(true);
    let s = Held(Rc::new(RefCell::new(Site::new(port, budget, answer))));
    let t = s.clone();
    sched::set_io(Some(Box::new(move |io| t.0.borrow_mut().io(io))));
    sched::tell_blocks();
    s
}

#[derive(Clone, Debug)]
pub enum Op {
    Deliver(Event),
    Flush,
    HangUp,
    Shutdown,
}

/// Put a sink through `ops` under the scheduler; how many requests the server
/// had seen after each of them, and whether the valve was open.
pub fn drive<S, C>(o: &mut Oracle, cfg: C, ops: Vec<Op>, site: &Held<Site>) -> (sched::Run, Vec<(usize, bool)>)
where
    S: Sink<C> + 'static,
    C: Send + 'static + Clone,
{
    let seen: Held<Vec<(usize, bool)>> = Held(Rc::new(RefCell::new(vec![])));
    let (s2, site2) = (seen.clone(), site.clone());
    let r = sched::run(
        o,
        sched::Opts { max_steps: 100_000, devs: 0, early: false },
        vec![Box::new(move || {
            let mut sink = Some(S::init(cfg));
            for op in ops {
                match op {
                    Op::Deliver(Event::Telemetry(t)) => sink.as_mut().unwrap().deliver(t),
                    Op::Deliver(Event::Log(l)) => sink.as_mut().unwrap().deliver_line(l),
                    Op::Deliver(_) => {}
                    Op::Flush => sink.as_mut().unwrap().flush(),
                    Op::HangUp => site2.0.borrow_mut().hang_up(),
                    Op::Shutdown => {
                        if let Some(s) = sink.take() {
                            s.shutdown()
                        }
                    }
                }
                let open = sink.as_ref().map_or(true, |s| s.valve_state() == cernan::util::Valve::Open);
                let n = site2.0.borrow().requests.len();
                s2.0.borrow_mut().push((n, open));
            }
        })],
    );
    sched::set_io(None);
    let v = seen.0.borrow().clone();
    (r, v)
}
