//! Sources that listen on the private network, run under the scheduler with
//! clients the explorer drives.
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw};
use cernan::metric::Event;
use cernan::source::RunnableSource;
use cernan::source::Source;
use cernan::thread::Stoppable;
use std::sync::{Arc, Mutex};

/// Long enough for everything else to go idle first (virtual time).
pub const LULL: u64 = 60_000_000_000;

/// Let everything else run until nothing can.
pub fn lull() {
    sched::sleep(LULL);
}

pub struct Out {
    pub run: sched::Run,
    /// what the source sent downstream
    pub events: Vec<Event>,
}

/// Run a source under the scheduler; `client` acts in a thread of its own
/// while the source runs, then the source is told to stop.
pub fn serve<S, C, F>(
    o: &mut Oracle,
    opts: sched::Opts,
    cfg: C,
    client: F,
) -> Out
where
    S: Source<C> + Send,
    C: 'static + Send + Clone,
    F: FnOnce() + Send + 'static,
{
    let q = Queue::new();
    let (mut tx, rx) = q.ends();
    let chan = tx.clone();
    let root: sched::Root = Box::new(move || {
        let src: RunnableSource<S, C> = S::new(vec![chan], cfg);
        let h = src.run();
        client();
        h.shutdown();
    });
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts, vec![root]);
    let events =
        if run.outcome == sched::Outcome::AllDone { drain_events(&mut tx, rx) } else { vec![] };
    Out { run, events }
}

pub fn opts(devs: i32) -> sched::Opts {
    sched::Opts { max_steps: 50_000, devs, early: false }
}

/// Write all of it, letting the source run whenever the socket is full; false
/// if the source has hung up.
pub fn send(fd: i32, mut data: &[u8]) -> bool {
    let mut tries = 0;
    while !data.is_empty() {
        let r = raw::write(fd, data);
        if r > 0 {
            data = &data[r as usize..];
        } else {
            let e = std::io::Error::last_os_error().kind();
            if e != std::io::ErrorKind::WouldBlock || tries > 1000 {
                return false;
            }
            tries += 1;
            lull();
        }
    }
    true
}

/// One connection, sending the pieces one by one, each after the previous one
/// was drained.
pub fn pieces(port: u16, parts: Vec<Vec<u8>>, end: End) {
    let fd = raw::connect(port);
    if fd < 0 {
        panic!("ENGINE: connect");
    }
    for p in parts {
        send(fd, &p);
        lull();
    }
    finish(fd, end);
    lull();
    if end == End::Stay {
        raw::close(fd);
    }
}

/// How a client leaves.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Close,
    /// with unread data at the server, or a reset
    Shutdown,
    /// not at all
    Stay,
}

pub fn finish(fd: i32, end: End) {
    match end {
        End::Close => raw::close(fd),
        End::Shutdown => {
            raw::shutdown_write(fd);
            lull();
            raw::close(fd);
        }
        End::Stay => {}
    }
}

/// Cut data at the given places (ascending).
pub fn cut(data: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut last = 0;
    for c in cuts {
        v.push(data[last..*c].to_vec());
        last = *c;
    }
    v.push(data[last..].to_vec());
    v
}

/// Up to n ascending cut places strictly inside `len` bytes.
pub fn cuts(o: &mut Oracle, n: usize, len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let from = v.last().cloned().unwrap_or(0) + 1;
        if from >= len {
            break;
        }
        // the last answer means no further cut
        let k = o.choose(len - from + 1);
        if from + k >= len {
            break;
        }
        v.push(from + k);
    }
    v
}

/// A shared list the client threads write to.
pub type List<T> = Arc<Mutex<Vec<T>>>;

/// As `serve`, with a consumer downstream that takes every event as it comes:
/// it first goes to `see`, then into the inbox the client can look at.
pub fn serve_live<S, C, F, G>(o: &mut Oracle, opts: sched::Opts, cfg: C, client: F, mut see: G) -> Out
where
    S: Source<C> + Send,
    C: 'static + Send + Clone,
    F: FnOnce(List<Event>) + Send + 'static,
    G: FnMut(&Event) + Send + 'static,
{
    let q = Queue::new();
    let (tx, rx) = q.ends();
    let inbox: List<Event> = List::default();
    let (i1, i2) = (inbox.clone(), inbox.clone());
    let root: sched::Root = Box::new(move || {
        let src: RunnableSource<S, C> = S::new(vec![tx], cfg);
        let h = src.run();
        client(i1);
        h.shutdown();
    });
    let consumer: sched::Root = Box::new(move || {
        for e in rx {
            see(&e);
            let last = e == Event::Shutdown;
            i2.lock().unwrap().push(e);
            if last {
                break;
            }
        }
    });
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts, vec![root, consumer]);
    let events = if run.outcome == sched::Outcome::AllDone {
        inbox.lock().unwrap().clone()
    } else {
        vec![]
    };
    Out { run, events }
}
