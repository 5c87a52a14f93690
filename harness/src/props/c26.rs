//! C26: connections of a TCP source do not reach beyond themselves.
use super::c06;
use super::net::*;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::Event;
use cernan::source::{Graphite, NativeServer, TCPConfig, TCPStreamHandler, TCP};
use cernan::thread::ThreadPool;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C26",
        scenarios: |_| {
            vec![
                Scenario { name: "pool", run: pool },
                Scenario { name: "histories", run: histories },
                Scenario { name: "racing", run: racing },
                Scenario { name: "accept-faults", run: accept_faults },
                Scenario { name: "protocols", run: protocols },
                Scenario { name: "unanswered", run: unanswered },
            ]
        },
        rule: "every history of connects, sends, crashes and endings of up to three clients up to \
               a length, quietly one after the other and, with thread schedules up to a number of \
               deviations, racing each other and the stop; states = (history so far) and per \
               schedule point the progress and condition of every thread",
        assumptions: &[
            "a handler returns when it is told to stop",
            "the private network behaves as TCP does",
        ],
        level: "model_checking",
        hang_s: 120,
    }
}

const CRASH: &str = "deliberate crash";

/// As must_end, but a handler may have crashed because we made it.
fn ended(r: &sched::Run, what: &str) -> Res<()> {
    let p = take_panics();
    let p: Vec<&String> = p.iter().filter(|m| !m.contains(CRASH)).collect();
    match r.outcome {
        sched::Outcome::AllDone | sched::Outcome::Stopped => {}
        sched::Outcome::Stuck => {
            return fail("stuck", format!("{}: threads wait for ever: {} {:?}", what, r.left, p))
        }
        sched::Outcome::TooLong => {
            return fail("endless", format!("{}: still running after {} steps: {}", what, r.steps, r.left))
        }
        sched::Outcome::TooManyThreads => {
            return Err(Stop::Engine("too many threads".to_string()))
        }
    }
    if let Some(m) = p.first() {
        return fail("panic", format!("{}: a thread panicked: {}", what, m));
    }
    Ok(())
}

// ---- the pool itself --------------------------------------------------------

/// Every history of spawns and joins, workers returning, crashing or waiting
/// to be told.
fn pool(o: &mut Oracle) -> Res<()> {
    let n = o.pick(4, 5);
    let mut ops = vec![];
    for _ in 0..n {
        // 0..3: spawn a worker that returns, crashes, waits for the stop, or
        // waits and then crashes; 4: join what is ready; 5: let them run; 6: done
        let k = o.choose(7);
        if k == 6 {
            break;
        }
        ops.push(k);
    }
    let kinds: Vec<usize> = ops.iter().cloned().filter(|k| *k < 4).collect();
    let waits = kinds.iter().any(|k| *k >= 2);
    let stop = if waits { 0 } else { o.choose(2) }; // shutdown or join
    o.begin()?;
    let what = format!("pool operations {:?} then {}", ops, if stop == 0 { "shutdown" } else { "join" });
    let ids: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
    let left = Arc::new(AtomicI32::new(0));
    let finished = Arc::new(AtomicI32::new(0));
    let spawned: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
    let (i2, l2, f2, s2) = (ids.clone(), left.clone(), finished.clone(), spawned.clone());
    let ops2 = ops.clone();
    sched::vclock(true);
    let run = sched::run(
        o,
        sched::Opts { max_steps: 20_000, devs: 1 + o.thorough() as i32, early: false },
        vec![Box::new(move || {
            let base = sched::held();
            let (reg, ready) = mio::Registration::new2();
            let _keep = reg;
            let mut p = ThreadPool::new(Some(ready));
            for k in ops2 {
                match k {
                    4 => i2.lock().unwrap().extend(p.join_ready()),
                    5 => lull(),
                    _ => {
                        let f3 = f2.clone();
                        let id = p.spawn(move |poll| {
                            if k >= 2 {
                                let mut ev = mio::Events::with_capacity(8);
                                let _ = poll.poll(&mut ev, None);
                            }
                            f3.fetch_add(1, Ordering::SeqCst);
                            if k % 2 == 1 {
                                panic!(CRASH);
                            }
                        });
                        s2.lock().unwrap().push(id);
                    }
                }
            }
            let last = if stop == 0 { p.shutdown() } else { p.join() };
            i2.lock().unwrap().extend(last);
            l2.store(sched::held() - base, Ordering::SeqCst);
        })],
    );
    o.note(|| format!("{}: {} steps, {} deviations", what, run.steps, run.devs_used));
    ended(&run, &what)?;
    if run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    let mut got = ids.lock().unwrap().clone();
    got.sort();
    let mut want = spawned.lock().unwrap().clone();
    want.sort();
    let distinct = {
        let mut w = want.clone();
        w.dedup();
        w.len() == want.len()
    };
    ensure!(distinct, "ids", "{}: workers share an id: {:?}", what, want);
    ensure!(got == want, "ids", "{}: reclaimed {:?} of {:?}", what, got, want);
    ensure!(
        finished.load(Ordering::SeqCst) as usize == kinds.len(),
        "workers",
        "{}: {} of {} workers ran to their end",
        what,
        finished.load(Ordering::SeqCst),
        kinds.len()
    );
    ensure!(
        left.load(Ordering::SeqCst) == 0,
        "workers",
        "{}: {} workers not reclaimed",
        what,
        left.load(Ordering::SeqCst)
    );
    Ok(())
}

// ---- a source with a handler of our own -------------------------------------

/// Emits every capital letter, echoes it, crashes at 'x', leaves at 'q', and
/// says goodbye when told to stop.
#[derive(Default, Clone)]
pub struct Handler;

impl TCPStreamHandler for Handler {
    fn handle_stream(
        &mut self,
        mut chans: cernan::util::Channel,
        poll: &mio::Poll,
        mut stream: mio::net::TcpStream,
    ) {
        let mut last = b'?';
        loop {
            let mut events = mio::Events::with_capacity(8);
            poll.poll(&mut events, None).expect("ENGINE: poll");
            for e in events {
                if e.token() == cernan::constants::SYSTEM {
                    let bye = format!("bye {}", last as char);
                    cernan::util::send(&mut chans, Event::Log(log("bye", &bye, 0)));
                    return;
                }
                let mut b = [0u8; 16];
                loop {
                    match stream.read(&mut b) {
                        Ok(0) => return,
                        Ok(n) => {
                            for c in &b[..n] {
                                match *c {
                                    b'x' => panic!(CRASH),
                                    b'q' => return,
                                    c => {
                                        last = c;
                                        let s = (c as char).to_string();
                                        cernan::util::send(&mut chans, Event::Log(log("in", &s, 0)));
                                        let _ = stream.write(&[c]);
                                    }
                                }
                            }
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(_) => return,
                    }
                }
            }
        }
    }
}

fn config(port: u16) -> TCPConfig {
    TCPConfig {
        host: "127.0.0.1".to_string(),
        port,
        forwards: vec![],
        config_path: Some("sources.tcp".to_string()),
    }
}

const PORT: u16 = 1888;
const NC: usize = 3;

/// What one client can do next: 0 send a letter, 1 crash its handler, 2 make
/// its handler leave, 3 close, 4 read its echo, 5 half-close
const NOPS: usize = 6;

struct Client {
    fd: i32,
    open: bool,
    /// does its worker live
    live: bool,
    sent: Vec<char>,
}

/// Choose a history: (client, operation); a client's first operation connects
/// it as well.
fn history(o: &mut Oracle, n: usize) -> Vec<(usize, usize)> {
    let mut h = vec![];
    let mut used = 0;
    let mut open = [true; NC];
    for _ in 0..n {
        let m = (used + 1).min(NC);
        let c = o.choose(m + 1);
        if c == m {
            break;
        }
        if !open[c] {
            return vec![(NC, 0)];
        }
        if c == used {
            used += 1;
        }
        let k = o.choose(NOPS);
        if k == 3 {
            open[c] = false;
        }
        h.push((c, k));
    }
    h
}

fn letter(c: usize, n: usize) -> char {
    (b'A' + (c * 8 + n) as u8) as char
}

#[derive(Default)]
struct Seen {
    sent: Vec<Vec<char>>,
    /// letters whose handler certainly got them
    sure: Vec<Vec<char>>,
    live: usize,
    held: i32,
    problems: Vec<String>,
}

fn clients(h: Vec<(usize, usize)>, quiet: bool, base: i32, seen: Arc<Mutex<Seen>>) {
    let mut cs: Vec<Client> = vec![];
    for (c, k) in h {
        if c == cs.len() {
            let fd = raw::connect(PORT);
            if fd < 0 {
                seen.lock().unwrap().problems.push(format!("client {} cannot connect", c));
                return;
            }
            cs.push(Client { fd, open: true, live: true, sent: vec![] });
        }
        let cl = &mut cs[c];
        match k {
            0 => {
                let l = letter(c, cl.sent.len());
                if send(cl.fd, &[l as u8]) && cl.live {
                    cl.sent.push(l);
                }
            }
            1 => {
                send(cl.fd, b"x");
                cl.live = false;
            }
            2 => {
                send(cl.fd, b"q");
                cl.live = false;
            }
            3 => {
                raw::close(cl.fd);
                cl.open = false;
                cl.live = false;
            }
            4 => {
                raw::read_all(cl.fd);
            }
            _ => {
                raw::shutdown_write(cl.fd);
                cl.live = false;
            }
        }
        if quiet {
            lull();
        } else {
            sched::point();
        }
    }
    let mut s = seen.lock().unwrap();
    s.sent = cs.iter().map(|c| c.sent.clone()).collect();
    if quiet {
        drop(s);
        // a newcomer is served
        let fd = raw::connect(PORT);
        if fd < 0 {
            seen.lock().unwrap().problems.push("a newcomer cannot connect".to_string());
            return;
        }
        send(fd, b"Z");
        lull();
        let mut s = seen.lock().unwrap();
        let (echo, _) = raw::read_all(fd);
        if echo != b"Z" {
            s.problems.push(format!("a newcomer is answered {:?}", echo));
        }
        s.live = 1 + cs.iter().filter(|c| c.live).count();
        s.held = sched::held() - base;
        for (i, c) in cs.iter().enumerate() {
            if c.open && !c.live {
                let (_, eof) = raw::read_all(c.fd);
                if !eof {
                    s.problems.push(format!("the connection of client {} was not closed", i));
                }
            }
        }
        drop(s);
        // the newcomer and the open ones stay until the stop
        return;
    }
    for c in &cs {
        if c.open {
            raw::close(c.fd);
        }
    }
}

fn mark_history(o: &mut Oracle, h: &[(usize, usize)]) {
    for i in 0..h.len() {
        o.step();
        o.state(&h[..i + 1].to_vec());
    }
}

/// One operation at a time, everything idle in between.
fn histories(o: &mut Oracle) -> Res<()> {
    let n = o.pick(4, 5);
    let h = history(o, n);
    if h.first().map(|x| x.0) == Some(NC) {
        return Err(Stop::Prune);
    }
    if h.iter().any(|x| x.0 == NC) {
        return Err(Stop::Prune);
    }
    o.begin()?;
    mark_history(o, &h);
    let what = format!("history {:?}", h);
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let s2 = seen.clone();
    let h2 = h.clone();
    let out = serve::<TCP<Handler>, _, _>(o, opts(0), config(PORT), move || {
        lull();
        let base = sched::held();
        clients(h2, true, base, s2)
    });
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    ended(&out.run, &what)?;
    let s = seen.lock().unwrap();
    ensure!(s.problems.is_empty(), "service", "{}: {}", what, s.problems.join("; "));
    ensure!(
        s.held == s.live as i32,
        "workers",
        "{}: {} workers held for {} live connections",
        what,
        s.held,
        s.live
    );
    // everything each client sent, in order, then goodbyes, then the end
    let got: Vec<String> = out
        .events
        .iter()
        .map(|e| match e {
            Event::Log(l) => l.value.clone(),
            e => show_event(e),
        })
        .collect();
    ensure!(
        got.iter().filter(|x| *x == "shutdown").count() == 1
            && got.last().map(|x| x.as_str()) == Some("shutdown"),
        "shutdown",
        "{}: {:?}",
        what,
        got
    );
    let byes = got.iter().filter(|x| x.starts_with("bye")).count();
    ensure!(byes == s.live, "farewell", "{}: {} live workers but {:?}", what, s.live, got);
    // quiet: so the order over all clients is that of the history
    let mut want: Vec<String> = vec![];
    let mut idx = [0usize; NC];
    let mut live = [true; NC];
    for (c, k) in &h {
        match k {
            0 if live[*c] => {
                want.push(letter(*c, idx[*c]).to_string());
                idx[*c] += 1;
            }
            1 | 2 | 3 | 5 => live[*c] = false,
            _ => {}
        }
    }
    want.push("Z".to_string());
    let data: Vec<String> =
        got.iter().filter(|x| !x.starts_with("bye") && *x != "shutdown").cloned().collect();
    ensure!(data == want, "events", "{}: got {:?}, should be {:?}", what, data, want);
    Ok(())
}

/// The same histories with nothing waiting for anything, then the stop.
fn racing(o: &mut Oracle) -> Res<()> {
    let n = o.pick(3, 4);
    let h = history(o, n);
    if h.iter().any(|x| x.0 == NC) || h.iter().any(|x| x.1 == 4) {
        return Err(Stop::Prune);
    }
    let lull_before_stop = o.choose(2) == 1;
    let devs = if h.len() == n { 1 } else { o.pick(2, 3) };
    o.begin()?;
    let what = format!("racing history {:?}, {}", h, if lull_before_stop { "idle, then stop" } else { "stop" });
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let s2 = seen.clone();
    let h2 = h.clone();
    let out = serve::<TCP<Handler>, _, _>(o, opts(devs), config(PORT), move || {
        clients(h2, false, 0, s2);
        if lull_before_stop {
            lull();
        }
    });
    o.note(|| format!("{}: {} steps, {} deviations", what, out.run.steps, out.run.devs_used));
    ended(&out.run, &what)?;
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    let s = seen.lock().unwrap();
    ensure!(s.problems.is_empty(), "service", "{}: {}", what, s.problems.join("; "));
    let got: Vec<String> = out
        .events
        .iter()
        .map(|e| match e {
            Event::Log(l) => l.value.clone(),
            e => show_event(e),
        })
        .collect();
    ensure!(
        got.iter().filter(|x| *x == "shutdown").count() == 1
            && got.last().map(|x| x.as_str()) == Some("shutdown"),
        "shutdown",
        "{}: {:?}",
        what,
        got
    );
    for (c, sent) in s.sent.iter().enumerate() {
        let mine: Vec<char> = got
            .iter()
            .filter(|x| x.len() == 1)
            .map(|x| x.chars().next().unwrap())
            .filter(|l| (*l as u8 - b'A') as usize / 8 == c)
            .collect();
        ensure!(
            mine.len() <= sent.len() && mine[..] == sent[..mine.len()],
            "events",
            "{}: client {} sent {:?}, got {:?}",
            what,
            c,
            sent,
            got
        );
        // a client that left unread echoes may reset its own stream; the
        // others have had all the time they needed
        let reset = h.iter().any(|x| x.0 == c && x.1 == 0);
        if lull_before_stop && !reset {
            ensure!(mine.len() == sent.len(), "events", "{}: client {} sent {:?}, got {:?}", what, c, sent, got);
        }
    }
    Ok(())
}

/// accept() fails for connections that are gone already.
fn accept_faults(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3); // clients
    let m = 1 + o.choose(2); // faults in a row
    let at = o.choose(4);
    let e = *o.choose_from(&[libc::ECONNABORTED, libc::EINTR, libc::ETIMEDOUT]);
    let together = o.choose(2) == 1;
    o.begin()?;
    let what = format!("{} clients, accept {} and {} more fail with {}", n, at, m - 1, e);
    let mut k = 0;
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_ACCEPT {
            k += 1;
            if k > at && k <= at + m {
                return Answer::Err(e);
            }
        }
        Answer::Go
    })));
    let out = serve::<TCP<Handler>, _, _>(o, opts(o.pick(1, 2)), config(PORT), move || {
        let mut fds = vec![];
        for c in 0..n {
            let fd = raw::connect(PORT);
            send(fd, &[letter(c, 0) as u8]);
            if !together {
                lull();
            }
            fds.push(fd);
        }
        lull();
        for fd in fds {
            raw::close(fd);
        }
        lull();
    });
    ended(&out.run, &what)?;
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    let mut got: Vec<String> = out
        .events
        .iter()
        .map(|e| match e {
            Event::Log(l) => l.value.clone(),
            e => show_event(e),
        })
        .collect();
    ensure!(got.pop() == Some("shutdown".to_string()), "shutdown", "{}: {:?}", what, got);
    got.sort();
    let want: Vec<String> = (0..n).map(|c| letter(c, 0).to_string()).collect();
    ensure!(got == want, "events", "{}: got {:?}, should be {:?}", what, got, want);
    Ok(())
}

/// The shipped handlers: a client that misbehaves while another one is served.
fn protocols(o: &mut Oracle) -> Res<()> {
    let proto = o.choose(3);
    let (good, bads): (Vec<u8>, Vec<Vec<u8>>) = match proto {
        0 => (
            b"a 1 2\n".to_vec(),
            vec![b"".to_vec(), b"nonsense\n".to_vec(), b"a 1".to_vec(), vec![0xff, 0xfe, b'\n'], b"\n\n".to_vec()],
        ),
        1 => {
            let mut b: Vec<Vec<u8>> = (0..6).map(c06::bad).collect();
            b.push(vec![]);
            (c06::frame(&c06::nth(1).0), b)
        }
        _ => {
            let mut b: Vec<Vec<u8>> = (0..6).map(c06::bad).collect();
            b.push(vec![]);
            b.push(c06::frame(&[0; 24]));
            b.push(c06::frame(&[0, 0, 0, 2]));
            b.push(c06::frame(&[0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9]));
            (super::c08::plain(), b)
        }
    };
    let i = o.choose(bads.len());
    let bad = bads[i].clone();
    let end = *o.choose_from(&[End::Close, End::Shutdown, End::Stay]);
    let before = o.choose(2) == 1; // the good one was there first
    let after = o.choose(3); // how often the good one sends
    o.begin()?;
    let what = format!(
        "protocol {}, bad input {} then {:?}, good client {}",
        ["graphite", "native", "avro"][proto],
        i,
        end,
        if before { "before" } else { "after" }
    );
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let s2 = seen.clone();
    let client = move || {
        lull();
        let base = sched::held();
        let mut fd = -1;
        if before {
            fd = raw::connect(PORT);
            lull();
        }
        let b = raw::connect(PORT);
        send(b, &bad);
        lull();
        finish(b, end);
        lull();
        if !before {
            fd = raw::connect(PORT);
            lull();
        }
        for _ in 0..after {
            send(fd, &good);
            lull();
        }
        let mut s = s2.lock().unwrap();
        // has the source hung up on the bad one?
        let gone = end != End::Stay || raw::read_all(b).1;
        s.live = 1 + !gone as usize;
        s.held = sched::held() - base;
    };
    let dev = o.pick(0, 1);
    let out = match proto {
        0 => serve::<Graphite, _, _>(o, opts(dev), config(PORT), client),
        1 => serve::<NativeServer, _, _>(o, opts(dev), config(PORT), client),
        _ => serve::<cernan::source::Avro, _, _>(o, opts(dev), config(PORT), client),
    };
    ended(&out.run, &what)?;
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    let got = show_events(&out.events);
    ensure!(
        got.iter().filter(|x| *x == "shutdown").count() == 1
            && got.last().map(|x| x.as_str()) == Some("shutdown")
            && got.len() == after + 1,
        "events",
        "{}: got {:?} for {} payloads",
        what,
        got,
        after
    );
    let s = seen.lock().unwrap();
    ensure!(
        s.held == s.live as i32,
        "workers",
        "{}: {} workers held for {} connections",
        what,
        s.held,
        s.live
    );
    Ok(())
}

/// The stop while a synchronous publish waits for an acknowledgement that
/// never comes.
fn unanswered(o: &mut Oracle) -> Res<()> {
    let n = o.choose(3); // publishes asking for an answer
    let close = o.choose(2) == 1;
    o.begin()?;
    o.step();
    o.state(&(n, close));
    let what = format!("stop with {} unanswered publishes, client {}", n, if close { "gone" } else { "there" });
    let out = serve::<cernan::source::Avro, _, _>(o, opts(0), config(PORT), move || {
        let mut fds = vec![];
        for i in 0..n {
            let fd = raw::connect(PORT);
            send(fd, &super::c08::asking(i));
            fds.push(fd);
        }
        lull();
        if close {
            for fd in fds {
                raw::close(fd);
            }
        }
        lull();
    });
    ended(&out.run, &what)?;
    ensure!(out.events.len() == n + 1, "events", "{}: {} events", what, out.events.len());
    Ok(())
}
