//! C08: publishing with acknowledgement through the Avro source.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::{global_ack_bag, Encoding, Event, Metadata};
use cernan::source::{Avro, TCPConfig};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C08",
        scenarios: |_| {
            vec![
                Scenario { name: "segments", run: segments },
                Scenario { name: "histories", run: histories },
                Scenario { name: "racing", run: racing },
                Scenario { name: "answer-faults", run: answer_faults },
                Scenario { name: "malformed", run: malformed },
            ]
        },
        rule: "every sequence of publishes from an alphabet under every placement of segment \
               boundaries; every history of publishes, acknowledgements (also late and repeated \
               ones), malformed publishes and hang-ups of two connections up to a length; thread \
               schedules up to a number of deviations; states = what was published, accepted and \
               answered so far, and per schedule point every thread's progress",
        assumptions: &[
            "a consumer acknowledges through the acknowledgement bag with the identifier the event carries, as the Kafka sink does",
            "the private network behaves as TCP does",
        ],
        level: "model_checking",
        hang_s: 120,
    }
}

const PORT: u16 = 2002;

fn config(port: u16) -> TCPConfig {
    TCPConfig {
        host: "127.0.0.1".to_string(),
        port,
        forwards: vec![],
        config_path: Some("sources.avro".to_string()),
    }
}

/// An Avro container: a schema and one block holding one int.
fn container(n: u8) -> Vec<u8> {
    let mut v = b"Obj\x01".to_vec();
    v.push(4); // two entries
    for (k, x) in &[("avro.schema", "\"int\""), ("avro.codec", "null")] {
        v.push((k.len() * 2) as u8);
        v.extend_from_slice(k.as_bytes());
        v.push((x.len() * 2) as u8);
        v.extend_from_slice(x.as_bytes());
    }
    v.push(0);
    v.extend_from_slice(&[7; 16]);
    v.extend_from_slice(&[2, 2, n * 2]);
    v.extend_from_slice(&[7; 16]);
    v
}

#[derive(Clone, Debug)]
pub struct Publish {
    version: u32,
    control: u32,
    id: u64,
    order_by: u64,
    kvs: Vec<(Vec<u8>, Vec<u8>)>,
    n: u8,
}
impl Publish {
    fn encode(&self) -> Vec<u8> {
        let mut p = vec![];
        p.extend_from_slice(&self.version.to_be_bytes());
        p.extend_from_slice(&self.control.to_be_bytes());
        p.extend_from_slice(&self.id.to_be_bytes());
        p.extend_from_slice(&self.order_by.to_be_bytes());
        if self.version >= 2 {
            p.push(self.kvs.len() as u8);
            for (k, v) in &self.kvs {
                p.push(k.len() as u8);
                p.extend_from_slice(k);
                p.extend_from_slice(&(v.len() as u16).to_be_bytes());
                p.extend_from_slice(v);
            }
        }
        p.extend_from_slice(&container(self.n));
        p
    }
    fn frame(&self) -> Vec<u8> {
        let p = self.encode();
        let mut v = (p.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(&p);
        v
    }
    fn sync(&self) -> bool {
        self.control & 1 == 1
    }
    fn expect(&self) -> String {
        let md = if self.version < 2 || self.kvs.is_empty() {
            None
        } else {
            let mut m = Metadata::default();
            for (k, v) in &self.kvs {
                m.insert(k.clone(), v.clone());
            }
            Some(m)
        };
        show_anon(&Event::Raw {
            order_by: self.order_by,
            encoding: Encoding::Avro,
            bytes: container(self.n),
            metadata: md,
            connection_id: None,
        })
    }
}

/// An event without the identifier acknowledgements go by, which is random.
fn show_anon(e: &Event) -> String {
    match e.clone() {
        Event::Raw { order_by, encoding, bytes, metadata, .. } => show_event(&Event::Raw {
            order_by,
            encoding,
            bytes,
            metadata,
            connection_id: None,
        }),
        e => show_event(&e),
    }
}

fn simple(i: usize, sync: bool) -> Publish {
    Publish {
        version: 1,
        control: sync as u32,
        id: 0x0102_0304_0506_0700 + i as u64,
        order_by: 77 + i as u64,
        kvs: vec![],
        n: i as u8,
    }
}

/// A plain publish for other properties.
pub fn plain() -> Vec<u8> {
    simple(1, false).frame()
}

/// A container that is none.
pub fn garbled() -> Vec<u8> {
    let mut p = simple(1, false).encode();
    let head = p.len() - container(0).len();
    p[head] ^= 0x55;
    super::c06::frame(&p)
}

/// A payload that ends early.
pub fn short() -> Vec<u8> {
    let mut p = simple(1, false).encode();
    p.truncate(12);
    super::c06::frame(&p)
}

pub fn asking(i: usize) -> Vec<u8> {
    simple(i, true).frame()
}

const NPUB: usize = 7;
fn nth(i: usize, pos: usize) -> Publish {
    let mut p = simple(10 + pos, i % 2 == 0);
    match i {
        0 | 1 => {}
        2 => {
            p.version = 2;
        }
        3 => {
            p.version = 2;
            p.kvs = vec![(b"k".to_vec(), b"v".to_vec())];
        }
        4 => {
            p.version = 2;
            p.control = 0xffff_ffff;
            p.id = u64::max_value();
            p.kvs = vec![(vec![], vec![]), (b"a".to_vec(), vec![0xff, 0, 1]), (b"a".to_vec(), b"2".to_vec())];
        }
        // bits that mean nothing
        5 => p.control = 0xffff_fffe,
        _ => {
            p.version = 0;
            p.id = 0;
            p.order_by = u64::max_value();
        }
    }
    p
}

fn ack(e: &Event) {
    if let Event::Raw { connection_id: Some(id), .. } = e {
        global_ack_bag().with_props(*id, |p| p.ack());
    }
}

fn ids(bytes: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        v.push(u64::from_be_bytes(b));
    }
    v
}

/// One connection, acknowledged at once.
fn segments(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(2);
    let mut ps = vec![];
    let mut bytes = vec![];
    let mut starts = vec![];
    let mut kinds = vec![];
    for i in 0..n {
        let k = o.choose(NPUB);
        kinds.push(k);
        let p = nth(k, i);
        starts.push(bytes.len());
        bytes.extend(p.frame());
        ps.push(p);
    }
    let c = cuts(o, if n == 1 { o.pick(1, 2) } else { 1 }, bytes.len());
    if n == 1 && c.len() == 2 && c[0] > 40 {
        return Err(Stop::Prune);
    }
    let limit = *o.choose_from(&[0usize, 1, 5]);
    if limit > 0 && !c.is_empty() {
        return Err(Stop::Prune);
    }
    o.begin()?;
    for x in &c {
        o.step();
        o.state(&(kinds.clone(), *x));
    }
    let what = format!("publishes {:?} cut at {:?}, reads limited to {}", kinds, c, limit);
    if limit > 0 {
        sched::set_io(Some(Box::new(move |io| {
            if io.op == sched::OP_RECV {
                return Answer::Limit(limit);
            }
            Answer::Go
        })));
    }
    let parts = cut(&bytes, &c);
    let answers: List<u64> = List::default();
    let a2 = answers.clone();
    let out = serve_live::<Avro, _, _, _>(
        o,
        opts(0),
        config(PORT),
        move |_| {
            let fd = raw::connect(PORT);
            for p in parts {
                send(fd, &p);
                lull();
            }
            let (b, _) = raw::read_all(fd);
            *a2.lock().unwrap() = ids(&b);
            raw::close(fd);
            lull();
        },
        ack,
    );
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    must_end(&out.run, &what)?;
    let got: Vec<String> = out.events.iter().map(show_anon).collect();
    let mut want: Vec<String> = ps.iter().map(|p| p.expect()).collect();
    want.push("shutdown".to_string());
    ensure!(got == want, "events", "{}: got {:?}, should be {:?}", what, got, want);
    let want: Vec<u64> = ps.iter().filter(|p| p.sync()).map(|p| p.id).collect();
    let got = answers.lock().unwrap().clone();
    ensure!(got == want, "answers", "{}: answered {:x?}, should be {:x?}", what, got, want);
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// publish on a connection, asking for an answer or not
    Publish(usize, bool),
    /// acknowledge the i-th event received
    Ack(usize),
    /// a malformed publish
    Bad(usize),
    Close(usize),
}

/// What the model knows of one connection.
#[derive(Clone, Default, Hash)]
struct Conn {
    /// published and not yet taken: a publish that waits holds up the next
    queue: Vec<(usize, bool, bool)>, // (number, sync, malformed)
    /// the event whose acknowledgement the connection waits for
    waiting: Option<usize>,
    answered: Vec<usize>,
    closed: bool,
    broken: bool,
}
#[derive(Clone, Default, Hash)]
struct Model {
    conns: Vec<Conn>,
    /// accepted events in order: (publish number, connection)
    events: Vec<(usize, usize)>,
    acked: Vec<usize>,
    published: usize,
}
impl Model {
    fn settle(&mut self) {
        for c in 0..self.conns.len() {
            loop {
                let k = &mut self.conns[c];
                if let Some(e) = k.waiting {
                    if self.acked[e] == 0 {
                        break;
                    }
                    k.waiting = None;
                    if !k.closed {
                        k.answered.push(self.events[e].0);
                    } else {
                        // its answer could not be written
                        k.broken = true;
                    }
                }
                if k.queue.is_empty() || k.broken {
                    break;
                }
                let (n, sync, bad) = k.queue.remove(0);
                if bad {
                    k.broken = true;
                    break;
                }
                self.events.push((n, c));
                self.acked.push(0);
                if sync {
                    k.waiting = Some(self.events.len() - 1);
                }
            }
        }
    }
    fn apply(&mut self, op: Op) -> bool {
        match op {
            Op::Publish(c, _) | Op::Bad(c) => {
                if self.conns.len() == c {
                    self.conns.push(Conn::default());
                }
                if c >= self.conns.len() || self.conns[c].closed || self.conns[c].broken {
                    return false;
                }
                let n = self.published;
                self.published += 1;
                let k = match op {
                    Op::Publish(_, s) => (n, s, false),
                    _ => (n, true, true),
                };
                self.conns[c].queue.push(k);
            }
            Op::Ack(i) => {
                if i >= self.events.len() || self.acked[i] >= 2 {
                    return false;
                }
                self.acked[i] += 1;
            }
            Op::Close(c) => {
                if c >= self.conns.len() || self.conns[c].closed {
                    return false;
                }
                // closing while an answer is outstanding: the publishes
                // behind it may or may not be taken, so leave that out
                if !self.conns[c].queue.is_empty() {
                    return false;
                }
                self.conns[c].closed = true;
            }
        }
        self.settle();
        true
    }
}

fn ops(i: usize) -> Op {
    match i {
        0 => Op::Publish(0, true),
        1 => Op::Publish(0, false),
        2 => Op::Publish(1, true),
        3 => Op::Publish(1, false),
        4 => Op::Ack(0),
        5 => Op::Ack(1),
        6 => Op::Ack(2),
        7 => Op::Ack(3),
        8 => Op::Bad(0),
        9 => Op::Close(0),
        _ => Op::Close(1),
    }
}
const NOPS: usize = 11;

fn histories(o: &mut Oracle) -> Res<()> {
    let n = o.pick(5, 7);
    let mut m = Model::default();
    let mut h = vec![];
    let mut expect = vec![]; // after each operation: answers per connection, events
    for _ in 0..n {
        let k = o.choose(NOPS + 1);
        if k == NOPS {
            break;
        }
        let op = ops(k);
        if !m.apply(op) {
            return Err(Stop::Prune);
        }
        h.push(op);
        expect.push(m.clone());
    }
    // only full-length histories and those that ended by choice; acknowledging
    // at least something
    if !h.iter().any(|x| if let Op::Publish(..) = x { true } else { false }) {
        return Err(Stop::Prune);
    }
    o.begin()?;
    for e in &expect {
        o.step();
        o.state(e);
    }
    let what = format!("history {:?}", h);
    let problems: List<(String, String)> = List::default();
    let p2 = problems.clone();
    let h2 = h.clone();
    let e2 = expect.clone();
    let out = serve_live::<Avro, _, _, _>(
        o,
        opts(0),
        config(PORT),
        move |inbox| {
            let mut fds: Vec<i32> = vec![];
            let mut published = 0;
            let mut answers: Vec<Vec<u8>> = vec![];
            for (op, want) in h2.iter().zip(e2) {
                match *op {
                    Op::Publish(c, _) | Op::Bad(c) => {
                        if c == fds.len() {
                            fds.push(raw::connect(PORT));
                            answers.push(vec![]);
                        }
                        let f = match *op {
                            Op::Publish(_, s) => simple(published, s).frame(),
                            _ => {
                                let mut f = simple(published, true).frame();
                                let k = f.len();
                                f.truncate(k - 30);
                                f[28] = b'?'; // no container
                                let n = (f.len() - 4) as u32;
                                f[..4].copy_from_slice(&n.to_be_bytes());
                                f
                            }
                        };
                        published += 1;
                        send(fds[c], &f);
                    }
                    Op::Ack(i) => {
                        let e = inbox.lock().unwrap().get(i).cloned();
                        match e {
                            Some(e) => ack(&e),
                            None => {} // reported below
                        }
                    }
                    Op::Close(c) => {
                        raw::close(fds[c]);
                    }
                }
                lull();
                for (c, fd) in fds.iter().enumerate() {
                    if !want.conns[c].closed {
                        let (b, _) = raw::read_all(*fd);
                        answers[c].extend(b);
                    }
                    let got = ids(&answers[c]);
                    let should: Vec<u64> =
                        want.conns[c].answered.iter().map(|n| simple(*n, true).id).collect();
                    if got != should {
                        p2.lock().unwrap().push((
                            "answers".to_string(),
                            format!(
                                "after {:?}, connection {} was answered {:x?}, should be {:x?}",
                                op, c, got, should
                            ),
                        ));
                        return rescue(&inbox);
                    }
                }
                let got: Vec<String> = inbox.lock().unwrap().iter().map(show_anon).collect();
                let should: Vec<String> =
                    want.events.iter().map(|(n, _)| simple(*n, true).expect()).collect();
                if got != should {
                    p2.lock().unwrap().push((
                        "events".to_string(),
                        format!("after {:?}, accepted {:?}, should be {:?}", op, got, should),
                    ));
                    return rescue(&inbox);
                }
            }
            rescue(&inbox);
        },
        |_| {},
    );
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    if let Some((c, t)) = problems.lock().unwrap().first() {
        return fail(c, format!("{}: {}", what, t));
    }
    must_end(&out.run, &what)?;
    Ok(())
}

/// Acknowledge whatever is left so that the source can stop.
fn rescue(inbox: &List<Event>) {
    let mut done = 0;
    loop {
        let es: Vec<Event> = inbox.lock().unwrap()[done..].to_vec();
        if es.is_empty() {
            return;
        }
        done += es.len();
        for e in &es {
            ack(e);
        }
        lull();
    }
}

/// Two connections and a consumer, all running free.
fn racing(o: &mut Oracle) -> Res<()> {
    // per connection up to two publishes
    let n = [1 + o.choose(2), o.choose(3)];
    let mut sync = vec![vec![], vec![]];
    for c in 0..2 {
        for _ in 0..n[c] {
            sync[c].push(o.choose(2) == 1);
        }
    }
    let twice = o.choose(2) == 1; // the consumer acknowledges twice, the second time late
    let devs = if n[0] + n[1] <= 2 { o.pick(2, 3) } else { 1 };
    o.begin()?;
    let what = format!("racing publishes {:?}, acknowledged {}", sync, if twice { "twice" } else { "once" });
    // publish numbers in the order acknowledged
    let acked: Arc<Mutex<Vec<u64>>> = Arc::default();
    let problems: List<String> = List::default();
    let (a2, a3, p2) = (acked.clone(), acked.clone(), problems.clone());
    let s2 = sync.clone();
    let mut last: Option<Event> = None;
    let out = serve_live::<Avro, _, _, _>(
        o,
        opts(devs),
        config(PORT),
        move |_| {
            let mut fds = vec![];
            let mut want = vec![];
            for (c, s) in s2.iter().enumerate() {
                let fd = raw::connect(PORT);
                let mut w = vec![];
                for (i, y) in s.iter().enumerate() {
                    let p = simple(c * 4 + i, *y);
                    if *y {
                        w.push(p.id);
                    }
                    send(fd, &p.frame());
                }
                fds.push(fd);
                want.push(w);
            }
            let mut got = vec![vec![], vec![]];
            for _ in 0..6 {
                for (c, fd) in fds.iter().enumerate() {
                    let (b, _) = raw::read_all(*fd);
                    for id in ids(&b) {
                        if !a3.lock().unwrap().contains(&id) {
                            p2.lock().unwrap().push(format!("{:x} was answered before it was acknowledged", id));
                        }
                        got[c].push(id);
                    }
                }
                // the naps between looks at the bag grow
                sched::sleep(20_000_000);
            }
            lull();
            for (c, fd) in fds.iter().enumerate() {
                let (b, _) = raw::read_all(*fd);
                got[c].extend(ids(&b));
                if got[c] != want[c] {
                    p2.lock().unwrap().push(format!(
                        "connection {} was answered {:x?}, should be {:x?}",
                        c, got[c], want[c]
                    ));
                }
                raw::close(*fd);
            }
            lull();
        },
        move |e| {
            if let Event::Raw { order_by, .. } = e {
                a2.lock().unwrap().push(0x0102_0304_0506_0700 + order_by - 77);
            }
            ack(e);
            if twice {
                if let Some(l) = last.take() {
                    ack(&l);
                }
                last = Some(e.clone());
            }
        },
    );
    o.note(|| format!("{}: {} steps, {} deviations", what, out.run.steps, out.run.devs_used));
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    if let Some(t) = problems.lock().unwrap().first() {
        return fail("answers", format!("{}: {}", what, t));
    }
    must_end(&out.run, &what)?;
    let got: Vec<String> = out.events.iter().map(show_anon).collect();
    let list = |c: usize| -> Vec<String> {
        (0..sync[c].len()).map(|i| simple(c * 4 + i, true).expect()).collect()
    };
    let l = got.len() - 1;
    ensure!(
        got[l] == "shutdown" && super::c06::interleaves(&got[..l], &list(0), &list(1)),
        "events",
        "{}: got {:?}",
        what,
        got
    );
    Ok(())
}

/// The answer is written in parts, late, or not at all.
fn answer_faults(o: &mut Oracle) -> Res<()> {
    let limit = *o.choose_from(&[8usize, 1, 3, 7]);
    let at = o.choose(4); // which write gets an error
    let e = *o.choose_from(&[0, libc::EAGAIN, libc::EINTR, libc::EPIPE, libc::ECONNRESET]);
    let n = 1 + o.choose(2);
    let other = o.choose(2) == 1;
    o.begin()?;
    let fatal = e == libc::EPIPE || e == libc::ECONNRESET;
    let what = format!("{} synchronous publishes, answers written {} bytes at a time, write {} fails with {}", n, limit, at, e);
    let mut k = 0;
    let hit = Arc::new(Mutex::new(false));
    let h2 = hit.clone();
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_SEND && io.len <= 8 {
            k += 1;
            if k == at + 1 && e != 0 {
                *h2.lock().unwrap() = true;
                return Answer::Err(e);
            }
            return Answer::Limit(limit);
        }
        Answer::Go
    })));
    let answers: List<(Vec<u8>, bool)> = List::default();
    let a2 = answers.clone();
    let out = serve_live::<Avro, _, _, _>(
        o,
        opts(0),
        config(PORT),
        move |_| {
            let fd = raw::connect(PORT);
            for i in 0..n {
                send(fd, &simple(i, true).frame());
            }
            lull();
            let fd2 = raw::connect(PORT);
            if other {
                send(fd2, &simple(9, false).frame());
                lull();
            }
            a2.lock().unwrap().push(raw::read_all(fd));
            raw::close(fd);
            raw::close(fd2);
            lull();
        },
        ack,
    );
    must_end(&out.run, &what)?;
    let (b, _) = answers.lock().unwrap()[0].clone();
    let all: Vec<u8> = (0..n).flat_map(|i| simple(i, true).id.to_be_bytes().to_vec()).collect();
    if fatal && *hit.lock().unwrap() {
        ensure!(all.starts_with(&b) && b.len() < all.len(), "answers", "{}: answered {:?}", what, b);
    } else {
        ensure!(b == all, "answers", "{}: answered {:?}", what, b);
    }
    let got: Vec<String> = out.events.iter().map(show_anon).collect();
    let mine = got.iter().filter(|x| **x == simple(9, false).expect()).count();
    ensure!(mine == other as usize, "events", "{}: {:?}", what, got);
    ensure!(
        got.iter().filter(|x| **x == simple(0, false).expect()).count() == 1,
        "events",
        "{}: {:?}",
        what,
        got
    );
    Ok(())
}

/// Publishes cut off at every byte, and other nonsense.
fn malformed(o: &mut Oracle) -> Res<()> {
    let kind = o.choose(6);
    let before = o.choose(2) == 1;
    let mut p = nth(4, 0).encode(); // asks for an answer
    let head = p.len() - container(0).len();
    let bad = match kind {
        // a payload that ends early, its length prefix saying so
        0 => {
            let n = o.choose(head + 8);
            p.truncate(n);
            super::c06::frame(&p)
        }
        // a container that is none
        1 => {
            let i = o.choose(4);
            p[head + i] ^= 0x55;
            super::c06::frame(&p)
        }
        // more metadata promised than there is
        2 => {
            p[24] = 200;
            super::c06::frame(&p)
        }
        // too long
        3 => vec![0x00, 0x10, 0x00, 0x01, 1, 2, 3],
        4 => vec![0xff; 12],
        // the connection ends inside a good publish
        _ => {
            let f = super::c06::frame(&p);
            let n = 1 + o.choose(f.len() - 1);
            f[..n].to_vec()
        }
    };
    let end = *o.choose_from(&[End::Close, End::Stay]);
    let c = if o.thorough() { cuts(o, 1, bad.len()) } else { vec![] };
    o.begin()?;
    o.state(&(kind, bad.clone(), before, end == End::Stay));
    o.step();
    let what = format!("malformed publish {:?} cut at {:?}, {:?}", bad, c, end);
    let parts = cut(&bad, &c);
    let answers: List<Vec<u8>> = List::default();
    let a2 = answers.clone();
    let out = serve_live::<Avro, _, _, _>(
        o,
        opts(0),
        config(PORT),
        move |_| {
            let fd2 = raw::connect(PORT);
            let fd = raw::connect(PORT);
            if before {
                send(fd, &simple(1, true).frame());
                lull();
            }
            for p in parts {
                send(fd, &p);
                lull();
            }
            let a = raw::read_all(fd).0;
            if end == End::Close {
                raw::close(fd);
                lull();
            }
            send(fd2, &simple(2, true).frame());
            lull();
            let b = raw::read_all(fd2).0;
            let mut v = a2.lock().unwrap();
            v.push(a);
            v.push(b);
        },
        ack,
    );
    must_end(&out.run, &what)?;
    let a = answers.lock().unwrap().clone();
    let want: Vec<u8> = if before { simple(1, true).id.to_be_bytes().to_vec() } else { vec![] };
    ensure!(a[0] == want, "answers", "{}: answered {:?}", what, a[0]);
    ensure!(a[1] == simple(2, true).id.to_be_bytes(), "answers", "{}: the other connection was answered {:?}", what, a[1]);
    let got: Vec<String> = out.events.iter().map(show_anon).collect();
    let mut w = vec![];
    if before {
        w.push(simple(1, true).expect());
    }
    w.push(simple(2, true).expect());
    w.push("shutdown".to_string());
    ensure!(got == w, "events", "{}: got {:?}, should be {:?}", what, got, w);
    Ok(())
}
