//! C07: the native sink, driven call by call against a peer the harness plays.
use super::c06;
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use cernan::sink::{Native, NativeConfig, Sink};
use cernan::source::NativeServer;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::raw::c_int;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C07",
        scenarios: |_| {
            vec![
                Scenario { name: "values", run: values },
                Scenario { name: "relay", run: relay },
                Scenario { name: "faults", run: faults },
                Scenario { name: "gone", run: gone },
                Scenario { name: "large", run: large },
            ]
        },
        rule: "every sequence of points and log lines from an alphabet up to a length, every \
               placement of flushes between them, every placement of up to two (thorough: three) \
               faults among the connection attempts and writes; states = (what is buffered, what \
               the peer has seen, faults so far)",
        assumptions: &["the private network delivers bytes in order, as TCP does"],
        level: "model_checking",
        hang_s: 30,
    }
}

// ---- the peer ----------------------------------------------------------------

pub struct Peer {
    listener: c_int,
    /// descriptor (-1 once we hung up) and everything received
    pub conns: Vec<(c_int, Vec<u8>)>,
}

impl Peer {
    pub fn new(port: u16) -> Peer {
        Peer { listener: raw::listen(port), conns: vec![] }
    }
    pub fn pump(&mut self) {
        loop {
            let fd = raw::accept(self.listener);
            if fd < 0 {
                break;
            }
            self.conns.push((fd, vec![]));
        }
        for c in self.conns.iter_mut() {
            if c.0 >= 0 {
                c.1.extend(raw::read_all(c.0).0);
            }
        }
    }
    /// Leave every connection.
    pub fn hang_up(&mut self) {
        self.pump();
        for c in self.conns.iter_mut() {
            if c.0 >= 0 {
                raw::close(c.0);
                c.0 = -1;
            }
        }
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        self.hang_up();
        raw::close(self.listener);
    }
}

// ---- what is sent, and what it must become -------------------------------------

/// A point or line as the receiver must see it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Seen {
    what: &'static str,
    name: String,
    text: String,
    method: u64,
    persisted: bool,
    /// bit patterns, sorted
    samples: Vec<u64>,
    bounds: Vec<u64>,
    meta: BTreeMap<String, String>,
    ms: i64,
}

enum Item {
    P(Telemetry),
    L(LogLine),
}

const ALPHA: usize = 12;
const HISTO: usize = 10;

struct Spec {
    kind: AggregationMethod,
    name: &'static str,
    values: &'static [f64],
    tags: &'static [(&'static str, &'static str)],
    ts: i64,
    persist: bool,
}

const BIG: i64 = 253_402_300_799;

fn spec(i: usize) -> Option<Spec> {
    use AggregationMethod::*;
    Some(match i {
        0 => Spec { kind: Sum, name: "a", values: &[1.5], tags: &[("k", "v")], ts: 3, persist: false },
        1 => Spec { kind: Set, name: "s", values: &[-0.25], tags: &[], ts: 0, persist: true },
        2 => Spec { kind: Summarize, name: "q", values: &[3.0, 1.0, 2.0], tags: &[("a", "1"), ("b", "2")], ts: -2, persist: false },
        3 => Spec { kind: Summarize, name: "a", values: &[1.5], tags: &[("k", "v")], ts: 3, persist: true },
        4 => Spec { kind: Sum, name: "", values: &[1.0, 2.0, -7.5], tags: &[("", "")], ts: BIG, persist: false },
        5 => Spec { kind: Set, name: "\u{e9}\u{2603} x\n", values: &[1.0, std::f64::INFINITY], tags: &[("z", "\u{e9}"), ("k", "")], ts: -BIG, persist: false },
        6 => Spec { kind: Sum, name: "a", values: &[-0.0], tags: &[("k", "w")], ts: 1_600_000_000, persist: true },
        HISTO => Spec { kind: Histogram, name: "h", values: &[0.5, 2.0, 50.0, 1e9], tags: &[], ts: 5, persist: false },
        _ => return None,
    })
}

fn line(i: usize) -> (&'static str, &'static str, &'static [(&'static str, &'static str)], i64) {
    match i {
        7 => ("/p", "l\n\u{e9} =\u{0}", &[("x", "y"), ("k", "own")], 7),
        8 => ("", "", &[], 0),
        9 => ("/p", "l", &[("z", "")], -BIG),
        // the receiver counts in milliseconds: this one cannot be told exactly
        _ => ("/late", "l", &[], std::i64::MAX),
    }
}

fn item(i: usize) -> Item {
    if let Some(s) = spec(i) {
        let mut t = Telemetry::new()
            .name(s.name)
            .value(s.values[0])
            .kind(s.kind)
            .timestamp(s.ts)
            .persist(s.persist)
            .tags(tagmap(s.tags));
        if s.kind == AggregationMethod::Histogram {
            t = t.bounds(BOUNDS.to_vec());
        }
        let mut t = t.harden().expect("ENGINE: harden");
        for v in &s.values[1..] {
            t = t.insert(*v);
        }
        Item::P(t)
    } else {
        let (path, value, tags, ts) = line(i);
        let mut l = log(path, value, ts);
        for (k, v) in tags {
            l.insert_tag(*k, *v);
        }
        Item::L(l)
    }
}

fn merged(own: &[(&str, &str)], defaults: &[(&str, &str)]) -> BTreeMap<String, String> {
    defaults.iter().chain(own).map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect()
}

fn bits(xs: &[f64]) -> Vec<u64> {
    let mut v: Vec<u64> = xs.iter().map(|x| x.to_bits()).collect();
    v.sort();
    v
}

fn expected(i: usize, defaults: &[(&str, &str)]) -> Seen {
    use AggregationMethod::*;
    if let Some(s) = spec(i) {
        Seen {
            what: "point",
            name: s.name.to_string(),
            text: String::new(),
            method: match s.kind {
                Sum => 1,
                Set => 2,
                Summarize => 3,
                Histogram => 4,
            },
            persisted: s.persist,
            samples: match s.kind {
                Sum => bits(&[s.values[1..].iter().fold(s.values[0], |a, b| a + b)]),
                Set => bits(&s.values[s.values.len() - 1..]),
                _ => bits(s.values),
            },
            bounds: if s.kind == Histogram { bits(&BOUNDS) } else { vec![] },
            meta: merged(s.tags, defaults),
            ms: s.ts * 1000,
        }
    } else {
        let (path, value, tags, ts) = line(i);
        Seen {
            what: "line",
            name: path.to_string(),
            text: value.to_string(),
            method: 0,
            persisted: false,
            samples: vec![],
            bounds: vec![],
            meta: merged(tags, defaults),
            ms: ts.saturating_mul(1000),
        }
    }
}

// ---- protocol buffers, read by hand ----------------------------------------------

enum Val<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    Fixed(u64),
}

fn rd_varint(b: &mut &[u8]) -> Option<u64> {
    let mut x = 0u64;
    for i in 0..10 {
        let (c, rest) = b.split_first()?;
        *b = rest;
        x |= u64::from(c & 0x7f) << (7 * i);
        if c & 0x80 == 0 {
            return Some(x);
        }
    }
    None
}
fn rd_field<'a>(b: &mut &'a [u8]) -> Option<(u64, Val<'a>)> {
    let k = rd_varint(b)?;
    let v = match k & 7 {
        0 => Val::Int(rd_varint(b)?),
        1 => {
            if b.len() < 8 {
                return None;
            }
            let mut a = [0; 8];
            a.copy_from_slice(&b[..8]);
            *b = &b[8..];
            Val::Fixed(u64::from_le_bytes(a))
        }
        2 => {
            let n = rd_varint(b)? as usize;
            if b.len() < n {
                return None;
            }
            let (x, rest) = b.split_at(n);
            *b = rest;
            Val::Bytes(x)
        }
        _ => return None,
    };
    Some((k >> 3, v))
}
fn text(b: &[u8]) -> Option<String> {
    String::from_utf8(b.to_vec()).ok()
}
fn doubles(b: &[u8]) -> Option<Vec<u64>> {
    if b.len() % 8 != 0 {
        return None;
    }
    Some(
        b.chunks(8)
            .map(|c| {
                let mut a = [0; 8];
                a.copy_from_slice(c);
                u64::from_le_bytes(a)
            })
            .collect(),
    )
}
fn rd_map(mut b: &[u8], m: &mut BTreeMap<String, String>) -> Option<()> {
    let (mut k, mut v) = (String::new(), String::new());
    while !b.is_empty() {
        match rd_field(&mut b)? {
            (1, Val::Bytes(x)) => k = text(x)?,
            (2, Val::Bytes(x)) => v = text(x)?,
            _ => return None,
        }
    }
    if m.insert(k, v).is_some() {
        // twice the same key
        return None;
    }
    Some(())
}
fn rd_point(mut b: &[u8]) -> Option<Seen> {
    let mut s = Seen {
        what: "point",
        name: String::new(),
        text: String::new(),
        method: 3,
        persisted: false,
        samples: vec![],
        bounds: vec![],
        meta: BTreeMap::new(),
        ms: 0,
    };
    while !b.is_empty() {
        match rd_field(&mut b)? {
            (1, Val::Bytes(x)) => s.name = text(x)?,
            (2, Val::Bytes(x)) => s.samples.extend(doubles(x)?),
            (2, Val::Fixed(x)) => s.samples.push(x),
            (3, Val::Int(x)) => s.persisted = x != 0,
            (4, Val::Int(x)) => s.method = x,
            (5, Val::Bytes(x)) => rd_map(x, &mut s.meta)?,
            (6, Val::Int(x)) => s.ms = x as i64,
            (7, Val::Bytes(x)) => s.bounds.extend(doubles(x)?),
            (7, Val::Fixed(x)) => s.bounds.push(x),
            _ => return None,
        }
    }
    s.samples.sort();
    s.bounds.sort();
    Some(s)
}
fn rd_line(mut b: &[u8]) -> Option<Seen> {
    let mut s = Seen {
        what: "line",
        name: String::new(),
        text: String::new(),
        method: 0,
        persisted: false,
        samples: vec![],
        bounds: vec![],
        meta: BTreeMap::new(),
        ms: 0,
    };
    while !b.is_empty() {
        match rd_field(&mut b)? {
            (1, Val::Bytes(x)) => s.name = text(x)?,
            (2, Val::Bytes(x)) => s.text = text(x)?,
            (3, Val::Bytes(x)) => rd_map(x, &mut s.meta)?,
            (4, Val::Int(x)) => s.ms = x as i64,
            _ => return None,
        }
    }
    Some(s)
}

/// The frames of one connection: what they hold, and whether the last is cut.
fn frames(mut b: &[u8]) -> Result<(Vec<Seen>, bool), String> {
    let mut out = vec![];
    loop {
        if b.is_empty() {
            return Ok((out, false));
        }
        if b.len() < 4 {
            return Ok((out, true));
        }
        let mut a = [0; 4];
        a.copy_from_slice(&b[..4]);
        let n = u32::from_be_bytes(a) as usize;
        if b.len() - 4 < n {
            return Ok((out, true));
        }
        let mut p = &b[4..4 + n];
        b = &b[4 + n..];
        while !p.is_empty() {
            let s = match rd_field(&mut p) {
                Some((2, Val::Bytes(x))) => rd_point(x),
                Some((3, Val::Bytes(x))) => rd_line(x),
                _ => None,
            };
            match s {
                Some(s) => out.push(s),
                None => return Err("a payload that does not decode".to_string()),
            }
        }
    }
}

// ---- the run ------------------------------------------------------------------

const PORT: u16 = 1972;
const DEFAULTS: [&[(&str, &str)]; 2] = [&[], &[("k", "d"), ("z", "9")]];

fn config(defaults: &[(&str, &str)]) -> NativeConfig {
    NativeConfig {
        port: PORT,
        host: "127.0.0.1".to_string(),
        config_path: Some("sinks.native".to_string()),
        flush_interval: 1,
        tags: tagmap(defaults),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Deliver(usize),
    Flush,
    Shutdown,
    HangUp,
}

#[derive(Default)]
pub struct Log {
    /// faults in the order they happened
    pub faults: Vec<&'static str>,
    /// connections made (by descriptor) and whether a write on them failed
    pub conns: Vec<(c_int, bool)>,
    pub ops: usize,
}

/// A peer, the connections to which fail up to `budget` times wherever the
/// explorer wants.
pub fn faulty(o: &mut Oracle, port: u16, mut budget: usize) -> (Rc<RefCell<Peer>>, Rc<RefCell<Log>>) {
    sched::vnet(true);
    sched::vclock(true);
    let peer = Rc::new(RefCell::new(Peer::new(port)));
    let lg = Rc::new(RefCell::new(Log::default()));
    let (p2, l2) = (peer.clone(), lg.clone());
    sched::attach(o);
    sched::set_io(Some(Box::new(move |io| {
        let mut l = l2.borrow_mut();
        l.ops += 1;
        match io.op {
            sched::OP_CONNECT => {
                let c = if budget > 0 { sched::decide(3) } else { 0 };
                if c > 0 {
                    budget -= 1;
                    l.faults.push(["connection refused", "connection timed out"][c - 1]);
                    return Answer::Err([libc::ECONNREFUSED, libc::ETIMEDOUT][c - 1]);
                }
                l.conns.push((io.fd, false));
                Answer::Go
            }
            sched::OP_SEND | sched::OP_WRITE => {
                if !l.conns.iter().any(|c| c.0 == io.fd) {
                    return Answer::Go;
                }
                p2.borrow_mut().pump();
                let c = if budget > 0 { sched::decide(7) } else { 0 };
                if c == 0 {
                    // no more than the wire holds
                    return if io.len > 65_536 { Answer::Limit(65_536) } else { Answer::Go };
                }
                budget -= 1;
                if c >= 5 || c == 4 && io.len < 2 {
                    let i = if c == 4 { 5 } else { c } - 5;
                    l.faults.push(["write failed", "connection reset"][i]);
                    let fd = io.fd;
                    if let Some(x) = l.conns.iter_mut().rev().find(|x| x.0 == fd) {
                        x.1 = true;
                    }
                    return Answer::Err([libc::EPIPE, libc::ECONNRESET][i]);
                }
                l.faults.push(["write interrupted", "wrote 1 byte", "wrote half", "wrote all but one byte"][c - 1]);
                match c {
                    1 => Answer::Err(libc::EINTR),
                    2 => Answer::Limit(1),
                    3 => Answer::Limit((io.len / 2).max(1).min(65_536)),
                    _ => Answer::Limit((io.len - 1).min(65_536)),
                }
            }
            _ => Answer::Go,
        }
    })));
    (peer, lg)
}

/// Drive a sink through `ops`; after every flush the peer must have it all.
fn drive(
    o: &mut Oracle,
    defaults: &[(&str, &str)],
    ops: &[Op],
    extra: &[(LogLine, Seen)],
    budget: usize,
) -> Res<(Vec<Vec<u8>>, Vec<&'static str>)> {
    let (peer, lg) = faulty(o, PORT, budget);
    let mut sink = Some(Native::init(config(defaults)));
    let mut want: Vec<Seen> = vec![];
    let mut lines = extra.iter();
    let mut done: Vec<Op> = vec![];
    for op in ops {
        o.step();
        done.push(*op);
        match op {
            Op::Deliver(i) if *i >= ALPHA => {
                if let Some((l, s)) = lines.next() {
                    want.push(s.clone());
                    sink.as_mut().unwrap().deliver_line(l.clone());
                }
            }
            Op::Deliver(i) => {
                want.push(expected(*i, defaults));
                match item(*i) {
                    Item::P(t) => sink.as_mut().unwrap().deliver(t),
                    Item::L(l) => sink.as_mut().unwrap().deliver_line(l),
                }
            }
            Op::HangUp => peer.borrow_mut().hang_up(),
            Op::Flush => sink.as_mut().unwrap().flush(),
            Op::Shutdown => sink.take().unwrap().shutdown(),
        }
        peer.borrow_mut().pump();
        let l = lg.borrow();
        let bytes: Vec<Vec<u8>> = peer.borrow().conns.iter().map(|c| c.1.clone()).collect();
        o.state(&(
            want.clone(),
            bytes.iter().map(|b| b.len()).collect::<Vec<_>>(),
            l.faults.clone(),
        ));
        if *op != Op::Flush && *op != Op::Shutdown {
            continue;
        }
        let hist = format!("default tags {:?}, {:?}, faults {:?}", defaults, done, l.faults);
        let mut got: Vec<Seen> = vec![];
        let failed = l.conns.iter().filter(|c| c.1).count() + done.iter().filter(|d| **d == Op::HangUp).count();
        for (i, b) in bytes.iter().enumerate() {
            let (g, cut) = match frames(b) {
                Ok(x) => x,
                Err(e) => return fail("frames", format!("{}: connection {} carries {}", hist, i, e)),
            };
            let broken = l.conns.get(i).map(|c| c.1).unwrap_or(false) || peer.borrow().conns[i].0 < 0;
            ensure!(
                !cut || broken,
                "frames",
                "{}: connection {} ends in the middle of a payload ({} bytes)",
                hist,
                i,
                b.len()
            );
            got.extend(g);
        }
        // histograms: looked at apart, so that what is known of them hides nothing else
        let plain = |s: &Seen| Seen { samples: vec![], bounds: vec![], ..s.clone() };
        let hide = |s: &Seen| if s.method == 4 { plain(s) } else { s.clone() };
        for w in &want {
            let n = got.iter().filter(|g| hide(g) == hide(w)).count();
            let k = want.iter().filter(|g| hide(g) == hide(w)).count();
            ensure!(n >= k, "lost", "{}: {:?} reached the peer {} times, not {}; it has {:?}", hist, w, n, k, got);
            ensure!(
                n <= k * (1 + failed),
                "repeated",
                "{}: {:?} reached the peer {} times after {} failed connections",
                hist,
                w,
                n,
                failed
            );
        }
        for g in &got {
            ensure!(
                want.iter().any(|w| hide(w) == hide(g)),
                "invented",
                "{}: the peer was sent {:?}, which nobody delivered",
                hist,
                g
            );
        }
        for g in &got {
            ensure!(
                want.iter().any(|w| w == g),
                "histogram",
                "{}: the peer was sent {:?}, should be {:?}",
                hist,
                g,
                want.iter().filter(|w| plain(w) == plain(g)).collect::<Vec<_>>()
            );
        }
    }
    sched::set_io(None);
    sched::detach();
    let bytes = peer.borrow().conns.iter().map(|c| c.1.clone()).collect();
    let f = lg.borrow().faults.clone();
    Ok((bytes, f))
}

/// Deliveries and flushes, in every order.
fn sequence(o: &mut Oracle, max: usize, alpha: &[usize]) -> Vec<Op> {
    let n = o.choose(max + 1);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(Op::Deliver(*o.choose_from(alpha)));
        if o.choose_bool() {
            ops.push(Op::Flush);
        }
    }
    ops
}

fn end(o: &mut Oracle, ops: &mut Vec<Op>) {
    match o.choose(3) {
        0 => ops.push(Op::Flush),
        1 => ops.push(Op::Shutdown),
        _ => {
            ops.push(Op::Flush);
            ops.push(Op::Flush);
            ops.push(Op::Shutdown);
        }
    }
}

fn values(o: &mut Oracle) -> Res<()> {
    let d = DEFAULTS[o.choose(2)];
    let all: Vec<usize> = (0..ALPHA).collect();
    let mut ops = sequence(o, o.pick(3, 4), &all);
    end(o, &mut ops);
    o.begin()?;
    let r = drive(o, d, &ops, &[], 0)?;
    o.note(|| format!("{:?}: {:?} bytes", ops, r.0.iter().map(|b| b.len()).collect::<Vec<_>>()));
    Ok(())
}

fn faults(o: &mut Oracle) -> Res<()> {
    let d = DEFAULTS[1];
    let mut ops = sequence(o, o.pick(3, 4), &[0, 7]);
    end(o, &mut ops);
    let budget = o.pick(2, 3);
    o.begin()?;
    let r = drive(o, d, &ops, &[], budget)?;
    o.note(|| format!("{:?}: {:?}", ops, r.1));
    Ok(())
}

/// The peer hangs up between the calls.
fn gone(o: &mut Oracle) -> Res<()> {
    let n = o.pick(5, 6);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(*o.choose_from(&[Op::Deliver(2), Op::Deliver(7), Op::Flush, Op::HangUp]));
    }
    ops.push(*o.choose_from(&[Op::Flush, Op::Shutdown]));
    let budget = o.pick(1, 2);
    o.begin()?;
    let r = drive(o, DEFAULTS[0], &ops, &[], budget)?;
    o.note(|| format!("{:?}: {:?}", ops, r.1));
    Ok(())
}

/// Payloads around the sizes of the buffers in the way.
fn large(o: &mut Oracle) -> Res<()> {
    let size = *o.choose_from(&[8100usize, 8160, 8175, 8180, 8184, 8188, 8192, 8200, 16_300, 16_384, 20_000, 100_000]);
    let extra = o.choose(8);
    let two = o.choose_bool();
    let mut ops = vec![Op::Deliver(ALPHA)];
    if two {
        ops.push(Op::Deliver(ALPHA));
    }
    ops.push(Op::Deliver(2));
    ops.push(Op::Flush);
    ops.push(Op::Deliver(7));
    ops.push(Op::Shutdown);
    let budget = o.pick(1, 2);
    o.begin()?;
    let v = "x".repeat(size + extra);
    let big = (
        log("/big", &v, 9),
        Seen {
            what: "line",
            name: "/big".to_string(),
            text: v,
            method: 0,
            persisted: false,
            samples: vec![],
            bounds: vec![],
            meta: BTreeMap::new(),
            ms: 9000,
        },
    );
    let r = drive(o, DEFAULTS[0], &ops, &[big.clone(), big], budget);
    match r {
        Err(Stop::Violation { class, text }) => {
            let text = text.replace(&"x".repeat(size + extra), "<the long line>");
            return Err(Stop::Violation { class, text });
        }
        Err(e) => return Err(e),
        Ok(r) => o.note(|| format!("{} bytes, {}: {:?}", size + extra, two, r.1)),
    }
    Ok(())
}

/// What the sink sent is given to a native source, which must emit the events
/// the sink was given.
fn relay(o: &mut Oracle) -> Res<()> {
    let d = DEFAULTS[o.choose(2)];
    let n = 1 + o.choose(2);
    let mut ids = vec![];
    for _ in 0..n {
        let i = o.choose(ALPHA);
        // the receiver cannot be told of this time; histograms are in "values"
        if i == ALPHA - 1 || i == HISTO {
            return Err(Stop::Prune);
        }
        ids.push(i);
    }
    let apart = n == 2 && o.choose_bool();
    o.begin()?;
    let mut ops = vec![];
    for i in &ids {
        ops.push(Op::Deliver(*i));
        if apart {
            ops.push(Op::Flush);
        }
    }
    ops.push(Op::Shutdown);
    let (bytes, _) = drive(o, d, &ops, &[], 0)?;
    sched::reset();
    let bytes = bytes.concat();
    let out = serve::<NativeServer, _, _>(o, opts(0), c06::config(PORT), move || {
        pieces(PORT, vec![bytes], End::Close)
    });
    must_end(&out.run, "relay")?;
    let dt: TagMap = tagmap(d);
    let mut want: Vec<String> = ids
        .iter()
        .map(|i| {
            show_event(&match item(*i) {
                Item::P(mut t) => {
                    t.timestamp = spec(*i).unwrap().ts;
                    for (k, v) in dt.iter() {
                        if !spec(*i).unwrap().tags.iter().any(|x| x.0 == k) {
                            t.insert_tag(k.clone(), v.clone());
                        }
                    }
                    Event::Telemetry(t)
                }
                Item::L(mut l) => {
                    for (k, v) in dt.iter() {
                        if !line(*i).2.iter().any(|x| x.0 == k) {
                            l.insert_tag(k.clone(), v.clone());
                        }
                    }
                    Event::Log(l)
                }
            })
        })
        .collect();
    let mut got = show_events(&out.events);
    let last = got.pop();
    // a payload holds its points before its lines
    want.sort();
    got.sort();
    o.note(|| format!("{:?} -> {:?}", ids, got));
    ensure!(
        got == want && last == Some("shutdown".to_string()),
        "relay",
        "delivered {:?} (default tags {:?}, {:?}); a native source makes of it {:?} {:?}",
        want,
        d,
        ops,
        got,
        last
    );
    Ok(())
}
