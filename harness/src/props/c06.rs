//! C06: the native source under every segmentation of its stream.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::{AggregationMethod, Event};
use cernan::source::{NativeServer, NativeServerConfig, TCPConfig};

pub fn property() -> Property {
    Property {
        id: "C06",
        scenarios: |_| {
            vec![
                Scenario { name: "segments", run: segments },
                Scenario { name: "short-reads", run: short_reads },
                Scenario { name: "large", run: large },
                Scenario { name: "malformed", run: malformed },
                Scenario { name: "two-clients", run: two_clients },
            ]
        },
        rule: "every sequence of payloads from an alphabet up to a length, every placement of up \
               to two (thorough: three) segment boundaries, every read interrupted or cut short; \
               states = (payloads, boundary positions relative to the framing)",
        assumptions: &["the private network delivers bytes in order, as TCP does"],
        level: "model_checking",
        hang_s: 120,
    }
}

// ---- protocol buffers, by hand ----------------------------------------------

pub fn varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push((x as u8) | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
pub fn field(out: &mut Vec<u8>, n: u64, bytes: &[u8]) {
    varint(out, n << 3 | 2);
    varint(out, bytes.len() as u64);
    out.extend_from_slice(bytes);
}
pub fn int(out: &mut Vec<u8>, n: u64, x: u64) {
    varint(out, n << 3);
    varint(out, x);
}
fn map(out: &mut Vec<u8>, n: u64, kvs: &[(&str, &str)]) {
    for (k, v) in kvs {
        let mut e = vec![];
        field(&mut e, 1, k.as_bytes());
        field(&mut e, 2, v.as_bytes());
        field(out, n, &e);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Sum = 1,
    Set = 2,
    Summarize = 3,
    Bin = 4,
}

pub struct Pt<'a> {
    pub name: &'a str,
    pub samples: &'a [f64],
    pub persisted: Option<bool>,
    pub method: Option<K>,
    pub meta: &'a [(&'a str, &'a str)],
    pub ms: i64,
    pub bounds: &'a [f64],
}
fn doubles(out: &mut Vec<u8>, n: u64, xs: &[f64], packed: bool) {
    if packed {
        if !xs.is_empty() {
            let mut b = vec![];
            for x in xs {
                b.extend_from_slice(&x.to_bits().to_le_bytes());
            }
            field(out, n, &b);
        }
    } else {
        for x in xs {
            varint(out, n << 3 | 1);
            out.extend_from_slice(&x.to_bits().to_le_bytes());
        }
    }
}
impl<'a> Pt<'a> {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        field(&mut o, 1, self.name.as_bytes());
        doubles(&mut o, 2, self.samples, true);
        if let Some(p) = self.persisted {
            int(&mut o, 3, p as u64);
        }
        if let Some(m) = self.method {
            int(&mut o, 4, m as u64);
        }
        map(&mut o, 5, self.meta);
        int(&mut o, 6, self.ms as u64);
        doubles(&mut o, 7, self.bounds, false);
        o
    }
    /// What a receiver must make of it.
    pub fn expect(&self) -> Option<Event> {
        let first = *self.samples.first()?;
        let mut t = cernan::metric::Telemetry::new()
            .name(self.name)
            .value(first)
            .kind(match self.method.unwrap_or(K::Summarize) {
                K::Sum => AggregationMethod::Sum,
                K::Set => AggregationMethod::Set,
                K::Summarize => AggregationMethod::Summarize,
                K::Bin => AggregationMethod::Histogram,
            })
            .timestamp(self.ms / 1000)
            .persist(self.persisted.unwrap_or(false))
            .tags(tagmap(self.meta));
        if self.method == Some(K::Bin) && !self.bounds.is_empty() {
            t = t.bounds(self.bounds.to_vec());
        }
        let mut t = t.harden().expect("ENGINE: harden");
        for x in &self.samples[1..] {
            t = t.insert(*x);
        }
        Some(Event::Telemetry(t))
    }
}
pub fn logline(path: &str, value: &str, meta: &[(&str, &str)], ms: i64) -> (Vec<u8>, Event) {
    let mut o = vec![];
    field(&mut o, 1, path.as_bytes());
    field(&mut o, 2, value.as_bytes());
    map(&mut o, 3, meta);
    int(&mut o, 4, ms as u64);
    let mut l = log(path, value, ms / 1000);
    for (k, v) in meta {
        l.insert_tag(*k, *v);
    }
    (o, Event::Log(l))
}

/// A payload: its bytes and the events it must become.
pub fn payload(pts: &[Pt], lines: &[(Vec<u8>, Event)]) -> (Vec<u8>, Vec<Event>) {
    let mut o = vec![];
    let mut ev = vec![];
    for p in pts {
        field(&mut o, 2, &p.encode());
        ev.extend(p.expect());
    }
    for (b, e) in lines {
        field(&mut o, 3, b);
        ev.push(e.clone());
    }
    (o, ev)
}

pub fn frame(p: &[u8]) -> Vec<u8> {
    let mut v = (p.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(p);
    v
}

const NPAY: usize = 8;
pub fn nth(i: usize) -> (Vec<u8>, Vec<Event>) {
    let none: &[f64] = &[];
    match i {
        // nothing at all
        0 => payload(&[], &[]),
        1 => payload(
            &[Pt { name: "a", samples: &[1.5], persisted: None, method: Some(K::Sum), meta: &[("k", "v")], ms: 3000, bounds: none }],
            &[],
        ),
        2 => payload(
            &[],
            &[logline("/p", "l\n\u{e9}", &[("x", "y"), ("z", "")], 2999)],
        ),
        3 => payload(
            &[
                Pt { name: "s", samples: &[1.0, 5.0], persisted: Some(true), method: Some(K::Set), meta: &[], ms: 0, bounds: none },
                Pt { name: "q", samples: &[3.0, 1.0, 2.0], persisted: Some(false), method: None, meta: &[("a", "1"), ("b", "2")], ms: -1500, bounds: none },
            ],
            &[logline("", "", &[], 1_500_000_000_999)],
        ),
        4 => payload(
            &[Pt { name: "h", samples: &[0.5, 2.0, 7.0, 1e9], persisted: None, method: Some(K::Bin), meta: &[], ms: 5000, bounds: none }],
            &[],
        ),
        5 => payload(
            &[Pt { name: "hb", samples: &[0.5, 2.0, 7.0, 1e9], persisted: None, method: Some(K::Bin), meta: &[], ms: 5000, bounds: &[2.0, 8.0] }],
            &[],
        ),
        // a point without samples says nothing
        6 => payload(
            &[
                Pt { name: "e", samples: none, persisted: None, method: Some(K::Sum), meta: &[], ms: 1, bounds: none },
                Pt { name: "f", samples: &[-2.0, 3.0], persisted: None, method: Some(K::Sum), meta: &[], ms: 253_402_300_799_000, bounds: none },
            ],
            &[],
        ),
        // two of everything
        _ => payload(
            &[
                Pt { name: "a", samples: &[1.0], persisted: None, method: Some(K::Summarize), meta: &[("k", "v")], ms: 9000, bounds: none },
                Pt { name: "a", samples: &[1.0], persisted: None, method: Some(K::Summarize), meta: &[("k", "v")], ms: 9000, bounds: none },
            ],
            &[logline("/1", "one", &[], 1000), logline("/2", "two", &[], 1000)],
        ),
    }
}

pub fn config(port: u16) -> TCPConfig {
    NativeServerConfig {
        ip: "127.0.0.1".to_string(),
        port,
        forwards: vec![],
        config_path: Some("sources.native".to_string()),
    }
    .into()
}

fn compare(out: &Out, want: &[Event], what: &str) -> Res<()> {
    must_end(&out.run, what)?;
    let got = show_events(&out.events);
    let mut w = show_events(want);
    w.push("shutdown".to_string());
    ensure!(got == w, "events", "{}: got {:?}, should be {:?}", what, got, w);
    Ok(())
}

fn sequence(o: &mut Oracle, max: usize) -> (Vec<usize>, Vec<u8>, Vec<Event>, Vec<usize>) {
    let n = 1 + o.choose(max);
    let (mut ids, mut bytes, mut evs, mut starts) = (vec![], vec![], vec![], vec![]);
    for _ in 0..n {
        let i = o.choose(NPAY);
        ids.push(i);
        let (b, e) = nth(i);
        starts.push(bytes.len());
        bytes.extend(frame(&b));
        evs.extend(e);
    }
    (ids, bytes, evs, starts)
}

/// Where the cuts fall in the framing.
fn mark(o: &mut Oracle, ids: &[usize], starts: &[usize], cuts: &[usize]) {
    for c in cuts {
        o.step();
        let k = starts.iter().rposition(|s| s <= c).unwrap_or(0);
        o.state(&(ids.to_vec(), k, c - starts[k]));
    }
}

fn segments(o: &mut Oracle) -> Res<()> {
    let (ids, bytes, want, starts) = sequence(o, 2);
    // quick: pairs whose first payload is one of two
    if !o.thorough() && ids.len() == 2 && ids[0] != 0 && ids[0] != 3 {
        return Err(Stop::Prune);
    }
    let n = if ids.len() == 1 { o.pick(2, 3) } else { o.pick(1, 2) };
    let c = cuts(o, n, bytes.len());
    let end = *o.choose_from(&[End::Close, End::Stay]);
    o.begin()?;
    mark(o, &ids, &starts, &c);
    let parts = cut(&bytes, &c);
    let what = format!("payloads {:?} ({} bytes) cut at {:?}, {:?}", ids, bytes.len(), c, end);
    let out = serve::<NativeServer, _, _>(o, opts(0), config(1972), move || pieces(1972, parts, end));
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

/// Reads that return early or are interrupted, at every read of the source.
fn short_reads(o: &mut Oracle) -> Res<()> {
    let (ids, bytes, want, starts) = sequence(o, 2);
    let limit = *o.choose_from(&[1usize, 3, 7]);
    let eintr = o.choose(o.pick(5, 30)); // which read is interrupted
    let c = cuts(o, if o.thorough() && ids.len() == 1 { 1 } else { 0 }, bytes.len());
    o.begin()?;
    mark(o, &ids, &starts, &c);
    let parts = cut(&bytes, &c);
    let mut n = 0;
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_RECV {
            n += 1;
            if n == eintr + 1 {
                return Answer::Err(libc::EINTR);
            }
            return Answer::Limit(limit);
        }
        Answer::Go
    })));
    let what = format!(
        "payloads {:?} cut at {:?}, reads of {} bytes, read {} interrupted",
        ids, c, limit, eintr
    );
    let out =
        serve::<NativeServer, _, _>(o, opts(0), config(1972), move || pieces(1972, parts, End::Close));
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

/// Payloads around the sizes of the buffers in the way.
fn large(o: &mut Oracle) -> Res<()> {
    let size = *o.choose_from(&[8187usize, 8188, 8192, 8196, 20_000, 70_000, 1_048_570, 1_048_576]);
    let before = if o.thorough() { o.choose(NPAY + 1) } else { *o.choose_from(&[NPAY, 3, 5]) };
    let after = o.choose(2);
    let (mut bytes, mut want) = (vec![], vec![]);
    if before < NPAY {
        let (b, e) = nth(before);
        bytes.extend(frame(&b));
        want.extend(e);
    }
    let start = bytes.len();
    // a log line padded until the payload has the size wanted
    let mut pad = size - 16;
    let (b, e) = loop {
        let v = "x".repeat(pad);
        let p = payload(&[], &[logline("/p", &v, &[], 1000)]);
        if p.0.len() == size {
            break p;
        }
        if p.0.len() > size {
            pad -= 1;
        } else {
            pad += 1;
        }
    };
    bytes.extend(frame(&b));
    want.extend(e);
    let end = bytes.len();
    if after == 1 {
        let (b, e) = nth(7);
        bytes.extend(frame(&b));
        want.extend(e);
    }
    let places = [start, start + 1, start + 3, start + 4, start + 5, start + 8191, start + 8192, end - 1, end, end + 2];
    let c1 = o.choose(places.len());
    let c2 = o.choose(places.len());
    let mut c: Vec<usize> =
        vec![places[c1], places[c2]].into_iter().filter(|x| *x > 0 && *x < bytes.len()).collect();
    c.sort();
    c.dedup();
    o.begin()?;
    mark(o, &[before, size, after], &[0, start, end], &c);
    let parts = cut(&bytes, &c);
    let what = format!("payload of {} bytes after {}, cut at {:?}", size, before, c);
    let out =
        serve::<NativeServer, _, _>(o, opts(0), config(1972), move || pieces(1972, parts, End::Close));
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

const NBAD: usize = 6;
pub fn bad(i: usize) -> Vec<u8> {
    match i {
        0 => frame(&[0xff, 0xff, 0xff]),
        // a point cut short
        1 => {
            let (b, _) = nth(1);
            frame(&b[..b.len() - 2])
        }
        // a length beyond the limit
        2 => vec![0x00, 0x10, 0x00, 0x01, 1, 2, 3],
        3 => vec![0xff, 0xff, 0xff, 0xff],
        // a name that is not text
        4 => {
            let mut p = vec![];
            field(&mut p, 1, &[0xc3, 0x28]);
            let mut o = vec![];
            field(&mut o, 2, &p);
            frame(&o)
        }
        // a good point, then garbage in the same payload
        _ => {
            let (mut b, _) = nth(1);
            b.extend(&[0x12, 0x50, 1]);
            frame(&b)
        }
    }
}

/// A malformed payload, or an end in the middle of one, after good ones.
fn malformed(o: &mut Oracle) -> Res<()> {
    let n = o.choose(3);
    let mut ids = vec![];
    let (mut bytes, mut want, mut starts) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let i = o.choose(NPAY);
        ids.push(i);
        let (b, e) = nth(i);
        starts.push(bytes.len());
        bytes.extend(frame(&b));
        want.extend(e);
    }
    starts.push(bytes.len());
    let k = o.choose(NBAD + 1);
    if k < NBAD {
        bytes.extend(bad(k));
    } else {
        // the client leaves inside a good one
        let (b, _) = nth(3);
        let f = frame(&b);
        let at = 1 + o.choose(f.len() - 1);
        bytes.extend(&f[..at]);
    }
    let many = n == 2 || (k == NBAD && n == 1 && !o.thorough());
    let c = if many { vec![] } else { cuts(o, o.pick(1, 2), bytes.len()) };
    let end = *o.choose_from(&[End::Close, End::Shutdown, End::Stay]);
    o.begin()?;
    mark(o, &ids, &starts, &c);
    let parts = cut(&bytes, &c);
    let what = format!("payloads {:?}, then bad payload {}, cut at {:?}, {:?}", ids, k, c, end);
    // a second connection must not notice
    let (b, e) = nth(7);
    let again = frame(&b);
    want.extend(e);
    let out = serve::<NativeServer, _, _>(o, opts(0), config(1972), move || {
        pieces(1972, parts, end);
        pieces(1972, vec![again], End::Close);
    });
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

/// Two clients' segments in every order; each client's events keep their order.
fn two_clients(o: &mut Oracle) -> Res<()> {
    let a = o.choose(NPAY);
    let b = [1usize, 3][o.choose(2)];
    let bad_b = o.choose(NBAD + 1);
    let (ba, ea) = nth(a);
    let (bb, eb) = nth(b);
    // distinguishable: the second client tags nothing, so compare as multisets
    let fa = frame(&ba);
    let mut fb = frame(&bb);
    if bad_b < NBAD {
        fb.extend(bad(bad_b));
    }
    let ca = cuts(o, 1, fa.len().min(12));
    let cb = 1 + o.choose(fb.len().min(12));
    let order = o.choose(6);
    o.begin()?;
    mark(o, &[a, b, bad_b], &[0], &ca);
    let pa = if ca.is_empty() {
        vec![fa.clone(), vec![]]
    } else {
        cut(&fa, &ca)
    };
    let pb = vec![fb[..cb.min(fb.len())].to_vec(), fb[cb.min(fb.len())..].to_vec()];
    let what = format!("client A {} cut {:?}, client B {} (bad {}) cut {}, order {}", a, ca, b, bad_b, cb, order);
    let seq = [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]][order];
    let devs = if o.thorough() { 1 } else { 0 };
    let out = serve::<NativeServer, _, _>(o, opts(devs), config(1972), move || {
        let fds = [raw::connect(1972), raw::connect(1972)];
        let mut parts = [pa.into_iter(), pb.into_iter()];
        for c in &seq {
            if let Some(p) = parts[*c].next() {
                send(fds[*c], &p);
                lull();
            }
        }
        raw::close(fds[0]);
        raw::close(fds[1]);
        lull();
    });
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    must_end(&out.run, &what)?;
    let mut got = show_events(&out.events);
    ensure!(got.pop() == Some("shutdown".to_string()), "events", "{}: no shutdown at the end: {:?}", what, got);
    let (sa, sb) = (show_events(&ea), show_events(&eb));
    ensure!(
        interleaves(&got, &sa, &sb),
        "events",
        "{}: got {:?}, should be an interleaving of {:?} and {:?}",
        what,
        got,
        sa,
        sb
    );
    Ok(())
}

/// Is `got` some interleaving of `a` and `b`?
pub fn interleaves(got: &[String], a: &[String], b: &[String]) -> bool {
    if got.is_empty() {
        return a.is_empty() && b.is_empty();
    }
    (!a.is_empty() && a[0] == got[0] && interleaves(&got[1..], &a[1..], b))
        || (!b.is_empty() && b[0] == got[0] && interleaves(&got[1..], a, &b[1..]))
}
