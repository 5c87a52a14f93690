//! C19: the Prometheus sink, fed call by call and scraped over the private
//! network.
use super::net::opts;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::{Prometheus, PrometheusConfig, Sink};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::raw::c_int;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C19",
        scenarios: |_| {
            vec![
                Scenario { name: "values", run: values },
                Scenario { name: "text", run: text },
                Scenario { name: "windows", run: windows },
                Scenario { name: "schedules", run: schedules },
                Scenario { name: "clients", run: clients },
                Scenario { name: "faults", run: faults },
            ]
        },
        rule: "every sequence of deliveries, flushes and scrapes from an alphabet up to a length, \
               for every configuration; every schedule up to a number of deviations of deliveries \
               against scrapes; every combination of up to two other clients; every placement of \
               failures to accept; states = model contents at every scrape, and scheduler states",
        assumptions: &[
            "the private network delivers bytes in order, as TCP does",
            "cernan's clock stands still during an execution",
            "three clients at most keep a connection open without asking for anything",
        ],
        level: "model_checking",
        hang_s: 40,
    }
}

pub const PORT: u16 = 8086;
const KNOCK: u64 = 10_000_000;

// ---- an HTTP client ------------------------------------------------------------

pub struct Reply {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str())
    }
}

/// Take one complete response off the front of what was received.
pub fn take_reply(buf: &mut Vec<u8>) -> Option<Reply> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&buf[..end]).into_owned();
    let mut lines = head.split("\r\n");
    let status = lines.next()?.split(' ').nth(1)?.parse().ok()?;
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| {
            let i = l.find(':')?;
            Some((l[..i].to_string(), l[i + 1..].trim().to_string()))
        })
        .collect();
    let mut r = Reply { status, headers, body: vec![] };
    let mut at = end + 4;
    if r.header("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        loop {
            let nl = at + buf[at..].windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&buf[at..nl]).ok()?.trim(), 16).ok()?;
            at = nl + 2;
            if buf.len() < at + n + 2 {
                return None;
            }
            r.body.extend_from_slice(&buf[at..at + n]);
            at += n + 2;
            if n == 0 {
                break;
            }
        }
    } else {
        let n: usize = r.header("content-length")?.parse().ok()?;
        if buf.len() < at + n {
            return None;
        }
        r.body.extend_from_slice(&buf[at..at + n]);
        at += n;
    }
    buf.drain(..at);
    Some(r)
}

pub struct Client {
    pub fd: c_int,
    pub buf: Vec<u8>,
}
impl Client {
    pub fn new(port: u16) -> Option<Client> {
        let fd = raw::connect(port);
        if fd < 0 {
            return None;
        }
        Some(Client { fd, buf: vec![] })
    }
    pub fn say(&self, data: &[u8]) {
        raw::write(self.fd, data);
    }
    /// Wait for an answer: None when the server hangs up or keeps silent.
    pub fn hear(&mut self) -> Option<Reply> {
        for _ in 0..400 {
            let (d, over) = raw::read_all(self.fd);
            self.buf.extend(d);
            if let Some(r) = take_reply(&mut self.buf) {
                return Some(r);
            }
            if over {
                return None;
            }
            sched::sleep(KNOCK);
        }
        None
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        raw::close(self.fd);
    }
}

/// As must_end, but the HTTP library may leave idle threads of its pool behind.
pub fn ends(r: &sched::Run, over: &AtomicUsize, what: &str) -> Res<()> {
    if r.outcome == sched::Outcome::Stuck
        && over.load(Ordering::SeqCst) == 1
        && !r.left.split_whitespace().any(|l| !l.ends_with(":condvar"))
    {
        if let Some(m) = take_panics().first() {
            return fail("panic", format!("{}: a thread panicked: {}", what, m));
        }
        return Ok(());
    }
    must_end(r, what)
}

const GET: &[u8] = b"GET /metrics HTTP/1.1\r\nHost: h\r\nAccept-Encoding: gzip\r\n\r\n";

/// A scrape over a connection of its own.
pub fn scrape() -> Result<Reply, &'static str> {
    let mut c = match Client::new(PORT) {
        Some(c) => c,
        None => return Err("connection refused"),
    };
    c.say(GET);
    c.hear().ok_or("no answer")
}

/// The server's thread has yet to open its port.
pub fn up() {
    for _ in 0..50 {
        let fd = raw::connect(PORT);
        if fd >= 0 {
            raw::close(fd);
            return;
        }
        sched::sleep(KNOCK);
    }
}

// ---- the exposition format, read strictly ----------------------------------------

type Key = (String, Vec<(String, String)>);
#[derive(Clone, Debug, PartialEq, Default)]
struct Page {
    types: BTreeMap<String, String>,
    samples: BTreeMap<Key, f64>,
}

fn is_name(s: &str) -> bool {
    !s.is_empty()
        && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b':')
        && !s.as_bytes()[0].is_ascii_digit()
}

fn parse_labels(s: &str) -> Option<(Vec<(String, String)>, &str)> {
    let mut v = vec![];
    let mut it = s.char_indices().peekable();
    loop {
        while it.peek().map_or(false, |c| c.1 == ' ' || c.1 == ',') {
            it.next();
        }
        if it.peek()?.1 == '}' {
            let (i, _) = it.next()?;
            v.sort();
            return Some((v, &s[i + 1..]));
        }
        let mut k = String::new();
        loop {
            match it.next()?.1 {
                '=' => break,
                c => k.push(c),
            }
        }
        if !is_name(&k) || it.next()?.1 != '"' {
            return None;
        }
        let mut x = String::new();
        loop {
            match it.next()?.1 {
                '"' => break,
                '\n' => return None,
                '\\' => x.push(match it.next()?.1 {
                    'n' => '\n',
                    '\\' => '\\',
                    '"' => '"',
                    _ => return None,
                }),
                c => x.push(c),
            }
        }
        if v.iter().any(|(o, _)| *o == k) {
            return None;
        }
        v.push((k, x));
    }
}

fn parse(text: &str) -> Result<Page, String> {
    let mut p = Page::default();
    let mut family: Option<String> = None;
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line does not end".to_string());
    }
    for line in text.lines() {
        let bad = |why: &str| Err(format!("{}: {:?}", why, line));
        if line.starts_with("# TYPE ") {
            let w: Vec<&str> = line[7..].split(' ').collect();
            if w.len() != 2 || !is_name(w[0]) {
                return bad("TYPE");
            }
            if p.types.insert(w[0].to_string(), w[1].to_string()).is_some() {
                return bad("second TYPE line");
            }
            family = Some(w[0].to_string());
            continue;
        }
        let e = line.find(|c| c == '{' || c == ' ').unwrap_or_else(|| line.len());
        let (name, rest) = line.split_at(e);
        if !is_name(name) {
            return bad("name");
        }
        match family {
            Some(ref f)
                if name == f
                    || (name.starts_with(f.as_str())
                        && ["_sum", "_count", "_bucket"].contains(&&name[f.len()..])) => {}
            _ => return bad("not below its TYPE line"),
        }
        let (labels, rest) = if rest.starts_with('{') {
            match parse_labels(&rest[1..]) {
                Some(x) => x,
                None => return bad("labels"),
            }
        } else {
            (vec![], rest)
        };
        let v = match rest.trim_start().parse::<f64>() {
            Ok(v) => v,
            Err(_) => return bad("value"),
        };
        if p.samples.insert((name.to_string(), labels), v).is_some() {
            return bad("reported twice");
        }
    }
    Ok(p)
}

// ---- what is delivered, and what it must come to ---------------------------------------

#[derive(Clone)]
struct Spec {
    name: &'static str,
    kind: AggregationMethod,
    values: &'static [f64],
    tags: &'static [(&'static str, &'static str)],
    /// relative to now; the extremes stand for themselves
    ts: i64,
}

fn time_of(s: &Spec) -> i64 {
    if s.ts == std::i64::MIN || s.ts == std::i64::MAX {
        s.ts
    } else {
        cernan::time::now() + s.ts
    }
}

fn telem(s: &Spec) -> Telemetry {
    let mut t = point(s.name, s.kind, s.values[0], time_of(s), false, Some(tagmap(s.tags)));
    for v in &s.values[1..] {
        t = t.insert(*v);
    }
    t
}

fn val_of(s: &Spec) -> Val {
    let mut v = Val::new(s.kind, s.values[0], &BOUNDS);
    for x in &s.values[1..] {
        v.observe(*x);
    }
    v
}

#[derive(Clone, Debug)]
enum Series {
    Plain(Val),
    Window { sum: f64, count: usize, at: BTreeMap<i64, Vec<f64>> },
}

#[derive(Clone, Default)]
struct Model {
    cap: usize,
    age: Option<u64>,
    series: BTreeMap<(String, Vec<(String, String)>), Series>,
}

fn away(ts: i64) -> u128 {
    (i128::from(ts) - i128::from(cernan::time::now())).abs() as u128
}

impl Model {
    fn new(c: &PrometheusConfig) -> Model {
        Model { cap: c.capacity_in_seconds, age: c.age_threshold, ..Model::default() }
    }
    fn deliver(&mut self, s: &Spec) {
        let ts = time_of(s);
        if let Some(a) = self.age {
            if away(ts) > u128::from(a) {
                return;
            }
        }
        let mut tags: Vec<(String, String)> =
            s.tags.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
        tags.sort();
        let key = (s.name.to_string(), tags);
        if s.kind == AggregationMethod::Summarize {
            let e = self
                .series
                .entry(key)
                .or_insert(Series::Window { sum: 0.0, count: 0, at: BTreeMap::new() });
            if let Series::Window { ref mut sum, ref mut count, ref mut at } = *e {
                *sum += s.values.iter().sum::<f64>();
                *count += s.values.len();
                at.entry(ts).or_insert_with(Vec::new).extend_from_slice(s.values);
                while at.len() > self.cap {
                    let first = *at.keys().next().unwrap();
                    at.remove(&first);
                }
            }
            return;
        }
        let new = val_of(s);
        match self.series.get_mut(&key) {
            None => {
                self.series.insert(key, Series::Plain(new));
            }
            // a series keeps the kind it was born with
            Some(Series::Plain(ref mut v)) if v.kind() == new.kind() => *v = v.then(&new),
            Some(_) => {}
        }
    }
    fn flush(&mut self) {
        let cap = self.cap as u128;
        for s in self.series.values_mut() {
            if let Series::Window { ref mut at, .. } = *s {
                let old: Vec<i64> = at.keys().cloned().filter(|t| away(*t) > cap).collect();
                for t in old {
                    at.remove(&t);
                }
            }
        }
    }

    /// The differences between a page and what it should be.
    fn check(&self, page: &Page, defaults: &[(&str, &str)]) -> Result<(), String> {
        let mut left = page.samples.clone();
        let mut types: BTreeMap<String, String> = BTreeMap::new();
        let mut take = |name: &str, tags: &[(String, String)], extra: Option<(&str, &str)>| {
            let mut all: BTreeMap<String, String> =
                defaults.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
            all.extend(tags.iter().cloned());
            if let Some((k, v)) = extra {
                all.insert(k.to_string(), v.to_string());
            }
            let key: Key = (name.to_string(), all.into_iter().collect());
            left.remove(&key).ok_or_else(|| format!("{:?} is missing", key))
        };
        for ((raw_name, tags), s) in &self.series {
            let name: String = raw_name
                .bytes()
                .map(|c| if c.is_ascii_alphanumeric() || c == b':' || c == b'_' { c as char } else { '_' })
                .collect();
            let want = |v: f64, x: f64, what: &str| {
                if v == x {
                    Ok(())
                } else {
                    Err(format!("{}{:?} {} is {}, should be {}", name, tags, what, v, x))
                }
            };
            match s {
                Series::Plain(Val::Sum(x)) => {
                    types.insert(name.clone(), "counter".to_string());
                    want(take(&name, tags, None)?, *x, "value")?;
                }
                Series::Plain(Val::Set(x)) => {
                    types.insert(name.clone(), "gauge".to_string());
                    want(take(&name, tags, None)?, *x, "value")?;
                }
                Series::Plain(Val::Hist { bounds, counts, sum }) => {
                    types.insert(name.clone(), "histogram".to_string());
                    let mut n = 0;
                    for (i, c) in counts.iter().enumerate() {
                        n += c;
                        let le = bounds.get(i).map_or("+Inf".to_string(), |b| b.to_string());
                        want(take(&name, tags, Some(("le", &le)))?, n as f64, &le)?;
                    }
                    want(take(&format!("{}_sum", name), tags, None)?, sum.unwrap_or(0.0), "sum")?;
                    want(take(&format!("{}_count", name), tags, None)?, n as f64, "count")?;
                }
                Series::Plain(Val::Summary { .. }) => unreachable!(),
                Series::Window { sum, count, at } => {
                    let mut vals: Vec<f64> = at.values().flat_map(|v| v.iter().cloned()).collect();
                    if vals.is_empty() {
                        continue;
                    }
                    types.insert(name.clone(), "summary".to_string());
                    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    for q in &["0", "0.25", "0.5", "0.75", "0.9", "0.95", "0.99", "0.999", "1"] {
                        let x = take(&name, tags, Some(("quantile", q)))?;
                        let r = ((q.parse::<f64>().unwrap() * vals.len() as f64).ceil() as usize).max(1);
                        let lo = vals[r.saturating_sub(2)];
                        let hi = vals[r.min(vals.len() - 1)];
                        if !vals.contains(&x) || x < lo || x > hi {
                            return Err(format!("{}{:?} quantile {} is {} of {:?}", name, tags, q, x, vals));
                        }
                        if *q == "0" {
                            want(x, vals[0], "least")?;
                        }
                        if *q == "1" {
                            want(x, vals[vals.len() - 1], "greatest")?;
                        }
                    }
                    want(take(&format!("{}_sum", name), tags, None)?, *sum, "sum")?;
                    want(take(&format!("{}_count", name), tags, None)?, *count as f64, "count")?;
                }
            }
        }
        if let Some((k, _)) = left.iter().next() {
            return Err(format!("{:?} should not be there", k));
        }
        if types != page.types {
            return Err(format!("types are {:?}, should be {:?}", page.types, types));
        }
        Ok(())
    }
}

fn page(r: &Result<Reply, &'static str>, gzip: bool) -> Result<Page, String> {
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err((*e).to_string()),
    };
    if r.status != 200 {
        return Err(format!("answered {}", r.status));
    }
    match r.header("content-type") {
        Some(t) if t.starts_with("text/plain") && t.contains("version=0.0.4") => {}
        t => return Err(format!("content type {:?}", t)),
    }
    let enc = r.header("content-encoding").unwrap_or("identity");
    let mut body = vec![];
    if gzip {
        if enc != "gzip" {
            return Err(format!("content encoding {:?}", enc));
        }
        if flate2::read::GzDecoder::new(&r.body[..]).read_to_end(&mut body).is_err() {
            return Err("not gzip".to_string());
        }
    } else {
        if enc != "identity" {
            return Err(format!("content encoding {:?}", enc));
        }
        body = r.body.clone();
    }
    parse(&String::from_utf8(body).map_err(|_| "not UTF-8".to_string())?)
}

// ---- sequences ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Deliver(usize),
    Flush,
    Scrape,
}

pub struct Conf {
    pub cfg: PrometheusConfig,
    defaults: &'static [(&'static str, &'static str)],
}

pub fn conf(defaults: &'static [(&'static str, &'static str)], cap: usize, age: Option<u64>, gzip: bool) -> Conf {
    Conf {
        cfg: PrometheusConfig {
            host: "127.0.0.1".to_string(),
            port: PORT,
            config_path: Some("sinks.p".to_string()),
            capacity_in_seconds: cap,
            age_threshold: age,
            tags: tagmap(defaults),
            gzip,
        },
        defaults,
    }
}

/// Do it, and compare every scrape with the model.
fn history(o: &mut Oracle, c: Conf, specs: &'static [Spec], ops: Vec<Op>, keep: bool) -> Res<()> {
    cernan::time::now();
    let seen: Arc<Mutex<Vec<Result<Reply, &'static str>>>> = Arc::default();
    let (s2, ops2, cfg, gzip) = (seen.clone(), ops.clone(), c.cfg.clone(), c.cfg.gzip);
    let over = Arc::new(AtomicUsize::new(0));
    let o3 = over.clone();
    let root: sched::Root = Box::new(move || {
        let mut sink = Prometheus::init(cfg);
        up();
        let mut kept: Option<Client> = None;
        for op in ops2 {
            match op {
                Op::Deliver(i) => sink.deliver(telem(&specs[i])),
                Op::Flush => sink.flush(),
                Op::Scrape => {
                    let r = if keep {
                        if kept.is_none() {
                            kept = Client::new(PORT);
                        }
                        match kept {
                            Some(ref mut k) => {
                                k.say(GET);
                                k.hear().ok_or("no answer")
                            }
                            None => Err("connection refused"),
                        }
                    } else {
                        scrape()
                    };
                    s2.lock().unwrap().push(r);
                }
            }
        }
        drop(kept);
        sink.shutdown();
        o3.store(1, Ordering::SeqCst);
    });
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts(0), vec![root]);
    ends(&run, &over, &format!("{:?}", ops))?;
    let mut m = Model::new(&c.cfg);
    let mut n = 0;
    let seen = seen.lock().unwrap();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Deliver(k) => m.deliver(&specs[*k]),
            Op::Flush => m.flush(),
            Op::Scrape => {
                let r = &seen[n];
                n += 1;
                let said = match r {
                    Ok(r) if !gzip => String::from_utf8_lossy(&r.body).into_owned(),
                    _ => String::new(),
                };
                let verdict = page(r, gzip).and_then(|p| {
                    o.step();
                    o.state(&format!("{:?}", m.series));
                    m.check(&p, c.defaults)
                });
                if let Err(e) = verdict {
                    return fail(
                        "scrape",
                        format!("{:?}, scrape at {}: {}; the page was {:?}", ops, i, e, said),
                    );
                }
            }
        }
    }
    o.note(|| {
        let last = seen.last().and_then(|r| r.as_ref().ok());
        format!("{:?}\n  {:?}", ops, last.map(|r| String::from_utf8_lossy(&r.body).into_owned()))
    });
    Ok(())
}

fn sequence(o: &mut Oracle, len: usize, alpha: usize) -> Vec<Op> {
    let mut ops = vec![];
    let n = 1 + o.choose(len);
    for _ in 0..n {
        ops.push(match o.choose(alpha + 2) {
            0 => Op::Scrape,
            1 => Op::Flush,
            k => Op::Deliver(k - 2),
        });
    }
    ops.push(Op::Scrape);
    ops
}

const VALUES: &[Spec] = &[
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[1.5], tags: &[], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[2.0, 0.25], tags: &[("k", "v"), ("j", "w")], ts: -3 },
    Spec { name: "g.x-y", kind: AggregationMethod::Set, values: &[3.25], tags: &[], ts: 0 },
    Spec { name: "g.x", kind: AggregationMethod::Set, values: &[-1.0], tags: &[("z", "own")], ts: -9 },
    // another kind for a series
    Spec { name: "g.x-y", kind: AggregationMethod::Sum, values: &[7.0], tags: &[], ts: 1 },
    Spec { name: "h", kind: AggregationMethod::Histogram, values: &[0.5, 3.0], tags: &[], ts: 0 },
    Spec { name: "h", kind: AggregationMethod::Histogram, values: &[1000.0, 1.0], tags: &[("k", "v")], ts: 0 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[1.0], tags: &[], ts: 0 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[8.0, 2.0], tags: &[], ts: -1 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[5.0], tags: &[("k", "v")], ts: 1 },
    // what is this old is not reported in one configuration
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[100.0], tags: &[], ts: -61 },
];

/// Every kind on colliding names, scraped at every position.
fn values(o: &mut Oracle) -> Res<()> {
    let len = o.pick(3, 4);
    let c = match o.choose(4) {
        0 => conf(&[], 600, None, false),
        1 => conf(&[("z", "default"), ("y", "1")], 600, Some(60), false),
        2 => conf(&[("z", "default")], 600, None, true),
        _ => conf(&[], 1, Some(0), false),
    };
    let keep = o.choose_bool();
    let ops = sequence(o, len, VALUES.len());
    o.begin()?;
    history(o, c, VALUES, ops, keep)
}

const TEXT: &[Spec] = &[
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[1.0], tags: &[("k", "a \"quoted\" word")], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[2.0], tags: &[("k", "line\nbreak\\n")], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[4.0], tags: &[("k", "\u{e9}{,}= # TYPE")], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[8.0], tags: &[("k", "")], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[16.0], tags: &[("k", "a"), ("l", "b")], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[32.0], tags: &[("k", "a\"=\"l"), ("m", "b")], ts: 0 },
    Spec { name: "c\u{e9} d", kind: AggregationMethod::Set, values: &[1e300], tags: &[], ts: 0 },
    Spec { name: "c:d_", kind: AggregationMethod::Set, values: &[-1e-300], tags: &[("k", "v")], ts: 0 },
    Spec { name: "ca", kind: AggregationMethod::Histogram, values: &[1.0], tags: &[("k", "\\\"")], ts: 0 },
    Spec { name: "cb", kind: AggregationMethod::Summarize, values: &[1.0], tags: &[("k", "\\\"\n")], ts: 0 },
    Spec { name: "cb", kind: AggregationMethod::Summarize, values: &[3.0], tags: &[], ts: std::i64::MIN },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[64.0], tags: &[], ts: std::i64::MAX },
];

/// Names, tags and times as clients may choose them.
fn text(o: &mut Oracle) -> Res<()> {
    let len = o.pick(3, 4);
    let c = match o.choose(2) {
        0 => conf(&[], 600, None, false),
        _ => conf(&[("z", "\\ \"\n")], 600, Some(3600), false),
    };
    let ops = sequence(o, len, TEXT.len());
    o.begin()?;
    history(o, c, TEXT, ops, false)
}

const WINDOWS: &[Spec] = &[
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[1.0], tags: &[], ts: 0 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[9.0, 4.0], tags: &[], ts: 0 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[2.0], tags: &[], ts: 1 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[16.0], tags: &[], ts: -2 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[32.0, 64.0, 0.5], tags: &[], ts: -3 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[128.0], tags: &[], ts: 4 },
    Spec { name: "q", kind: AggregationMethod::Sum, values: &[5.0], tags: &[], ts: 0 },
];

/// The sliding window of a summary.
fn windows(o: &mut Oracle) -> Res<()> {
    let len = o.pick(4, 5);
    let cap = *o.choose_from(&[2usize, 1, 3, 600]);
    let ops = sequence(o, len, WINDOWS.len());
    o.begin()?;
    history(o, conf(&[], cap, None, false), WINDOWS, ops, true)
}

// ---- concurrency ------------------------------------------------------------------------------

const CONC: &[Spec] = &[
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[1.0], tags: &[], ts: 0 },
    Spec { name: "g", kind: AggregationMethod::Set, values: &[7.0], tags: &[], ts: 0 },
    Spec { name: "q", kind: AggregationMethod::Summarize, values: &[1.0, 2.0], tags: &[], ts: 0 },
    Spec { name: "h", kind: AggregationMethod::Histogram, values: &[1.0, 50.0], tags: &[], ts: 0 },
    Spec { name: "g", kind: AggregationMethod::Set, values: &[8.0], tags: &[], ts: 0 },
    Spec { name: "c", kind: AggregationMethod::Sum, values: &[4.0], tags: &[], ts: 0 },
];

/// Deliveries against scrapes: each scrape is answered and shows exactly some
/// prefix of what was delivered that contains all that was delivered before.
fn schedules(o: &mut Oracle) -> Res<()> {
    let scrapers = 1 + o.choose(2);
    let devs = if scrapers == 1 { o.pick(2, 3) } else { o.pick(1, 2) };
    let first = o.choose(CONC.len());
    let n = o.pick(2, 3);
    let flush = o.choose_bool();
    o.begin()?;
    cernan::time::now();
    let list: Vec<usize> = (0..n).map(|i| (first + i) % CONC.len()).collect();
    let c = conf(&[], 600, None, false);
    let cfg = c.cfg.clone();
    let (begun, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let gone = Arc::new(AtomicUsize::new(0));
    let ready = Arc::new(AtomicUsize::new(0));
    type Seen = Vec<(usize, usize, Result<Reply, &'static str>)>;
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let mut roots: Vec<sched::Root> = vec![];
    let over = Arc::new(AtomicUsize::new(0));
    let o3 = over.clone();
    {
        let (begun, done, gone, ready, list) =
            (begun.clone(), done.clone(), gone.clone(), ready.clone(), list.clone());
        roots.push(Box::new(move || {
            let mut sink = Prometheus::init(cfg);
            up();
            ready.store(1, Ordering::SeqCst);
            sched::point();
            for i in list {
                begun.fetch_add(1, Ordering::SeqCst);
                sink.deliver(telem(&CONC[i]));
                done.fetch_add(1, Ordering::SeqCst);
                if flush {
                    sink.flush();
                }
                sched::point();
            }
            while gone.load(Ordering::SeqCst) < scrapers {
                sched::sleep(KNOCK);
            }
            sink.shutdown();
            o3.store(1, Ordering::SeqCst);
        }));
    }
    for _ in 0..scrapers {
        let (begun, done, gone, ready, seen) =
            (begun.clone(), done.clone(), gone.clone(), ready.clone(), seen.clone());
        roots.push(Box::new(move || {
            while ready.load(Ordering::SeqCst) == 0 {
                sched::sleep(KNOCK);
            }
            for _ in 0..2 {
                let lo = done.load(Ordering::SeqCst);
                let r = scrape();
                let hi = begun.load(Ordering::SeqCst);
                seen.lock().unwrap().push((lo, hi, r));
            }
            gone.fetch_add(1, Ordering::SeqCst);
        }));
    }
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts(devs), roots);
    let what = format!("deliveries {:?}, {} scrapers", list, scrapers);
    ends(&run, &over, &what)?;
    let seen = seen.lock().unwrap();
    for (lo, hi, r) in seen.iter() {
        let p = match page(r, false) {
            Ok(p) => p,
            Err(e) => return fail("scrape", format!("{}: {}", what, e)),
        };
        let mut m = Model::new(&c.cfg);
        let mut fits = None;
        let mut why = String::new();
        for k in 0..=n {
            if k >= *lo && k <= *hi {
                match m.check(&p, &[]) {
                    Ok(()) => fits = Some(k),
                    Err(e) => why = e,
                }
            }
            if k < n {
                m.deliver(&CONC[list[k]]);
            }
        }
        if fits.is_none() {
            return fail(
                "scrape",
                format!("{}: after {} of them, before {}: {} ({:?})", what, lo, hi, why, p.samples),
            );
        }
        o.step();
        o.state(&(lo, hi, fits, first));
    }
    Ok(())
}

// ---- other clients --------------------------------------------------------------------------------

const RUDE: [&[u8]; 9] = [
    b"",
    b"GET /met",
    b"GET /metrics HTTP/1.1\r\nHost: h\r\n",
    b"\x00\x01\xff\xfe\r\n\r\n",
    b"nonsense\r\n\r\n",
    b"GET /metrics HTTP/9.9\r\n\r\n",
    b"GET /metrics HTTP/1.0\r\n\r\n",
    b"POST / HTTP/1.1\r\nContent-Length: 10\r\n\r\nab",
    b"GET /metrics HTTP/1.1\r\n\r\nGET /metrics HTTP/1.1\r\n\r\n",
];

/// Whatever other clients do, a scrape is answered.
fn clients(o: &mut Oracle) -> Res<()> {
    let devs = o.pick(1, 2);
    let n = 1 + o.choose(2);
    let mut others = vec![];
    for _ in 0..n {
        others.push((o.choose(RUDE.len()), o.choose(3)));
    }
    o.begin()?;
    cernan::time::now();
    let c = conf(&[], 600, None, false);
    let cfg = c.cfg.clone();
    let seen: Arc<Mutex<Vec<Result<Reply, &'static str>>>> = Arc::default();
    let (s2, o2) = (seen.clone(), others.clone());
    let over = Arc::new(AtomicUsize::new(0));
    let o3 = over.clone();
    let root: sched::Root = Box::new(move || {
        let mut sink = Prometheus::init(cfg);
        up();
        let mut open: Vec<Client> = vec![];
        for (what, how) in o2 {
            let x = match Client::new(PORT) {
                Some(x) => x,
                None => continue,
            };
            x.say(RUDE[what]);
            match how {
                // gone before anything could be answered
                0 => drop(x),
                1 => {
                    sched::sleep(KNOCK);
                    drop(x);
                }
                _ => open.push(x),
            }
            sink.deliver(telem(&CONC[0]));
            s2.lock().unwrap().push(scrape());
        }
        drop(open);
        s2.lock().unwrap().push(scrape());
        sink.shutdown();
        o3.store(1, Ordering::SeqCst);
    });
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts(devs), vec![root]);
    let what = format!("{:?}", others.iter().map(|x| (String::from_utf8_lossy(RUDE[x.0]), x.1)).collect::<Vec<_>>());
    ends(&run, &over, &what)?;
    let mut m = Model::new(&c.cfg);
    for (i, r) in seen.lock().unwrap().iter().enumerate() {
        if i < n {
            m.deliver(&CONC[0]);
        }
        let v = page(r, false).and_then(|p| m.check(&p, &[]));
        if let Err(e) = v {
            return fail("scrape", format!("other clients {}: scrape {}: {}", what, i, e));
        }
        o.step();
        o.state(&(i, &others));
    }
    Ok(())
}

/// A connection that fails while it is being accepted costs nobody else.
fn faults(o: &mut Oracle) -> Res<()> {
    let devs = o.pick(0, 1);
    let places = o.pick(4, 5);
    let errs = [libc::ECONNABORTED, libc::EMFILE, libc::EPROTO];
    let mut at = vec![];
    for _ in 0..o.pick(2, 3) {
        at.push((o.choose(places + 1), *o.choose_from(&errs)));
    }
    for w in at.windows(2) {
        if w[1].0 <= w[0].0 && w[1].0 != places {
            return Err(Stop::Prune);
        }
    }
    o.begin()?;
    cernan::time::now();
    let c = conf(&[], 600, None, false);
    let cfg = c.cfg.clone();
    let seen: Arc<Mutex<Vec<Result<Reply, &'static str>>>> = Arc::default();
    let s2 = seen.clone();
    let over = Arc::new(AtomicUsize::new(0));
    let o3 = over.clone();
    let root: sched::Root = Box::new(move || {
        let mut sink = Prometheus::init(cfg);
        up();
        for _ in 0..3 {
            sink.deliver(telem(&CONC[0]));
            // the scrape whose own connection fails is lost; the next is not
            let mut r = Err("never asked");
            for _ in 0..20 {
                r = scrape();
                if r.is_ok() {
                    break;
                }
                sched::sleep(1_000_000_000);
            }
            s2.lock().unwrap().push(r);
        }
        sink.shutdown();
        o3.store(1, Ordering::SeqCst);
    });
    sched::vnet(true);
    sched::vclock(true);
    let a2 = at.clone();
    let mut nth = 0;
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_ACCEPT {
            let n = nth;
            nth += 1;
            if let Some((_, e)) = a2.iter().find(|x| x.0 == n) {
                return Answer::Err(*e);
            }
        }
        Answer::Go
    })));
    let run = sched::run(o, opts(devs), vec![root]);
    sched::set_io(None);
    let what = format!("accept fails at {:?}", at);
    ends(&run, &over, &what)?;
    let mut m = Model::new(&c.cfg);
    for (i, r) in seen.lock().unwrap().iter().enumerate() {
        m.deliver(&CONC[0]);
        let v = page(r, false).and_then(|p| m.check(&p, &[]));
        if let Err(e) = v {
            return fail("scrape", format!("{}: scrape {}: {}", what, i, e));
        }
        o.step();
        o.state(&(i, &at));
    }
    Ok(())
}
