//! C23: the InfluxDB sink against an HTTP server the harness plays.
use super::stage::must_end;
use super::util::*;
use super::web::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::{AggregationMethod, Event};
use cernan::sink::{InfluxDB, InfluxDBConfig};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C23",
        scenarios: |_| {
            vec![
                Scenario { name: "answers", run: answers },
                Scenario { name: "codes", run: codes },
                Scenario { name: "failures", run: failures },
                Scenario { name: "connections", run: connections },
                Scenario { name: "values", run: values },
                Scenario { name: "text", run: text },
                Scenario { name: "outage", run: outage },
                Scenario { name: "valve", run: valve },
            ]
        },
        rule: "every sequence of deliveries and flushes up to a length, ended by the stop, with every \
               sequence of server answers and connection faults up to a number of them; every point of \
               every class of value, time and text; states = (points held, requests seen, faults so far)",
        assumptions: &[
            "the private network delivers bytes in order",
            "line breaks in names and tags cannot be told in the line protocol",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

pub const PORT: u16 = 8089;

#[derive(Clone, Debug)]
struct Spec {
    name: String,
    kind: AggregationMethod,
    values: Vec<f64>,
    tags: Vec<(String, String)>,
    ts: i64,
}

fn spec(name: &str, kind: AggregationMethod, values: &[f64], tags: &[(&str, &str)], ts: i64) -> Spec {
    Spec {
        name: name.to_string(),
        kind,
        values: values.to_vec(),
        tags: tags.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect(),
        ts,
    }
}

impl Spec {
    fn event(&self) -> Event {
        let tags: Vec<(&str, &str)> = self.tags.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let mut t = point(&self.name, self.kind, self.values[0], self.ts, false, Some(tagmap(&tags)));
        for v in &self.values[1..] {
            t = t.insert(*v);
        }
        Event::Telemetry(t)
    }
    /// The lines it calls for: name, what the value may be, whether it can be told
    fn lines(&self) -> Vec<(String, Vec<f64>)> {
        use AggregationMethod::*;
        let n = &self.name;
        let mut v = Val::new(self.kind, self.values[0], &BOUNDS);
        if self.kind != Summarize {
            for x in &self.values[1..] {
                v.observe(*x);
            }
        }
        match v {
            Val::Set(x) | Val::Sum(x) => vec![(n.clone(), vec![x])],
            Val::Hist { bounds, counts, .. } => counts
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let b = bounds.get(i).map_or("inf".to_string(), |b| b.to_string());
                    (format!("{}.le_{}", n, b), vec![*c as f64])
                })
                .collect(),
            Val::Summary { .. } => {
                let mut vals = self.values.clone();
                vals.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                [0.25, 0.5, 0.75, 0.9, 0.99, 1.0]
                    .iter()
                    .map(|q| {
                        let r = ((q * vals.len() as f64).ceil() as usize).max(1);
                        let lo = r.saturating_sub(2);
                        let hi = r.min(vals.len() - 1);
                        (format!("{}.{}", n, q), vals[lo..=hi].to_vec())
                    })
                    .collect()
            }
        }
    }
}

/// One line of the protocol: measurement, tags, field, time.
#[derive(Clone, Debug)]
struct Line {
    name: String,
    tags: BTreeMap<String, String>,
    value: f64,
    ns: i64,
}

/// Up to an unescaped character of `stop`; what was read and what stopped it.
fn word(s: &mut std::iter::Peekable<std::str::Chars>, stop: &str) -> (String, Option<char>) {
    let mut w = String::new();
    while let Some(c) = s.next() {
        if stop.contains(c) {
            return (w, Some(c));
        }
        if c == '\\' {
            match s.peek() {
                Some(n) if ",= ".contains(*n) => {
                    w.push(*n);
                    s.next();
                    continue;
                }
                _ => {}
            }
        }
        w.push(c);
    }
    (w, None)
}

fn line(l: &str) -> Result<Line, String> {
    let bad = |w: &str| Err(format!("{:?} is no line of the protocol: {}", l, w));
    let mut s = l.chars().peekable();
    let (name, mut end) = word(&mut s, ", ");
    if name.is_empty() {
        return bad("it has no measurement");
    }
    let mut tags = BTreeMap::new();
    while end == Some(',') {
        let (k, e) = word(&mut s, "=, ");
        if e != Some('=') || k.is_empty() {
            return bad("a tag without key or value");
        }
        let (v, e) = word(&mut s, ",= ");
        if v.is_empty() || e == Some('=') {
            return bad("a tag without value");
        }
        if tags.insert(k, v).is_some() {
            return bad("a tag twice");
        }
        end = e;
    }
    if end != Some(' ') {
        return bad("no field");
    }
    let rest: String = s.collect();
    let parts: Vec<&str> = rest.split(' ').collect();
    if parts.len() != 2 || !parts[0].starts_with("value=") {
        return bad("not one field and a time");
    }
    let value = match parts[0]["value=".len()..].parse::<f64>() {
        Ok(v) if v.is_finite() => v,
        _ => return bad("not a number the protocol knows"),
    };
    let ns = match parts[1].parse() {
        Ok(n) => n,
        Err(_) => return bad("not a time"),
    };
    Ok(Line { name, tags, value, ns })
}

fn check_body(body: &[u8], held: &[Spec], defaults: &[(&str, &str)]) -> Result<(), String> {
    let text = match std::str::from_utf8(body) {
        Ok(t) => t,
        Err(_) => return Err("it is not text".to_string()),
    };
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line does not end".to_string());
    }
    let mut left = vec![];
    for l in text.lines() {
        left.push(line(l)?);
    }
    for s in held {
        let mut tags: BTreeMap<String, String> =
            defaults.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
        tags.extend(s.tags.iter().cloned());
        // the protocol has no empty tags
        let tags: BTreeMap<String, String> =
            tags.into_iter().filter(|(k, v)| !k.is_empty() && !v.is_empty()).collect();
        let ns = (i128::from(s.ts) * 1_000_000_000).max(i128::from(std::i64::MIN)).min(i128::from(std::i64::MAX));
        for (name, vals) in s.lines() {
            if vals.iter().all(|v| !v.is_finite()) {
                continue;
            }
            let is = |l: &Line| {
                l.name == name
                    && i128::from(l.ns) == ns
                    && l.tags == tags
                    && vals.iter().any(|v| (v - l.value).abs() <= 1e-12 * v.abs().max(l.value.abs()))
            };
            match left.iter().position(is) {
                Some(i) => {
                    left.remove(i);
                }
                None => return Err(format!("no right line {:?} for {:?} with {:?}; left are {:?}", name, s, tags, left)),
            }
        }
    }
    match left.first() {
        Some(l) => Err(format!("{:?} has no business there", l)),
        None => Ok(()),
    }
}

const DEFAULTS: [&[(&str, &str)]; 2] = [&[], &[("k", "d"), ("source", "s")]];

pub fn config(defaults: &[(&str, &str)]) -> InfluxDBConfig {
    InfluxDBConfig {
        secure: false,
        db: "cernan".to_string(),
        host: "127.0.0.1".to_string(),
        port: PORT,
        config_path: Some("sinks.influxdb".to_string()),
        tags: tagmap(defaults),
        flush_interval: 1,
    }
}

/// What the server may do with a request; the first few of a scenario.
const FATES: [&str; 10] = [
    "204", "500", "closed", "half an answer", "200", "400", "200 and close", "503 and close", "404 with body", "nothing",
];

fn act(i: usize) -> Act {
    match FATES[i] {
        "204" => Act::Say(b"HTTP/1.1 204 No Content\r\n\r\n".to_vec()),
        "200" => Act::Say(reply(200, "", b"ok")),
        "500" => Act::Say(reply(500, "", b"")),
        "400" => Act::Say(reply(400, "Content-Type: application/json\r\n", b"{\"error\":\"unable to parse\"}")),
        "closed" => Act::Close,
        "half an answer" => Act::SayAndClose(b"HTTP/1.1 2".to_vec()),
        "200 and close" => Act::SayAndClose(reply(200, "Connection: close\r\n", b"")),
        "503 and close" => Act::SayAndClose(reply(503, "Connection: close\r\n", b"x")),
        "404 with body" => Act::Say(b"HTTP/1.1 404 No\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n".to_vec()),
        _ => Act::Silence,
    }
}
fn accepted(fate: &str) -> bool {
    fate == "204" || fate.starts_with("200") || fate.starts_with("code 2")
}

/// `fates`: how many kinds of answer; `bad`: how many may be bad.
fn go(o: &mut Oracle, ops: Vec<Op>, specs: &[Spec], defaults: &[(&str, &str)], fates: usize, bad: usize, budget: usize) -> Res<()> {
    let mut left = bad;
    go_with(
        o,
        ops,
        specs,
        defaults,
        budget,
        Box::new(move || {
            let mut k = if fates > 1 { sched::decide(fates) } else { 0 };
            if !accepted(FATES[k]) {
                if left == 0 {
                    k = 0;
                } else {
                    left -= 1;
                }
            }
            (FATES[k].to_string(), act(k))
        }),
    )
}

fn go_with(
    o: &mut Oracle,
    ops: Vec<Op>,
    specs: &[Spec],
    defaults: &[(&str, &str)],
    budget: usize,
    mut answer: Box<dyn FnMut() -> (String, Act)>,
) -> Res<()> {
    let s = site(PORT, budget, Box::new(move |_| answer()));
    let (r, seen) = drive::<InfluxDB, _>(o, config(defaults), ops.clone(), &s);
    let site = s.0.borrow();
    let fates: Vec<String> = site.requests.iter().map(|r| r.fate.clone()).collect();
    let mut held: Vec<Spec> = vec![];
    let mut specs = specs.iter();
    let hist = format!(
        "{:?}, answers {:?}, faults {:?}",
        ops.iter()
            .map(|x| match x {
                Op::Deliver(e) => show_event(e),
                x => format!("{:?}", x),
            })
            .collect::<Vec<_>>(),
        fates,
        site.faults
    );
    o.note(|| hist.clone());
    must_end(&r, &hist)?;
    let mut from = 0;
    for (i, op) in ops.iter().enumerate() {
        o.step();
        let to = seen[i].0;
        let reqs = &site.requests[from..to];
        from = to;
        o.state(&(format!("{:?}", held), to, &fates[..to]));
        ensure!(seen[i].1, "valve", "{}: closed", hist);
        match op {
            Op::Deliver(_) => {
                held.extend(specs.next().cloned());
                ensure!(reqs.is_empty(), "untimely", "{}: something was sent outside a flush", hist);
                continue;
            }
            Op::HangUp => continue,
            _ => {}
        }
        // nothing held: no need to talk
        if held.is_empty() {
            ensure!(
                reqs.iter().all(|r| r.body.is_empty()),
                "invented",
                "{}: flush {} sent {:?} and there was nothing to send",
                hist,
                i,
                reqs.iter().map(|r| String::from_utf8_lossy(&r.body).into_owned()).collect::<Vec<_>>()
            );
            continue;
        }
        let last = match reqs.last() {
            Some(l) => l,
            None => return fail("lost", format!("{}: flush {} sent nothing", hist, i)),
        };
        ensure!(accepted(&last.fate), "lost", "{}: flush {} ended after the answer {}", hist, i, last.fate);
        // an answer may get lost on the way back
        let lost = site.faults.iter().filter(|f| f.starts_with("read")).count();
        let n = reqs.iter().filter(|r| accepted(&r.fate)).count();
        ensure!(n <= 1 + lost, "repeated", "{}: flush {} was accepted {} times", hist, i, n);
        for r in reqs {
            ensure!(
                r.method == "POST" && r.target == "/write?db=cernan",
                "request",
                "{}: the request was {} {}",
                hist,
                r.method,
                r.target
            );
            ensure!(
                r.body == last.body,
                "differs",
                "{}: flush {} sent {:?} and then {:?}",
                hist,
                i,
                String::from_utf8_lossy(&r.body),
                String::from_utf8_lossy(&last.body)
            );
        }
        if let Err(e) = check_body(&last.body, &held, defaults) {
            return fail("body", format!("{}: flush {} sent {:?}: {}", hist, i, String::from_utf8_lossy(&last.body), e));
        }
        held.clear();
    }
    Ok(())
}

fn base() -> Vec<Spec> {
    use AggregationMethod::*;
    vec![
        spec("a", Sum, &[1.5], &[("k", "v")], 10),
        spec("q", Summarize, &[3.0, 1.0, 2.0], &[], 11),
        spec("a", Sum, &[1.5], &[("k", "v")], 10),
        spec("h", Histogram, &[0.5, 5.0, 7.0, 1e9], &[("a", "b"), ("c", "d")], 12),
    ]
}

/// Deliveries and flushes, ended by the stop.
fn sequence(o: &mut Oracle, len: usize, alpha: &[Spec], hang: bool) -> (Vec<Op>, Vec<Spec>) {
    let n = o.choose(len + 1);
    let mut ops = vec![];
    let mut specs = vec![];
    for _ in 0..n {
        let c = o.choose(alpha.len() + 1 + hang as usize);
        if c < alpha.len() {
            specs.push(alpha[c].clone());
            ops.push(Op::Deliver(alpha[c].event()));
        } else if c == alpha.len() {
            ops.push(Op::Flush);
        } else {
            ops.push(Op::HangUp);
        }
    }
    ops.push(Op::Shutdown);
    (ops, specs)
}

fn answers(o: &mut Oracle) -> Res<()> {
    let (ops, specs) = sequence(o, o.pick(2, 3), &base()[..2], false);
    o.begin()?;
    go(o, ops, &specs, DEFAULTS[1], FATES.len(), o.pick(1, 2), 0)
}

/// Every status, once or twice in a row, before one that accepts.
fn codes(o: &mut Oracle) -> Res<()> {
    let code = 200 + o.choose(400);
    let times = 1 + o.choose(2);
    let body = o.choose_bool();
    o.begin()?;
    let specs = base();
    let ops = vec![
        Op::Deliver(specs[0].event()),
        Op::Flush,
        Op::Deliver(specs[1].event()),
        Op::Shutdown,
    ];
    let mut n = 0;
    let answer = move || {
        n += 1;
        if n > times {
            ("204".to_string(), act(0))
        } else if code == 204 || code == 205 || code == 304 || !body {
            (format!("code {}", code), Act::Say(reply(code as u32, "", b"")))
        } else {
            (format!("code {}", code), Act::Say(reply(code as u32, "Content-Type: application/json\r\n", b"{\"error\":\"e\"}")))
        }
    };
    go_with(o, ops, &specs[..2], DEFAULTS[0], 0, Box::new(answer))
}

/// Fewer kinds of answer, more of them bad.
fn failures(o: &mut Oracle) -> Res<()> {
    let (ops, specs) = sequence(o, o.pick(3, 4), &base()[..1], true);
    o.begin()?;
    go(o, ops, &specs, DEFAULTS[1], 4, o.pick(2, 3), 0)
}

fn connections(o: &mut Oracle) -> Res<()> {
    let (ops, specs) = sequence(o, o.pick(3, 4), &base()[..1], true);
    let budget = o.pick(2, 3);
    o.begin()?;
    go(o, ops, &specs, DEFAULTS[0], 1, 0, budget)
}

fn values(o: &mut Oracle) -> Res<()> {
    use std::f64::{EPSILON, INFINITY, MAX, MIN_POSITIVE, NAN, NEG_INFINITY};
    const VALS: [f64; 13] =
        [0.0, -0.0, 1.0, 1e-7, -12345.678, MAX, -MAX, MIN_POSITIVE, 5e-324, EPSILON, INFINITY, NEG_INFINITY, NAN];
    const TIMES: [i64; 8] = [0, 1, -1, 1_600_000_000, -9_223_372_036, 9_223_372_036, std::i64::MAX, std::i64::MIN];
    let d = DEFAULTS[o.choose(2)];
    let n = 1 + o.choose(2);
    let mut specs = base();
    for i in 0..n {
        let k = KINDS[o.choose(4)];
        let v = VALS[o.choose(13)];
        // how a summary orders these is its own affair
        if k == AggregationMethod::Summarize && v.is_nan() || k == AggregationMethod::Histogram && !v.is_finite() {
            return Err(Stop::Prune);
        }
        let t = *o.choose_from(&TIMES[..if n == 1 { 8 } else { o.pick(2, 4) }]);
        specs.push(spec(["x", "y"][i], k, &[v], &[("k", "v")], t));
    }
    let ops: Vec<Op> = specs.iter().map(|s| Op::Deliver(s.event())).chain(vec![Op::Flush, Op::Flush, Op::Shutdown]).collect();
    o.begin()?;
    go(o, ops, &specs, d, 1, 0, 0)
}

/// Names, keys and tag values of every short text over what matters.
fn text(o: &mut Oracle) -> Res<()> {
    const CHARS: [&str; 8] = ["a", " ", ",", "=", "\u{e9}", "\"", ".", "#"];
    let at = o.choose(4);
    let n = o.choose(o.pick(4, 5));
    let t: String = (0..n).map(|_| CHARS[o.choose(8)]).collect();
    let kind = KINDS[o.choose(4)];
    let d = DEFAULTS[o.choose(2)];
    // nothing to call it by; a comment
    if (at == 0 || at == 1) && (t.is_empty() || t.starts_with('#')) {
        return Err(Stop::Prune);
    }
    let mut s = spec("n", kind, &[2.0], &[("k", "v"), ("z", "w")], 7);
    match at {
        0 => s.name = t,
        1 => s.tags[1].0 = t,
        2 => s.tags[1].1 = t,
        _ => {
            s.tags[0].1 = t.clone();
            s.tags[1].1 = t;
        }
    }
    // its neighbours have nothing to do with it
    let specs =
        vec![s, spec("n", kind, &[2.5], &[("k", "v")], 8), spec("m", KINDS[(kind as usize + 1) % 4], &[3.0], &[], 9)];
    let mut ops: Vec<Op> = specs.iter().map(|s| Op::Deliver(s.event())).collect();
    ops.push(Op::Shutdown);
    o.begin()?;
    go(o, ops, &specs, d, 1, 0, 0)
}

/// Failures for a long time.
fn outage(o: &mut Oracle) -> Res<()> {
    let n = *o.choose_from(&[3usize, 9, 10, 40, 300]);
    let what = *o.choose_from(&["500", "400", "closed", "half an answer", "503 and close"]);
    o.begin()?;
    let k = FATES.iter().position(|f| *f == what).unwrap();
    let mut left = n;
    let s = site(
        PORT,
        0,
        Box::new(move |_| {
            let i = if left > 0 {
                left -= 1;
                k
            } else {
                0
            };
            (FATES[i].to_string(), act(i))
        }),
    );
    let specs = base();
    let mut ops: Vec<Op> = specs.iter().map(|s| Op::Deliver(s.event())).collect();
    ops.push(Op::Flush);
    ops.push(Op::Shutdown);
    let (r, seen) = drive::<InfluxDB, _>(o, config(&[]), ops, &s);
    o.step();
    must_end(&r, &format!("{} times {}", n, what))?;
    let site = s.0.borrow();
    o.state(&(n, what, site.requests.len()));
    let reqs = &site.requests[..seen[specs.len()].0];
    let last = reqs.last().map(|r| r.fate.clone());
    ensure!(
        last == Some("204".to_string()) && reqs.iter().filter(|r| accepted(&r.fate)).count() == 1,
        "lost",
        "{} times {}: {} requests, the last answered {:?}",
        n,
        what,
        reqs.len(),
        last
    );
    for r in reqs {
        if let Err(e) = check_body(&r.body, &specs, &[]) {
            return fail("body", format!("{} times {}: {}", n, what, e));
        }
    }
    Ok(())
}

fn valve(o: &mut Oracle) -> Res<()> {
    let n = *o.choose_from(&[99_999usize, 100_000, 100_001]);
    o.begin()?;
    let s = site(PORT, 0, Box::new(|_| ("204".to_string(), act(0))));
    let mut ops: Vec<Op> = (0..n)
        .map(|i| Op::Deliver(Event::Telemetry(point("n", AggregationMethod::Set, 1.0, i as i64, false, None))))
        .collect();
    ops.push(Op::Flush);
    ops.push(Op::Shutdown);
    let (r, seen) = drive::<InfluxDB, _>(o, config(&[]), ops, &s);
    o.step();
    must_end(&r, &format!("{} points", n))?;
    let site = s.0.borrow();
    o.state(&(n, site.requests.len()));
    for (i, (_, open)) in seen.iter().enumerate() {
        let held = if i < n { i + 1 } else { 0 };
        ensure!(*open == (held <= 100_000), "valve", "with {} points held the valve is {}", held, if *open { "open" } else { "closed" });
    }
    let lines = site.requests.iter().map(|r| r.body.iter().filter(|b| **b == b'\n').count()).sum::<usize>();
    ensure!(lines == n, "lost", "{} points, {} lines", n, lines);
    Ok(())
}
