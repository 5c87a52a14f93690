//! C24: the Elasticsearch sink against an HTTP server the harness plays.
use super::stage::must_end;
use super::util::*;
use super::web::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::Event;
use cernan::sink::{Elasticsearch, ElasticsearchConfig};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C24",
        scenarios: |_| {
            vec![
                Scenario { name: "items", run: items },
                Scenario { name: "odd-items", run: odd_items },
                Scenario { name: "requests", run: requests },
                Scenario { name: "connections", run: connections },
                Scenario { name: "limit", run: limit },
                Scenario { name: "documents", run: documents },
                Scenario { name: "valve", run: valve },
            ]
        },
        rule: "every sequence of deliveries and flushes up to a length, ended by a flush and the stop, with \
               every fate of every line of every request, every fate of requests and every placement of \
               connection faults up to a number of them; states = (lines held with their failures, requests)",
        assumptions: &[
            "the private network delivers bytes in order",
            "a tag or field named like one of the document's own keys is outside the property",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

pub const PORT: u16 = 9200;

#[derive(Clone, Debug, PartialEq)]
struct Spec {
    path: String,
    value: String,
    time: i64,
    tags: Vec<(String, String)>,
    fields: Vec<(String, String)>,
}

fn pairs(p: &[(&str, &str)]) -> Vec<(String, String)> {
    p.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect()
}

fn spec(path: &str, value: &str, time: i64, tags: &[(&str, &str)], fields: &[(&str, &str)]) -> Spec {
    Spec { path: path.to_string(), value: value.to_string(), time, tags: pairs(tags), fields: pairs(fields) }
}

impl Spec {
    fn event(&self) -> Event {
        let mut l = log(&self.path, &self.value, self.time);
        for (k, v) in &self.tags {
            l = l.overlay_tag(k.as_str(), v.as_str());
        }
        for (k, v) in &self.fields {
            l = l.insert_field(k.as_str(), v.as_str());
        }
        Event::Log(l)
    }
}

/// Year, month, day, seconds of the day.
fn civil(t: i64) -> (i64, i64, i64, i64) {
    let days = t.div_euclid(86_400);
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1, t.rem_euclid(86_400))
}

/// A document as it was submitted.
#[derive(Clone, Debug)]
pub struct Doc {
    index: String,
    ty: String,
    pub id: String,
    body: BTreeMap<String, String>,
}

fn text<'a>(v: &'a Value, k: &str) -> Result<&'a str, String> {
    v.get(k).and_then(|x| x.as_str()).ok_or_else(|| format!("{} lacks {}", v, k))
}

pub fn docs(body: &[u8]) -> Result<Vec<Doc>, String> {
    let s = std::str::from_utf8(body).map_err(|_| "not text".to_string())?;
    if !s.ends_with('\n') {
        return Err("the last line does not end".to_string());
    }
    let lines: Vec<&str> = s[..s.len() - 1].split('\n').collect();
    if lines.len() % 2 != 0 {
        return Err("an odd number of lines".to_string());
    }
    let mut out: Vec<Doc> = vec![];
    for l in lines.chunks(2) {
        let parse = |s: &str| serde_json::from_str::<Value>(s).map_err(|e| format!("{:?}: {}", s, e));
        let (h, d) = (parse(l[0])?, parse(l[1])?);
        let h = h.get("index").ok_or_else(|| format!("{} is no index action", h))?;
        let mut b = BTreeMap::new();
        for (k, v) in d.as_object().ok_or_else(|| format!("{} is no document", d))? {
            b.insert(k.clone(), v.as_str().ok_or_else(|| format!("{} is no text", v))?.to_string());
        }
        let doc = Doc {
            index: text(h, "_index")?.to_string(),
            ty: text(h, "_type")?.to_string(),
            id: text(h, "_id")?.to_string(),
            body: b,
        };
        if out.iter().any(|x| x.id == doc.id) {
            return Err(format!("{} twice", doc.id));
        }
        out.push(doc);
    }
    Ok(out)
}

#[derive(Clone, Debug)]
struct Set {
    prefix: Option<String>,
    ty: String,
    limit: u8,
    tags: Vec<(String, String)>,
}

fn set(limit: u8) -> Set {
    Set { prefix: None, ty: "payload".to_string(), limit, tags: vec![] }
}

/// Does this document tell that line?
fn is(d: &Doc, s: &Spec, c: &Set) -> bool {
    let mut b = d.body.clone();
    let mut want: BTreeMap<String, String> = c.tags.iter().cloned().collect();
    want.extend(s.tags.iter().cloned());
    want.extend(s.fields.iter().cloned());
    want.insert("uuid".to_string(), d.id.clone());
    want.insert("path".to_string(), s.path.clone());
    want.insert("payload".to_string(), s.value.clone());
    let ts = match b.remove("timestamp") {
        Some(t) => t,
        None => return false,
    };
    if b != want || d.ty != c.ty {
        return false;
    }
    let pre = c.prefix.as_ref().map_or(String::new(), |p| format!("{}-", p));
    if !d.index.starts_with(&pre) {
        return false;
    }
    let (y, m, day, s) = civil(s.time.max(-8_000_000_000_000).min(8_000_000_000_000));
    if y < 0 || y > 9999 {
        return true;
    }
    let date = format!("{:04}-{:02}-{:02}", y, m, day);
    let at = format!("{}T{:02}:{:02}:{:02}", date, s / 3600, s / 60 % 60, s % 60);
    d.index[pre.len()..] == date
        && ts.starts_with(&at)
        && ["Z", "+00:00"].iter().any(|e| ts[at.len()..].trim_start_matches(|c| c == '.' || c == '0') == e.trim_start_matches('0'))
}

// ---- the server ---------------------------------------------------------------

/// What becomes of each line of a request, and what else the answer tells.
#[derive(Clone, Debug, PartialEq)]
struct Fate {
    /// the request fails as a whole
    whole: Option<&'static str>,
    /// ok, error, not told
    each: Vec<usize>,
    odd: usize,
    reversed: bool,
}

const WHOLE: [&str; 10] = [
    "500", "closed", "half an answer", "no JSON", "503 and close", "429", "{}", "404 with an error", "400", "nothing",
];
const ODD: [&str; 8] = [
    "nothing", "an unknown id ok", "an unknown id failed", "no uuid ok", "no uuid failed", "each twice",
    "an empty id ok", "an item of two actions",
];

pub fn item(id: &str, ok: bool) -> Value {
    let mut v = json!({"_index": "i", "_type": "payload", "_id": id, "status": if ok { 201 } else { 400 }});
    if ok {
        v["_version"] = json!(1);
        v["created"] = json!(true);
        v["_shards"] = json!({"total": 2, "successful": 1, "failed": 0});
    } else {
        v["error"] = json!({"type": "mapper_parsing_exception", "reason": "failed to parse"});
    }
    json!({ "index": v })
}

fn answer(f: &Fate, ids: &[String]) -> Act {
    match f.whole {
        None => {}
        Some("500") => return Act::Say(reply(500, "", b"")),
        Some("closed") => return Act::Close,
        Some("half an answer") => return Act::SayAndClose(b"HTTP/1.1 200 OK\r\nContent-Length: 90\r\n\r\n{\"took\"".to_vec()),
        Some("no JSON") => return Act::Say(reply(200, "", b"<html>")),
        Some("503 and close") => return Act::SayAndClose(reply(503, "Connection: close\r\n", b"x")),
        Some("429") => return Act::Say(reply(429, "", b"{\"error\":\"busy\",\"status\":429}")),
        Some("{}") => return Act::Say(reply(200, "", b"{}")),
        Some("404 with an error") => {
            let e = json!({"error": {"type": "index_not_found_exception", "reason": "no", "index": "i"}, "status": 404});
            return Act::Say(reply(404, "Content-Type: application/json\r\n", e.to_string().as_bytes()));
        }
        Some("400") => {
            let e = json!({"error": {"type": "parse_exception", "reason": "no", "line": 1, "col": 1}, "status": 400});
            return Act::Say(reply(400, "Content-Type: application/json\r\n", e.to_string().as_bytes()));
        }
        _ => return Act::Silence,
    }
    let mut items = vec![];
    for (id, e) in ids.iter().zip(&f.each) {
        if *e < 2 {
            items.push(item(id, *e == 0));
            if f.odd == 5 && *e == 0 {
                items.push(item(id, true));
            }
        }
    }
    let other = "00000000-0000-4000-8000-000000000000";
    match f.odd {
        1 | 2 => items.insert(0, item(other, f.odd == 1)),
        3 | 4 => items.insert(0, item("AV-x", f.odd == 3)),
        6 => items.insert(0, item("", true)),
        7 => {
            let mut two = item(other, true);
            two["create"] = two["index"].clone();
            items.insert(0, two);
        }
        _ => {}
    }
    if f.reversed {
        items.reverse();
    }
    let b = json!({"took": 3, "errors": f.each.contains(&1), "items": items});
    Act::Say(reply(200, "Content-Type: application/json\r\n", b.to_string().as_bytes()))
}

/// Decides about a request of n lines.
type Decide = Box<dyn FnMut(usize) -> Fate>;

fn fine(n: usize) -> Fate {
    Fate { whole: None, each: vec![0; n], odd: 0, reversed: false }
}

#[derive(Clone, Debug, PartialEq)]
struct Held {
    spec: Spec,
    id: Option<String>,
    failures: u32,
}

/// What is held if the request had these documents; nothing if it cannot have.
fn recognise(held: &[Held], docs: &[Doc], c: &Set) -> Option<Vec<Held>> {
    let mut out = held.to_vec();
    let mut used = vec![false; docs.len()];
    // those submitted before have ids
    for old in &[true, false] {
        for h in &mut out {
            if h.id.is_some() != *old {
                continue;
            }
            let at = docs.iter().enumerate().position(|(i, d)| {
                !used[i] && h.id.as_ref().map_or(true, |id| *id == d.id) && is(d, &h.spec, c)
            })?;
            used[at] = true;
            h.id = Some(docs[at].id.clone());
        }
    }
    if used.iter().all(|u| *u) {
        Some(out)
    } else {
        None
    }
}

fn after(held: &[Held], f: &Fate, docs: &[Doc], c: &Set) -> Vec<Held> {
    if f.whole.is_some() || f.odd == 7 {
        return held.to_vec();
    }
    let mut out = vec![];
    for h in held {
        let i = docs.iter().position(|d| Some(&d.id) == h.id.as_ref());
        match i.map(|i| f.each[i]) {
            Some(0) => {}
            Some(1) => {
                let mut h = h.clone();
                h.failures += 1;
                if h.failures <= u32::from(c.limit) {
                    out.push(h);
                }
            }
            _ => out.push(h.clone()),
        }
    }
    out
}

fn go(o: &mut Oracle, ops: Vec<Op>, specs: &[Spec], c: &Set, decide: Decide, budget: usize) -> Res<()> {
    let mut decide = decide;
    let told: super::web::Held<Vec<Fate>> = super::web::Held(std::rc::Rc::new(std::cell::RefCell::new(vec![])));
    let told2 = told.clone();
    let s = site(
        PORT,
        budget,
        Box::new(move |r| {
            let ids: Vec<String> = docs(&r.body).map(|d| d.into_iter().map(|d| d.id).collect()).unwrap_or_default();
            let f = decide(ids.len());
            told2.0.borrow_mut().push(f.clone());
            (format!("{:?}", f), answer(&f, &ids))
        }),
    );
    let cfg = ElasticsearchConfig {
        config_path: Some("sinks.elasticsearch".to_string()),
        index_prefix: c.prefix.clone(),
        index_type: c.ty.clone(),
        secure: false,
        delivery_attempt_limit: c.limit,
        host: "127.0.0.1".to_string(),
        port: PORT as usize,
        flush_interval: 1,
        tags: c.tags.iter().cloned().collect(),
    };
    let (r, seen) = drive::<Elasticsearch, _>(o, cfg, ops.clone(), &s);
    let site = s.0.borrow();
    let told = told.0.borrow();
    let hist = format!(
        "{:?}, limit {}, answers {:?}, faults {:?}",
        ops.iter()
            .map(|x| match x {
                Op::Deliver(e) => show_event(e),
                x => format!("{:?}", x),
            })
            .collect::<Vec<_>>(),
        c.limit,
        told,
        site.faults
    );
    o.note(|| hist.clone());
    must_end(&r, &hist)?;
    // with faults there may be several things it may hold
    let mut may: Vec<Vec<Held>> = vec![vec![]];
    let mut specs = specs.iter();
    let mut from = 0;
    for (i, op) in ops.iter().enumerate() {
        o.step();
        let to = seen[i].0;
        let reqs = &site.requests[from..to];
        o.state(&(
            may.iter().map(|h| h.iter().map(|h| (h.spec.value.clone(), h.failures)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            to,
            seen[i].1,
        ));
        match op {
            Op::Deliver(_) => {
                if let Some(s) = specs.next() {
                    for m in &mut may {
                        m.push(Held { spec: s.clone(), id: None, failures: 0 });
                    }
                }
                ensure!(reqs.is_empty(), "untimely", "{}: something was sent outside a flush", hist);
            }
            Op::HangUp => {}
            _ => {
                ensure!(reqs.len() <= 1, "repeated", "{}: flush {} made {} requests", hist, i, reqs.len());
                if reqs.is_empty() {
                    if site.faults.is_empty() {
                        may.retain(|m| m.is_empty());
                        ensure!(!may.is_empty(), "lost", "{}: flush {} submitted nothing", hist, i);
                    }
                    from = to;
                    continue;
                }
                let r = &reqs[0];
                ensure!(r.method == "POST" && r.target == "/_bulk", "request", "{}: {} {}", hist, r.method, r.target);
                let body = String::from_utf8_lossy(&r.body).into_owned();
                let d = match docs(&r.body) {
                    Ok(d) => d,
                    Err(e) => return fail("body", format!("{}: flush {} sent {:?}: {}", hist, i, body, e)),
                };
                let known: Vec<Vec<Held>> = may.iter().filter_map(|m| recognise(m, &d, c)).filter(|m| !m.is_empty()).collect();
                ensure!(
                    !known.is_empty(),
                    "submitted",
                    "{}: flush {} sent {:?} and ought to hold {:?}",
                    hist,
                    i,
                    body,
                    may
                );
                let f = &told[from];
                may = vec![];
                for m in known {
                    let a = after(&m, f, &d, c);
                    // the answer may not have come through
                    if site.faults.iter().any(|x| x.starts_with("read")) && a != m && !may.contains(&m) {
                        may.push(m.clone());
                    }
                    if !may.contains(&a) {
                        may.push(a);
                    }
                }
            }
        }
        ensure!(seen[i].1, "valve", "{}: closed", hist);
        from = to;
    }
    Ok(())
}

fn base() -> Vec<Spec> {
    vec![
        spec("/a", "one", 1_000_000_000, &[("k", "v")], &[("f", "g")]),
        spec("/a", "two", 1_000_086_399, &[], &[]),
        spec("/b", "one", 0, &[], &[("f", "h")]),
    ]
}

fn ops_of(specs: &[Spec], flushes: usize) -> Vec<Op> {
    let mut ops: Vec<Op> = specs.iter().map(|s| Op::Deliver(s.event())).collect();
    for _ in 0..flushes {
        ops.push(Op::Flush);
    }
    ops.push(Op::Shutdown);
    ops
}

/// Every fate of every line of every request.
fn items(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3);
    let flushes = 1 + o.choose(o.pick(2, 3));
    let late = o.choose(2);
    let c = set(*o.choose_from(&[0, 1, 2]));
    let mut specs = base()[..n].to_vec();
    let mut ops: Vec<Op> = specs.iter().map(|s| Op::Deliver(s.event())).collect();
    for i in 0..flushes {
        ops.push(Op::Flush);
        if late == 1 && i == 0 {
            specs.push(base()[0].clone());
            ops.push(Op::Deliver(base()[0].event()));
        }
    }
    ops.push(Op::Shutdown);
    o.begin()?;
    let decide: Decide = Box::new(|n| Fate {
        whole: None,
        each: (0..n).map(|_| sched::decide(3)).collect(),
        odd: 0,
        reversed: sched::decide(if n > 1 { 2 } else { 1 }) == 1,
    });
    let mut left = flushes;
    let mut decide2 = decide;
    go(
        o,
        ops,
        &specs,
        &c,
        Box::new(move |n| {
            // the last request only tells what was held
            if left == 0 {
                return fine(n);
            }
            left -= 1;
            decide2(n)
        }),
        0,
    )
}

/// Answers that tell of lines nobody asked about, or tell twice.
fn odd_items(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(o.pick(2, 3));
    let c = set(*o.choose_from(&[0, 1]));
    let specs = base()[..n].to_vec();
    let ops = ops_of(&specs, 2);
    let mut left = if n == 1 { 2 } else { o.pick(1, 2) };
    o.begin()?;
    go(
        o,
        ops,
        &specs,
        &c,
        Box::new(move |n| {
            if left == 0 {
                return fine(n);
            }
            left -= 1;
            Fate {
                whole: None,
                each: (0..n).map(|_| sched::decide(3)).collect(),
                odd: sched::decide(ODD.len()),
                reversed: sched::decide(2) == 1,
            }
        }),
        0,
    )
}

/// Requests that fail as a whole, between others.
fn requests(o: &mut Oracle) -> Res<()> {
    let len = o.pick(3, 4);
    let n = o.choose(len + 1);
    let mut ops = vec![];
    let mut specs = vec![];
    for _ in 0..n {
        if o.choose(2) == 0 {
            let s = base()[specs.len() % 2].clone();
            ops.push(Op::Deliver(s.event()));
            specs.push(s);
        } else {
            ops.push(Op::Flush);
        }
    }
    ops.push(Op::Flush);
    ops.push(Op::Shutdown);
    let c = set(*o.choose_from(&[0, 1]));
    let (mut whole, mut bad) = (o.pick(2, 3), o.pick(1, 2));
    o.begin()?;
    go(
        o,
        ops,
        &specs,
        &c,
        Box::new(move |n| {
            let mut f = fine(n);
            if whole > 0 {
                let k = sched::decide(WHOLE.len() + 1);
                if k > 0 {
                    whole -= 1;
                    f.whole = Some(WHOLE[k - 1]);
                    return f;
                }
            }
            if bad > 0 && sched::decide(2) == 1 {
                bad -= 1;
                f.each[0] = 1;
            }
            f
        }),
        0,
    )
}

fn connections(o: &mut Oracle) -> Res<()> {
    let specs = base()[..1 + o.choose(2)].to_vec();
    let flushes = 1 + o.choose(o.pick(2, 3));
    let c = set(1);
    let budget = o.pick(2, 3);
    let mut bad = 1;
    o.begin()?;
    go(
        o,
        ops_of(&specs, flushes),
        &specs,
        &c,
        Box::new(move |n| {
            let mut f = fine(n);
            if bad > 0 && sched::decide(2) == 1 {
                bad -= 1;
                f.each[0] = 1;
            }
            f
        }),
        budget,
    )
}

/// A line that never makes it, beside others.
fn limit(o: &mut Oracle) -> Res<()> {
    let l = *o.choose_from(&[0u8, 1, 2, 9, 10, 127, 128, 254, 255]);
    let n = 1 + o.choose(3);
    let which = o.choose(n);
    // what becomes of the others the first time
    let other = o.choose(3);
    let specs = base()[..n].to_vec();
    let ops = ops_of(&specs, usize::from(l) + 3);
    let mut first = true;
    o.begin()?;
    go(
        o,
        ops,
        &specs,
        &set(l),
        Box::new(move |m| {
            let mut f = fine(m);
            if first {
                first = false;
                f.each = vec![other; m];
                f.each[which] = 1;
                return f;
            }
            // every one that is left fails
            f.each = vec![1; m];
            f
        }),
        0,
    )
}

/// Documents of every line.
fn documents(o: &mut Oracle) -> Res<()> {
    const CHARS: [&str; 9] = ["a", " ", "\"", "\\", "\n", "\u{e9}", "\u{1}", "{", "\u{1f600}"];
    const TIMES: [i64; 14] = [
        0, -1, 1, 86_399, 86_400, 951_782_400, 951_868_799, 1_709_164_800, 4_107_542_399, 253_402_300_799,
        253_402_300_800, -62_135_596_801, std::i64::MAX, std::i64::MIN,
    ];
    let mut c = set(1);
    let mut s = spec("/p", "v", 1_234_567_890, &[("k", "v")], &[("f", "g")]);
    let at = o.choose(7);
    if at == 6 {
        s.time = *o.choose_from(&TIMES);
        s.tags.truncate(o.choose(2));
        s.fields.truncate(o.choose(2));
        c.prefix = [None, Some("pre".to_string()), Some("".to_string())][o.choose(3)].clone();
        c.ty = ["payload", "t"][o.choose(2)].to_string();
        c.tags = [pairs(&[]), pairs(&[("k", "d")]), pairs(&[("k", "d"), ("z", "y")])][o.choose(3)].clone();
    } else {
        let n = o.choose(o.pick(4, 5));
        let t: String = (0..n).map(|_| CHARS[o.choose(9)]).collect();
        match at {
            0 => s.path = t,
            1 => s.value = t,
            2 => s.tags[0].0 = t,
            3 => s.tags[0].1 = t,
            4 => s.fields[0].0 = format!("x{}", t),
            _ => s.fields[0].1 = t,
        }
    }
    let specs = vec![s, base()[1].clone()];
    let ops = ops_of(&specs, 0);
    o.begin()?;
    go(o, ops, &specs, &c, Box::new(fine), 0)
}

fn valve(o: &mut Oracle) -> Res<()> {
    let n = *o.choose_from(&[9_999usize, 10_000, 10_001]);
    let lost = o.choose(2);
    o.begin()?;
    let mut left = lost;
    let s = site(
        PORT,
        0,
        Box::new(move |r| {
            let ids: Vec<String> = docs(&r.body).map(|d| d.into_iter().map(|d| d.id).collect()).unwrap_or_default();
            let mut f = fine(ids.len());
            if left > 0 {
                left -= 1;
                f.whole = Some("500");
            }
            (String::new(), answer(&f, &ids))
        }),
    );
    let l = spec("/a", "one", 5, &[], &[]);
    let mut ops: Vec<Op> = (0..n).map(|_| Op::Deliver(l.event())).collect();
    ops.extend((0..=lost).map(|_| Op::Flush));
    ops.push(Op::Shutdown);
    let cfg = ElasticsearchConfig { port: PORT as usize, ..Default::default() };
    let (r, seen) = drive::<Elasticsearch, _>(o, cfg, ops, &s);
    o.step();
    must_end(&r, &format!("{} lines", n))?;
    let site = s.0.borrow();
    o.state(&(n, lost, site.requests.len()));
    for (i, (_, open)) in seen.iter().enumerate() {
        let held = if i < n { i + 1 } else if i < n + lost { n } else { 0 };
        ensure!(*open == (held <= 10_000), "valve", "with {} lines held the valve is {}", held, if *open { "open" } else { "closed" });
    }
    for r in &site.requests {
        let k = docs(&r.body).map(|d| d.len()).unwrap_or(0);
        ensure!(k == n, "submitted", "{} lines, {} submitted", n, k);
    }
    Ok(())
}
