//! C30: what the console sink prints, against a reference aggregation (that of C13).
use super::c13::{Key, Model, P};
use super::c17::rfc3339;
use super::c20::{Spec, Want};
use super::stage::{consume, must_end};
use super::util::*;
use super::web::Held;
use crate::engine::*;
use crate::sched::{self, Answer};
use cernan::metric::{AggregationMethod, Event, LogLine};
use cernan::sink::{Console, ConsoleConfig, Sink};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C30",
        scenarios: |_| {
            vec![
                Scenario { name: "kinds", run: kinds },
                Scenario { name: "several", run: several },
                Scenario { name: "values", run: values },
                Scenario { name: "lines", run: lines },
                Scenario { name: "queue", run: queue },
            ]
        },
        rule: "every sequence of deliveries and flushes from an alphabet up to a length, ended by a \
               flush or the stop, with the standard output taking all or a little of each write; the \
               sink alone, and behind its queue; states = contents of the reference buckets and lines",
        assumptions: &[
            "the standard output is open",
            "log lines, names and tags have no line breaks",
            "cernan's clock stands still during an execution",
            "few enough observations per point for a summary to keep each of them",
        ],
        level: "model_checking",
        hang_s: 30,
    }
}

type Out = Held<Vec<u8>>;

/// Take what goes to the standard output, so much of each write.
fn listen(most: usize) -> Out {
    let out = Held(Rc::new(RefCell::new(Vec::<u8>::new())));
    let o = out.clone();
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_WRITE && io.fd == 1 {
            let n = io.len.min(most);
            o.0.borrow_mut().extend_from_slice(&io.data[..n]);
            return Answer::Ret(n as isize);
        }
        Answer::Go
    })));
    out
}

#[derive(Clone, Debug)]
struct Line {
    path: &'static str,
    text: &'static str,
    time: i64,
    tags: &'static [(&'static str, &'static str)],
}

impl Line {
    fn log(&self) -> LogLine {
        let mut l = log(self.path, self.text, self.time);
        for (k, v) in self.tags {
            l.insert_tag(*k, *v);
        }
        l
    }
}

#[derive(Clone, Debug)]
enum Item {
    Point(Spec),
    Line(Line),
}

/// The parts of what a flush prints.
#[derive(Default, Debug)]
struct Print {
    lines: Vec<String>,
    sections: BTreeMap<String, Vec<String>>,
}

const SECTIONS: [&str; 4] = ["sums", "sets", "summaries", "histograms"];

/// A text of so many flushes.
fn parse(text: &str) -> Result<Vec<Print>, String> {
    let mut all: Vec<Print> = vec![];
    let mut metrics = false;
    let mut section: Option<String> = None;
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line does not end".to_string());
    }
    for l in text.split('\n').collect::<Vec<_>>().split_last().map_or(&[][..], |x| x.1) {
        if l.starts_with("Flushing lines: ") {
            all.push(Print::default());
            metrics = false;
            section = None;
            continue;
        }
        let p = all.last_mut().ok_or_else(|| format!("{:?} before any heading", l))?;
        if l.starts_with("Flushing metrics: ") {
            metrics = true;
            continue;
        }
        if !metrics {
            p.lines.push(l.to_string());
            continue;
        }
        let heading = SECTIONS.iter().find(|s| **l == format!("  {}:", s));
        if let Some(h) = heading {
            if p.sections.insert(h.to_string(), vec![]).is_some() {
                return Err(format!("{} twice", h));
            }
            section = Some(h.to_string());
        } else {
            let s = section.clone().ok_or_else(|| format!("{:?} in no section", l))?;
            p.sections.get_mut(&s).unwrap().push(l.trim().to_string());
        }
    }
    Ok(all)
}

/// What is printed of a line: its beginning, and its tags in any order.
fn shown(l: &Line, defaults: &[(&str, &str)]) -> (String, Vec<String>) {
    let mut tags: BTreeMap<&str, &str> = defaults.iter().cloned().collect();
    tags.extend(l.tags.iter().cloned());
    let time = rfc3339(l.time).replace("+00:00", ".000Z");
    (
        format!("{} {}: {}", time, l.path, l.text),
        tags.iter().map(|(k, v)| format!("{}={}", k, v)).collect(),
    )
}

fn is_shown(got: &str, l: &Line, defaults: &[(&str, &str)]) -> bool {
    let (begin, mut tags) = shown(l, defaults);
    if !got.starts_with(&begin) {
        return false;
    }
    let rest = &got[begin.len()..];
    if !rest.is_empty() && !rest.starts_with(' ') {
        return false;
    }
    let mut w: Vec<&str> = rest.split(' ').skip(1).collect();
    w.sort();
    tags.sort();
    w == tags
}

struct Ref {
    m: Model,
    lines: Vec<Line>,
    defaults: &'static [(&'static str, &'static str)],
}

impl Ref {
    fn new(width: i64, defaults: &'static [(&'static str, &'static str)]) -> Ref {
        Ref { m: Model { width, series: vec![] }, lines: vec![], defaults }
    }
    fn deliver(&mut self, it: &Item) {
        match it {
            Item::Point(s) => {
                let mut tags: Vec<(String, String)> =
                    s.tags.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
                tags.sort();
                let key: Key = (s.name.to_string(), tags);
                self.m.add(key, P { ts: s.time(), persist: s.persist, v: s.val() });
            }
            Item::Line(l) => self.lines.push(l.clone()),
        }
    }
    fn flush(&mut self, p: &Print) -> Result<(), String> {
        let mut lines = p.lines.clone();
        if lines.len() != self.lines.len() {
            return Err(format!("{} lines, not {}", lines.len(), self.lines.len()));
        }
        // in order
        for (got, l) in lines.drain(..).zip(&self.lines) {
            if !is_shown(&got, l, self.defaults) {
                return Err(format!("{:?} is not {:?}", got, l));
            }
        }
        self.lines.clear();
        let mut left = p.sections.clone();
        for s in &SECTIONS {
            if !left.contains_key(*s) {
                return Err(format!("there is no section of {}", s));
            }
        }
        let mut take = |section: &str, begin: String, want: Want| -> Result<(), String> {
            let v = left.get_mut(section).unwrap();
            let at = v.iter().position(|l| {
                l.starts_with(&begin) && l[begin.len()..].parse().ok().map_or(false, |x: f64| want.met(x))
            });
            match at {
                Some(i) => {
                    v.remove(i);
                    Ok(())
                }
                None => Err(format!("no right {:?} among what is left of the {}, {:?}", begin, section, v)),
            }
        };
        for (key, points) in &self.m.series {
            for p in points {
                match &p.v {
                    Val::Set(x) => take("sets", format!("{}({}): ", key.0, p.ts), Want::Is(*x))?,
                    Val::Sum(x) => take("sums", format!("{}({}): ", key.0, p.ts), Want::Is(*x))?,
                    Val::Hist { bounds, counts, .. } => {
                        for (i, n) in counts.iter().enumerate() {
                            let b = bounds.get(i).map_or("pos_inf".to_string(), |b| b.to_string());
                            take("histograms", format!("{}_{}({}): ", key.0, b, p.ts), Want::Is(*n as f64))?;
                        }
                    }
                    Val::Summary { vals, .. } => {
                        for (n, q) in
                            &[("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)]
                        {
                            take("summaries", format!("{}: {} ", key.0, n), Want::Rank(*q, vals.clone()))?;
                        }
                    }
                }
            }
        }
        for (s, v) in &left {
            if let Some(l) = v.first() {
                return Err(format!("{:?} has no business among the {}", l, s));
            }
        }
        self.m.reset(cernan::time::now());
        Ok(())
    }
    fn show(&self) -> String {
        format!("{:?} {:?}", self.m.series, self.lines)
    }
}

fn config(width: i64, defaults: &[(&str, &str)]) -> ConsoleConfig {
    ConsoleConfig {
        bin_width: width,
        tags: tagmap(defaults),
        flush_interval: 2,
        config_path: Some("sinks.console".to_string()),
    }
}

fn deliver(c: &mut Console, it: &Item) {
    match it {
        Item::Point(s) => c.deliver(s.telem()),
        Item::Line(l) => c.deliver_line(l.log()),
    }
}

fn history(
    o: &mut Oracle,
    width: i64,
    defaults: &'static [(&'static str, &'static str)],
    items: &[Item],
    ops: &[Option<usize>],
    most: usize,
) -> Res<()> {
    sched::vclock(true);
    let out = listen(most);
    let mut r = Ref::new(width, defaults);
    let mut c = Some(Console::init(config(width, defaults)));
    let end = ops.len() - 1;
    for (i, op) in ops.iter().enumerate() {
        o.step();
        match op {
            Some(k) => {
                deliver(c.as_mut().unwrap(), &items[*k]);
                r.deliver(&items[*k]);
            }
            None => {
                out.0.borrow_mut().clear();
                if i == end {
                    c.take().unwrap().shutdown();
                } else {
                    c.as_mut().unwrap().flush();
                }
                let text = String::from_utf8_lossy(&out.0.borrow()).into_owned();
                o.note(|| format!("{:?}: {:?}", &ops[..=i], text));
                let before = r.show();
                let ok = parse(&text).and_then(|p| match &p[..] {
                    [p] => r.flush(p),
                    p => Err(format!("it printed {} times", p.len())),
                });
                if let Err(e) = ok {
                    sched::set_io(None);
                    return fail(
                        "print",
                        format!(
                            "bin width {}, tags {:?}, {:?}: the flush printed {:?}: {}; held before it: {}",
                            width,
                            defaults,
                            ops[..=i].iter().map(|x| x.map(|k| &items[k])).collect::<Vec<_>>(),
                            text,
                            e,
                            before
                        ),
                    );
                }
            }
        }
        o.state(&r.show());
    }
    sched::set_io(None);
    Ok(())
}

/// None is a flush.
fn sequence(o: &mut Oracle, len: usize, alpha: usize) -> Vec<Option<usize>> {
    let mut ops = vec![];
    let n = o.choose(len + 1);
    for _ in 0..n {
        let c = o.choose(alpha + 1);
        ops.push(if c == alpha { None } else { Some(c) });
    }
    ops.push(None);
    ops
}

fn spec(name: &'static str, kind: AggregationMethod, values: &'static [f64], ts: i64) -> Spec {
    Spec { name, kind, values, tags: &[], ts, persist: false }
}

/// Every kind, persistent or not.
fn kinds(o: &mut Oracle) -> Res<()> {
    let mut items = vec![];
    for (i, k) in KINDS.iter().enumerate() {
        for (persist, ts) in &[(false, -20), (true, -16), (false, -15)] {
            let values: &'static [f64] = [&[3.0][..], &[20.0, 0.5], &[700.0, 41.0, 4.0], &[0.5, 101.0]][i];
            items.push(Item::Point(Spec { persist: *persist, ..spec("a", *k, values, *ts) }));
        }
    }
    items.push(Item::Line(Line { path: "p", text: "x", time: 0, tags: &[] }));
    let width = *o.choose_from(&[1, 3]);
    let d = o.pick(5, 6);
    let ops = sequence(o, d, items.len());
    o.begin()?;
    history(o, width, &[], &items, &ops, std::usize::MAX)
}

/// Several series and lines next to one another.
fn several(o: &mut Oracle) -> Res<()> {
    let mut items = vec![];
    for (name, tags) in &[("a", &[][..]), ("a", &[("k", "v")]), ("b", &[][..])] {
        for ts in &[-40, -30] {
            items.push(Item::Point(Spec { tags, ..spec(name, AggregationMethod::Sum, &[4.0], *ts) }));
        }
    }
    items.push(Item::Line(Line { path: "p", text: "x", time: 0, tags: &[] }));
    items.push(Item::Line(Line { path: "q", text: "", time: 1_500_000_000, tags: &[("k", "v"), ("s", "own")] }));
    let most = *o.choose_from(&[std::usize::MAX, 1, 5]);
    let d = o.pick(5, 6);
    let ops = sequence(o, d, items.len());
    o.begin()?;
    history(o, 1, &[("s", "default"), ("t", "u")], &items, &ops, most)
}

/// Every number and time.
fn values(o: &mut Oracle) -> Res<()> {
    use std::f64::{INFINITY, MAX, NAN, NEG_INFINITY};
    const VALS: [&[f64]; 9] =
        [&[0.0], &[-0.0], &[1e-7], &[-12345.678], &[MAX], &[5e-324], &[INFINITY], &[NEG_INFINITY], &[NAN]];
    let kind = *o.choose_from(&[AggregationMethod::Set, AggregationMethod::Sum]);
    let mut items = vec![];
    for (i, v) in VALS.iter().enumerate() {
        let name = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"][i];
        items.push(Item::Point(spec(name, kind, v, if i == 3 { std::i64::MAX } else { -(i as i64) })));
    }
    let d = o.pick(4, 5);
    let ops = sequence(o, d, items.len());
    o.begin()?;
    history(o, 1, &[], &items, &ops, std::usize::MAX)
}

/// Every text, time and overlay of tags.
fn lines(o: &mut Oracle) -> Res<()> {
    const TEXTS: [&str; 5] = ["x", "", " y  z ", "\u{e9}\u{1f600}\u{0}\t\"", "Flushing:  sums:"];
    const TIMES: [i64; 5] = [0, -1, 951_782_400, 253_402_300_799, 1_500_000_000];
    const TAGS: [&[(&str, &str)]; 4] = [&[], &[("k", "own")], &[("k", ""), ("j", "1")], &[("s", "own"), ("k", "own")]];
    let defaults: &'static [(&str, &str)] = *o.choose_from(&[&[][..], &[("k", "d")], &[("k", "d"), ("s", "e")]]);
    let mut items = vec![];
    for _ in 0..2 {
        items.push(Item::Line(Line {
            path: *o.choose_from(&["p", "/var/log/a b"]),
            text: *o.choose_from(&TEXTS),
            time: *o.choose_from(&TIMES),
            tags: *o.choose_from(&TAGS),
        }));
    }
    let flush = o.choose_bool();
    o.begin()?;
    let ops = if flush { vec![Some(0), None, Some(1), Some(0), None] } else { vec![Some(0), Some(1), Some(0), None] };
    history(o, 1, defaults, &items, &ops, std::usize::MAX)
}

/// Behind the queue: flushes at the pulses that are due, and at the stop.
fn queue(o: &mut Oracle) -> Res<()> {
    let items = [
        Item::Point(spec("a", AggregationMethod::Sum, &[1.0], -3)),
        Item::Line(Line { path: "p", text: "x", time: 7, tags: &[] }),
    ];
    let mut input = vec![];
    let mut r = Ref::new(1, &[]);
    let mut refs = vec![];
    let mut at = 0;
    let n = o.choose(o.pick(7, 9));
    for _ in 0..n {
        let c = o.choose(5);
        match c {
            0 | 1 => {
                input.push(match &items[c] {
                    Item::Point(s) => Event::new_telemetry(s.telem()),
                    Item::Line(l) => Event::new_log(l.log()),
                });
                refs.push(Some(c));
            }
            // a pulse over again, the next one, the one after it
            _ => {
                let idx = at + c as u64 - 2;
                input.push(Event::TimerFlush(idx));
                if idx > at {
                    at = idx;
                    if idx % 2 == 0 {
                        refs.push(None);
                    }
                }
            }
        }
    }
    input.push(Event::Shutdown);
    refs.push(None);
    o.begin()?;
    o.step();
    o.note(|| format!("{:?}", show_events(&input)));
    let out = listen(std::usize::MAX);
    let run = consume::<Console, _>(o, &input, 1, config(1, &[]));
    sched::set_io(None);
    must_end(&run, "the console sink")?;
    let text = String::from_utf8_lossy(&out.0.borrow()).into_owned();
    let prints = match parse(&text) {
        Ok(p) => p,
        Err(e) => return fail("print", format!("{:?} printed {:?}: {}", show_events(&input), text, e)),
    };
    let due = refs.iter().filter(|r| r.is_none()).count();
    ensure!(
        prints.len() == due,
        "times",
        "{:?} printed {} times, not {}: {:?}",
        show_events(&input),
        prints.len(),
        due,
        text
    );
    let mut p = prints.iter();
    for op in &refs {
        match op {
            Some(k) => r.deliver(&items[*k]),
            None => {
                if let Err(e) = r.flush(p.next().unwrap()) {
                    return fail("print", format!("{:?} printed {:?}: {}", show_events(&input), text, e));
                }
            }
        }
        o.state(&r.show());
    }
    Ok(())
}
