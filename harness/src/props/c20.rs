//! C20: what the Wavefront sink writes, flush by flush, against a reference
//! aggregation (that of C13) and the rules of padding.
use super::c07::Peer;
use super::c13::{Key, Model, P};
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::wavefront::PadControl;
use cernan::sink::{Sink, Wavefront, WavefrontConfig};
use std::collections::{BTreeMap, BTreeSet};

pub fn property() -> Property {
    Property {
        id: "C20",
        scenarios: |_| {
            vec![
                Scenario { name: "kinds", run: kinds },
                Scenario { name: "gaps", run: gaps },
                Scenario { name: "several", run: several },
                Scenario { name: "age", run: age },
                Scenario { name: "values", run: values },
            ]
        },
        rule: "every sequence of deliveries and flushes from an alphabet up to a length under \
               every configuration of padding, bin width, percentiles and tags; states = contents \
               of the reference buckets and the newest time reported per series",
        assumptions: &[
            "names and tags need no quoting in Wavefront's line format",
            "cernan's clock stands still during an execution",
            "few enough observations per point for a summary to keep each of them",
        ],
        level: "model_checking",
        hang_s: 30,
    }
}

pub const PORT: u16 = 2878;

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: &'static str,
    pub kind: AggregationMethod,
    pub values: &'static [f64],
    pub tags: &'static [(&'static str, &'static str)],
    /// relative to now, except for the extremes
    pub ts: i64,
    pub persist: bool,
}

impl Spec {
    pub fn time(&self) -> i64 {
        if self.ts == std::i64::MIN || self.ts == std::i64::MAX {
            self.ts
        } else {
            cernan::time::now() + self.ts
        }
    }
    pub fn telem(&self) -> Telemetry {
        let mut t =
            point(self.name, self.kind, self.values[0], self.time(), self.persist, Some(tagmap(self.tags)));
        for v in &self.values[1..] {
            t = t.insert(*v);
        }
        t
    }
    pub fn val(&self) -> Val {
        let mut v = Val::new(self.kind, self.values[0], &BOUNDS);
        for x in &self.values[1..] {
            v.observe(*x);
        }
        v
    }
}

/// One line as Wavefront reads it.
#[derive(Clone, Debug)]
struct Line {
    name: String,
    value: f64,
    ts: i64,
    tags: Vec<(String, String)>,
}

fn parse(text: &str) -> Result<Vec<Line>, String> {
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line does not end".to_string());
    }
    text.lines()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
            let bad = || format!("{:?} is not a line", l);
            if w.len() < 3 {
                return Err(bad());
            }
            let mut tags = vec![];
            for t in &w[3..] {
                let i = t.find('=').ok_or_else(bad)?;
                tags.push((t[..i].to_string(), t[i + 1..].to_string()));
            }
            tags.sort();
            Ok(Line {
                name: w[0].to_string(),
                value: w[1].parse().map_err(|_| bad())?,
                ts: w[2].parse().map_err(|_| bad())?,
                tags,
            })
        })
        .collect()
}

#[derive(Clone)]
pub struct Conf {
    pub width: i64,
    pub pad: PadControl,
    pub age: Option<u64>,
    pub percentiles: &'static [(&'static str, f64)],
    pub defaults: &'static [(&'static str, &'static str)],
}

impl Conf {
    pub fn config(&self) -> WavefrontConfig {
        WavefrontConfig {
            bin_width: self.width,
            host: "127.0.0.1".to_string(),
            port: PORT,
            config_path: Some("sinks.wavefront".to_string()),
            percentiles: self.percentiles.iter().map(|(n, q)| ((*n).to_string(), *q)).collect(),
            tags: tagmap(self.defaults),
            flush_interval: 1,
            pad_control: self.pad,
            age_threshold: self.age,
        }
    }
    fn pads(&self, k: AggregationMethod) -> bool {
        match k {
            AggregationMethod::Set => self.pad.set,
            AggregationMethod::Sum => self.pad.sum,
            AggregationMethod::Summarize => self.pad.summarize,
            AggregationMethod::Histogram => self.pad.histogram,
        }
    }
}

pub const NO_PAD: PadControl = PadControl { set: false, sum: false, summarize: false, histogram: false };
pub const ALL_PAD: PadControl = PadControl { set: true, sum: true, summarize: true, histogram: true };

/// What must be in a line: a number, or something near a rank of these.
pub enum Want {
    Is(f64),
    Rank(f64, Vec<f64>),
}

/// The lines a point calls for, by name.
fn lines_of(name: &str, v: &Val, percentiles: &[(&'static str, f64)]) -> Vec<(String, Want)> {
    match v {
        Val::Set(x) | Val::Sum(x) => vec![(name.to_string(), Want::Is(*x))],
        Val::Hist { bounds, counts, .. } => counts
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let b = bounds.get(i).map_or("pos_inf".to_string(), |b| b.to_string());
                (format!("{}_{}", name, b), Want::Is(*n as f64))
            })
            .collect(),
        Val::Summary { vals, .. } => {
            let mut l: Vec<(String, Want)> = percentiles
                .iter()
                .map(|(p, q)| (format!("{}.{}", name, p), Want::Rank(*q, vals.clone())))
                .collect();
            l.push((format!("{}.count", name), Want::Is(vals.len() as f64)));
            let mean = vals.iter().sum::<f64>() / vals.len() as f64;
            l.push((format!("{}.mean", name), Want::Is(mean)));
            l
        }
    }
}

fn same(x: f64, y: f64) -> bool {
    x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-9 * x.abs().max(y.abs())
}

impl Want {
    pub fn met(&self, x: f64) -> bool {
        match self {
            Want::Is(y) => same(x, *y),
            Want::Rank(q, vals) => {
                let r = ((q * vals.len() as f64).ceil() as usize).max(1);
                let lo = vals[r.saturating_sub(2)];
                let hi = vals[r.min(vals.len() - 1)];
                vals.contains(&x) && lo <= x && x <= hi && (*q > 0.0 || x == vals[0])
            }
        }
    }
}

type SeriesKind = (Key, u8);

/// The reference for a whole sink.
#[derive(Clone)]
pub struct Ref {
    pub conf: Conf,
    pub m: Model,
    /// newest time reported
    last: BTreeMap<SeriesKind, i64>,
    /// every real time reported
    real: BTreeMap<SeriesKind, BTreeSet<i64>>,
}

fn kind_no(k: AggregationMethod) -> u8 {
    KINDS.iter().position(|x| *x == k).unwrap() as u8
}

impl Ref {
    pub fn new(conf: &Conf) -> Ref {
        Ref {
            conf: conf.clone(),
            m: Model { width: conf.width, series: vec![] },
            last: BTreeMap::new(),
            real: BTreeMap::new(),
        }
    }
    pub fn deliver(&mut self, s: &Spec) {
        let ts = s.time();
        if let Some(a) = self.conf.age {
            if (i128::from(ts) - i128::from(cernan::time::now())).abs() > i128::from(a) {
                return;
            }
        }
        let mut tags: Vec<(String, String)> =
            s.tags.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
        tags.sort();
        self.m.add((s.name.to_string(), tags), P { ts, persist: s.persist, v: s.val() });
    }

    /// Is this what a flush must write now?  Goes on to the state after it.
    pub fn flush(&mut self, text: &str) -> Result<(), String> {
        let mut left = parse(text)?;
        let defaults = self.conf.defaults;
        let tags_of = |k: &Key| -> Vec<(String, String)> {
            let mut all: BTreeMap<String, String> =
                defaults.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
            all.extend(k.1.iter().cloned());
            all.into_iter().collect()
        };
        // the real points
        for (key, points) in &self.m.series {
            let tags = tags_of(key);
            for p in points {
                for (name, want) in lines_of(&key.0, &p.v, self.conf.percentiles) {
                    let at = left
                        .iter()
                        .position(|l| l.name == name && l.ts == p.ts && l.tags == tags && want.met(l.value));
                    match at {
                        Some(i) => {
                            left.remove(i);
                        }
                        None => {
                            return Err(format!(
                                "no right line {} at {} {:?} for {:?} among what is left of it, {:?}",
                                name, p.ts, tags, p.v, left
                            ))
                        }
                    }
                }
            }
        }
        // the padding: a zero right after the one and right before the other
        for (key, points) in &self.m.series {
            let tags = tags_of(key);
            let mixed = points.iter().any(|p| p.v.kind() != points[0].v.kind());
            for (i, p) in points.iter().enumerate() {
                let kind = p.v.kind();
                let sk = (key.clone(), kind_no(kind));
                let before = points[..i].iter().rev().find(|q| q.v.kind() == kind).map(|q| q.ts);
                let last = self.last.get(&sk).cloned();
                let from = match (before, last) {
                    (Some(a), Some(b)) => Some(a.max(b)),
                    (a, b) => a.or(b),
                };
                let from = match from {
                    Some(f) if f < p.ts => f,
                    _ => continue,
                };
                let gap = (i128::from(p.ts) - i128::from(from)) / i128::from(self.conf.width) > 1;
                if !gap || !self.conf.pads(kind) {
                    continue;
                }
                for at in &[from + 1, p.ts - 1] {
                    for (name, _) in lines_of(&key.0, &p.v, self.conf.percentiles) {
                        let is = |l: &Line| l.name == name && l.ts == *at && l.tags == tags && l.value == 0.0;
                        match left.iter().position(is) {
                            Some(i) => {
                                left.remove(i);
                            }
                            // within a point of another kind's reach nothing is asked for
                            None if mixed || from + 1 == p.ts - 1 => {}
                            None => {
                                return Err(format!(
                                    "{:?} {:?}: the gap from {} to {} has no zero {} at {}",
                                    key, kind, from, p.ts, name, at
                                ))
                            }
                        }
                    }
                }
            }
        }
        if let Some(l) = left.first() {
            return Err(format!("{:?} has no business there", l));
        }
        for (key, points) in &self.m.series {
            for p in points {
                let sk = (key.clone(), kind_no(p.v.kind()));
                let e = self.last.entry(sk.clone()).or_insert(p.ts);
                *e = (*e).max(p.ts);
                self.real.entry(sk).or_insert_with(BTreeSet::new).insert(p.ts);
            }
        }
        self.m.reset(cernan::time::now());
        Ok(())
    }
    pub fn show(&self) -> String {
        format!("{:?} {:?}", self.m.series, self.last)
    }
}

fn history(o: &mut Oracle, conf: &Conf, specs: &[Spec], ops: &[Option<usize>]) -> Res<()> {
    sched::vnet(true);
    sched::vclock(true);
    let mut peer = Peer::new(PORT);
    let mut r = Ref::new(conf);
    let mut sink = Some(Wavefront::init(conf.config()));
    let mut seen = 0;
    for (i, op) in ops.iter().enumerate() {
        o.step();
        match op {
            Some(k) => {
                sink.as_mut().unwrap().deliver(specs[*k].telem());
                r.deliver(&specs[*k]);
            }
            None => {
                // the last flush is that of the stop
                if i + 1 == ops.len() {
                    sink.take().unwrap().shutdown();
                } else {
                    sink.as_mut().unwrap().flush();
                }
                peer.pump();
                let n = peer.conns.len();
                ensure!(n == 1, "connections", "{:?}: there are {} connections", ops, n);
                let all = peer.conns[0].1.clone();
                let text = String::from_utf8_lossy(&all[seen..]).into_owned();
                seen = all.len();
                o.note(|| format!("{:?}: {:?}", &ops[..=i], text));
                let before = r.show();
                if let Err(e) = r.flush(&text) {
                    return fail(
                        "flush",
                        format!(
                            "bin width {}, {:?}, {:?}: the flush wrote {:?}: {}; held and last seen: {}",
                            conf.width,
                            conf.pad,
                            ops[..=i].iter().map(|x| x.map(|k| &specs[k])).collect::<Vec<_>>(),
                            text,
                            e,
                            before
                        ),
                    );
                }
            }
        }
        o.state(&r.show());
    }
    Ok(())
}

/// None is a flush.
fn sequence(o: &mut Oracle, len: usize, alpha: usize) -> Vec<Option<usize>> {
    let mut ops = vec![];
    let n = 1 + o.choose(len);
    for _ in 0..n {
        let c = o.choose(alpha + 1);
        ops.push(if c == alpha { None } else { Some(c) });
    }
    ops.push(None);
    ops
}

const PCT: &[(&str, f64)] = &[("min", 0.0), ("50", 0.5), ("999", 0.999), ("max", 1.0)];

fn pad_of(i: usize) -> PadControl {
    match i {
        0 => ALL_PAD,
        1 => NO_PAD,
        2 => PadControl { sum: false, histogram: false, ..ALL_PAD },
        _ => PadControl { set: false, summarize: false, ..ALL_PAD },
    }
}

/// Every kind, persistent or not, in one series and its neighbour.
fn kinds(o: &mut Oracle) -> Res<()> {
    let mut specs = vec![];
    for (i, k) in KINDS.iter().enumerate() {
        for (persist, ts) in &[(false, -20), (true, -16), (false, -15)] {
            let values: &'static [f64] = [&[3.0][..], &[20.0, 0.5], &[700.0, 41.0, 4.0], &[0.5, 101.0]][i];
            specs.push(Spec { name: "a", kind: *k, values, tags: &[], ts: *ts, persist: *persist });
        }
    }
    let conf = Conf {
        width: *o.choose_from(&[1, 3]),
        pad: pad_of(o.choose(4)),
        age: None,
        percentiles: PCT,
        defaults: &[],
    };
    let d = o.pick(5, 6);
    let ops = sequence(o, d, specs.len());
    o.begin()?;
    history(o, &conf, &specs, &ops)
}

/// One kind at many distances.
fn gaps(o: &mut Oracle) -> Res<()> {
    let kind = *o.choose_from(&KINDS);
    let specs: Vec<Spec> = [-40, -39, -38, -30, -10, -9, 0, 2]
        .iter()
        .map(|ts| Spec { name: "a", kind, values: &[2.5], tags: &[("k", "v")], ts: *ts, persist: false })
        .collect();
    let conf = Conf {
        width: *o.choose_from(&[1, 2, 10]),
        pad: ALL_PAD,
        age: None,
        percentiles: &[("50", 0.5)],
        defaults: &[("k", "d"), ("source", "s")],
    };
    let d = o.pick(5, 6);
    let ops = sequence(o, d, specs.len());
    o.begin()?;
    history(o, &conf, &specs, &ops)
}

/// Several series next to one another.
fn several(o: &mut Oracle) -> Res<()> {
    let mut specs = vec![];
    for (name, tags) in &[("a", &[][..]), ("a", &[("k", "v")]), ("b", &[][..]), ("c", &[("source", "own")])] {
        for ts in &[-40, -30] {
            specs.push(Spec { name, kind: AggregationMethod::Sum, values: &[4.0], tags, ts: *ts, persist: false });
        }
    }
    let conf = Conf {
        width: 1,
        pad: pad_of(o.choose(2)),
        age: None,
        percentiles: &[],
        defaults: &[("source", "s")],
    };
    let d = o.pick(6, 7);
    let ops = sequence(o, d, specs.len());
    o.begin()?;
    history(o, &conf, &specs, &ops)
}

/// Points too far from the present, either way.
fn age(o: &mut Oracle) -> Res<()> {
    let specs: Vec<Spec> = [-61, -60, 0, 60, 61, std::i64::MIN, std::i64::MAX]
        .iter()
        .map(|ts| Spec { name: "a", kind: AggregationMethod::Set, values: &[2.5], tags: &[], ts: *ts, persist: false })
        .collect();
    let conf = Conf {
        width: 1,
        pad: pad_of(o.choose(2)),
        age: *o.choose_from(&[None, Some(60), Some(0), Some(std::u64::MAX)]),
        percentiles: &[],
        defaults: &[],
    };
    let d = o.pick(5, 6);
    let ops = sequence(o, d, specs.len());
    o.begin()?;
    history(o, &conf, &specs, &ops)
}

/// Every number a client may send.
fn values(o: &mut Oracle) -> Res<()> {
    use std::f64::{EPSILON, INFINITY, MAX, NAN, NEG_INFINITY};
    const VALS: [&[f64]; 10] =
        [&[0.0], &[-0.0], &[1e-7], &[-12345.678], &[MAX], &[5e-324], &[EPSILON], &[INFINITY], &[NEG_INFINITY], &[NAN]];
    let mut specs = vec![];
    for (i, v) in VALS.iter().enumerate() {
        let name = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"][i];
        specs.push(Spec { name, kind: AggregationMethod::Set, values: v, tags: &[], ts: -(i as i64), persist: false });
    }
    let conf = Conf { width: 1, pad: NO_PAD, age: None, percentiles: &[], defaults: &[] };
    let d = o.pick(5, 6);
    let ops = sequence(o, d, specs.len());
    o.begin()?;
    history(o, &conf, &specs, &ops)
}
