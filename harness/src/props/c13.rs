//! C13: Buckets against a reference aggregation, over every sequence of
//! additions and resets up to a depth.
use super::util::*;
use crate::engine::*;
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod, TagMap, Telemetry};

pub fn property() -> Property {
    Property {
        id: "C13",
        scenarios: |_| {
            vec![
                Scenario { name: "kinds", run: kinds },
                Scenario { name: "times", run: times },
                Scenario { name: "series", run: series },
            ]
        },
        rule: "state = contents of the reference buckets; each execution adds and resets, and \
               compares the whole of Buckets (iteration, count, is_empty) with the reference \
               after every operation",
        assumptions: &[
            "histograms of one series share their bounds",
            "timestamps are not negative (bins are timestamp / width)",
            "few enough observations per point for a summary to keep each of them",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

#[derive(Clone, Debug)]
pub struct P {
    pub ts: i64,
    pub persist: bool,
    pub v: Val,
}

pub type Key = (String, Vec<(String, String)>);

#[derive(Clone)]
pub struct Model {
    pub width: i64,
    pub series: Vec<(Key, Vec<P>)>,
}

impl Model {
    pub fn add(&mut self, key: Key, p: P) {
        let i = match self.series.iter().position(|s| s.0 == key) {
            Some(i) => i,
            None => {
                self.series.push((key, vec![]));
                self.series.len() - 1
            }
        };
        let bin = p.ts / self.width;
        let w = self.width;
        let v = &mut self.series[i].1;
        if let Some(q) = v.iter_mut().find(|q| q.ts / w == bin) {
            q.v = q.v.then(&p.v);
            q.persist = p.persist;
            return;
        }
        let at = v.iter().filter(|q| q.ts / w < bin).count();
        let new = if p.persist && at > 0 {
            P { ts: p.ts, persist: true, v: v[at - 1].v.then(&p.v) }
        } else {
            p
        };
        v.insert(at, new);
    }
    pub fn reset(&mut self, now: i64) {
        for (_, v) in self.series.iter_mut() {
            let last = v.pop();
            v.clear();
            if let Some(mut l) = last {
                if l.persist {
                    l.ts = now;
                    v.push(l);
                }
            }
        }
    }
    pub fn count(&self) -> usize {
        self.series.iter().map(|s| s.1.len()).sum()
    }
}

fn compare(b: &mut Buckets, m: &Model, what: &str) -> Res<()> {
    ensure!(
        b.count() == m.count(),
        "count",
        "{}: count() is {} but {} points should be held",
        what,
        b.count(),
        m.count()
    );
    ensure!(
        b.is_empty() == (m.count() == 0),
        "empty",
        "{}: is_empty() is {} with {} points held",
        what,
        b.is_empty(),
        m.count()
    );
    let held = m.series.iter().filter(|s| !s.1.is_empty()).count();
    ensure!(b.len() >= held, "len", "{}: len() is {} for {} series", what, b.len(), held);
    let got: Vec<&Telemetry> = b.iter().collect();
    // group, keeping the order
    let mut groups: Vec<(Key, Vec<&Telemetry>)> = Vec::new();
    for t in got {
        let k = (t.name.clone(), tags_of(t));
        if groups.last().map(|g| g.0 == k) == Some(true) {
            groups.last_mut().unwrap().1.push(t);
        } else {
            ensure!(
                groups.iter().all(|g| g.0 != k),
                "split",
                "{}: the points of {:?} do not come together",
                what,
                k
            );
            groups.push((k, vec![t]));
        }
    }
    ensure!(
        groups.len() == held,
        "series",
        "{}: {} series come out, {} went in",
        what,
        groups.len(),
        held
    );
    for (k, ts) in &groups {
        let want = match m.series.iter().find(|s| s.0 == *k) {
            Some(w) => &w.1,
            None => return fail("series", format!("{}: {:?} was never added", what, k)),
        };
        let ok = want.len() == ts.len()
            && want.iter().zip(ts).all(|(p, t)| {
                p.ts == t.timestamp && p.persist == t.persist && p.v.matches(t)
            });
        ensure!(
            ok,
            "points",
            "{}: series {:?} holds {:?}, should hold {:?}",
            what,
            k,
            ts.iter().map(|t| show(t)).collect::<Vec<_>>(),
            want
        );
    }
    Ok(())
}

#[derive(Clone)]
struct Op {
    name: &'static str,
    tags: Option<TagMap>,
    kind: AggregationMethod,
    ts: i64,
    persist: bool,
}

fn drive(o: &mut Oracle, width: i64, ops: &[Op], depth: usize, split: usize) -> Res<()> {
    let mut seq = Vec::new();
    for _ in 0..split {
        seq.push(o.choose(ops.len() + 1));
    }
    o.begin()?;
    let mut b = Buckets::new(width);
    let mut m = Model { width, series: vec![] };
    for i in 0..depth {
        let c = if i < split { seq[i] } else { o.choose(ops.len() + 1) };
        // values tell the operations apart, and fall in different bins
        let x = [3.0, 20.0, 700.0, 0.5, 41.0, 101.0][i % 6];
        let what;
        o.step();
        if c == ops.len() {
            let before = cernan::time::now();
            b.reset();
            assert!(before == cernan::time::now(), "ENGINE: the clock moved");
            m.reset(before);
            what = format!("op {} reset", i);
        } else {
            let op = &ops[c];
            let t = point(op.name, op.kind, x, op.ts, op.persist, op.tags.clone());
            let key = (op.name.to_string(), tags_of(&t));
            b.add(t);
            m.add(key, P { ts: op.ts, persist: op.persist, v: Val::new(op.kind, x, &BOUNDS) });
            what = format!(
                "op {} add {} {:?} {} @{} persist={}",
                i, op.name, op.kind, x, op.ts, op.persist
            );
        }
        o.note(|| what.clone());
        compare(&mut b, &m, &what)?;
        let st = format!("{:?}", m.series);
        o.state(&(width, st));
    }
    Ok(())
}

fn kinds(o: &mut Oracle) -> Res<()> {
    let now = cernan::time::now();
    let mut ops = Vec::new();
    for k in KINDS.iter() {
        for persist in &[false, true] {
            for d in &[-20, -19] {
                ops.push(Op { name: "a", tags: None, kind: *k, ts: now + d, persist: *persist });
            }
        }
    }
    let d = o.pick(4, 5);
    drive(o, 1, &ops, d, 2)
}

fn times(o: &mut Oracle) -> Res<()> {
    let now = cernan::time::now();
    let width = *o.choose_from(&[1i64, 2, 5]);
    let mut ops = Vec::new();
    for k in &[AggregationMethod::Set, AggregationMethod::Sum] {
        for persist in &[false, true] {
            for d in &[-2, -1, 0, 1] {
                ops.push(Op { name: "a", tags: None, kind: *k, ts: now + d, persist: *persist });
            }
        }
    }
    let d = o.pick(4, 5);
    drive(o, width, &ops, d, 2)
}

/// Several series, some of which have the same tags put in differently.
fn series(o: &mut Oracle) -> Res<()> {
    let (x, y) = awkward();
    let mut shrunk = tagmap(&[(&x, "1")]);
    for i in 0..20 {
        shrunk.insert(format!("t{}", i), "z".to_string());
    }
    shrunk.insert(y.clone(), "1".to_string());
    for i in 0..20 {
        shrunk.remove(&format!("t{}", i));
    }
    let sets: Vec<(&'static str, Option<TagMap>)> = vec![
        ("a", None),
        ("b", None),
        ("a", Some(TagMap::default())),
        ("a", Some(tagmap(&[(&x, "1")]))),
        ("a", Some(tagmap(&[(&x, "2")]))),
        ("a", Some(tagmap(&[(&y, "1")]))),
        ("a", Some(tagmap(&[(&x, "1"), (&y, "1")]))),
        ("a", Some(tagmap(&[(&y, "1"), (&x, "1")]))),
        ("a", Some(shrunk)),
    ];
    let mut ops = Vec::new();
    for (n, t) in &sets {
        for d in &[0i64, 1] {
            ops.push(Op {
                name: n,
                tags: t.clone(),
                kind: AggregationMethod::Sum,
                ts: 100 + d,
                persist: false,
            });
        }
    }
    let d = o.pick(4, 5);
    drive(o, 1, &ops, d, 2)
}

/// Two tag names that come out of a tag map in the order they were put in.
pub fn awkward() -> (String, String) {
    for i in 0..200 {
        for j in 0..i {
            let (a, b) = (format!("k{}", i), format!("k{}", j));
            let m = tagmap(&[(&a, "1"), (&b, "1")]);
            let n = tagmap(&[(&b, "1"), (&a, "1")]);
            let km: Vec<_> = m.keys().collect();
            let kn: Vec<_> = n.keys().collect();
            if km != kn {
                return (a, b);
            }
        }
    }
    ("k0".to_string(), "k1".to_string())
}
