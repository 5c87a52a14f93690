//! C27: default tags fill in, own tags win.
use super::util::*;
use crate::engine::*;
use cernan::metric::{AggregationMethod, LogLine, TagMap, Telemetry};

pub fn property() -> Property {
    Property {
        id: "C27",
        scenarios: |_| vec![Scenario { name: "tags", run: tags }, Scenario { name: "maps", run: maps }],
        rule: "every history of tag insertions, removals and overlays up to a depth on a point and \
               on a log line, followed by iteration under every set of defaults; states = \
               (own tags, defaults)",
        assumptions: &[],
        level: "model_checking",
        hang_s: 60,
    }
}

const KEYS: [&str; 3] = ["a", "b", "source"];

/// A point or a log line: the same tag operations.
#[derive(Clone)]
enum E {
    T(Telemetry),
    L(LogLine),
}
impl E {
    fn insert(&mut self, k: &str, v: &str) -> Option<String> {
        match self {
            E::T(t) => t.insert_tag(k, v),
            E::L(l) => l.insert_tag(k, v),
        }
    }
    fn remove(&mut self, k: &str) -> Option<String> {
        match self {
            E::T(t) => t.remove_tag(k),
            E::L(l) => l.remove_tag(k),
        }
    }
    fn overlay(self, k: &str, v: &str) -> E {
        match self {
            E::T(t) => E::T(t.overlay_tag(k, v)),
            E::L(l) => E::L(l.overlay_tag(k, v)),
        }
    }
    fn overlay_map(self, m: &TagMap) -> E {
        match self {
            E::T(t) => E::T(t.overlay_tags_from_map(m)),
            E::L(l) => E::L(l.overlay_tags_from_map(m)),
        }
    }
    fn all(&self, d: &TagMap) -> Vec<(String, String)> {
        let v: Vec<(String, String)> = match self {
            E::T(t) => t.tags(d).map(|(k, v)| (k.clone(), v.clone())).collect(),
            E::L(l) => l.tags(d).map(|(k, v)| (k.clone(), v.clone())).collect(),
        };
        v
    }
    fn get(&mut self, k: &str, d: &TagMap) -> Option<String> {
        match self {
            E::T(t) => t.get_from_tags(k, d).cloned(),
            E::L(l) => l.get_from_tags(k, d).cloned(),
        }
    }
    /// everything but the tags
    fn rest(&self) -> String {
        match self {
            E::T(t) => format!("{} {} {} {}", t.name, t.timestamp, t.persist, value_of(t)),
            E::L(l) => format!("{} {} {} {:?}", l.path, l.time, l.value, fields_of(l)),
        }
    }
}

fn start(kind: usize) -> E {
    if kind < 4 {
        E::T(point("m", KINDS[kind], 2.0, 5, true, None))
    } else {
        E::L(log("p", "line", 5).insert_field("a", "field"))
    }
}

fn compare(e: &mut E, m: &Tags, d: &TagMap, what: &str) -> Res<()> {
    let mut want: Tags = d.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in m {
        want.insert(k.clone(), v.clone());
    }
    let mut got = e.all(d);
    got.sort();
    let want_v: Vec<(String, String)> = want.clone().into_iter().collect();
    ensure!(
        got == want_v,
        "iterate",
        "{}: own tags {:?}, defaults {:?}: iteration gives {:?}",
        what,
        m,
        d,
        got
    );
    for k in KEYS.iter().chain(&["zz"]) {
        let g = e.get(k, d);
        ensure!(
            g.as_ref() == want.get(*k),
            "get",
            "{}: own tags {:?}, defaults {:?}: {} is {:?}",
            what,
            m,
            d,
            k,
            g
        );
    }
    Ok(())
}

fn defaults() -> Vec<TagMap> {
    let mut v = vec![];
    for mask in 0..8 {
        let mut m = TagMap::default();
        for (i, k) in KEYS.iter().enumerate() {
            if mask & (1 << i) != 0 {
                m.insert(k.to_string(), "default".to_string());
            }
        }
        v.push(m);
    }
    v
}

fn tags(o: &mut Oracle) -> Res<()> {
    let kind = *o.choose_from(&[0usize, 2, 4]);
    let depth = o.pick(3, 4);
    // per key: insert 1, insert 2, remove, overlay 3; plus overlaying two maps
    let nops = KEYS.len() * 4 + 2;
    let ops: Vec<usize> = (0..depth).map(|_| o.choose(nops + 1)).collect();
    o.begin()?;
    let mut e = start(kind);
    let rest = e.rest();
    let mut m = Tags::new();
    let mut hist = vec![];
    for op in ops {
        o.step();
        if op == nops {
            break;
        }
        if op >= KEYS.len() * 4 {
            let map = if op == KEYS.len() * 4 {
                tagmap(&[("a", "over"), ("source", "over")])
            } else {
                TagMap::default()
            };
            hist.push(format!("overlay map {:?}", map));
            e = e.overlay_map(&map);
            for (k, v) in map {
                m.insert(k, v);
            }
        } else {
            let k = KEYS[op / 4];
            match op % 4 {
                2 => {
                    hist.push(format!("remove {}", k));
                    let r = e.remove(k);
                    ensure!(r == m.remove(k), "return", "{:?} returned {:?}", hist, r);
                }
                3 => {
                    hist.push(format!("overlay {}", k));
                    e = e.overlay(k, "3");
                    m.insert(k.to_string(), "3".to_string());
                }
                v => {
                    let v = ["1", "2"][v];
                    hist.push(format!("insert {}={}", k, v));
                    let r = e.insert(k, v);
                    ensure!(
                        r == m.insert(k.to_string(), v.to_string()),
                        "return",
                        "{:?} returned {:?}",
                        hist,
                        r
                    );
                }
            }
        }
    }
    o.note(|| format!("{:?}", hist));
    for d in defaults() {
        o.state(&(&m, d.len(), kind));
        compare(&mut e, &m, &d, &format!("{:?}", hist))?;
    }
    ensure!(e.rest() == rest, "rest", "{:?} turned {} into {}", hist, rest, e.rest());
    Ok(())
}

/// Whole maps, put in in every order.
fn maps(o: &mut Oracle) -> Res<()> {
    let perms: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let own = *o.choose_from(&perms);
    let nown = o.choose(4);
    let def = *o.choose_from(&perms);
    let ndef = o.choose(4);
    let over = o.choose(8);
    let kind = o.choose(5);
    o.begin()?;
    o.step();
    let mut e = start(kind);
    let mut m = Tags::new();
    for i in own.iter().take(nown) {
        e.insert(KEYS[*i], "own");
        m.insert(KEYS[*i].to_string(), "own".to_string());
    }
    let mut d = TagMap::default();
    for i in def.iter().take(ndef) {
        d.insert(KEYS[*i].to_string(), "default".to_string());
    }
    compare(&mut e, &m, &d, "before the overlay")?;
    let ov = &defaults()[over];
    let rest = e.rest();
    let mut e = e.overlay_map(ov);
    for (k, v) in ov.iter() {
        m.insert(k.clone(), v.clone());
    }
    o.state(&(&m, ndef, kind));
    compare(&mut e, &m, &d, "after the overlay")?;
    ensure!(e.rest() == rest, "rest", "overlaying turned {} into {}", rest, e.rest());
    let _ = AggregationMethod::Set;
    Ok(())
}
