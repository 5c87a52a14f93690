//! C14: merging points, and what makes two points one series.
use super::util::*;
use crate::engine::*;
use cernan::metric::{AggregationMethod, TagMap, Telemetry};
use std::cmp::Ordering;

pub fn property() -> Property {
    Property {
        id: "C14",
        scenarios: |_| {
            vec![
                Scenario { name: "merge", run: merge },
                Scenario { name: "merge-kinds", run: merge_kinds },
                Scenario { name: "merge-bounds", run: merge_bounds },
                Scenario { name: "identity", run: identity },
                Scenario { name: "order", run: order },
                Scenario { name: "reopen", run: reopen },
            ]
        },
        rule: "every combination of observation lists (merge), of tag edit histories (identity), \
               of names, times and tags (order) and of edits to a re-opened point (reopen); \
               states = distinct points compared",
        assumptions: &[
            "few enough observations per point for a summary to keep each of them",
            "points with overridden counts, which only the prometheus sink makes for a report, \
             are left out",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

const VALS: [f64; 4] = [-4.0, 1.0, 10.5, 1000.0];

fn build(kind: AggregationMethod, obs: &[f64]) -> Telemetry {
    let mut t = point("m", kind, obs[0], 10, false, None);
    for x in &obs[1..] {
        t = t.insert(*x);
    }
    t
}

fn model(kind: AggregationMethod, obs: &[f64]) -> Val {
    let mut v = Val::new(kind, obs[0], &BOUNDS);
    for x in &obs[1..] {
        v.observe(*x);
    }
    v
}

fn obs(o: &mut Oracle, max: usize) -> Vec<f64> {
    let n = 1 + o.choose(max);
    (0..n).map(|_| *o.choose_from(&VALS)).collect()
}

fn merge(o: &mut Oracle) -> Res<()> {
    let kind = *o.choose_from(&KINDS);
    let max = o.pick(2, 3);
    let (a, b) = (obs(o, max), obs(o, max));
    let c = obs(o, 2);
    o.begin()?;
    o.note(|| format!("{:?}: {:?} + {:?} + {:?}", kind, a, b, c));
    let mut all = a.clone();
    all.extend(&b);
    let (ta, tb, tc) = (build(kind, &a), build(kind, &b), build(kind, &c));
    ensure!(model(kind, &a).matches(&ta), "insert", "{:?} of {:?} is {}", kind, a, show(&ta));
    let mut ab = ta.clone();
    ab += tb.clone();
    o.step();
    o.state(&show(&ab));
    ensure!(
        model(kind, &all).matches(&ab),
        "merge",
        "merging {:?} of {:?} and {:?} gives {}, should be {:?}",
        kind,
        a,
        b,
        show(&ab),
        model(kind, &all)
    );
    ensure!(
        ab.name == "m" && ab.timestamp == 10 && tags_of(&ab).is_empty(),
        "merge",
        "merging changed the point: {}",
        show(&ab)
    );
    let mut abc = ab;
    abc += tc.clone();
    let mut bc = tb;
    bc += tc;
    let mut a_bc = ta;
    a_bc += bc;
    o.step();
    let (mut l, mut r) = (value_of(&abc), value_of(&a_bc));
    if kind == AggregationMethod::Summarize {
        // the mean is accumulated in floating point
        l = l.replace("mean=-0.0", "mean=0.0");
        r = r.replace("mean=-0.0", "mean=0.0");
    }
    ensure!(
        l == r,
        "associative",
        "({:?}+{:?})+{:?} is {} but the other way {}",
        a,
        b,
        c,
        l,
        r
    );
    Ok(())
}

fn merge_kinds(o: &mut Oracle) -> Res<()> {
    let (ka, kb) = (*o.choose_from(&KINDS), *o.choose_from(&KINDS));
    let (pa, pb) = (o.choose_bool(), o.choose_bool());
    let (a, b) = (obs(o, 2), obs(o, 2));
    o.begin()?;
    o.step();
    let mut t = build(ka, &a);
    t.persist = pa;
    let mut tb = build(kb, &b).timestamp(11);
    tb.persist = pb;
    t += tb;
    let want = model(ka, &a).then(&model(kb, &b));
    o.note(|| format!("{:?} {:?} += {:?} {:?} -> {}", ka, a, kb, b, show(&t)));
    o.state(&show(&t));
    ensure!(
        want.matches(&t) && t.timestamp == 10 && t.persist == pb,
        "convert",
        "{:?} of {:?} followed by {:?} of {:?} gives {}, should be {:?}",
        ka,
        a,
        kb,
        b,
        show(&t),
        want
    );
    Ok(())
}

/// Histograms of one series whose bounds differ (senders choose them).
fn merge_bounds(o: &mut Oracle) -> Res<()> {
    let sets: [&[f64]; 4] = [&[1.0], &[2.0], &[1.0, 2.0], &[1.0, 3.0]];
    let (ba, bb) = (*o.choose_from(&sets), *o.choose_from(&sets));
    let (x, y) = (*o.choose_from(&VALS), *o.choose_from(&VALS));
    o.begin()?;
    o.step();
    let mk = |b: &[f64], v: f64| {
        Telemetry::new()
            .name("m")
            .kind(AggregationMethod::Histogram)
            .bounds(b.to_vec())
            .timestamp(10)
            .value(v)
            .harden()
            .unwrap()
    };
    let (a, b) = (mk(ba, x), mk(bb, y));
    let r = guarded(move || {
        let mut a = a;
        a += b;
        a
    });
    match r {
        Err(e) => {
            ensure!(
                ba != bb,
                "panic",
                "merging two histograms with bounds {:?} panicked: {}",
                ba,
                e
            );
            fail(
                "differing-bounds",
                format!("merging histograms with bounds {:?} and {:?} panicked: {}", ba, bb, e),
            )
        }
        Ok(t) => {
            let mut want = Val::new(AggregationMethod::Histogram, x, ba);
            want.observe(y);
            ensure!(
                ba != bb || want.matches(&t),
                "merge",
                "histograms {:?} of {} and {} give {}",
                ba,
                x,
                y,
                show(&t)
            );
            // whatever is kept, counts and bins must agree with one another
            let n: usize = bins_of(&t).iter().map(|b| b.1).sum();
            ensure!(n == t.count(), "merge", "bins of {} do not add up", show(&t));
            Ok(())
        }
    }
}

fn edit(o: &mut Oracle, keys: &[String], depth: usize) -> (Telemetry, Tags) {
    let mut t = point("m", AggregationMethod::Set, 1.0, 10, false, None);
    let mut m = Tags::new();
    for _ in 0..depth {
        let c = o.choose(1 + 2 * keys.len() + keys.len());
        if c == 0 {
            break;
        }
        let c = c - 1;
        if c < 2 * keys.len() {
            let k = &keys[c / 2];
            let v = ["1", "2"][c % 2];
            t.insert_tag(k.clone(), v.to_string());
            m.insert(k.clone(), v.to_string());
        } else {
            let k = &keys[c - 2 * keys.len()];
            t.remove_tag(k);
            m.remove(k);
        }
    }
    (t, m)
}

fn identity(o: &mut Oracle) -> Res<()> {
    let (x, y) = super::c13::awkward();
    let keys = vec![x, y, "zz".to_string()];
    let depth = o.pick(3, 4);
    let (mut a, ma) = edit(o, &keys, depth);
    let kinds = o.choose(4);
    // one side may have held many other tags for a while
    let swollen = o.choose_bool();
    o.begin()?;
    if swollen {
        for i in 0..20 {
            a.insert_tag(format!("t{}", i), "z".to_string());
        }
        for i in 0..20 {
            a.remove_tag(&format!("t{}", i));
        }
    }
    let (mut b, mb) = edit(o, &keys, 2.max(depth - 1));
    if kinds & 1 == 1 {
        b = point_like(&b, AggregationMethod::Sum);
    }
    if kinds & 2 == 2 {
        b.name = "n".to_string();
    }
    let same_nt = ma == mb && kinds & 2 == 0;
    let same = same_nt && kinds & 1 == 0;
    o.step();
    o.state(&(&ma, &mb, kinds));
    o.note(|| format!("{:?} / {:?} kinds {}", ma, mb, kinds));
    ensure!(tags_of(&a) == ma.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(),
        "tags", "after the edits the tags are {:?}, should be {:?}", tags_of(&a), ma);
    ensure!(
        (a.name_tag_hash() == b.name_tag_hash()) == same_nt,
        "identity",
        "tags {:?} and {:?}, names {} and {}: name_tag_hash {} although the series are {}",
        ma,
        mb,
        a.name,
        b.name,
        if same_nt { "differs" } else { "agrees" },
        if same_nt { "the same" } else { "different" }
    );
    ensure!(
        (a.hash() == b.hash()) == same,
        "identity",
        "tags {:?} and {:?}, kinds {:?} and {:?}: hash {} although the series are {}",
        ma,
        mb,
        a.kind(),
        b.kind(),
        if same { "differs" } else { "agrees" },
        if same { "the same" } else { "different" }
    );
    let (w, w2) = (a.within(1, &b), b.within(1, &a));
    ensure!(
        (w == Ordering::Equal) == same_nt,
        "within",
        "tags {:?} and {:?}, names {} and {}: within says {:?}",
        ma,
        mb,
        a.name,
        b.name,
        w
    );
    ensure!(w == w2.reverse(), "within", "within of {:?} and {:?} is {:?} and {:?}", ma, mb, w, w2);
    Ok(())
}

fn point_like(t: &Telemetry, kind: AggregationMethod) -> Telemetry {
    let mut m = TagMap::default();
    for (k, v) in tags_of(t) {
        m.insert(k, v);
    }
    point(&t.name, kind, 1.0, t.timestamp, t.persist, Some(m))
}

/// The order on points is one: antisymmetric, transitive, and equal exactly
/// for one name, time and tag set.
fn order(o: &mut Oracle) -> Res<()> {
    let (x, y) = super::c13::awkward();
    let sets: Vec<Option<TagMap>> = vec![
        None,
        Some(tagmap(&[(&x, "1")])),
        Some(tagmap(&[(&x, "2")])),
        Some(tagmap(&[(&y, "1")])),
        Some(tagmap(&[(&x, "1"), (&y, "1")])),
        Some(tagmap(&[(&y, "1"), (&x, "1")])),
        Some(tagmap(&[(&y, "2"), (&x, "1")])),
        Some(tagmap(&[(&y, "1"), (&x, "2")])),
    ];
    let mut pick = |o: &mut Oracle| {
        let n = *o.choose_from(&["a", "b"]);
        let ts = *o.choose_from(&[5i64, 6]);
        let s = o.choose(sets.len());
        point(n, AggregationMethod::Set, 1.0, ts, false, sets[s].clone())
    };
    let a = pick(o);
    let b = pick(o);
    o.begin()?;
    let c = pick(o);
    o.step();
    o.state(&(show(&a), show(&b), show(&c)));
    let ab = a.partial_cmp(&b);
    let ba = b.partial_cmp(&a);
    let same = (&a.name, a.timestamp, tags_of(&a)) == (&b.name, b.timestamp, tags_of(&b));
    ensure!(ab.is_some(), "order", "{} and {} do not compare", show(&a), show(&b));
    ensure!(
        ab == ba.map(|x| x.reverse()),
        "order",
        "{} against {} is {:?} one way and {:?} the other",
        show(&a),
        show(&b),
        ab,
        ba
    );
    ensure!(
        (ab == Some(Ordering::Equal)) == same,
        "order",
        "{} against {} is {:?}",
        show(&a),
        show(&b),
        ab
    );
    if a.name != b.name {
        ensure!(ab == a.name.partial_cmp(&b.name), "order", "names do not come first");
    } else if a.timestamp != b.timestamp {
        ensure!(ab == a.timestamp.partial_cmp(&b.timestamp), "order", "times do not come second");
    }
    let bc = b.partial_cmp(&c);
    if ab == bc && ab != Some(Ordering::Equal) {
        ensure!(
            a.partial_cmp(&c) == ab,
            "order",
            "{} / {} / {} are not ordered transitively",
            show(&a),
            show(&b),
            show(&c)
        );
    }
    Ok(())
}

/// Re-opening a point and closing it again changes what was set, only.
fn reopen(o: &mut Oracle) -> Res<()> {
    let kind = *o.choose_from(&KINDS);
    let a = obs(o, 2);
    let tags = *o.choose_from(&[0usize, 1, 2]);
    let persist = o.choose_bool();
    let e = o.choose(5);
    o.begin()?;
    o.step();
    let tm = match tags {
        0 => None,
        1 => Some(TagMap::default()),
        _ => Some(tagmap(&[("x", "1"), ("y", "2")])),
    };
    let mut t = point("m", kind, a[0], 10, persist, tm);
    for x in &a[1..] {
        t = t.insert(*x);
    }
    let before = t.clone();
    let s = t.thaw();
    let (s, want) = match e {
        0 => (s, show(&before)),
        1 => (s.timestamp(77), show(&before.clone().timestamp(77))),
        2 => (s.name("other"), show(&before).replacen("m ", "other ", 1)),
        3 => {
            let mut w = before.clone();
            w.persist = !persist;
            (s.persist(!persist), show(&w))
        }
        _ => {
            let mut w = before.clone();
            w = point_like(&w, kind);
            let mut nm = TagMap::default();
            nm.insert("q".to_string(), "9".to_string());
            let mut s2 = point("m", kind, a[0], 10, persist, Some(nm.clone()));
            for x in &a[1..] {
                s2 = s2.insert(*x);
            }
            let _ = w;
            (s.tags(nm), show(&s2))
        }
    };
    let got = match s.harden() {
        Ok(t) => show(&t),
        Err(e) => return fail("reopen", format!("{} cannot be closed again: {:?}", show(&before), e)),
    };
    o.state(&got);
    ensure!(got == want, "reopen", "{} became {}, should be {}", show(&before), got, want);
    Ok(())
}
