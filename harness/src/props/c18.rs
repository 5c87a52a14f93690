//! C18: the programmable filter against a model of its script interface.
use super::c16::run_filter;
use super::util::*;
use crate::engine::*;
use cernan::filter::{Filter, FilterError, ProgrammableFilter, ProgrammableFilterConfig};
use cernan::metric::{AggregationMethod, Event};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C18",
        scenarios: |_| {
            vec![
                Scenario { name: "metric-ops", run: metric_ops },
                Scenario { name: "log-ops", run: log_ops },
                Scenario { name: "tick-ops", run: tick_ops },
                Scenario { name: "history", run: history },
                Scenario { name: "long", run: long },
            ]
        },
        rule: "every script of up to a number of payload operations (every function of the \
               script interface with ordinary, boundary, missing and ill-typed arguments), run on \
               a metric, a log line or a pulse and followed by an untouched event; every history \
               of good and failing events up to a depth; states = reference payload after each \
               operation",
        assumptions: &[
            "scripts do not keep a payload beyond the call it was given to",
            "scripts terminate",
        ],
        level: "model_checking",
        hang_s: 120,
    }
}

type Map = BTreeMap<String, String>;

#[derive(Clone, Hash)]
struct M {
    name: String,
    tags: Map,
    rest: String,
    /// (quantile, expected) of a summary
    summary: bool,
}
#[derive(Clone, Hash)]
struct L {
    path: String,
    time: i64,
    value: String,
    tags: Map,
    fields: Map,
}
#[derive(Clone, Hash, Default)]
struct P {
    ms: Vec<M>,
    ls: Vec<L>,
}

fn list(m: &Map) -> Vec<(String, String)> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}
impl M {
    fn show(&self) -> String {
        format!("T[{} {:?} {}]", self.name, list(&self.tags), self.rest)
    }
}
impl L {
    fn show(&self) -> String {
        format!(
            "L[log {:?} @{} {:?} tags={:?} fields={:?}]",
            self.path,
            self.time,
            self.value,
            list(&self.tags),
            list(&self.fields)
        )
    }
}
fn rest(ts: i64, persist: bool, val: &str) -> String {
    format!("@{} persist={} {}", ts, persist, val)
}
fn now() -> i64 {
    cernan::time::now()
}

fn globals() -> Map {
    [("a", "G"), ("g", "GG")].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

/// What an operation does: Err is a script error, Ok what it returns.
type Eff = Box<dyn Fn(&mut P) -> Result<String, ()>>;

fn nil() -> Result<String, ()> {
    Ok("nil".to_string())
}
fn old(v: Option<String>) -> Result<String, ()> {
    Ok(v.unwrap_or_else(|| "nil".to_string()))
}

/// Index arguments: Lua text, value (None: not a number).
const IDX: [(&str, i64); 9] = [
    ("1", 1),
    ("-1", -1),
    ("2", 2),
    ("-2", -2),
    ("0", 0),
    ("'1'", 1),
    ("nil", 0),
    ("9007199254740993", 9_007_199_254_740_993),
    ("math.mininteger", std::i64::MIN),
];

fn at(i: i64, n: usize) -> Result<usize, ()> {
    let n = n as i64;
    if i >= 1 && i <= n {
        Ok((i - 1) as usize)
    } else if i <= -1 && i >= -n {
        Ok((n + i) as usize)
    } else {
        Err(())
    }
}

/// String arguments: Lua text, what arrives (None: nothing usable).
const KEYS: [(&str, Option<&str>); 3] = [("'a'", Some("a")), ("'g'", Some("g")), ("'z'", Some("z"))];
const ODD: [(&str, Option<&str>); 5] = [
    ("nil", None),
    ("''", Some("")),
    ("7", Some("7")),
    ("true", Some("true")),
    ("'\\255'", None),
];

/// Every operation.  `ext` 0: a few arguments; 1: all of them.
fn ops(ext: bool) -> Vec<(String, Eff)> {
    let mut v: Vec<(String, Eff)> = vec![];
    let idx: Vec<(&'static str, i64)> =
        if ext { IDX.to_vec() } else { vec![IDX[0], IDX[1], IDX[2]] };
    let keys: Vec<(&'static str, Option<&'static str>)> =
        if ext { KEYS.iter().chain(ODD.iter()).cloned().collect() } else { KEYS.to_vec() };
    let vals: Vec<(&'static str, Option<&'static str>)> = if ext {
        Some(("'v'", Some("v"))).into_iter().chain(ODD.iter().cloned()).collect()
    } else {
        vec![("'v'", Some("v"))]
    };
    macro_rules! op {
        ($text:expr, $f:expr) => {
            v.push(($text, Box::new($f)))
        };
    }
    for (il, i) in idx.iter().cloned() {
        op!(format!("payload.metric_name(p, {})", il), move |p| Ok(p.ms[at(i, p.ms.len())?]
            .name
            .clone()));
        op!(format!("payload.log_value(p, {})", il), move |p| Ok(p.ls[at(i, p.ls.len())?]
            .value
            .clone()));
        op!(format!("payload.log_path(p, {})", il), move |p| Ok(p.ls[at(i, p.ls.len())?]
            .path
            .clone()));
        for (kl, k) in keys.iter().cloned() {
            op!(format!("payload.metric_tag_value(p, {}, {})", il, kl), move |p| {
                let m = &p.ms[at(i, p.ms.len())?];
                old(k.and_then(|k| m.tags.get(k).cloned().or_else(|| globals().get(k).cloned())))
            });
            op!(format!("payload.log_tag_value(p, {}, {})", il, kl), move |p| {
                let m = &p.ls[at(i, p.ls.len())?];
                old(k.and_then(|k| m.tags.get(k).cloned().or_else(|| globals().get(k).cloned())))
            });
            op!(format!("payload.log_field_value(p, {}, {})", il, kl), move |p| {
                let m = &p.ls[at(i, p.ls.len())?];
                old(k.and_then(|k| m.fields.get(k).cloned()))
            });
            op!(format!("payload.metric_remove_tag(p, {}, {})", il, kl), move |p| {
                let n = at(i, p.ms.len())?;
                old(k.and_then(|k| p.ms[n].tags.remove(k)))
            });
            op!(format!("payload.log_remove_tag(p, {}, {})", il, kl), move |p| {
                let n = at(i, p.ls.len())?;
                old(k.and_then(|k| p.ls[n].tags.remove(k)))
            });
            for (vl, val) in vals.iter().cloned() {
                op!(format!("payload.metric_set_tag(p, {}, {}, {})", il, kl, vl), move |p| {
                    let n = at(i, p.ms.len())?;
                    match (k, val) {
                        (Some(k), Some(v)) => old(p.ms[n].tags.insert(k.into(), v.into())),
                        _ => nil(),
                    }
                });
                op!(format!("payload.log_set_tag(p, {}, {}, {})", il, kl, vl), move |p| {
                    let n = at(i, p.ls.len())?;
                    match (k, val) {
                        (Some(k), Some(v)) => old(p.ls[n].tags.insert(k.into(), v.into())),
                        _ => nil(),
                    }
                });
                op!(format!("payload.log_set_field(p, {}, {}, {})", il, kl, vl), move |p| {
                    let n = at(i, p.ls.len())?;
                    match (k, val) {
                        (Some(k), Some(v)) => old(p.ls[n].fields.insert(k.into(), v.into())),
                        _ => nil(),
                    }
                });
            }
        }
        for (vl, val) in vals.iter().cloned() {
            op!(format!("payload.log_set_value(p, {}, {})", il, vl), move |p| {
                let n = at(i, p.ls.len())?;
                if let Some(v) = val {
                    p.ls[n].value = v.into();
                }
                nil()
            });
        }
        for (nl, name) in [("'n'", Some("n")), ("''", Some("")), ("7", Some("7")), ("nil", None)]
            .iter()
            .cloned()
        {
            if !ext && nl != "'n'" {
                continue;
            }
            op!(format!("payload.set_metric_name(p, {}, {})", il, nl), move |p| {
                let n = at(i, p.ms.len())?;
                p.ms[n].name = name.ok_or(())?.to_string();
                nil()
            });
        }
        for (ql, q) in [("0", 1.0), ("0.5", 2.0), ("1", 3.0)].iter().cloned() {
            if !ext && ql != "0.5" {
                continue;
            }
            op!(format!("payload.metric_query(p, {}, {})", il, ql), move |p| {
                let m = &p.ms[at(i, p.ms.len())?];
                if m.summary {
                    Ok(format!("{:.3}", q))
                } else {
                    nil()
                }
            });
        }
    }
    let mut names = vec![("'p'", Some("p"))];
    if ext {
        names.extend(ODD.iter().cloned());
    }
    for (nl, name) in names {
        for (xl, x) in [("1.5", 1.5), ("'7'", 7.0), ("nil", 0.0), ("'x'", 0.0), ("1/0", std::f64::INFINITY)]
            .iter()
            .cloned()
        {
            if !ext && xl != "1.5" {
                continue;
            }
            op!(format!("payload.push_metric(p, {}, {})", nl, xl), move |p| {
                if let Some(n) = name {
                    p.ms.push(M {
                        name: n.into(),
                        tags: globals(),
                        rest: rest(now(), false, &format!("set {:?}", Some(x))),
                        summary: false,
                    });
                }
                nil()
            });
        }
        op!(format!("payload.push_log(p, {})", nl), move |p| {
            if let Some(n) = name {
                p.ls.push(L {
                    path: "filters.f".into(),
                    time: now(),
                    value: n.into(),
                    tags: globals(),
                    fields: Map::new(),
                });
            }
            nil()
        });
    }
    op!("payload.clear_metrics(p)".into(), |p| {
        p.ms.clear();
        nil()
    });
    op!("payload.clear_logs(p)".into(), |p| {
        p.ls.clear();
        nil()
    });
    for t in &["error('x')", "error(nil)", "error({})", "nothing_here()", "payload.nothing_here(p)"] {
        if ext || *t == "error('x')" {
            op!(t.to_string(), |_| Err(()));
        }
    }
    if ext {
        // too few arguments: as if nil had been given
        for f in &[
            "metric_name",
            "log_value",
            "log_path",
            "metric_tag_value",
            "log_tag_value",
            "log_field_value",
            "metric_remove_tag",
            "log_remove_tag",
            "metric_set_tag",
            "log_set_tag",
            "log_set_field",
            "log_set_value",
            "set_metric_name",
            "metric_query",
        ] {
            op!(format!("payload.{}(p)", f), |_| Err(()));
        }
        for f in &["metric_set_tag", "metric_remove_tag", "metric_tag_value"] {
            op!(format!("payload.{}(p, 1)", f), |p| {
                at(1, p.ms.len())?;
                nil()
            });
        }
        for f in &["log_set_tag", "log_set_field", "log_remove_tag", "log_tag_value", "log_set_value"] {
            op!(format!("payload.{}(p, 1)", f), |p| {
                at(1, p.ls.len())?;
                nil()
            });
        }
        op!("payload.push_metric(p)".into(), |_| nil());
        op!("payload.push_log(p)".into(), |_| nil());
        // no payload at all
        for f in &[
            "metric_name",
            "log_value",
            "log_path",
            "metric_tag_value",
            "log_tag_value",
            "log_field_value",
            "metric_remove_tag",
            "log_remove_tag",
            "metric_set_tag",
            "log_set_tag",
            "log_set_field",
            "log_set_value",
            "set_metric_name",
            "metric_query",
            "push_metric",
            "push_log",
            "clear_metrics",
            "clear_logs",
        ] {
            for a in &["", "nil, 1, 'a', 'b'", "'x', 1, 'a', 'b'", "{}, 1, 'a', 'b'", "io.stdout, 1, 'a', 'b'"] {
                op!(format!("payload.{}({})", f, a), |_| Err(()));
            }
        }
    }
    v
}

struct Script {
    /// (lua, effects) of each function; None: the function does not exist
    metric: Option<Vec<usize>>,
    log: Option<Vec<usize>>,
    tick: Option<Vec<usize>>,
}

const PRELUDE: &str = "local function S(v) if type(v) == 'number' then return \
                       string.format('%.3f', v) end return tostring(v) end\n";

fn text(s: &Script, ops: &[(String, Eff)]) -> String {
    let mut t = PRELUDE.to_string();
    for (name, f) in
        [("process_metric", &s.metric), ("process_log", &s.log), ("tick", &s.tick)].iter()
    {
        if let Some(f) = f {
            t += &format!("function {}(p)\nlocal R = {{}}\n", name);
            for i in f {
                t += &format!("R[#R+1] = S({})\n", ops[*i].0);
            }
            t += "for _, v in ipairs(R) do payload.push_log(p, v) end\nend\n";
        }
    }
    t
}

fn build(text: &str) -> ProgrammableFilter {
    let d = Dir::new("lua");
    let p = d.0.join("s.lua");
    std::fs::write(&p, text).expect("ENGINE: script");
    ProgrammableFilter::new(ProgrammableFilterConfig {
        scripts_directory: Some(d.0.clone()),
        script: Some(p),
        forwards: vec![],
        config_path: Some("filters.f".to_string()),
        tags: tagmap(&[("a", "G"), ("g", "GG")]),
    })
}

fn metric(k: usize) -> (Event, M) {
    if k == 0 {
        let t = point("m", AggregationMethod::Sum, 2.5, 7, false, Some(tagmap(&[("a", "1"), ("b", "2")])));
        let m = M {
            name: "m".into(),
            tags: [("a", "1"), ("b", "2")].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            rest: rest(7, false, &value_of(&t)),
            summary: false,
        };
        (Event::Telemetry(t), m)
    } else {
        let mut t = point("s", AggregationMethod::Summarize, 1.0, -3, true, None);
        for x in &[2.0, 3.0] {
            t += point("s", AggregationMethod::Summarize, *x, -3, true, None);
        }
        let m = M {
            name: "s".into(),
            tags: Map::new(),
            rest: rest(-3, true, &value_of(&t)),
            summary: true,
        };
        (Event::Telemetry(t), m)
    }
}

fn line(k: usize) -> (Event, L) {
    if k == 0 {
        let mut l = log("/p", "a line", 7);
        l.insert_tag("a", "1");
        l.fields.insert("a".into(), "f".into());
        let m = L {
            path: "/p".into(),
            time: 7,
            value: "a line".into(),
            tags: Some(("a".to_string(), "1".to_string())).into_iter().collect(),
            fields: Some(("a".to_string(), "f".to_string())).into_iter().collect(),
        };
        (Event::Log(l), m)
    } else {
        let l = log("", "", -1);
        let m = L { path: "".into(), time: -1, value: "".into(), tags: Map::new(), fields: Map::new() };
        (Event::Log(l), m)
    }
}

fn apply(o: &mut Oracle, f: &Option<Vec<usize>>, ops: &[(String, Eff)], mut p: P) -> Option<P> {
    let mut r = vec![];
    for i in f.as_ref()? {
        o.step();
        match (ops[*i].1)(&mut p) {
            Ok(s) => r.push(s),
            Err(()) => return None,
        }
        o.state(&p);
    }
    for s in r {
        p.ls.push(L {
            path: "filters.f".into(),
            time: now(),
            value: s,
            tags: globals(),
            fields: Map::new(),
        });
    }
    Some(p)
}

fn output(p: &P) -> Vec<String> {
    // the order between lines and points is not promised
    p.ls.iter().map(|l| l.show()).chain(p.ms.iter().map(|m| m.show())).collect()
}

fn failure(func: &str) -> String {
    format!(
        "T[cernan.filter.filters.f.{}.failure [] {}]",
        func,
        rest(now(), false, "sum Some(1.0)")
    )
}

/// One event through the filter: everything the run loop would send.
fn go(f: &mut ProgrammableFilter, e: Event) -> (bool, Vec<String>) {
    let mut res = vec![];
    let r = f.process(e, &mut res);
    let ok = r.is_ok();
    match r {
        Ok(()) => {}
        Err(FilterError::NoSuchFunction(_, ev)) | Err(FilterError::LuaError(_, ev)) => res.push(ev),
    }
    (ok, show_events(&res))
}

/// Lines and points of one payload in separate lists.
fn split(v: &[String]) -> (Vec<&String>, Vec<&String>) {
    (
        v.iter().filter(|s| s.starts_with("L[")).collect(),
        v.iter().filter(|s| !s.starts_with("L[")).collect(),
    )
}

fn same(got: &[String], want: &[String]) -> bool {
    got.len() == want.len() && split(got) == split(want)
}

fn pick_ops(o: &mut Oracle, n: usize, depth: usize) -> Vec<usize> {
    (0..depth).map(|_| o.choose(n)).collect()
}

thread_local! {
    static FULL: Vec<(String, Eff)> = ops(true);
    static SMALL: Vec<(String, Eff)> = ops(false);
}

/// depth 1 and 2 over every argument, deeper over the usual arguments
fn with_ops(o: &mut Oracle, f: fn(&mut Oracle, Vec<usize>, &[(String, Eff)]) -> Res<()>) -> Res<()> {
    let full = o.choose(2) == 0;
    if full {
        FULL.with(|ops| {
            let d = 1 + o.choose(2);
            let a = o.choose(ops.len());
            let mut s = vec![a];
            if d == 2 {
                // one of the two from the short list, in both orders
                SMALL.with(|sm| {
                    let b = o.choose(sm.len());
                    let b = ops.iter().position(|x| x.0 == sm[b].0).unwrap();
                    if !o.thorough() || o.choose_bool() {
                        s.push(b)
                    } else {
                        s.insert(0, b)
                    }
                });
            }
            f(o, s, ops)
        })
    } else {
        SMALL.with(|ops| {
            let s = pick_ops(o, ops.len(), o.pick(2, 3));
            f(o, s, ops)
        })
    }
}

fn metric_ops(o: &mut Oracle) -> Res<()> {
    with_ops(o, |o, s, ops| {
        let k = o.choose(2);
        o.begin()?;
        let script = Script { metric: Some(s), log: Some(vec![]), tick: Some(vec![]) };
        let src = text(&script, ops);
        let mut f = build(&src);
        for k in &[k, 1 - k] {
            let (ev, m) = metric(*k);
            let p = apply(o, &script.metric, ops, P { ms: vec![m], ls: vec![] });
            check(&mut f, ev, p, "process_metric", &src)?;
        }
        bystanders(&mut f, &src)?;
        o.note(|| src.clone());
        Ok(())
    })
}

fn log_ops(o: &mut Oracle) -> Res<()> {
    with_ops(o, |o, s, ops| {
        let k = o.choose(2);
        o.begin()?;
        let script = Script { metric: Some(vec![]), log: Some(s), tick: Some(vec![]) };
        let src = text(&script, ops);
        let mut f = build(&src);
        for k in &[k, 1 - k] {
            let (ev, l) = line(*k);
            let p = apply(o, &script.log, ops, P { ms: vec![], ls: vec![l] });
            check(&mut f, ev, p, "process_log", &src)?;
        }
        let (ev, m) = metric(0);
        check(&mut f, ev, Some(P { ms: vec![m], ls: vec![] }), "process_metric", &src)?;
        o.note(|| src.clone());
        Ok(())
    })
}

fn tick_ops(o: &mut Oracle) -> Res<()> {
    with_ops(o, |o, s, ops| {
        o.begin()?;
        let script = Script { metric: Some(vec![]), log: Some(vec![]), tick: Some(s) };
        let src = text(&script, ops);
        let mut f = build(&src);
        for idx in 1..3 {
            let p = apply(o, &script.tick, ops, P::default());
            let (ok, got) = go(&mut f, Event::TimerFlush(idx));
            pulse_out(idx, &p, ok, &got, &src)?;
            if p.is_some() {
                let (_, got) = go(&mut f, Event::TimerFlush(idx));
                ensure!(got.is_empty(), "pulse", "a repeated pulse gave {:?}\n{}", got, src);
            }
        }
        bystanders(&mut f, &src)?;
        o.note(|| src.clone());
        Ok(())
    })
}

fn pulse_out(idx: u64, p: &Option<P>, ok: bool, got: &[String], src: &str) -> Res<()> {
    let pulse = format!("flush {}", idx);
    let mut want = match p {
        Some(p) => output(p),
        None => vec![failure("tick")],
    };
    want.push(pulse.clone());
    let mut g: Vec<String> = got.to_vec();
    // on failure pulse and failure metric may come in either order
    if p.is_none() {
        g.sort_by_key(|s| *s == pulse);
    }
    ensure!(
        ok == p.is_some() && same(&g, &want),
        "tick",
        "pulse {} gave {:?} ({}), should be {:?}\n{}",
        idx,
        got,
        ok,
        want,
        src
    );
    Ok(())
}

fn check(f: &mut ProgrammableFilter, ev: Event, p: Option<P>, func: &str, src: &str) -> Res<()> {
    let shown = show_event(&ev);
    let (ok, got) = go(f, ev);
    let want = match &p {
        Some(p) => output(p),
        None => vec![failure(func)],
    };
    ensure!(
        ok == p.is_some() && same(&got, &want),
        if p.is_some() { "payload" } else { "failure" },
        "{} gave {:?}, should be {:?}\n{}",
        shown,
        got,
        want,
        src
    );
    Ok(())
}

/// Events the script does not touch.
fn bystanders(f: &mut ProgrammableFilter, src: &str) -> Res<()> {
    let (ev, l) = line(0);
    check(f, ev, Some(P { ms: vec![], ls: vec![l] }), "process_log", src)?;
    let r = raw(b"x", 1);
    let want = vec![show_event(&r)];
    let (ok, got) = go(f, r);
    ensure!(ok && got == want, "raw", "a raw payload gave {:?}\n{}", got, src);
    Ok(())
}

/// Events of every kind, good and failing, through the run loop.
fn history(o: &mut Oracle) -> Res<()> {
    const SRC: &str = "
n = 0
function process_metric(p)
  n = n + 1
  local k = payload.metric_name(p, 1)
  if k == 'err' then payload.push_metric(p, 'ghost', 1); error('x') end
  if k == 'obj' then error({}) end
  if k == 'idx' then payload.metric_name(p, 5) end
  if k == 'count' then payload.set_metric_name(p, 1, 'count' .. n) end
  if k == 'gone' then payload.clear_metrics(p) end
  if k == 'two' then payload.push_metric(p, 'extra', n) end
end
function process_log(p)
  n = n + 1
  if payload.log_value(p, 1) == 'err' then payload.log_set_value(p, 1, 'ghost'); error() end
  payload.push_log(p, 'n' .. n)
end
function tick(p)
  ticks = (ticks or 0) + 1
  if fail_tick then error('tick') end
  payload.push_metric(p, 'ticks', ticks)
end
";
    let variant = o.choose(5);
    let depth = o.pick(4, 5);
    let mut seq = vec![];
    for _ in 0..depth {
        seq.push(o.choose(12));
    }
    o.begin()?;
    let mut src = SRC.to_string();
    match variant {
        1 => src += "process_metric = nil\n",
        2 => src += "process_log = 5\n",
        3 => src += "tick = nil\n",
        4 => src += "fail_tick = true\n",
        _ => {}
    }
    let no_metric = variant == 1;
    let no_log = variant == 2;
    let no_tick = variant >= 3;
    let mut f = build(&src);
    // model
    let (mut n, mut ticks, mut pulse, mut done) = (0u64, 0u64, 0u64, 0u64);
    let mut input = vec![];
    let mut want: Vec<Vec<String>> = vec![];
    let simple = |name: &str| point(name, AggregationMethod::Sum, 1.0, 5, false, None);
    let show_t = |name: &str| format!("T[{} [] {}]", name, rest(5, false, "sum Some(1.0)"));
    let pushed = |name: &str, x: f64| {
        format!(
            "T[{} {:?} {}]",
            name,
            list(&globals()),
            rest(now(), false, &format!("set {:?}", Some(x)))
        )
    };
    let pushed_l = |v: &str| {
        L {
            path: "filters.f".into(),
            time: now(),
            value: v.into(),
            tags: globals(),
            fields: Map::new(),
        }
        .show()
    };
    for c in &seq {
        o.step();
        match c {
            0..=6 => {
                let name = ["err", "obj", "idx", "count", "gone", "two", "plain"][*c];
                input.push(Event::Telemetry(simple(name)));
                if no_metric {
                    want.push(vec![failure("process_metric")]);
                } else {
                    n += 1;
                    want.push(match *c {
                        0 | 1 | 2 => vec![failure("process_metric")],
                        3 => vec![show_t(&format!("count{}", n))],
                        4 => vec![],
                        5 => vec![show_t("two"), pushed("extra", n as f64)],
                        _ => vec![show_t("plain")],
                    });
                }
            }
            7 | 8 => {
                let v = if *c == 7 { "err" } else { "fine" };
                let l = log("q", v, 6);
                let s = show_event(&Event::Log(l.clone()));
                input.push(Event::Log(l));
                if no_log {
                    want.push(vec![failure("process_log")]);
                } else {
                    n += 1;
                    want.push(if *c == 7 {
                        vec![failure("process_log")]
                    } else {
                        vec![s, pushed_l(&format!("n{}", n))]
                    });
                }
            }
            9 => {
                let r = raw(b"r", 3);
                want.push(vec![show_event(&r)]);
                input.push(r);
            }
            _ => {
                if *c == 10 || pulse == 0 {
                    pulse += 1;
                }
                input.push(Event::TimerFlush(pulse));
                if no_tick {
                    if variant == 4 {
                        ticks += 1;
                    }
                    if pulse > done || *c == 11 {
                        want.push(vec!["?".to_string(), failure("tick"), format!("flush {}", pulse)]);
                        if *c == 10 {
                            want.last_mut().unwrap().remove(0);
                        }
                        done = pulse;
                    }
                } else if pulse > done {
                    ticks += 1;
                    done = pulse;
                    want.push(vec![pushed("ticks", ticks as f64), format!("flush {}", pulse)]);
                } else {
                    want.push(vec![]);
                }
            }
        }
        o.state(&(variant, n, ticks, pulse, done, *c));
    }
    input.push(Event::Shutdown);
    want.push(vec!["shutdown".to_string()]);
    let hist = show_events(&input);
    let got = run_filter(&mut f, input, 1);
    o.note(|| format!("variant {}: {:?} -> {:?}", variant, hist, got));
    let mut rest: &[String] = &got;
    for w in &want {
        let mut w = w.clone();
        if w.first().map(|s| s == "?") == Some(true) {
            // the pulse of a failed tick, repeated: tried again or swallowed
            w.remove(0);
            let mut g: Vec<String> = rest.iter().take(2).cloned().collect();
            g.sort_by_key(|s| s.starts_with("flush"));
            if g != w {
                continue;
            }
        }
        let mut g: Vec<String> = rest.iter().take(w.len()).cloned().collect();
        if w.contains(&failure("tick")) {
            g.sort_by_key(|s| s.starts_with("flush"));
        }
        ensure!(
            same(&g, &w),
            "history",
            "variant {}: {:?} came out as {:?}, should be {:?}",
            variant,
            hist,
            got,
            want
        );
        rest = &rest[w.len()..];
    }
    ensure!(rest.is_empty(), "history", "variant {}: {:?} came out as {:?}, should be {:?}", variant, hist, got, want);
    Ok(())
}

/// Long runs of one kind of event, good or failing, then a good event.
fn long(o: &mut Oracle) -> Res<()> {
    let kind = o.choose(4); // metric, log, tick, missing functions
    let op = FULL.with(|ops| o.choose(ops.len()));
    let n = o.pick(1500, 20_000);
    let n = if kind == 3 { 20_000 } else { n };
    if kind == 3 && op > 0 {
        return Err(Stop::Prune);
    }
    o.begin()?;
    FULL.with(|ops| {
        let one = Some(vec![op]);
        let script = match kind {
            0 => Script { metric: one, log: Some(vec![]), tick: Some(vec![]) },
            1 => Script { metric: Some(vec![]), log: one, tick: Some(vec![]) },
            2 => Script { metric: Some(vec![]), log: Some(vec![]), tick: one },
            _ => Script { metric: None, log: Some(vec![]), tick: None },
        };
        let src = text(&script, ops);
        let mut f = build(&src);
        let n = if src.contains("error(") { 20_000 } else { n };
        let start = match kind {
            0 | 3 => P { ms: vec![metric(0).1], ls: vec![] },
            1 => P { ms: vec![], ls: vec![line(0).1] },
            _ => P::default(),
        };
        let which = match kind {
            0 | 3 => &script.metric,
            1 => &script.log,
            _ => &script.tick,
        };
        let p = apply(o, which, ops, start);
        for i in 0..n {
            o.step();
            match kind {
                0 => check(&mut f, metric(0).0, p.clone(), "process_metric", &src)?,
                1 => check(&mut f, line(0).0, p.clone(), "process_log", &src)?,
                2 => {
                    let (ok, got) = go(&mut f, Event::TimerFlush(i + 1));
                    pulse_out(i + 1, &p, ok, &got, &src)?;
                }
                _ => {
                    check(&mut f, metric(0).0, None, "process_metric", &src)?;
                    let (ok, got) = go(&mut f, Event::TimerFlush(i + 1));
                    pulse_out(i + 1, &None, ok, &got, &src)?;
                }
            }
        }
        if kind == 1 {
            check(&mut f, metric(0).0, Some(P { ms: vec![metric(0).1], ls: vec![] }), "process_metric", &src)?;
        } else {
            bystanders(&mut f, &src)?;
        }
        o.note(|| format!("{} times {}", n, src));
        Ok(())
    })
}
