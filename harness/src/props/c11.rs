//! C11: the statsd parser against an independent recogniser of the grammar.
use super::util::*;
use crate::engine::*;
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::protocols::statsd::parse_statsd;
use cernan::source::StatsdParseConfig;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C11",
        scenarios: |_| {
            vec![
                Scenario { name: "tokens", run: tokens },
                Scenario { name: "packets", run: packets },
                Scenario { name: "strings", run: strings },
                Scenario { name: "masks", run: masks },
            ]
        },
        rule: "every line assembled from a list of names, values, types and sample rates; every \
               packet of up to four lines from a list; every string up to a length over the \
               characters the grammar knows; every order of masks; states = inputs",
        assumptions: &[
            "numbers are what Rust's f64 reads, without the words for infinity and not-a-number",
            "a sample rate of zero scales to infinity",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

/// What one line stands for.
#[derive(Clone, Debug)]
pub struct Expect {
    name: String,
    value: f64,
    kind: AggregationMethod,
    persist: bool,
    bounds: Option<Vec<f64>>,
}

/// Is this a number?
fn number(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let digits = |i: &mut usize| {
        let from = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - from
    };
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    s.parse().ok()
}

type Masks<'a> = &'a [(fn(&str) -> bool, Vec<f64>)];

fn line(s: &str, masks: Masks) -> Option<Expect> {
    let colon = s.find(':')?;
    let (name, rest) = (&s[..colon], &s[colon + 1..]);
    if name.is_empty() {
        return None;
    }
    let bar = rest.find('|')?;
    let (val, ty) = (&rest[..bar], &rest[bar + 1..]);
    let v = number(val)?;
    let (ty, scale) = match ty.find('@') {
        None => (ty, 1.0),
        Some(at) => {
            let t = &ty[..at];
            let t = if t.ends_with('|') { &t[..t.len() - 1] } else { t };
            (t, 1.0 / number(&ty[at + 1..])?)
        }
    };
    let signed = val.starts_with('+') || val.starts_with('-');
    let mut bounds = None;
    let kind = match ty {
        "c" => AggregationMethod::Sum,
        "g" if signed => AggregationMethod::Sum,
        "g" => AggregationMethod::Set,
        "ms" | "h" => match masks.iter().find(|m| m.0(name)) {
            None => AggregationMethod::Summarize,
            Some(m) => {
                bounds = Some(m.1.clone());
                AggregationMethod::Histogram
            }
        },
        _ => return None,
    };
    Some(Expect { name: name.to_string(), value: v * scale, kind, persist: ty == "g", bounds })
}

/// What a packet stands for: every line in it, or nothing.
fn packet(s: &str, masks: Masks) -> Option<Vec<Expect>> {
    let mut lines: Vec<&str> = s.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    if lines.is_empty() {
        return None;
    }
    // a carriage return before the end of the line belongs to it
    lines
        .iter()
        .map(|l| line(if l.ends_with('\r') { &l[..l.len() - 1] } else { l }, masks))
        .collect()
}

impl Expect {
    pub fn event(&self) -> Telemetry {
        let mut t = Telemetry::new()
            .name(self.name.clone())
            .value(self.value)
            .kind(self.kind)
            .timestamp(cernan::time::now())
            .persist(self.persist);
        if let Some(ref b) = self.bounds {
            t = t.bounds(b.clone());
        }
        if self.kind == AggregationMethod::Summarize {
            t = t.error(0.01);
        }
        t.harden().expect("ENGINE: harden")
    }
    fn matches(&self, t: &Telemetry) -> bool {
        if t.name != self.name
            || t.kind() != self.kind
            || t.persist != self.persist
            || t.timestamp != cernan::time::now()
            || !tags_of(t).is_empty()
        {
            return false;
        }
        let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
        match self.kind {
            AggregationMethod::Set => t.set().map_or(false, |x| same(x, self.value)),
            AggregationMethod::Sum => t.sum().map_or(false, |x| same(x, self.value)),
            AggregationMethod::Summarize => {
                t.count() == 1
                    && t.samples_sum().map_or(false, |x| same(x, self.value))
                    && t.query(0.5).map_or(false, |x| same(x, self.value))
            }
            AggregationMethod::Histogram => {
                if self.value.is_nan() {
                    return true;
                }
                let b = self.bounds.clone().unwrap_or_default();
                let v = Val::new(AggregationMethod::Histogram, self.value, &b);
                v.matches(t)
            }
        }
    }
}

fn check(s: &str, cfg: &Arc<StatsdParseConfig>, masks: Masks) -> Res<()> {
    let basic = Arc::new(Some(Telemetry::default()));
    let mut res = vec![];
    let ok = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        parse_statsd(s, &mut res, &basic, cfg)
    })) {
        Ok(x) => x,
        Err(_) => {
            let p = take_panics();
            return fail("crash", format!("packet {:?} crashes the parser: {:?}", s, p));
        }
    };
    match packet(s, masks) {
        None => ensure!(
            !ok,
            "accepted",
            "packet {:?} is not in the grammar but was accepted as {:?}",
            s,
            res.iter().map(show).collect::<Vec<_>>()
        ),
        Some(want) => {
            ensure!(ok, "rejected", "packet {:?} was rejected, should be {:?}", s, want);
            ensure!(
                want.len() == res.len() && want.iter().zip(&res).all(|(w, r)| w.matches(r)),
                "metrics",
                "packet {:?} became {:?}, should be {:?}",
                s,
                res.iter().map(show).collect::<Vec<_>>(),
                want
            );
        }
    }
    Ok(())
}

const NAMES: [&str; 10] =
    ["a", "", "a.b-c_d", "a b", "a|b", "a@b", "\u{e9}\u{1f980}", "=/%", "a\tb", "@0.5"];
const VALUES: [&str; 20] = [
    "1", "-1", "+1", "0", "-0", "3.25", ".5", "5.", "1e3", "1E-3", "", "x", "1x", "+", "--1", " 1", "1 ",
    "9007199254740993", "1e400", ".",
];
const TYPES: [&str; 14] = ["c", "g", "ms", "h", "", "m", "s", "cc", "C", "gc", "ms|", " c", "c ", "d"];
const RATES: [&str; 18] = [
    "", "@0.1", "|@0.1", "@1", "|@1", "|@+0.25", "@2", "|@0", "|@-1", "@", "|@", "@x", "||@0.1", "|0.1", "|",
    "@0.1@0.2", "@0.1|", "|@ 0.1",
];

fn tokens(o: &mut Oracle) -> Res<()> {
    let (n, v, t, r) =
        (o.choose(NAMES.len()), o.choose(VALUES.len()), o.choose(TYPES.len()), o.choose(RATES.len()));
    let sep = o.choose(4); // what else might be wrong with it
    o.begin()?;
    o.step();
    let mut s = match sep {
        0 | 3 => format!("{}:{}|{}{}", NAMES[n], VALUES[v], TYPES[t], RATES[r]),
        1 => format!("{}{}|{}{}", NAMES[n], VALUES[v], TYPES[t], RATES[r]),
        _ => format!("{}:{}{}{}", NAMES[n], VALUES[v], TYPES[t], RATES[r]),
    };
    if sep == 3 {
        s.push('\n');
    }
    o.state(&s);
    check(&s, &Arc::new(StatsdParseConfig::default()), &[])
}

const LINES: [&str; 16] = [
    "a:1|c", "b:2|g", "c:-3|g", "d:4|ms", "e:5|h|@0.5", "f:6|c@0.1", "g:+7|g|@0.25", "h:8|ms@2", "", "bad",
    "bad:1", "bad:x|c", "bad:1|q", ":1|c", "bad:1|c|@x", "a:1|c ",
];

fn packets(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(o.pick(3, 4));
    let ids: Vec<usize> = (0..n).map(|_| o.choose(LINES.len())).collect();
    let sep = *o.choose_from(&["\n", "\r\n", "\n\n", "\r"]);
    let fin = o.choose(3);
    o.begin()?;
    o.step();
    let mut s = ids.iter().map(|i| LINES[*i]).collect::<Vec<_>>().join(sep);
    s.push_str(["", "\n", "\r\n"][fin]);
    o.state(&s);
    check(&s, &Arc::new(StatsdParseConfig::default()), &[])
}

/// Every string over these characters, whole and behind a good beginning.
fn strings(o: &mut Oracle) -> Res<()> {
    let chars: &[&str] = &["1", ":", "|", "@", "c", "g", "m", "s", "h", "-", ".", "\n", "a", "\u{e9}"];
    let start = *o.choose_from(&["", "a:", "a:1|", "a:1|c|@", "a:1|c\n"]);
    let max = if start == "" { o.pick(6, 7) } else { o.pick(5, 6) };
    let n = o.choose(max + 1);
    let mut s = start.to_string();
    for _ in 0..n {
        s.push_str(chars[o.choose(chars.len())]);
    }
    o.begin()?;
    o.step();
    o.state(&s);
    check(&s, &Arc::new(StatsdParseConfig::default()), &[])
}

/// The first mask that fits decides.
fn masks(o: &mut Oracle) -> Res<()> {
    let all: Vec<(&str, fn(&str) -> bool, Vec<f64>)> = vec![
        ("^a", |n| n.starts_with('a'), vec![1.0, 10.0]),
        ("b$", |n| n.ends_with('b'), vec![0.0]),
        ("\\.", |n| n.contains('.'), vec![-5.0, 5.0, 500.0]),
        ("", |_| true, vec![2.0, 3.0]),
    ];
    let n = o.choose(4);
    let mut used = vec![];
    let mut cfg = StatsdParseConfig::default();
    let mut ms: Vec<(fn(&str) -> bool, Vec<f64>)> = vec![];
    for _ in 0..n {
        let i = o.choose(all.len());
        used.push(i);
        let m = &all[i];
        cfg.histogram_masks.push((regex::Regex::new(m.0).expect("ENGINE: mask"), m.2.clone()));
        ms.push((m.1, m.2.clone()));
    }
    let names = ["a", "b", "ab", "c", "c.b", "a.c", "xay"];
    let vals = ["1", "0", "-7", "10", "10.5", "1000"];
    let types = ["ms", "h", "c", "g", "ms|@0.5", "h@0.1"];
    let (i, v, t) = (o.choose(names.len()), o.choose(vals.len()), o.choose(types.len()));
    o.begin()?;
    o.step();
    let s = format!("{}:{}|{}", names[i], vals[v], types[t]);
    o.state(&(used, s.clone()));
    check(&s, &Arc::new(cfg), &ms)
}
