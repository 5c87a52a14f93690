//! Things several properties share: points described through the public API.
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use quantiles::histogram::Bound;
use std::collections::BTreeMap;

pub type Tags = BTreeMap<String, String>;

pub fn tagmap(ts: &[(&str, &str)]) -> TagMap {
    let mut m = TagMap::default();
    for (k, v) in ts {
        m.insert((*k).to_string(), (*v).to_string());
    }
    m
}

pub fn tags_of(t: &Telemetry) -> Vec<(String, String)> {
    let none = TagMap::default();
    let mut v: Vec<_> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    v
}

pub fn log_tags_of(l: &LogLine) -> Vec<(String, String)> {
    let none = TagMap::default();
    let mut v: Vec<_> = l.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    v
}

pub fn fields_of(l: &LogLine) -> Vec<(String, String)> {
    let mut v: Vec<_> = l.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    v
}

pub const QS: [f64; 5] = [0.0, 0.25, 0.5, 0.9, 1.0];

/// Everything a point lets us see of its value.
pub fn value_of(t: &Telemetry) -> String {
    match t.kind() {
        AggregationMethod::Set => format!("set {:?}", t.set()),
        AggregationMethod::Sum => format!("sum {:?}", t.sum()),
        AggregationMethod::Summarize => format!(
            "summary n={} sum={:?} mean={:.9} q={:?} v={:?}",
            t.count(),
            t.samples_sum(),
            t.mean(),
            QS.iter().map(|q| t.query(*q)).collect::<Vec<_>>(),
            t.samples()
        ),
        AggregationMethod::Histogram => format!(
            "histogram n={} sum={:?} bins={:?}",
            t.count(),
            t.samples_sum(),
            bins_of(t)
        ),
    }
}

pub fn bins_of(t: &Telemetry) -> Vec<(Option<f64>, usize)> {
    t.bins()
        .map(|b| {
            b.map(|(bound, n)| {
                (
                    match *bound {
                        Bound::Finite(x) => Some(x),
                        Bound::PosInf => None,
                    },
                    *n,
                )
            })
            .collect()
        })
        .unwrap_or_default()
}

/// Everything a point lets us see.
pub fn show(t: &Telemetry) -> String {
    format!(
        "{} {:?} @{} persist={} {}",
        t.name,
        tags_of(t),
        t.timestamp,
        t.persist,
        value_of(t)
    )
}

pub fn show_log(l: &LogLine) -> String {
    format!(
        "log {:?} @{} {:?} tags={:?} fields={:?}",
        l.path,
        l.time,
        l.value,
        log_tags_of(l),
        fields_of(l)
    )
}

pub fn show_event(e: &Event) -> String {
    match e {
        Event::Telemetry(t) => format!("T[{}]", show(t)),
        Event::Log(l) if l.value.len() > 400 => format!(
            "L[log {:?} @{} {} bytes, hash {:x} tags={:?} fields={:?}]",
            l.path,
            l.time,
            l.value.len(),
            crate::engine::hash64(&l.value),
            log_tags_of(l),
            fields_of(l)
        ),
        Event::Log(l) => format!("L[{}]", show_log(l)),
        Event::TimerFlush(i) => format!("flush {}", i),
        Event::Shutdown => "shutdown".to_string(),
        Event::Raw { order_by, encoding, bytes, metadata, connection_id } => {
            let mut md: Vec<_> = metadata
                .as_ref()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
                .unwrap_or_default();
            md.sort();
            format!(
                "raw {:?} {} {:?} {:?} {:?}",
                encoding,
                order_by,
                if bytes.len() > 400 {
                    format!("{} bytes, hash {:x}", bytes.len(), crate::engine::hash64(bytes))
                } else {
                    String::from_utf8_lossy(bytes).into_owned()
                },
                if metadata.is_some() { Some(md) } else { None },
                connection_id
            )
        }
    }
}

pub fn show_events(es: &[Event]) -> Vec<String> {
    es.iter().map(show_event).collect()
}

/// What a value must be after a list of observations (the oracle; written
/// without cernan's aggregation code).
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Set(f64),
    Sum(f64),
    Hist { bounds: Vec<f64>, counts: Vec<usize>, sum: Option<f64> },
    Summary { vals: Vec<f64>, sum: f64 },
}

impl Val {
    pub fn new(kind: AggregationMethod, x: f64, bounds: &[f64]) -> Val {
        match kind {
            AggregationMethod::Set => Val::Set(x),
            AggregationMethod::Sum => Val::Sum(x),
            AggregationMethod::Summarize => Val::Summary { vals: vec![x], sum: x },
            AggregationMethod::Histogram => {
                let mut v = Val::Hist {
                    bounds: bounds.to_vec(),
                    counts: vec![0; bounds.len() + 1],
                    sum: None,
                };
                v.observe(x);
                v
            }
        }
    }

    /// One more observation of the same kind.
    pub fn observe(&mut self, x: f64) {
        match self {
            Val::Set(s) => *s = x,
            Val::Sum(s) => *s += x,
            Val::Summary { vals, sum } => {
                vals.push(x);
                vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                *sum += x;
            }
            Val::Hist { bounds, counts, sum } => {
                let i = bounds.iter().position(|b| x <= *b).unwrap_or(bounds.len());
                counts[i] += 1;
                *sum = Some(sum.unwrap_or(0.0) + x);
            }
        }
    }

    /// `self` followed by `rhs`, the result being of rhs's kind, with the
    /// documented conversions.
    pub fn then(&self, rhs: &Val) -> Val {
        match (self, rhs) {
            (_, Val::Set(y)) => Val::Set(*y),
            (Val::Set(x), Val::Sum(y)) | (Val::Sum(x), Val::Sum(y)) => Val::Sum(x + y),
            (Val::Hist { sum, .. }, Val::Sum(y)) => Val::Sum(sum.unwrap_or(0.0) + y),
            (Val::Summary { sum, .. }, Val::Sum(y)) => Val::Sum(sum + y),
            (Val::Set(x), r) | (Val::Sum(x), r) => {
                let mut r = r.clone();
                r.observe(*x);
                r
            }
            (
                Val::Hist { bounds, counts, sum },
                Val::Hist { counts: rc, sum: rs, .. },
            ) => Val::Hist {
                bounds: bounds.clone(),
                counts: counts.iter().zip(rc).map(|(a, b)| a + b).collect(),
                sum: match (sum, rs) {
                    (Some(a), Some(b)) => Some(a + b),
                    (a, b) => a.or(*b),
                },
            },
            // documented as losing data
            (Val::Hist { .. }, Val::Summary { .. }) => rhs.clone(),
            (Val::Summary { vals, .. }, Val::Hist { .. }) => {
                let mut r = rhs.clone();
                for v in vals {
                    r.observe(*v);
                }
                r
            }
            (Val::Summary { vals, sum }, Val::Summary { vals: rv, sum: rs }) => {
                let mut vals = vals.clone();
                vals.extend(rv.iter().cloned());
                vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                Val::Summary { vals, sum: sum + rs }
            }
        }
    }

    pub fn kind(&self) -> AggregationMethod {
        match self {
            Val::Set(_) => AggregationMethod::Set,
            Val::Sum(_) => AggregationMethod::Sum,
            Val::Hist { .. } => AggregationMethod::Histogram,
            Val::Summary { .. } => AggregationMethod::Summarize,
        }
    }

    /// Does the point show this value?  (observations are few, so that a
    /// summary still holds every one of them exactly)
    pub fn matches(&self, t: &Telemetry) -> bool {
        if t.kind() != self.kind() {
            return false;
        }
        match self {
            Val::Set(x) => t.set() == Some(*x) && t.sum().is_none() && t.bins().is_none(),
            Val::Sum(x) => t.sum() == Some(*x) && t.set().is_none() && t.bins().is_none(),
            Val::Hist { bounds, counts, sum } => {
                let b = bins_of(t);
                t.samples_sum() == *sum
                    && t.count() == counts.iter().sum::<usize>()
                    && b.len() == counts.len()
                    && b.iter().enumerate().all(|(i, (bd, n))| {
                        *n == counts[i] && *bd == bounds.get(i).cloned()
                    })
            }
            Val::Summary { vals, sum } => {
                let mean = vals.iter().sum::<f64>() / vals.len() as f64;
                t.samples_sum() == Some(*sum)
                    && t.count() == vals.len()
                    && t.samples() == *vals
                    && (t.mean() - mean).abs() < 1e-6
                    && QS.iter().all(|q| {
                        // rank ceil(q*n), at least the first, give or take one
                        let r = ((q * vals.len() as f64).ceil() as usize).max(1);
                        let lo = vals[r.saturating_sub(2)];
                        let hi = vals[r.min(vals.len() - 1)];
                        match t.query(*q) {
                            Some(x) => lo <= x && x <= hi,
                            None => false,
                        }
                    })
            }
        }
    }
}

pub const KINDS: [AggregationMethod; 4] = [
    AggregationMethod::Set,
    AggregationMethod::Sum,
    AggregationMethod::Summarize,
    AggregationMethod::Histogram,
];

pub const BOUNDS: [f64; 3] = [1.0, 10.0, 100.0];

pub fn point(
    name: &str,
    kind: AggregationMethod,
    value: f64,
    ts: i64,
    persist: bool,
    tags: Option<TagMap>,
) -> Telemetry {
    let mut s = Telemetry::new()
        .name(name)
        .value(value)
        .kind(kind)
        .timestamp(ts)
        .persist(persist);
    if kind == AggregationMethod::Histogram {
        s = s.bounds(BOUNDS.to_vec());
    }
    if kind == AggregationMethod::Summarize {
        s = s.error(0.001);
    }
    if let Some(t) = tags {
        s = s.tags(t);
    }
    s.harden().expect("harden")
}

pub fn log(path: &str, line: &str, time: i64) -> LogLine {
    LogLine::new(path, line).time(time)
}

pub fn raw(bytes: &[u8], order_by: u64) -> Event {
    Event::Raw {
        order_by,
        encoding: cernan::metric::Encoding::Raw,
        bytes: bytes.to_vec(),
        metadata: None,
        connection_id: None,
    }
}

use std::sync::atomic::{AtomicUsize, Ordering};

static SEQ: AtomicUsize = AtomicUsize::new(0);

/// A directory of this process's own, under the scratch directory.
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new(tag: &str) -> Dir {
        let base = std::env::var("MC_SCRATCH").expect("ENGINE: MC_SCRATCH");
        let p = std::path::PathBuf::from(base).join(format!(
            "{}-{}-{}",
            tag,
            std::process::id(),
            SEQ.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("ENGINE: scratch directory");
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A queue between two stages.
pub struct Queue {
    pub dir: Dir,
    pub mem: usize,
    pub file: usize,
    pub files: usize,
}
pub type Tx = hopper::Sender<Event>;
pub type Rx = hopper::Receiver<Event>;

impl Queue {
    pub fn new() -> Queue {
        Queue { dir: Dir::new("q"), mem: 1_048_576, file: 1_048_576, files: 100 }
    }
    pub fn ends(&self) -> (Tx, Rx) {
        hopper::channel_with_explicit_capacity(
            "q",
            &self.dir.0,
            self.mem,
            self.file,
            self.files,
        )
        .expect("ENGINE: queue")
    }
}

/// A marker that ends a drained queue.
pub const END: &[u8] = b"<end of queue>";

/// Everything waiting on a queue (the sender is used to mark the end).
pub fn drain(mut tx: Tx, rx: Rx) -> Vec<String> {
    show_events(&drain_events(&mut tx, rx))
}

pub fn drain_events(tx: &mut Tx, rx: Rx) -> Vec<Event> {
    let end = raw(END, 0);
    if tx.send(end.clone()).is_err() {
        panic!("ENGINE: queue refused the end marker");
    }
    let mut it = rx.into_iter();
    let mut v = vec![];
    let mut none = 0;
    loop {
        match it.next() {
            Some(ref e) if *e == end => return v,
            Some(e) => {
                v.push(e);
                none = 0;
            }
            None => {
                // the marker may be waiting on disk for a flush
                let _ = tx.flush();
                none += 1;
                if none > 1000 {
                    panic!("ENGINE: queue never ends");
                }
            }
        }
    }
}
