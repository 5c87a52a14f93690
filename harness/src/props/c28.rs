//! C28: the internal source and the counters it reports.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw};
use cernan::metric::{AggregationMethod, Event};
use cernan::source::{report_full_telemetry, Internal, InternalConfig};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C28",
        scenarios: |_| {
            vec![
                Scenario { name: "racing", run: racing },
                Scenario { name: "histories", run: histories },
                Scenario { name: "telemetry", run: telemetry },
                Scenario { name: "in-filters", run: in_filters },
                Scenario { name: "in-sources", run: in_sources },
                Scenario { name: "in-wavefront", run: in_wavefront },
                Scenario { name: "in-web", run: in_web },
                Scenario { name: "in-prometheus", run: in_prometheus },
                Scenario { name: "in-kafka", run: in_kafka },
            ]
        },
        rule: "every counter, incremented before each of its accesses by a report (the accesses are \
               trapped) and between reports, in every combination; every sequence of subsets of \
               increments and reports up to a length; states = (what is due, reports so far)",
        assumptions: &["an increment is one atomic addition; only accesses to a counter's own word matter to it"],
        level: "model_checking",
        hang_s: 60,
    }
}

use AggregationMethod::{Set, Sum};
/// Counters and what they are reported as.
const TABLE: [(&str, &str, AggregationMethod); 59] = [
    ("UTIL_SEND_HOPPER_ERROR_FULL", "cernan.util.hopper.error.full", Sum),
    ("GRAPHITE_NEW_PEER", "cernan.graphite.new_peer", Sum),
    ("GRAPHITE_GOOD_PACKET", "cernan.graphite.packet", Sum),
    ("GRAPHITE_TELEM", "cernan.graphite.telemetry.received", Sum),
    ("GRAPHITE_BAD_PACKET", "cernan.graphite.bad_packet", Sum),
    ("STATSD_GOOD_PACKET", "cernan.statsd.packet", Sum),
    ("STATSD_BAD_PACKET", "cernan.statsd.bad_packet", Sum),
    ("NATIVE_PAYLOAD_SUCCESS_SUM", "cernan.native.payload.success", Sum),
    ("NATIVE_PAYLOAD_PARSE_FAILURE_SUM", "cernan.native.payload.parse.failure", Sum),
    ("AVRO_PAYLOAD_SUCCESS_SUM", "cernan.avro.payload.success", Sum),
    ("AVRO_PAYLOAD_PARSE_FAILURE_SUM", "cernan.avro.payload.parse.failure", Sum),
    ("AVRO_PAYLOAD_IO_FAILURE_SUM", "cernan.avro.payload.io.failure", Sum),
    ("ELASTIC_RECORDS_DELIVERY", "cernan.sinks.elasticsearch.records.delivery", Sum),
    ("ELASTIC_INTERNAL_BUFFER_LEN", "cernan.sinks.elasticsearch.internal.buffer_len", Sum),
    ("ELASTIC_RECORDS_TOTAL_DELIVERED", "cernan.sinks.elasticsearch.records.total_delivered", Sum),
    ("ELASTIC_RECORDS_TOTAL_FAILED", "cernan.sinks.elasticsearch.records.total_failed", Sum),
    ("ELASTIC_ERROR_UNKNOWN", "cernan.sinks.elasticsearch.error.unknown", Sum),
    ("ELASTIC_BULK_ACTION_INDEX_ERR", "cernan.sinks.elasticsearch.error.bulk_action.index", Sum),
    ("ELASTIC_BULK_ACTION_CREATE_ERR", "cernan.sinks.elasticsearch.error.bulk_action.create", Sum),
    ("ELASTIC_BULK_ACTION_UPDATE_ERR", "cernan.sinks.elasticsearch.error.bulk_action.update", Sum),
    ("ELASTIC_BULK_ACTION_DELETE_ERR", "cernan.sinks.elasticsearch.error.bulk_action.delete", Sum),
    ("ELASTIC_ERROR_API_INDEX_NOT_FOUND", "cernan.sinks.elasticsearch.error.api.index_not_found", Sum),
    ("ELASTIC_ERROR_API_PARSING", "cernan.sinks.elasticsearch.error.api.parsing", Sum),
    ("ELASTIC_ERROR_API_MAPPER_PARSING", "cernan.sinks.elasticsearch.error.api.mapper_parsing", Sum),
    ("ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION", "cernan.sinks.elasticsearch.error.api.action_request_validation", Sum),
    ("ELASTIC_ERROR_API_DOCUMENT_MISSING", "cernan.sinks.elasticsearch.error.api.action_document_missing", Sum),
    ("ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS", "cernan.sinks.elasticsearch.error.api.index_already_exists", Sum),
    ("ELASTIC_ERROR_API_UNKNOWN", "cernan.sinks.elasticsearch.error.api.unknown", Sum),
    ("ELASTIC_ERROR_CLIENT", "cernan.sinks.elasticsearch.error.client", Sum),
    ("WAVEFRONT_CONNECT_ATTEMPTS", "cernan.sinks.wavefront.proxy.connection_attempts", Sum),
    ("WAVEFRONT_AGGR_STORED_VALUES", "cernan.sinks.wavefront.aggregations.total_stored", Set),
    ("WAVEFRONT_AGGR_HISTO", "cernan.sinks.wavefront.aggregation.histogram", Sum),
    ("WAVEFRONT_AGGR_SUM", "cernan.sinks.wavefront.aggregation.sum", Sum),
    ("WAVEFRONT_AGGR_SET", "cernan.sinks.wavefront.aggregation.set", Sum),
    ("WAVEFRONT_AGGR_SUMMARIZE", "cernan.sinks.wavefront.aggregation.summarize", Sum),
    ("WAVEFRONT_AGGR_TOT_PERCENT", "cernan.sinks.wavefront.aggregation.summarize.total_percentiles", Sum),
    ("WAVEFRONT_DELIVERY_SUCCESS", "cernan.sinks.wavefront.delivery.success", Sum),
    ("WAVEFRONT_DELIVERY_FAILURE", "cernan.sinks.wavefront.delivery.failure", Sum),
    ("WAVEFRONT_VALVE_CLOSED", "cernan.sinks.wavefront.valve.closed", Sum),
    ("WAVEFRONT_VALVE_OPEN", "cernan.sinks.wavefront.valve.open", Sum),
    ("PROMETHEUS_AGGR_WINDOWED_PURGED", "cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged", Sum),
    ("PROMETHEUS_RESPONSE_DELAY_SUM", "cernan.sinks.prometheus.exposition.inside_baseball.delay.sum", Sum),
    ("PROMETHEUS_AGGR_REPORTABLE", "cernan.sinks.prometheus.aggregation.reportable", Set),
    ("PROMETHEUS_REPORT_SUCCESS", "cernan.sinks.prometheus.report.success", Sum),
    ("PROMETHEUS_REPORT_ERROR", "cernan.sinks.prometheus.report.error", Sum),
    ("INFLUX_DELIVERY_ATTEMPTS", "cernan.sinks.influxdb.delivery_attempts", Sum),
    ("INFLUX_SUCCESS", "cernan.sinks.influxdb.success", Sum),
    ("INFLUX_FAILURE_CLIENT", "cernan.sinks.influxdb.failure.client_error", Sum),
    ("INFLUX_FAILURE_SERVER", "cernan.sinks.influxdb.failure.server_error", Sum),
    ("KAFKA_PUBLISH_SUCCESS_SUM", "cernan.sinks.kafka.publish.success", Sum),
    ("KAFKA_PUBLISH_RETRY_SUM", "cernan.sinks.kafka.publish.retry", Sum),
    ("KAFKA_PUBLISH_FAILURE_SUM", "cernan.sinks.kafka.publish.failure", Sum),
    ("KAFKA_PUBLISH_RETRY_FAILURE_SUM", "cernan.sinks.kafka.publish.retry.failure", Sum),
    ("DELAY_TELEM_ACCEPT", "cernan.filters.delay.telemetry.accept", Sum),
    ("DELAY_TELEM_REJECT", "cernan.filters.delay.telemetry.reject", Sum),
    ("DELAY_LOG_REJECT", "cernan.filters.delay.log.reject", Sum),
    ("DELAY_LOG_ACCEPT", "cernan.filters.delay.log.accept", Sum),
    ("JSON_ENCODE_LOG_PROCESSED", "cernan.filters.json_encode.log.processed", Sum),
    ("JSON_ENCODE_LOG_PARSED", "cernan.filters.json_encode.log.parsed", Sum),
];

#[derive(Clone)]
struct Counter {
    at: usize,
    what: &'static str,
    kind: AggregationMethod,
}

lazy_static::lazy_static! {
    static ref COUNTERS: Vec<Counter> = {
        let all = sched::words("6cernan");
        TABLE
            .iter()
            .filter_map(|(n, what, kind)| {
                let tail = format!("{}{}17h", n.len(), n);
                all.iter().find(|w| w.0.contains(&tail)).map(|w| Counter { at: w.1, what, kind: *kind })
            })
            .collect()
    };
}

fn add(at: usize, n: usize) {
    unsafe { (*(at as *const AtomicUsize)).fetch_add(n, Ordering::SeqCst) };
}
fn zero() {
    for c in COUNTERS.iter() {
        unsafe { (*(c.at as *const AtomicUsize)).store(0, Ordering::SeqCst) };
    }
}

/// What was reported: (report number, event).
type Log = Vec<(u64, Event)>;

/// Run the source through `n` reports; `before(i)` happens before report i.
fn reports<F>(o: &mut Oracle, n: usize, chans: usize, before: F) -> (sched::Run, Vec<Log>)
where
    F: FnMut(usize) + Send + 'static,
{
    zero();
    let mut before = before;
    let qs: Vec<Queue> = (0..chans).map(|_| Queue::new()).collect();
    let mut ends: Vec<(Tx, Rx)> = qs.iter().map(|q| q.ends()).collect();
    let txs: Vec<Tx> = ends.iter().map(|e| e.0.clone()).collect();
    let logs: Arc<Mutex<Vec<Log>>> = Arc::new(Mutex::new(vec![vec![]; chans]));
    let l2 = logs.clone();
    let mut roots: Vec<sched::Root> = vec![Box::new(move || {
        use cernan::source::Source;
        use cernan::thread::Stoppable;
        let src = <Internal as Source<InternalConfig>>::new(txs, InternalConfig::default());
        let h = src.run();
        for i in 0..n {
            // reports happen a second apart
            before(i);
            sched::sleep(if i == 0 { 1_500_000_000 } else { 1_000_000_000 });
            sched::unwatch();
        }
        h.shutdown();
    })];
    for (i, (_, rx)) in ends.drain(..).enumerate() {
        let l = l2.clone();
        roots.push(Box::new(move || {
            for e in rx {
                let last = e == Event::Shutdown;
                let t = unsafe { sched::mc_vnow() } / 1_000_000_000;
                l.lock().unwrap()[i].push((t, e));
                if last {
                    break;
                }
            }
        }));
    }
    sched::vnet(true);
    sched::vclock(true);
    let r = sched::run(o, opts(0), roots);
    sched::unwatch();
    let v = if r.outcome == sched::Outcome::AllDone { logs.lock().unwrap().clone() } else { vec![] };
    (r, v)
}

/// The reported values of each name, per report.
fn values(log: &[(u64, Event)], hist: &str) -> Result<BTreeMap<(String, u64), Vec<f64>>, Stop> {
    let mut m: BTreeMap<(String, u64), Vec<f64>> = BTreeMap::new();
    for (i, (t, e)) in log.iter().enumerate() {
        match e {
            Event::Telemetry(p) => {
                let v = match p.kind() {
                    Sum => p.sum(),
                    Set => p.set(),
                    _ => None,
                };
                let known = COUNTERS.iter().find(|c| c.what == p.name);
                let kind = known.map_or(Sum, |c| c.kind);
                if v.is_none() || p.kind() != kind {
                    fail::<()>("kind", format!("{}: {} is no {:?}", hist, show(p), kind))?;
                }
                m.entry((p.name.clone(), *t)).or_default().push(v.unwrap_or(0.0));
            }
            Event::Shutdown if i + 1 == log.len() => {}
            e => fail::<()>("foreign", format!("{}: {} was reported", hist, show_event(e)))?,
        }
    }
    match log.last() {
        Some((_, Event::Shutdown)) => Ok(m),
        _ => fail("shutdown", format!("{}: no shutdown at the end", hist)),
    }
}

/// One counter against the reports, accesses trapped.
fn racing(o: &mut Oracle) -> Res<()> {
    let n = COUNTERS.len();
    ensure!(n > 0, "ENGINE", "no counters");
    let c = o.choose(n);
    let start = *o.choose_from(&[0usize, 1, 7]);
    let tick = o.choose(2);
    let nth = 1 + o.choose(3);
    let by = *o.choose_from(&[0usize, 1, 2]);
    let nth2 = nth + o.choose(3);
    let between = o.choose(2);
    o.begin()?;
    let addrs: Vec<usize> = COUNTERS.iter().map(|c| c.at).collect();
    let at = addrs[c];
    let due = Arc::new(Mutex::new(vec![0usize; 2]));
    let hits = Arc::new(AtomicUsize::new(0));
    let (d2, h2) = (due.clone(), hits.clone());
    let (r, logs) = reports(o, 4, 1, move |i| {
        let mine = if i == 0 { start } else { between };
        add(at, mine);
        d2.lock().unwrap()[0] += mine;
        if i == tick {
            let (d, h) = (d2.clone(), h2.clone());
            sched::watch(
                &addrs,
                Box::new(move |w, k| {
                    if w == c {
                        h.fetch_add(1, Ordering::Relaxed);
                        if k == nth || k == nth2 {
                            add(at, by);
                            d.lock().unwrap()[1] += by;
                        }
                    }
                }),
            );
        }
    });
    let due = due.lock().unwrap().clone();
    let what = COUNTERS[c].what;
    let hist = format!(
        "{}: {} at first, {} before each other report, {} more before accesses {} and {} of report {} ({} were made)",
        what, start, between, by, nth, nth2, tick, hits.load(Ordering::Relaxed)
    );
    o.note(|| hist.clone());
    o.step();
    o.state(&(c, start, between, tick, due.clone()));
    must_end(&r, &hist)?;
    let m = values(&logs[0], &hist)?;
    let mut sum = 0.0;
    for ((name, t), vs) in &m {
        ensure!(name == what, "foreign", "{}: {} was reported", hist, name);
        ensure!(vs.iter().all(|v| *v > 0.0), "empty", "{}: reported {:?} at {} s", hist, vs, t);
        sum += vs.iter().sum::<f64>();
    }
    ensure!(sum == (due[0] + due[1]) as f64, "count", "{}: {} were due and {} reported: {:?}", hist, due[0] + due[1], sum, m);
    Ok(())
}

/// Everything at once: who is reported as what, how often.
fn histories(o: &mut Oracle) -> Res<()> {
    let n = COUNTERS.len();
    let ticks = 1 + o.choose(o.pick(3, 4));
    let chans = o.choose(4);
    // none, all, every other one, one
    let sets: Vec<usize> = (0..ticks).map(|_| o.choose(5)).collect();
    o.begin()?;
    let amount = move |set: usize, i: usize, c: usize| match set {
        0 => 0,
        1 => 1 + c + 100 * i,
        2 => (c % 2) * (3 + c),
        3 => (c + 1) % 2,
        _ => (c == i * 7 % n) as usize * 1_000_003,
    };
    let s2 = sets.clone();
    let (r, logs) = reports(o, ticks, chans, move |i| {
        for (c, k) in COUNTERS.iter().enumerate() {
            add(k.at, amount(s2[i], i, c));
        }
    });
    let hist = format!("increments {:?}, {} forwards", sets, chans);
    o.note(|| hist.clone());
    must_end(&r, &hist)?;
    for log in &logs {
        let mut m = values(log, &hist)?;
        for i in 0..ticks {
            o.step();
            o.state(&(&sets[..=i], chans));
            for (c, k) in COUNTERS.iter().enumerate() {
                let want = amount(sets[i], i, c);
                let got = m.remove(&(k.what.to_string(), 1 + i as u64)).unwrap_or_default();
                let w: Vec<f64> = if want == 0 { vec![] } else { vec![want as f64] };
                ensure!(got == w, "report", "{}: report {} of {} said {:?}, should say {:?}", hist, i, k.what, got, w);
            }
        }
        ensure!(m.is_empty(), "foreign", "{}: nobody counted {:?}", hist, m);
    }
    Ok(())
}

/// Telemetry pushed by other parts of the program.
fn telemetry(o: &mut Oracle) -> Res<()> {
    let ticks = 1 + o.choose(3);
    let chans = 1 + o.choose(2);
    let pushes: Vec<usize> = (0..ticks).map(|_| o.choose(4)).collect();
    let tags = o.choose(3);
    let again = o.choose(2);
    o.begin()?;
    let p2 = pushes.clone();
    let name = move |i: usize, k: usize| if again == 1 { "same".to_string() } else { format!("n{}.{}", i, k) };
    let (r, logs) = reports(o, ticks, chans, move |i| {
        for k in 0..p2[i] {
            let md = match tags {
                0 => None,
                1 => Some(vec![("a", "b")]),
                _ => Some(vec![("a", "b"), ("c", "")]),
            };
            report_full_telemetry(&name(i, k), (10 * i + k) as f64, md);
        }
    });
    let hist = format!("pushes {:?}, {} forwards, {} tags", pushes, chans, tags);
    o.note(|| hist.clone());
    must_end(&r, &hist)?;
    let want_tags: Vec<(String, String)> =
        [("a", "b"), ("c", "")][..tags].iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
    for log in &logs {
        let mut got: Vec<(u64, String, String)> = vec![];
        values(log, &hist)?;
        for (t, e) in log {
            if let Event::Telemetry(p) = e {
                ensure!(tags_of(p) == want_tags, "tags", "{}: {}", hist, show(p));
                got.push((*t, p.name.clone(), value_of(p)));
            }
        }
        let mut want = vec![];
        for (i, n) in pushes.iter().enumerate() {
            o.step();
            o.state(&(&pushes[..=i], chans, tags));
            for k in 0..*n {
                want.push((1 + i as u64, name(i, k), value_of(&point("x", Sum, (10 * i + k) as f64, 0, false, None))));
            }
        }
        got.sort();
        want.sort();
        ensure!(got == want, "report", "{}: got {:?}, should be {:?}", hist, got, want);
    }
    Ok(())
}

// ---- what is counted ---------------------------------------------------------

/// No counters, but the latest of something, or of unclear meaning.
const LEFT_OUT: [&str; 12] = [
    "cernan.sinks.elasticsearch.internal.buffer_len",
    "cernan.sinks.elasticsearch.error.unknown",
    "cernan.sinks.wavefront.proxy.connection_attempts",
    "cernan.sinks.wavefront.aggregations.total_stored",
    "cernan.sinks.wavefront.valve.closed",
    "cernan.sinks.wavefront.valve.open",
    "cernan.sinks.prometheus.exposition.inside_baseball.delay.sum",
    "cernan.sinks.prometheus.aggregation.reportable",
    "cernan.sinks.prometheus.report.error",
    "cernan.sinks.influxdb.delivery_attempts",
    "cernan.avro.payload.io.failure",
    "cernan.util.hopper.error.full",
];

type Wants = BTreeMap<&'static str, usize>;
fn more(w: &mut Wants, what: &'static str, n: usize) {
    *w.entry(what).or_insert(0) += n;
}

/// Counts are taken away, as by a report, before the `nth` access of each
/// counter; `count` tells what was counted in all.
const BEFORE: usize = 100;
struct Tally(Arc<Mutex<Vec<usize>>>);
impl Tally {
    fn new(nth: usize) -> Tally {
        zero();
        let addrs: Vec<usize> = COUNTERS.iter().map(|c| c.at).collect();
        // something to take away from the start
        addrs.iter().for_each(|a| add(*a, BEFORE));
        let taken = Arc::new(Mutex::new(vec![0; addrs.len()]));
        let (t2, a2) = (taken.clone(), addrs.clone());
        sched::watch(
            &addrs,
            Box::new(move |w, k| {
                if k == nth {
                    let n = unsafe { (*(a2[w] as *const AtomicUsize)).swap(0, Ordering::SeqCst) };
                    t2.lock().unwrap()[w] += n;
                }
            }),
        );
        Tally(taken)
    }
    fn check(self, o: &mut Oracle, want: &Wants, hist: &str) -> Res<()> {
        sched::unwatch();
        let taken = self.0.lock().unwrap();
        o.step();
        o.state(&(format!("{:?}", want), taken.clone()));
        o.note(|| format!("{}: {:?}", hist, want));
        for (c, t) in COUNTERS.iter().zip(taken.iter()) {
            let n = (t + unsafe { (*(c.at as *const AtomicUsize)).load(Ordering::SeqCst) }).wrapping_sub(BEFORE) as isize;
            let w = want.get(c.what).cloned().unwrap_or(0);
            ensure!(
                n == w as isize || LEFT_OUT.contains(&c.what),
                "occurrences",
                "{}: {} happened {} times and was counted {} times",
                hist,
                c.what,
                w,
                n
            );
        }
        Ok(())
    }
}

fn in_filters(o: &mut Oracle) -> Res<()> {
    use cernan::filter::{DelayFilter, DelayFilterConfig, Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
    let which = o.choose(3);
    let n = 1 + o.choose(o.pick(3, 4));
    let seq: Vec<usize> = (0..n).map(|_| o.choose(5)).collect();
    let nth = o.choose(3);
    o.begin()?;
    cernan::time::now();
    let mut f: Box<dyn Filter> = if which == 0 {
        Box::new(DelayFilter::new(&DelayFilterConfig { config_path: None, forwards: vec![], tolerance: 5 }))
    } else {
        Box::new(JSONEncodeFilter::new(JSONEncodeFilterConfig {
            config_path: None,
            forwards: vec![],
            parse_line: which == 1,
            tags: tagmap(&[]),
        }))
    };
    let mut want = Wants::new();
    let t = Tally::new(nth);
    for k in &seq {
        let now = cernan::time::now();
        let (ts, line) = [(now, "{\"a\":1}"), (now - 100, "[1]"), (now + 1, "plain"), (now, ""), (now + 100, "")][*k];
        let ev = if which == 0 && *k < 3 {
            Event::Telemetry(point("m", Sum, 1.0, ts, false, None))
        } else if *k == 3 && which != 0 {
            raw(b"x", 1)
        } else {
            Event::Log(log("p", line, ts))
        };
        match (which, k) {
            (0, 0) | (0, 2) => more(&mut want, "cernan.filters.delay.telemetry.accept", 1),
            (0, 1) => more(&mut want, "cernan.filters.delay.telemetry.reject", 1),
            (0, 3) => more(&mut want, "cernan.filters.delay.log.accept", 1),
            (0, _) => more(&mut want, "cernan.filters.delay.log.reject", 1),
            (_, 3) => {}
            (w, k) => {
                more(&mut want, "cernan.filters.json_encode.log.processed", 1);
                if w == 1 && *k == 0 {
                    more(&mut want, "cernan.filters.json_encode.log.parsed", 1);
                }
            }
        }
        let mut res = vec![];
        let _ = f.process(ev, &mut res);
    }
    t.check(o, &want, &format!("filter {}, events {:?}, report before access {}", which, seq, nth))
}

fn in_sources(o: &mut Oracle) -> Res<()> {
    use super::{c06, c08, c10};
    use cernan::source::*;
    let which = o.choose(4);
    let nth = o.choose(3);
    // the connections, one by one or together
    let conns = 1 + o.choose(2);
    let together = conns == 2 && which != 1 && o.choose(2) == 1;
    let seqs: Vec<Vec<usize>> = (0..conns)
        .map(|_| {
            let n = o.choose(4 - conns);
            (0..=n).map(|_| o.choose(4)).collect()
        })
        .collect();
    o.begin()?;
    let mut want = Wants::new();
    let mut data: Vec<Vec<Vec<u8>>> = vec![];
    for s in &seqs {
        let mut d: Vec<Vec<u8>> = vec![];
        if which == 0 {
            more(&mut want, "cernan.graphite.new_peer", 1);
        }
        let mut over = false;
        for k in s {
            d.push(match which {
                0 => [&b"a 1 2\n"[..], b"a b c\n", b"\xff 1 2\n", b"a 1 2\nb 2 3\n"][*k].to_vec(),
                1 => [&b"a:1|c"[..], b"a:1|g\nb:2|c", b"junk", b"\xff:1|c"][*k].to_vec(),
                2 => match k {
                    0 => c06::frame(&c06::nth(1).0),
                    1 => c06::frame(&c06::nth(7).0),
                    2 => c06::bad(0),
                    _ => c06::bad(4),
                },
                _ => match k {
                    0 => c08::plain(),
                    1 => c08::plain(),
                    2 => c08::garbled(),
                    _ => c08::short(),
                },
            });
            if over {
                continue;
            }
            let (good, bad) = [
                ("cernan.graphite.packet", "cernan.graphite.bad_packet"),
                ("cernan.statsd.packet", "cernan.statsd.bad_packet"),
                ("cernan.native.payload.success", "cernan.native.payload.parse.failure"),
                ("cernan.avro.payload.success", "cernan.avro.payload.parse.failure"),
            ][which];
            let g = [[1, 0, 0, 2], [1, 1, 0, 0], [1, 1, 0, 0], [1, 1, 0, 0]][which][*k];
            if g > 0 {
                more(&mut want, good, g);
            } else {
                more(&mut want, bad, 1);
                over = which > 1;
            }
            if which == 0 {
                more(&mut want, "cernan.graphite.telemetry.received", g);
            }
        }
        data.push(d);
    }
    let hist = format!(
        "{} {:?}{}, report before access {}",
        ["graphite", "statsd", "native", "avro"][which],
        seqs,
        if together { " at once" } else { "" },
        nth
    );
    let port = 2003;
    let client = move || {
        lull();
        if which == 1 {
            for d in data.iter().flatten() {
                raw::udp_to(c10::PORT, d);
                lull();
            }
            return;
        }
        let mut held = vec![];
        for d in data {
            if together {
                let fd = raw::connect(port);
                send(fd, &d.concat());
                held.push(fd);
            } else {
                pieces(port, d, End::Close);
            }
        }
        for fd in held {
            lull();
            raw::close(fd);
        }
        lull();
    };
    let t = Tally::new(nth);
    let tcp = || TCPConfig {
        host: "127.0.0.1".to_string(),
        port,
        forwards: vec![],
        config_path: Some("sources.x".to_string()),
    };
    let out = match which {
        0 => serve::<Graphite, _, _>(o, opts(0), tcp(), client),
        1 => serve::<Statsd, _, _>(o, opts(0), c10::config(), client),
        2 => serve::<NativeServer, _, _>(o, opts(0), tcp(), client),
        _ => serve::<Avro, _, _>(o, opts(0), tcp(), client),
    };
    let r = must_end(&out.run, &hist);
    t.check(o, &want, &hist).and(r)
}

fn in_wavefront(o: &mut Oracle) -> Res<()> {
    use super::{c07, c20};
    use cernan::sink::{Sink, Wavefront};
    let nth = o.choose(3);
    let n = 1 + o.choose(3);
    let seq: Vec<usize> = (0..n).map(|_| o.choose(5)).collect();
    let budget = o.pick(1, 2);
    o.begin()?;
    let conf = c20::Conf {
        width: 1,
        pad: c20::NO_PAD,
        age: None,
        percentiles: &[("50", 0.5), ("90", 0.9), ("99", 0.99)],
        defaults: &[("source", "s")],
    };
    let (peer, lg) = c07::faulty(o, c20::PORT, budget);
    let now = cernan::time::now();
    let mut want = Wants::new();
    let mut sink = Wavefront::init(conf.config());
    let t = Tally::new(nth);
    for (i, k) in seq.iter().enumerate() {
        if *k == 4 {
            sink.flush();
            more(&mut want, "cernan.sinks.wavefront.delivery.success", 1);
            peer.borrow_mut().pump();
            continue;
        }
        let kind = KINDS[*k];
        let name = format!("m{}", i);
        sink.deliver(point(&name, kind, 1.0, now, false, None));
        more(
            &mut want,
            match kind {
                AggregationMethod::Histogram => "cernan.sinks.wavefront.aggregation.histogram",
                Sum => "cernan.sinks.wavefront.aggregation.sum",
                Set => "cernan.sinks.wavefront.aggregation.set",
                _ => "cernan.sinks.wavefront.aggregation.summarize",
            },
            1,
        );
        if kind == AggregationMethod::Summarize {
            more(&mut want, "cernan.sinks.wavefront.aggregation.summarize.total_percentiles", 3);
        }
    }
    sink.flush();
    more(&mut want, "cernan.sinks.wavefront.delivery.success", 1);
    drop(sink);
    sched::set_io(None);
    let faults = lg.borrow().faults.clone();
    let broken = faults.iter().filter(|f| ["write failed", "connection reset"].contains(f)).count();
    more(&mut want, "cernan.sinks.wavefront.delivery.failure", broken);
    t.check(o, &want, &format!("wavefront {:?}, faults {:?}, report before access {}", seq, faults, nth))
}

fn in_web(o: &mut Oracle) -> Res<()> {
    use super::web::{reply, site, Act, Op};
    use super::{c23, c24};
    use cernan::sink::*;
    let elastic = o.choose(2) == 1;
    let nth = o.choose(3);
    let flushes = 1 + o.choose(2);
    let bad = o.pick(2, 3);
    o.begin()?;
    let left = Arc::new(Mutex::new((bad, Wants::new())));
    let l2 = left.clone();
    let fate = Box::new(move |r: &super::web::Request| {
        let mut l = l2.lock().unwrap();
        let mut k = if l.0 > 0 { sched::decide(if elastic { 9 } else { 5 }) } else { 0 };
        if k > 0 {
            l.0 -= 1;
        }
        let api = |status: u32, kind: &str| {
            let e = serde_json::json!({"error": {"type": kind, "reason": "no", "index": "i", "line": 1, "col": 1}, "status": status});
            Act::Say(reply(status, "Content-Type: application/json\r\n", e.to_string().as_bytes()))
        };
        if !elastic {
            let status = [204, 400, 500, 0, 302][k];
            match k {
                0 => more(&mut l.1, "cernan.sinks.influxdb.success", 1),
                1 => more(&mut l.1, "cernan.sinks.influxdb.failure.client_error", 1),
                2 => more(&mut l.1, "cernan.sinks.influxdb.failure.server_error", 1),
                3 => return ("closed".to_string(), Act::Close),
                _ => {}
            }
            return (status.to_string(), Act::Say(reply(status, "", b"")));
        }
        let ids: Vec<String> = c24::docs(&r.body).map(|d| d.into_iter().map(|d| d.id).collect()).unwrap_or_default();
        if k == 1 && ids.is_empty() {
            k = 0;
        }
        let act = match k {
            // all fine; the first failed; all failed
            0 | 1 | 2 => {
                let items: Vec<_> =
                    ids.iter().enumerate().map(|(i, id)| c24::item(id, k == 0 || k == 1 && i > 0)).collect();
                let failed = [0, 1, ids.len()][k];
                more(&mut l.1, "cernan.sinks.elasticsearch.records.delivery", 1);
                more(&mut l.1, "cernan.sinks.elasticsearch.records.total_delivered", ids.len() - failed);
                more(&mut l.1, "cernan.sinks.elasticsearch.records.total_failed", failed);
                more(&mut l.1, "cernan.sinks.elasticsearch.error.bulk_action.index", failed);
                let b = serde_json::json!({"took": 3, "errors": failed > 0, "items": items});
                Act::Say(reply(200, "Content-Type: application/json\r\n", b.to_string().as_bytes()))
            }
            3 => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.api.index_not_found", 1);
                api(404, "index_not_found_exception")
            }
            4 => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.api.parsing", 1);
                api(400, "parsing_exception")
            }
            5 => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.api.mapper_parsing", 1);
                api(400, "mapper_parsing_exception")
            }
            6 => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.api.action_request_validation", 1);
                api(400, "action_request_validation_exception")
            }
            7 => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.api.unknown", 1);
                api(500, "strange_exception")
            }
            _ => {
                more(&mut l.1, "cernan.sinks.elasticsearch.error.client", 1);
                Act::Say(reply(200, "", b"<html>"))
            }
        };
        (k.to_string(), act)
    });
    let mut ops = vec![];
    for i in 0..flushes {
        for k in 0..=i {
            let name = format!("m{}.{}", i, k);
            ops.push(Op::Deliver(if elastic {
                Event::Log(log(&name, "l", 1_500_000_000))
            } else {
                Event::Telemetry(point(&name, Sum, 1.0, 1_500_000_000, false, None))
            }));
        }
        ops.push(Op::Flush);
    }
    let s = site(if elastic { c24::PORT } else { c23::PORT }, 0, fate);
    let t = Tally::new(nth);
    let r = if elastic {
        let cfg = ElasticsearchConfig {
            config_path: Some("sinks.elasticsearch".to_string()),
            index_prefix: None,
            index_type: "payload".to_string(),
            secure: false,
            delivery_attempt_limit: 5,
            host: "127.0.0.1".to_string(),
            port: c24::PORT as usize,
            flush_interval: 1,
            tags: tagmap(&[]),
        };
        super::web::drive::<Elasticsearch, _>(o, cfg, ops, &s).0
    } else {
        super::web::drive::<InfluxDB, _>(o, c23::config(&[]), ops, &s).0
    };
    let told: Vec<String> = s.0.borrow().requests.iter().map(|r| r.fate.clone()).collect();
    let want = left.lock().unwrap().1.clone();
    let hist = format!(
        "{}, {} flushes, answers {:?}, report before access {}",
        if elastic { "elasticsearch" } else { "influxdb" },
        flushes,
        told,
        nth
    );
    let r = must_end(&r, &hist);
    t.check(o, &want, &hist).and(r)
}

fn in_kafka(o: &mut Oracle) -> Res<()> {
    let nth = o.choose(3);
    let flushes = 1 + o.choose(2);
    let sizes: Vec<usize> = (0..flushes).map(|_| o.choose(3)).collect();
    let bad = o.pick(2, 3);
    o.begin()?;
    let t = Tally::new(nth);
    let (counts, hist) = super::c22::tally(o, &sizes, bad)?;
    let mut want = Wants::new();
    let names =
        ["cernan.sinks.kafka.publish.success", "cernan.sinks.kafka.publish.retry", "cernan.sinks.kafka.publish.failure"];
    for k in 0..3 {
        more(&mut want, names[k], counts[k]);
    }
    t.check(o, &want, &format!("kafka, deliveries between flushes {:?}, {}, report before access {}", sizes, hist, nth))
}

fn in_prometheus(o: &mut Oracle) -> Res<()> {
    use super::c19;
    use cernan::sink::{Prometheus, Sink};
    let nth = o.choose(3);
    let n = 2 + o.choose(o.pick(3, 4));
    // a scrape; a flush; observations, old and new
    let mut seq: Vec<usize> = (0..n).map(|_| o.choose(5)).collect();
    seq.push(1);
    o.begin()?;
    cernan::time::now();
    let s2 = seq.clone();
    let over = Arc::new(AtomicUsize::new(0));
    let o2 = over.clone();
    let mut want = Wants::new();
    let mut stale: std::collections::BTreeSet<(usize, usize)> = Default::default();
    for (i, k) in seq.iter().enumerate() {
        match k {
            0 => more(&mut want, "cernan.sinks.prometheus.report.success", 1),
            1 => {
                more(&mut want, "cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged", stale.len());
                stale.clear();
            }
            2 => {}
            k => {
                stale.insert((*k, i));
            }
        }
    }
    let t = Tally::new(nth);
    let root: sched::Root = Box::new(move || {
        let mut sink = Prometheus::init(c19::conf(&[], 10, None, false).cfg);
        c19::up();
        for (i, k) in s2.iter().enumerate() {
            let now = cernan::time::now();
            match k {
                0 => {
                    let _ = c19::scrape();
                }
                1 => sink.flush(),
                2 => sink.deliver(point("m", AggregationMethod::Summarize, 1.0, now, false, None)),
                k => sink.deliver(point(
                    ["m", "n"][k - 3],
                    AggregationMethod::Summarize,
                    1.0,
                    now - 1000 - i as i64,
                    false,
                    None,
                )),
            }
        }
        sink.shutdown();
        o2.store(1, Ordering::SeqCst);
    });
    sched::vnet(true);
    sched::vclock(true);
    let run = sched::run(o, opts(0), vec![root]);
    let hist = format!("prometheus {:?}, report before access {}", seq, nth);
    let r = c19::ends(&run, &over, &hist);
    t.check(o, &want, &hist).and(r)
}
