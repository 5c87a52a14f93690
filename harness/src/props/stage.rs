//! A sink whose behaviour the explorer decides and whose every call is
//! recorded; helpers to run stages under the scheduler.
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::{Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::sink::Sink;
use cernan::thread::Stoppable;
use cernan::util::Valve;
use std::sync::{Arc, Mutex};
use uuid::Uuid;

#[derive(Default)]
pub struct Trace {
    pub calls: Vec<String>,
    pub flushes: usize,
    /// flushes the explorer let fail
    pub failed: usize,
}

#[derive(Clone)]
pub struct TestCfg {
    pub trace: Arc<Mutex<Trace>>,
    pub interval: Option<u64>,
    /// events held before the valve closes
    pub capacity: usize,
    /// how many flushes of a full sink may fail to make room
    pub failures: usize,
    /// how many flushes of a full sink fail before any makes room
    pub outage: usize,
}

pub struct TestSink {
    cfg: TestCfg,
    held: usize,
}

impl TestSink {
    fn rec(&self, s: String) {
        self.cfg.trace.lock().unwrap().calls.push(s);
    }
}

impl Sink<TestCfg> for TestSink {
    fn init(cfg: TestCfg) -> Self {
        TestSink { cfg, held: 0 }
    }
    fn flush_interval(&self) -> Option<u64> {
        self.cfg.interval
    }
    fn flush(&mut self) {
        let full = self.held >= self.cfg.capacity;
        let failed = self.cfg.trace.lock().unwrap().failed;
        let fails = failed < self.cfg.outage
            || (failed < self.cfg.failures && sched::decide(2) == 1);
        if full && fails {
            self.cfg.trace.lock().unwrap().failed += 1;
            self.rec("flush failed".to_string());
            return;
        }
        self.held = 0;
        self.cfg.trace.lock().unwrap().flushes += 1;
        self.rec(if full { "flush full" } else { "flush" }.to_string());
    }
    fn valve_state(&self) -> Valve {
        if self.held >= self.cfg.capacity {
            Valve::Closed
        } else {
            Valve::Open
        }
    }
    fn deliver(&mut self, t: Telemetry) {
        self.held += 1;
        self.rec(show_event(&Event::Telemetry(t)));
    }
    fn deliver_line(&mut self, l: LogLine) {
        self.held += 1;
        self.rec(show_event(&Event::Log(l)));
    }
    fn deliver_raw(
        &mut self,
        order_by: u64,
        encoding: Encoding,
        bytes: Vec<u8>,
        metadata: Option<Metadata>,
        connection_id: Option<Uuid>,
    ) {
        self.held += 1;
        self.rec(show_event(&Event::Raw { order_by, encoding, bytes, metadata, connection_id }));
    }
    fn shutdown(self) {
        self.rec("shutdown".to_string());
    }
}

pub fn names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("up{}", i)).collect()
}

/// Data event number i of kind k (0 metric, 1 log line, 2 raw payload).
pub fn data(k: usize, i: usize) -> Event {
    use cernan::metric::AggregationMethod::*;
    match k {
        0 => Event::Telemetry(point(
            &format!("m{}", i),
            [Sum, Set, Summarize, Histogram][i % 4],
            i as f64 + 0.5,
            i as i64,
            i % 2 == 0,
            Some(tagmap(&[("t", &format!("{}", i))])),
        )),
        1 => {
            let mut l = log(&format!("/p{}", i), &format!("line {}", i), i as i64);
            l.insert_tag("k", "v");
            Event::Log(l)
        }
        _ => {
            let mut md = cernan::metric::Metadata::default();
            md.insert(b"id".to_vec(), format!("{}", i).into_bytes());
            Event::Raw {
                order_by: i as u64,
                encoding: match i % 3 {
                    0 => Encoding::Raw,
                    1 => Encoding::Avro,
                    _ => Encoding::JSON,
                },
                bytes: vec![i as u8, 0, 255],
                metadata: if i % 2 == 0 { Some(md) } else { None },
                connection_id: if i % 3 == 0 { Some(Uuid::nil()) } else { None },
            }
        }
    }
}

pub fn fill(tx: &mut Tx, events: &[Event]) {
    for e in events {
        if tx.send(e.clone()).is_err() {
            panic!("ENGINE: queue refused an event");
        }
    }
}

/// Run any sink behind a queue that already holds its input.
pub fn consume<S, C>(o: &mut Oracle, input: &[Event], upstreams: usize, cfg: C) -> sched::Run
where
    S: Sink<C> + Send + 'static,
    C: Send + Clone + 'static,
{
    let mut q = Queue::new();
    // all of it in memory
    q.mem = q.mem.max(input.len() * 1024);
    let (mut tx, rx) = q.ends();
    fill(&mut tx, input);
    let r = sched::run(
        o,
        sched::Opts { max_steps: 300_000, devs: 0, early: false },
        vec![Box::new(move || {
            let s: cernan::sink::RunnableSink<S, C> = cernan::sink::RunnableSink::new(rx, names(upstreams), cfg);
            s.run().join();
        })],
    );
    drop(tx);
    r
}

/// A run that should end with every thread done.
pub fn must_end(r: &sched::Run, what: &str) -> Res<()> {
    match r.outcome {
        sched::Outcome::AllDone => {}
        sched::Outcome::Stopped => {}
        sched::Outcome::Stuck => {
            return fail("stuck", format!("{}: threads wait for ever: {}", what, r.left))
        }
        sched::Outcome::TooLong => {
            return fail(
                "endless",
                format!("{}: still running after {} steps: {}", what, r.steps, r.left),
            )
        }
        sched::Outcome::TooManyThreads => {
            return Err(Stop::Engine("too many threads".to_string()))
        }
    }
    let p = take_panics();
    if let Some(m) = p.first() {
        return fail("panic", format!("{}: a thread panicked: {}", what, m));
    }
    Ok(())
}
