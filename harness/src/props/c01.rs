//! C01: the run loop every sink shares.
use super::stage::*;
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::Event;
use cernan::sink::RunnableSink;
use cernan::thread::Stoppable;
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C01",
        scenarios: |_| {
            vec![
                Scenario { name: "order", run: order },
                Scenario { name: "overload", run: overload },
                Scenario { name: "outage", run: outage },
            ]
        },
        rule: "every sequence of metrics, log lines, raw payloads, pulses and shutdown \
               announcements up to a depth for 1-3 upstreams through the real run loop, with \
               every capacity and every placement of flushes that fail to make room, up to thousands \
               in a row; states = \
               (what remains queued, what was delivered, shutdowns seen)",
        assumptions: &["the queue itself (crate hopper) hands events over in order while they fit in memory"],
        level: "model_checking",
        hang_s: 60,
    }
}

pub fn run_sink(
    o: &mut Oracle,
    input: &[Event],
    upstreams: usize,
    cfg: TestCfg,
) -> (sched::Run, Vec<String>) {
    let q = Queue::new();
    let (mut tx, rx) = q.ends();
    fill(&mut tx, input);
    let trace = cfg.trace.clone();
    let r = sched::run(
        o,
        sched::Opts { max_steps: 30_000, devs: 0, early: false },
        vec![Box::new(move || {
            let s: RunnableSink<TestSink, TestCfg> = RunnableSink::new(rx, names(upstreams), cfg);
            s.run().join();
        })],
    );
    drop(tx);
    let calls = trace.lock().unwrap().calls.clone();
    (r, calls)
}

fn go(o: &mut Oracle, depth: usize, max_up: usize, cap: usize, failures: usize) -> Res<()> {
    gone(o, depth, max_up, cap, failures, &[0])
}

fn gone(
    o: &mut Oracle,
    depth: usize,
    max_up: usize,
    cap: usize,
    failures: usize,
    outages: &[usize],
) -> Res<()> {
    let outage = *o.choose_from(outages);
    let upstreams = 1 + o.choose(max_up);
    let capacity = if cap == 0 { usize::max_value() } else { 1 + o.choose(cap) };
    let kinds = if cap == 0 { 5 } else { 3 };
    let mut seq = vec![];
    for _ in 0..depth {
        // shutdown, data, pulse ...
        seq.push(o.choose(kinds));
    }
    let left = upstreams.saturating_sub(seq.iter().filter(|k| **k == kinds - 1).count());
    o.begin()?;
    let mut input = vec![];
    let mut pulse = 0;
    for (i, k) in seq.iter().enumerate() {
        input.push(if *k == kinds - 1 {
            Event::Shutdown
        } else if *k == kinds - 2 {
            pulse += 1;
            Event::TimerFlush(pulse)
        } else if cap > 0 {
            data(i % 3, i)
        } else {
            data(*k, i)
        });
    }
    for i in 0..left {
        input.push(data(i, 20 + i));
        input.push(Event::Shutdown);
    }
    // after the last announcement nothing is expected, and nothing is handed over
    input.push(data(0, 30));
    input.push(Event::Shutdown);
    // reference
    let mut want = vec![];
    let mut downs = 0;
    let mut held = 0;
    for (i, e) in input.iter().enumerate() {
        o.step();
        o.state(&(upstreams, capacity, &seq[i.min(seq.len())..], downs, held, want.len()));
        match e {
            Event::Shutdown => {
                downs += 1;
                if downs == upstreams {
                    want.push("shutdown".to_string());
                    break;
                }
            }
            Event::TimerFlush(_) => {}
            e => {
                held += 1;
                want.push(show_event(e));
            }
        }
    }
    let trace = Arc::new(Mutex::new(Trace::default()));
    let cfg = TestCfg { trace: trace.clone(), interval: None, capacity, failures, outage };
    let (r, calls) = run_sink(o, &input, upstreams, cfg);
    let hist = show_events(&input);
    o.note(|| format!("{} upstreams, room for {}: {:?} -> {:?}", upstreams, capacity, hist, calls));
    let what = format!(
        "{} upstreams, room for {}, {} flushes make none, queue {:?}",
        upstreams, capacity, outage, hist
    );
    must_end(&r, &what)?;
    ensure!(r.outcome == sched::Outcome::AllDone, "engine", "stopped");
    let got: Vec<String> = calls.iter().filter(|c| !c.starts_with("flush")).cloned().collect();
    ensure!(
        got == want,
        "delivery",
        "{}: the sink was handed {:?}, should be {:?}",
        what,
        got,
        want
    );
    // handed over only while there is room
    let mut held = 0;
    for c in &calls {
        match c.as_str() {
            "flush failed" => {}
            "flush" | "flush full" => held = 0,
            "shutdown" => {}
            c => {
                ensure!(
                    held < capacity,
                    "overfull",
                    "{}: {} was handed over although the sink was over capacity: {:?}",
                    what,
                    c,
                    calls
                );
                held += 1;
            }
        }
    }
    Ok(())
}

fn order(o: &mut Oracle) -> Res<()> {
    let d = o.pick(6, 8);
    go(o, d, 3, 0, 0)
}
fn overload(o: &mut Oracle) -> Res<()> {
    let d = o.pick(6, 8);
    let f = o.pick(3, 4);
    go(o, d, 2, 3, f)
}

/// A sink that stays full for a long time.
fn outage(o: &mut Oracle) -> Res<()> {
    let d = o.pick(4, 5);
    gone(o, d, 2, 2, 0, &[4, 8, 16, 31, 64, 127, 255, 256, 1000, 5000])
}
