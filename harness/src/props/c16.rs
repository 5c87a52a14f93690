//! C16: the flush-boundary filter, alone and under the filter run loop.
use super::util::*;
use crate::engine::*;
use cernan::filter::{Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig};
use cernan::metric::{AggregationMethod, Event};

pub fn property() -> Property {
    Property {
        id: "C16",
        scenarios: |_| {
            vec![
                Scenario { name: "hold", run: hold },
                Scenario { name: "many", run: many },
                Scenario { name: "shutdown", run: shutdown },
            ]
        },
        rule: "every sequence of points, log lines, raw payloads (over three timestamps) and \
               pulses up to a depth, per tolerance; states = reference hold table",
        assumptions: &[],
        level: "model_checking",
        hang_s: 60,
    }
}

/// Reference hold table.
#[derive(Hash, Clone)]
struct Model {
    tol: usize,
    groups: Vec<(i64, usize, Vec<String>)>,
}

impl Model {
    fn event(&mut self, ts: i64, e: String) {
        if let Some(g) = self.groups.iter_mut().find(|g| g.0 == ts) {
            g.2.push(e);
            return;
        }
        self.groups.push((ts, 0, vec![e]));
        self.groups.sort_by_key(|g| g.0);
    }
    fn pulse(&mut self, idx: u64) -> Vec<String> {
        let mut out = vec![];
        for g in self.groups.iter_mut() {
            g.1 += 1;
        }
        let tol = self.tol;
        self.groups.retain(|g| {
            if g.1 > tol {
                out.extend(g.2.iter().cloned());
                false
            } else {
                true
            }
        });
        out.push(format!("flush {}", idx));
        out
    }
}

fn mk(c: usize, i: usize) -> Event {
    match c {
        0 | 1 | 2 => Event::Telemetry(point(
            &format!("m{}", i),
            AggregationMethod::Sum,
            i as f64,
            [-3, 0, 12][c],
            false,
            None,
        )),
        3 | 4 => Event::Log(log("p", &format!("l{}", i), [0, 12][c - 3])),
        _ => raw(format!("r{}", i).as_bytes(), i as u64),
    }
}

fn hold(o: &mut Oracle) -> Res<()> {
    let tol = o.choose(4);
    let depth = o.pick(6, 7);
    let first = (o.choose(7), o.choose(7));
    o.begin()?;
    let mut f = FlushBoundaryFilter::new(&FlushBoundaryFilterConfig {
        config_path: None,
        forwards: vec![],
        tolerance: tol,
    });
    let mut m = Model { tol, groups: vec![] };
    let mut pulse = 0;
    let mut hist = vec![];
    // at the end, as many pulses as it takes to empty the table
    for i in 0..depth + tol + 1 {
        let c = if i >= depth {
            6
        } else if i == 0 {
            first.0
        } else if i == 1 {
            first.1
        } else {
            o.choose(7)
        };
        o.step();
        let (ev, want) = if c == 6 {
            pulse += 1;
            (Event::TimerFlush(pulse), m.pulse(pulse))
        } else {
            let ev = mk(c, i);
            let s = show_event(&ev);
            match ev.timestamp() {
                Some(ts) => {
                    m.event(ts, s);
                    (ev, vec![])
                }
                None => (ev, vec![s]),
            }
        };
        hist.push(show_event(&ev));
        let mut res = vec![];
        let ok = f.process(ev, &mut res).is_ok();
        ensure!(ok, "error", "processing failed after {:?}", hist);
        o.state(&m);
        let got = show_events(&res);
        let class = if c == 5 { "untimed" } else { "hold" };
        ensure!(
            got == want,
            class,
            "tolerance {}: after {:?} the filter gave {:?}, should be {:?}",
            tol,
            hist,
            got,
            want
        );
    }
    o.note(|| format!("tolerance {}: {:?}", tol, hist));
    ensure!(m.groups.is_empty(), "hold", "reference table not empty");
    Ok(())
}

/// A great deal held at once, in many groups or one; pulses among it.
fn many(o: &mut Oracle) -> Res<()> {
    let tol = *o.choose_from(&[0, 1, 2, 300]);
    let n = *o.choose_from(&[63, 64, 65, 255, 256, 257, 1023, 1025, 4097]);
    let groups = *o.choose_from(&[1, 2, 7, 5000]);
    let at = *o.choose_from(&[0, 1, 2]);
    o.begin()?;
    let mut f =
        FlushBoundaryFilter::new(&FlushBoundaryFilterConfig { config_path: None, forwards: vec![], tolerance: tol });
    let mut m = Model { tol, groups: vec![] };
    for i in 0..n + tol + 1 {
        o.step();
        let mut res = vec![];
        let (ev, want) = if i >= n {
            let idx = 10 + i as u64;
            (Event::TimerFlush(idx), m.pulse(idx))
        } else if at > 0 && i == n * at / 3 {
            (Event::TimerFlush(1), m.pulse(1))
        } else {
            let ts = (i % groups) as i64 * if i % 3 == 0 { -1 } else { 1 };
            let ev = if i % 2 == 0 {
                Event::Telemetry(point(&format!("m{}", i), AggregationMethod::Sum, i as f64, ts, false, None))
            } else {
                Event::Log(log("p", &format!("l{}", i), ts))
            };
            m.event(ts, show_event(&ev));
            (ev, vec![])
        };
        ensure!(f.process(ev, &mut res).is_ok(), "error", "processing failed");
        let got = show_events(&res);
        ensure!(
            got == want,
            "hold",
            "tolerance {}, {} events at {} times, a pulse after {} thirds: at step {} the filter gave {} events, \
             should be {}: {:?} {:?}",
            tol,
            n,
            groups,
            at,
            i,
            got.len(),
            want.len(),
            got.iter().take(3).collect::<Vec<_>>(),
            want.iter().take(3).collect::<Vec<_>>()
        );
    }
    o.state(&(tol, n, groups, at));
    ensure!(m.groups.is_empty(), "hold", "reference table not empty");
    Ok(())
}

/// Under the run loop: what is still held when the last upstream ends comes
/// out before the shutdown announcement.
fn shutdown(o: &mut Oracle) -> Res<()> {
    let tol = o.choose(3);
    let depth = o.pick(3, 4);
    let mut seq = vec![];
    for _ in 0..depth {
        seq.push(o.choose(7));
    }
    o.begin()?;
    let mut m = Model { tol, groups: vec![] };
    let mut pulse = 0;
    let mut input = vec![];
    let mut want = vec![];
    for (i, c) in seq.iter().enumerate() {
        if *c == 6 {
            pulse += 1;
            input.push(Event::TimerFlush(pulse));
            want.extend(m.pulse(pulse));
        } else {
            let ev = mk(*c, i);
            match ev.timestamp() {
                Some(ts) => m.event(ts, show_event(&ev)),
                None => want.push(show_event(&ev)),
            }
            input.push(ev);
        }
        o.step();
        o.state(&m);
    }
    for g in &m.groups {
        want.extend(g.2.iter().cloned());
    }
    want.push("shutdown".to_string());
    input.push(Event::Shutdown);
    let hist = show_events(&input);
    let mut f = FlushBoundaryFilter::new(&FlushBoundaryFilterConfig {
        config_path: None,
        forwards: vec![],
        tolerance: tol,
    });
    let got = run_filter(&mut f, input, 1);
    o.note(|| format!("tolerance {}: {:?} -> {:?}", tol, hist, got));
    ensure!(
        got == want,
        "shutdown",
        "tolerance {}: {:?} came out as {:?}, should be {:?}",
        tol,
        hist,
        got,
        want
    );
    Ok(())
}

/// Put the events on a queue, run the filter to its end, and read what it sent.
pub fn run_filter<F: Filter>(f: &mut F, input: Vec<Event>, sources: usize) -> Vec<String> {
    let q = Queue::new();
    let out = Queue::new();
    let (mut tx, rx) = q.ends();
    let (otx, orx) = out.ends();
    for e in input {
        if tx.send(e).is_err() {
            panic!("ENGINE: queue refused an event");
        }
    }
    f.run(rx, (0..sources).map(|i| format!("s{}", i)).collect(), vec![otx.clone()]);
    drain(otx, orx)
}
