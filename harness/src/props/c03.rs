//! C03: the run loop every filter shares.
use super::stage::*;
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::filter::{Filter, FilterError};
use cernan::metric::{AggregationMethod, Event};

pub fn property() -> Property {
    Property {
        id: "C03",
        scenarios: |_| vec![Scenario { name: "relay", run: relay }],
        rule: "every sequence of events (passed, dropped, multiplied, failing with and without \
               output, held back, pulses, shutdown announcements) up to a depth for 1-3 upstreams \
               and 0-3 downstreams through the real run loop; states = (rest of the input, \
               shutdowns seen, outputs so far)",
        assumptions: &["the queue itself (crate hopper) hands events over in order while they fit in memory"],
        level: "model_checking",
        hang_s: 60,
    }
}

fn ev(name: &str, i: usize) -> Event {
    Event::Telemetry(point(
        &format!("{}{}", name, i),
        AggregationMethod::Sum,
        i as f64,
        i as i64,
        false,
        None,
    ))
}

/// Does to an event what the event's name says.
struct Scripted {
    held: Vec<Event>,
}
impl Filter for Scripted {
    fn process(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        let name = match event {
            Event::Telemetry(ref t) => t.name.to_string(),
            Event::TimerFlush(n) if n >= 100 => "fail".to_string(),
            _ => String::new(),
        };
        if name.starts_with("none") {
            return Ok(());
        }
        if name.starts_with("hold") {
            self.held.push(event);
            return Ok(());
        }
        if name.starts_with("three") {
            for _ in 0..3 {
                res.push(event.clone());
            }
            return Ok(());
        }
        if name.starts_with("fail") {
            return Err(FilterError::LuaError("no".to_string(), event));
        }
        if name.starts_with("partfail") {
            res.push(ev("part", 0));
            return Err(FilterError::NoSuchFunction("f", event));
        }
        res.push(event);
        Ok(())
    }
    fn shutdown(&mut self, res: &mut Vec<Event>) {
        res.append(&mut self.held);
    }
}

const WHAT: [&str; 9] =
    ["shutdown", "pass", "none", "three", "fail", "partfail", "hold", "pulse", "failing pulse"];

fn relay(o: &mut Oracle) -> Res<()> {
    let upstreams = 1 + o.choose(3);
    let downs = o.choose(4);
    let depth = o.pick(4, 6);
    let mut seq = vec![];
    for _ in 0..depth {
        seq.push(o.choose(WHAT.len()));
    }
    o.begin()?;
    let mut input = vec![];
    for (i, k) in seq.iter().enumerate() {
        input.push(match k {
            0 => Event::Shutdown,
            7 => Event::TimerFlush(i as u64 / 2),
            8 => Event::TimerFlush(100 + i as u64),
            k => ev(WHAT[*k], i),
        });
    }
    let mut n = seq.iter().filter(|k| **k == 0).count();
    while n < upstreams {
        input.push(ev("pass", 40 + n));
        input.push(Event::Shutdown);
        n += 1;
    }
    input.push(ev("pass", 99));
    // reference
    let mut want = vec![];
    let mut held = vec![];
    let mut seen = 0;
    for (i, e) in input.iter().enumerate() {
        o.step();
        o.state(&(upstreams, &seq[i.min(seq.len())..], seen, want.len(), held.len()));
        let s = show_event(e);
        match e {
            Event::Shutdown => {
                seen += 1;
                if seen == upstreams {
                    want.append(&mut held);
                    want.push("shutdown".to_string());
                    break;
                }
            }
            Event::TimerFlush(_) => want.push(s),
            _ => match seq.get(i).cloned().unwrap_or(1) {
                2 => {}
                3 => want.extend(vec![s; 3]),
                5 => {
                    want.push(show_event(&ev("part", 0)));
                    want.push(s);
                }
                6 => held.push(s),
                _ => want.push(s),
            },
        }
    }
    let q = Queue::new();
    let (mut tx, rx) = q.ends();
    fill(&mut tx, &input);
    let outs: Vec<Queue> = (0..downs).map(|_| Queue::new()).collect();
    let mut ends: Vec<_> = outs.iter().map(|q| q.ends()).collect();
    let chans: Vec<Tx> = ends.iter().map(|e| e.0.clone()).collect();
    let r = sched::run(
        o,
        sched::Opts { max_steps: 5000, devs: 0, early: false },
        vec![Box::new(move || {
            Scripted { held: vec![] }.run(rx, names(upstreams), chans);
        })],
    );
    let what = format!(
        "{} upstreams, {} downstreams, queue {:?}",
        upstreams,
        downs,
        show_events(&input)
    );
    must_end(&r, &what)?;
    for (i, (mut t, rx)) in ends.drain(..).enumerate() {
        let got = show_events(&drain_events(&mut t, rx));
        ensure!(
            got == want,
            "relay",
            "{}: downstream {} received {:?}, should be {:?}",
            what,
            i,
            got,
            want
        );
    }
    o.note(|| format!("{} -> {:?}", what, want));
    Ok(())
}
