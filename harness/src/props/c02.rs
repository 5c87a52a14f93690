//! C02: flush pulses, from the timer to the sink.
use super::c01::run_sink;
use super::stage::*;
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::Event;
use cernan::source::{FlushTimer, FlushTimerConfig, Source};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C02",
        scenarios: |_| {
            vec![
                Scenario { name: "pulses", run: pulses },
                Scenario { name: "apart", run: apart },
                Scenario { name: "timer", run: timer },
            ]
        },
        rule: "every sequence of pulses (duplicates, gaps, regressions) and data up to a depth \
               for every interval; every downstream count for the timer under virtual time; \
               states = (interval, highest pulse seen, flush due)",
        assumptions: &[],
        level: "model_checking",
        hang_s: 60,
    }
}

fn pulses(o: &mut Oracle) -> Res<()> {
    let interval = [None, Some(0), Some(1), Some(2), Some(3), Some(4)][o.choose(6)];
    let capacity = [usize::max_value(), 2][o.choose(2)];
    let depth = o.pick(5, 7);
    history(o, interval, capacity, depth, &[0, 1, 2, 3, 4, 6])
}

/// Pulses a long way from one another, and late in the life of the program.
fn apart(o: &mut Oracle) -> Res<()> {
    let interval = [None, Some(0), Some(1), Some(300), Some(6000), Some(1 << 33), Some(MAX)][o.choose(7)];
    let depth = o.pick(4, 5);
    history(o, interval, 3, depth, &[0, 1, 255, 256, 300, 6000, 1 << 32, (1 << 32) + 300, 1 << 33, MAX])
}

const MAX: u64 = std::u64::MAX;

/// `idx`: data, and the pulses that may follow one another.
fn history(o: &mut Oracle, interval: Option<u64>, capacity: usize, depth: usize, idx: &[u64]) -> Res<()> {
    let all = idx;
    let mut seq = vec![];
    for _ in 0..depth {
        seq.push(o.choose(all.len())); // 0 data, 1.. pulse numbers
    }
    o.begin()?;
    let mut input = vec![];
    let mut want = vec![];
    let mut high = 0;
    let mut held = 0;
    for (i, k) in seq.iter().enumerate() {
        if held >= capacity {
            want.push("flush full".to_string());
            held = 0;
        }
        o.step();
        if *k == 0 {
            input.push(data(i % 3, i));
            want.push(show_event(&input[i]));
            held += 1;
        } else {
            let idx = all[*k];
            input.push(Event::TimerFlush(idx));
            if idx > high {
                high = idx;
                let due = match interval {
                    None => false,
                    Some(0) => true,
                    Some(n) => idx % n == 0,
                };
                if due {
                    want.push("flush".to_string());
                    held = 0;
                }
                o.state(&(interval, high, due, held));
            } else {
                o.state(&(interval, high, idx, held));
            }
        }
    }
    if held >= capacity {
        want.push("flush full".to_string());
    }
    input.push(Event::Shutdown);
    want.push("shutdown".to_string());
    let cfg = TestCfg {
        trace: Arc::new(Mutex::new(Trace::default())),
        interval,
        capacity,
        failures: 0, outage: 0,
    };
    let (r, got) = run_sink(o, &input, 1, cfg);
    let what = format!("interval {:?}, room {}, queue {:?}", interval, capacity, show_events(&input));
    o.note(|| format!("{} -> {:?}", what, got));
    must_end(&r, &what)?;
    ensure!(
        got == want,
        "flushes",
        "{}: the sink saw {:?}, should be {:?}",
        what,
        got,
        want
    );
    Ok(())
}

fn timer(o: &mut Oracle) -> Res<()> {
    let downs = o.choose(4);
    let n = o.pick(40, 400) + o.choose(8) as u64;
    o.begin()?;
    let qs: Vec<Queue> = (0..downs).map(|_| Queue::new()).collect();
    let mut txs = vec![];
    let mut rxs = vec![];
    for q in &qs {
        let (tx, rx) = q.ends();
        txs.push(tx);
        rxs.push(rx);
    }
    let mut ends = txs.clone();
    let r = sched::run(
        o,
        sched::Opts { max_steps: 1_000_000, devs: 0, early: false },
        vec![
            Box::new(move || {
                let _t = FlushTimer::new(txs, FlushTimerConfig).run();
                loop {
                    sched::sleep(1 << 50);
                }
            }),
            Box::new(move || {
                // half a period after pulse n
                sched::sleep(n * 10_000_000 + 5_000_000);
                sched::abort();
            }),
        ],
    );
    ensure!(
        r.outcome == sched::Outcome::Stopped,
        "timer",
        "the timer does not run on: {:?} {}",
        r.outcome,
        r.left
    );
    let want: Vec<String> = (1..=n).map(|i| format!("flush {}", i)).collect();
    for (i, rx) in rxs.into_iter().enumerate() {
        let got = show_events(&drain_events(&mut ends[i], rx));
        o.step();
        o.state(&(downs, n, i, got.len()));
        ensure!(
            got == want,
            "timer",
            "downstream {} of {} saw {:?} in {} periods",
            i,
            downs,
            got,
            n
        );
    }
    o.note(|| format!("{} downstreams, {} pulses", downs, n));
    Ok(())
}
