//! C05: whole pipelines shutting down, under every schedule.
use super::stage::*;
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::filter::{Filter, FilterError};
use cernan::metric::Event;
use cernan::sink::RunnableSink;
use cernan::thread::Stoppable;
use cernan::util;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C05",
        scenarios: |_| {
            vec![
                Scenario { name: "fan-in", run: fan_in },
                Scenario { name: "chain", run: chain },
                Scenario { name: "diamond", run: diamond },
                Scenario { name: "mesh", run: mesh },
                Scenario { name: "full", run: full },
            ]
        },
        rule: "every schedule of source, filter and sink threads that deviates from the default \
               (run until blocked, then round robin) at most a bounded number of times, at every \
               lock, condition variable, thread and sleep operation, for every queue allowance; \
               states = (steps and wait of every thread)",
        assumptions: &[
            "atomic operations between two lock or wait operations of one thread are not \
             interleaved with other threads",
        ],
        level: "model_checking",
        hang_s: 120,
    }
}

/// Passes everything on; "hold" events come out at shutdown.
struct Pass;
impl Filter for Pass {
    fn process(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        res.push(event);
        Ok(())
    }
}

struct Topo {
    /// events per source, and the stages each source feeds
    sources: Vec<(usize, Vec<usize>)>,
    /// stage -> what it feeds; sinks feed nothing
    stages: Vec<(bool, Vec<usize>)>,
}

impl Topo {
    fn upstreams(&self, i: usize) -> usize {
        self.sources.iter().filter(|s| s.1.contains(&i)).count()
            + self.stages.iter().filter(|s| s.1.contains(&i)).count()
    }
    /// How many paths lead from source s to stage i.
    fn paths(&self, s: usize, i: usize) -> usize {
        let mut n = self.sources[s].1.iter().filter(|x| **x == i).count();
        for (j, st) in self.stages.iter().enumerate() {
            if st.1.contains(&i) {
                n += self.paths(s, j);
            }
        }
        n
    }
}

fn run(o: &mut Oracle, t: Topo, mems: &[usize], devs: i32, early: bool, pulses: bool) -> Res<()> {
    let sz = std::mem::size_of::<Event>();
    let mut txs = vec![];
    let mut rxs = vec![];
    let mut dirs = vec![];
    for m in mems {
        let q = Queue { dir: Dir::new("q"), mem: m * sz, file: 1 << 20, files: 100 };
        let (tx, rx) = q.ends();
        txs.push(tx);
        rxs.push(Some(rx));
        dirs.push(q);
    }
    let mut roots: Vec<sched::Root> = vec![];
    let mut traces = vec![];
    for (i, st) in t.stages.iter().enumerate() {
        let rx = rxs[i].take().unwrap();
        let ups = t.upstreams(i);
        if st.0 {
            let trace = Arc::new(Mutex::new(Trace::default()));
            traces.push((i, trace.clone()));
            let cfg = TestCfg { trace, interval: Some(1), capacity: usize::max_value(), failures: 0 , outage: 0,};
            roots.push(Box::new(move || {
                let s: RunnableSink<TestSink, TestCfg> = RunnableSink::new(rx, names(ups), cfg);
                s.run().join();
            }));
        } else {
            let chans: Vec<Tx> = st.1.iter().map(|j| txs[*j].clone()).collect();
            roots.push(Box::new(move || Pass.run(rx, names(ups), chans)));
        }
    }
    for (s, (n, to)) in t.sources.iter().enumerate() {
        let mut chans: Vec<Tx> = to.iter().map(|j| txs[*j].clone()).collect();
        let n = *n;
        roots.push(Box::new(move || {
            for i in 0..n {
                util::send(&mut chans, data(i % 3, 10 * s + i));
                if pulses {
                    util::send(&mut chans, Event::TimerFlush(1 + i as u64));
                }
            }
            util::send(&mut chans, Event::Shutdown);
        }));
    }
    let n_threads = roots.len();
    let r = sched::run(o, sched::Opts { max_steps: 20_000, devs, early }, roots);
    let what = format!(
        "sources {:?}, stages {:?}, queue memory {:?}",
        t.sources, t.stages, mems
    );
    o.note(|| {
        format!("{}: {} threads, {} steps, {} deviations", what, n_threads, r.steps, r.devs_used)
    });
    must_end(&r, &what)?;
    for (i, trace) in traces {
        let calls = trace.lock().unwrap().calls.clone();
        let got: Vec<String> = calls.iter().filter(|c| !c.starts_with("flush")).cloned().collect();
        ensure!(
            got.iter().filter(|c| *c == "shutdown").count() == 1
                && got.last().map(|s| s.as_str()) == Some("shutdown"),
            "shutdown",
            "{}: sink {} saw {:?}",
            what,
            i,
            got
        );
        let mut total = 1;
        for (s, (n, _)) in t.sources.iter().enumerate() {
            let paths = t.paths(s, i);
            let want: Vec<String> = (0..*n).map(|k| show_event(&data(k % 3, 10 * s + k))).collect();
            let mine: Vec<&String> = got.iter().filter(|c| want.contains(c)).collect();
            total += mine.len();
            for w in &want {
                let c = mine.iter().filter(|m| **m == w).count();
                ensure!(
                    c == paths,
                    "delivery",
                    "{}: sink {} received {} {} times instead of {}: {:?}",
                    what,
                    i,
                    w,
                    c,
                    paths,
                    got
                );
            }
            if paths == 1 {
                ensure!(
                    mine.iter().map(|m| (*m).clone()).collect::<Vec<_>>() == want,
                    "order",
                    "{}: sink {} received {:?}",
                    what,
                    i,
                    got
                );
            }
        }
        ensure!(total == got.len(), "delivery", "{}: sink {} received strangers: {:?}", what, i, got);
    }
    drop(txs);
    Ok(())
}

const MEMS: [usize; 4] = [1, 2, 3, 64];

fn fan_in(o: &mut Oracle) -> Res<()> {
    let ns = 1 + o.choose(3);
    let n = o.choose(if ns == 3 { 2 } else { 4 });
    let m = *o.choose_from(&MEMS);
    let pulses = o.choose_bool();
    let early = o.choose_bool();
    o.begin()?;
    let t = Topo {
        sources: (0..ns).map(|_| (n, vec![0])).collect(),
        stages: vec![(true, vec![])],
    };
    let devs = o.pick(2, 3);
    run(o, t, &[m], devs, early, pulses)
}

fn chain(o: &mut Oracle) -> Res<()> {
    let ns = 1 + o.choose(2);
    let nf = 1 + o.choose(2);
    let n = 1 + o.choose(2);
    let m: Vec<usize> = (0..=nf).map(|_| *o.choose_from(&[1usize, 64])).collect();
    o.begin()?;
    let mut stages: Vec<(bool, Vec<usize>)> = (0..nf).map(|i| (false, vec![i + 1])).collect();
    stages.push((true, vec![]));
    let t = Topo { sources: (0..ns).map(|_| (n, vec![0])).collect(), stages };
    let devs = o.pick(if ns + nf > 3 { 1 } else { 2 }, 2);
    run(o, t, &m, devs, true, false)
}

/// One source, two filters, one sink: two paths.
fn diamond(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(2);
    let m: Vec<usize> = (0..3).map(|_| *o.choose_from(&[1usize, 64])).collect();
    o.begin()?;
    let t = Topo {
        sources: vec![(n, vec![0, 1])],
        stages: vec![(false, vec![2]), (false, vec![2]), (true, vec![])],
    };
    let devs = o.pick(1, 2);
    run(o, t, &m, devs, true, false)
}

/// Two sources; one goes straight to both sinks, one through a filter.
fn mesh(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(2);
    let m: Vec<usize> = (0..3).map(|_| *o.choose_from(&[1usize, 64])).collect();
    o.begin()?;
    let t = Topo {
        sources: vec![(n, vec![1, 2]), (n, vec![0])],
        stages: vec![(false, vec![1, 2]), (true, vec![]), (true, vec![])],
    };
    let devs = o.pick(1, 2);
    run(o, t, &m, devs, true, false)
}

/// A queue that has used up all it may when the shutdown comes: its reader, busy until then, learns
/// of the shutdown all the same.
fn full(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3);
    let bad = o.choose(n);
    let files = o.choose(3);
    let pad = o.choose(o.pick(8, 24));
    let filter = o.choose_bool();
    o.begin()?;
    let sz = std::mem::size_of::<Event>();
    let (mut txs, mut rxs, mut dirs) = (vec![], vec![], vec![]);
    for i in 0..=n {
        let q = Queue {
            dir: Dir::new("q"),
            mem: if i == bad { sz } else { 256 * sz },
            file: 1 << 20,
            files: if i == bad { files } else { 100 },
        };
        let (tx, rx) = q.ends();
        txs.push(tx);
        rxs.push(Some(rx));
        dirs.push(q);
    }
    let sent = Arc::new(Mutex::new(vec![]));
    let mut roots: Vec<sched::Root> = vec![];
    let mut traces = vec![];
    for i in 0..=n {
        let rx = rxs[i].take().unwrap();
        let trace = Arc::new(Mutex::new(Trace::default()));
        traces.push(trace.clone());
        let cfg = TestCfg { trace, interval: None, capacity: usize::max_value(), failures: 0, outage: 0 };
        // the last queue is that of a filter, if there is one
        let out = txs[n].clone();
        roots.push(Box::new(move || {
            if i == bad {
                // an outage
                sched::sleep(300_000_000);
            }
            if filter && i == bad {
                Pass.run(rx, names(1), vec![out]);
            } else if filter || i < n {
                let s: RunnableSink<TestSink, TestCfg> = RunnableSink::new(rx, names(1), cfg);
                s.run().join();
            }
        }));
    }
    let mut chans: Vec<Tx> = txs[..n].to_vec();
    let s2 = sent.clone();
    roots.push(Box::new(move || {
        let mut i = 0;
        let mut size = 600_000 + pad;
        util::UTIL_SEND_HOPPER_ERROR_FULL.store(0, Ordering::Relaxed);
        loop {
            let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::Relaxed);
            let e = if size > 0 { super::c04::blob(i, size) } else { Event::Log(log("p", &i.to_string(), 0)) };
            i += 1;
            util::send(&mut chans, e.clone());
            let lost = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::Relaxed) > before;
            s2.lock().unwrap().push((show_event(&e), lost));
            if lost {
                if size == 0 {
                    break;
                }
                size = if size > 20 { size / 2 } else { 0 };
            }
        }
        // small enough to take what room is left
        for i in 0..8 {
            util::send(&mut chans, Event::TimerFlush(1 + i));
        }
        util::send(&mut chans, Event::Shutdown);
    }));
    let r = sched::run(o, sched::Opts { max_steps: 60_000, devs: 0, early: false }, roots);
    let what = format!(
        "{} queues, number {} with {} extra files and nothing left of them, {} bytes more, filter {}",
        n, bad, files, pad, filter
    );
    o.note(|| format!("{}: {} steps", what, r.steps));
    o.step();
    o.state(&(n, bad, files, pad, filter));
    must_end(&r, &what)?;
    let sent = sent.lock().unwrap().clone();
    for (i, trace) in traces.iter().enumerate() {
        if i == n && !filter || i == bad && filter {
            continue;
        }
        let short = i == bad || i == n;
        let mut want: Vec<String> = sent.iter().filter(|s| !short || !s.1).map(|s| s.0.clone()).collect();
        want.push("shutdown".to_string());
        let got: Vec<String> =
            trace.lock().unwrap().calls.iter().filter(|c| !c.starts_with("flush")).cloned().collect();
        ensure!(
            got == want,
            "delivery",
            "{}: sink {} received {} events, not the {} accepted, and saw at the end {:?}",
            what,
            i,
            got.len(),
            want.len(),
            got.last().map(|s| s.chars().take(60).collect::<String>())
        );
    }
    drop(txs);
    Ok(())
}
