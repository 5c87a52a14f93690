//! C21: the Wavefront sink against a peer that fails.
use super::c07::faulty;
use super::c20::*;
use super::stage::{consume, must_end};
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::{AggregationMethod, Event};
use cernan::sink::{Sink, Wavefront, WavefrontConfig};
use cernan::util::Valve;

pub fn property() -> Property {
    Property {
        id: "C21",
        scenarios: |_| {
            vec![
                Scenario { name: "faults", run: faults },
                Scenario { name: "gone", run: gone },
                Scenario { name: "outage", run: outage },
                Scenario { name: "valve", run: valve },
                Scenario { name: "queue", run: queue },
            ]
        },
        rule: "every sequence of deliveries, flushes and departures of the peer up to a length, \
               ended by a flush or the stop, with every placement of up to a number of faults among \
               the connection attempts and writes; the sink alone, and behind its queue; states = \
               (buffers of the reference, bytes at the peer, faults so far)",
        assumptions: &[
            "the private network delivers bytes in order, and tells a writer at once that its peer left",
            "cernan's clock stands still during an execution, except while it waits to retry",
        ],
        level: "model_checking",
        hang_s: 30,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Deliver(usize),
    Flush,
    Shutdown,
    HangUp,
}

fn specs() -> Vec<Spec> {
    use AggregationMethod::*;
    vec![
        Spec { name: "a", kind: Sum, values: &[1.5], tags: &[("k", "v")], ts: -9, persist: false },
        Spec { name: "p", kind: Set, values: &[7.0], tags: &[], ts: -9, persist: true },
        Spec { name: "q", kind: Summarize, values: &[3.0, 1.0, 2.0], tags: &[("k", "v")], ts: -4, persist: false },
        Spec { name: "a", kind: Sum, values: &[0.25], tags: &[("k", "v")], ts: -2, persist: false },
    ]
}

fn drive(o: &mut Oracle, ops: &[Op], budget: usize) -> Res<()> {
    let conf = Conf {
        width: 1,
        pad: ALL_PAD,
        age: None,
        percentiles: &[("50", 0.5)],
        defaults: &[("source", "s")],
    };
    let specs = specs();
    let (peer, lg) = faulty(o, PORT, budget);
    let mut r = Ref::new(&conf);
    let mut sink = Some(Wavefront::init(conf.config()));
    // of each connection, how much had come by the end of the last flush
    let mut seen: Vec<usize> = vec![];
    for (i, op) in ops.iter().enumerate() {
        o.step();
        match op {
            Op::Deliver(k) => {
                sink.as_mut().unwrap().deliver(specs[*k].telem());
                r.deliver(&specs[*k]);
            }
            Op::HangUp => peer.borrow_mut().hang_up(),
            Op::Flush => sink.as_mut().unwrap().flush(),
            Op::Shutdown => sink.take().unwrap().shutdown(),
        }
        peer.borrow_mut().pump();
        let p = peer.borrow();
        let l = lg.borrow();
        o.state(&(r.show(), p.conns.iter().map(|c| c.1.len()).collect::<Vec<_>>(), l.faults.clone()));
        seen.resize(p.conns.len(), 0);
        let hist = || format!("{:?}, faults {:?}", &ops[..=i], l.faults);
        let fresh: Vec<&[u8]> = p.conns.iter().zip(&seen).map(|(c, n)| &c.1[*n..]).collect();
        if let Op::Deliver(_) | Op::HangUp = op {
            ensure!(
                fresh.iter().all(|f| f.is_empty()),
                "untimely",
                "{}: something was written outside a flush",
                hist()
            );
            continue;
        }
        // the last connection is that which worked
        let text = match fresh.last() {
            Some(f) => String::from_utf8_lossy(f).into_owned(),
            None => return fail("lost", format!("{}: the flush is over without a connection", hist())),
        };
        let broken = |i: usize| l.conns.get(i).map(|c| c.1).unwrap_or(false) || p.conns[i].0 < 0;
        // an empty flush need not notice
        ensure!(
            text.is_empty() || !broken(p.conns.len() - 1),
            "lost",
            "{}: the flush is over, and the last connection broke",
            hist()
        );
        for (k, f) in fresh[..fresh.len() - 1].iter().enumerate() {
            ensure!(
                text.as_bytes().starts_with(f) && (f.is_empty() || broken(k)),
                "repeated",
                "{}: connection {} was also sent {:?}; the last was sent {:?}",
                hist(),
                k,
                String::from_utf8_lossy(f),
                text
            );
        }
        let before = r.show();
        if let Err(e) = r.flush(&text) {
            return fail("lost", format!("{}: the flush wrote {:?}: {}; held: {}", hist(), text, e, before));
        }
        if let Some(ref s) = sink {
            ensure!(s.valve_state() == Valve::Open, "valve", "{}: closed", hist());
        }
        seen = p.conns.iter().map(|c| c.1.len()).collect();
    }
    o.note(|| format!("{:?} {:?} {:?}", ops, lg.borrow().faults, seen));
    sched::set_io(None);
    sched::detach();
    Ok(())
}

fn faults(o: &mut Oracle) -> Res<()> {
    let n = o.choose(o.pick(5, 6));
    let mut ops = vec![];
    for _ in 0..n {
        let k = o.choose(5);
        ops.push(if k == 4 { Op::Flush } else { Op::Deliver(k) });
    }
    ops.push(if o.choose_bool() { Op::Flush } else { Op::Shutdown });
    let budget = o.pick(3, 4);
    o.begin()?;
    drive(o, &ops, budget)
}

fn gone(o: &mut Oracle) -> Res<()> {
    let n = o.pick(5, 6);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(*o.choose_from(&[Op::Deliver(0), Op::Deliver(1), Op::Deliver(3), Op::Flush, Op::HangUp]));
    }
    ops.push(*o.choose_from(&[Op::Flush, Op::Shutdown]));
    let budget = o.pick(2, 3);
    o.begin()?;
    drive(o, &ops, budget)
}

/// Nobody answers for a long time.
fn outage(o: &mut Oracle) -> Res<()> {
    let n = *o.choose_from(&[1usize, 8, 9, 10, 255, 256, 257, 1000, 70_000]);
    let what = o.choose(3);
    let end = *o.choose_from(&[Op::Flush, Op::Shutdown]);
    o.begin()?;
    let conf = Conf { width: 1, pad: NO_PAD, age: None, percentiles: &[], defaults: &[] };
    let specs = specs();
    let (peer, _) = faulty(o, PORT, 0);
    let mut left = n;
    sched::set_io(Some(Box::new(move |io| {
        let hit = match what {
            0 => io.op == sched::OP_CONNECT,
            1 => io.op == sched::OP_SEND || io.op == sched::OP_WRITE,
            _ => io.op == sched::OP_CONNECT || io.op == sched::OP_SEND || io.op == sched::OP_WRITE,
        };
        if hit && left > 0 {
            left -= 1;
            let e = if io.op == sched::OP_CONNECT { libc::ECONNREFUSED } else { libc::ECONNRESET };
            return sched::Answer::Err(e);
        }
        sched::Answer::Go
    })));
    let mut r = Ref::new(&conf);
    let mut sink = Wavefront::init(conf.config());
    for s in &specs {
        sink.deliver(s.telem());
        r.deliver(s);
    }
    // a peer with more connections than it has ears for
    let n_conns = if what == 1 { n + 1 } else { 1 };
    if n_conns > 100 {
        return Err(Stop::Prune);
    }
    match end {
        Op::Flush => sink.flush(),
        _ => sink.shutdown(),
    }
    peer.borrow_mut().pump();
    let p = peer.borrow();
    o.step();
    let text = p.conns.last().map(|c| String::from_utf8_lossy(&c.1).into_owned()).unwrap_or_default();
    o.state(&(n, what, text.clone()));
    if let Err(e) = r.flush(&text) {
        return fail("lost", format!("after {} failures of kind {}, the peer has {:?}: {}", n, what, text, e));
    }
    sched::set_io(None);
    sched::detach();
    Ok(())
}

fn many(n: usize, persist: bool) -> impl Iterator<Item = cernan::metric::Telemetry> {
    (0..n).map(move |i| {
        point(&format!("n{}", i % 5000), AggregationMethod::Sum, 1.0, (i / 5000) as i64, persist, None)
    })
}

/// Too much to hold.
fn valve(o: &mut Oracle) -> Res<()> {
    let n = *o.choose_from(&[0usize, 1, 9_999, 10_000, 10_001, 10_002]);
    let persist = o.choose_bool();
    let rounds = 1 + o.choose(2);
    o.begin()?;
    let conf = Conf { width: 1, pad: NO_PAD, age: None, percentiles: &[], defaults: &[] };
    let (peer, _) = faulty(o, PORT, 0);
    let mut sink = Wavefront::init(conf.config());
    for k in 0..rounds {
        o.step();
        let mut i = 0;
        // persisted points: as many series
        for t in many(n, false) {
            let t = if persist {
                point(&format!("n{}", i), AggregationMethod::Sum, 1.0, 3, true, None)
            } else {
                t
            };
            i += 1;
            ensure!(
                (sink.valve_state() == Valve::Closed) == (i > 10_001),
                "valve",
                "with {} points held the valve is {}",
                i - 1,
                if i > 10_001 { "open" } else { "closed" }
            );
            sink.deliver(t);
            if k > 0 && persist {
                break;
            }
        }
        sink.flush();
        peer.borrow_mut().pump();
        o.state(&(n, persist, k, peer.borrow().conns.iter().map(|c| c.1.len()).sum::<usize>()));
        ensure!(
            sink.valve_state() == Valve::Open,
            "released",
            "the valve stays closed after a flush of {} {} points",
            n,
            if persist { "persisted" } else { "plain" }
        );
        let lines = peer.borrow().conns.iter().map(|c| c.1.iter().filter(|b| **b == b'\n').count()).sum::<usize>();
        ensure!(
            persist || lines == n * (k + 1),
            "lost",
            "{} points delivered, {} lines written",
            n * (k + 1),
            lines
        );
    }
    sched::set_io(None);
    sched::detach();
    Ok(())
}

/// The sink behind its queue: what is sent during an outage arrives too.
fn queue(o: &mut Oracle) -> Res<()> {
    // how many points before each pulse
    let sizes = [0usize, 1, 2, 10_002];
    let n = 1 + o.choose(3);
    let groups: Vec<usize> = (0..n).map(|_| *o.choose_from(&sizes)).collect();
    let pulse_at_end = o.choose_bool();
    let budget = o.pick(1, 2);
    if groups.iter().filter(|g| **g > 2).count() > 1 {
        return Err(Stop::Prune);
    }
    o.begin()?;
    let (peer, lg) = faulty(o, PORT, budget);
    let mut input = vec![];
    let mut want = vec![];
    for (i, g) in groups.iter().enumerate() {
        for k in 0..*g {
            let name = format!("n{}.{}", i, k);
            want.push(format!("{} 1 {}", name, i));
            input.push(Event::Telemetry(point(&name, AggregationMethod::Set, 1.0, i as i64, false, None)));
        }
        if i + 1 < n || pulse_at_end {
            input.push(Event::TimerFlush(i as u64 + 1));
        }
    }
    input.push(Event::Shutdown);
    let conf = Conf { width: 1, pad: NO_PAD, age: None, percentiles: &[], defaults: &[] };
    let r = consume::<Wavefront, WavefrontConfig>(o, &input, 1, conf.config());
    let what = format!("points before each pulse {:?}, faults {:?}", groups, lg.borrow().faults);
    must_end(&r, &what)?;
    peer.borrow_mut().pump();
    let p = peer.borrow();
    let l = lg.borrow();
    let mut got: Vec<String> = vec![];
    for (i, c) in p.conns.iter().enumerate() {
        if l.conns.get(i).map(|c| c.1).unwrap_or(false) {
            continue;
        }
        got.extend(String::from_utf8_lossy(&c.1).lines().map(|l| l.trim().to_string()));
    }
    // what had been flushed on a connection before it broke
    for (i, c) in p.conns.iter().enumerate() {
        if l.conns.get(i).map(|c| c.1).unwrap_or(false) {
            for line in String::from_utf8_lossy(&c.1).lines() {
                let line = line.trim().to_string();
                if !got.contains(&line) && want.contains(&line) {
                    got.push(line);
                }
            }
        }
    }
    got.sort();
    want.sort();
    o.step();
    o.state(&(groups.clone(), l.faults.clone(), got.len()));
    ensure!(
        got == want,
        "lost",
        "{}: {} points were sent, {} distinct lines written; the first that differ {:?}",
        what,
        want.len(),
        got.len(),
        want.iter().zip(&got).find(|(a, b)| a != b)
    );
    sched::set_io(None);
    sched::detach();
    Ok(())
}
