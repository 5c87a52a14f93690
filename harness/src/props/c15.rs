//! C15: the delay filter's window.
use super::util::*;
use crate::engine::*;
use cernan::filter::{DelayFilter, DelayFilterConfig, Filter};
use cernan::metric::Event;

pub fn property() -> Property {
    Property {
        id: "C15",
        scenarios: |_| {
            vec![
                Scenario { name: "window", run: window },
                Scenario { name: "sequence", run: sequence },
                Scenario { name: "extreme", run: extreme },
            ]
        },
        rule: "every tolerance x offset around every edge of the window x kind of event, and \
               sequences of such events through one filter; states = (tolerance, offsets so far)",
        assumptions: &["the clock is the one cernan reports (cernan::time::now)"],
        level: "model_checking",
        hang_s: 60,
    }
}

fn mk(kind: usize, ts: i64) -> Event {
    match kind {
        0..=3 => Event::Telemetry(point("m", KINDS[kind], 2.5, ts, false, Some(tagmap(&[("a", "b")])))),
        4 => Event::Log(log("p", "line", ts)),
        5 => Event::TimerFlush(ts as u64),
        _ => raw(b"bytes", 7),
    }
}

fn check(f: &mut DelayFilter, tol: i64, kind: usize, ts: i64) -> Res<()> {
    let now = cernan::time::now();
    let ev = mk(kind, ts);
    let want = if kind >= 5 {
        vec![show_event(&ev)]
    } else {
        let d = (i128::from(ts) - i128::from(now)).abs();
        if d <= i128::from(tol) {
            vec![show_event(&ev)]
        } else {
            vec![]
        }
    };
    let label = show_event(&ev);
    let mut res = vec![];
    let r = guarded(|| f.process(ev, &mut res).is_ok());
    let off = i128::from(ts) - i128::from(now);
    match r {
        Err(e) => fail("panic", format!("tolerance {} offset {}: {}", tol, off, e)),
        Ok(ok) => {
            ensure!(ok, "error", "tolerance {} offset {}: {} failed", tol, off, label);
            ensure!(
                show_events(&res) == want,
                "window",
                "tolerance {}, {} seconds off now: {} gave {:?}",
                tol,
                off,
                label,
                show_events(&res)
            );
            Ok(())
        }
    }
}

fn filter(tol: i64) -> DelayFilter {
    DelayFilter::new(&DelayFilterConfig { config_path: None, forwards: vec![], tolerance: tol })
}

fn offsets(tol: i64) -> Vec<i64> {
    let mut v = vec![];
    for base in &[-tol, 0, tol] {
        for d in -2..=2 {
            v.push(base + d);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn window(o: &mut Oracle) -> Res<()> {
    let tols: Vec<i64> = if o.thorough() { (0..100).collect() } else { vec![0, 1, 2, 3, 59, 60, 86_400] };
    let tol = *o.choose_from(&tols);
    let off = *o.choose_from(&offsets(tol));
    let kind = o.choose(7);
    o.begin()?;
    o.step();
    o.state(&(tol, off, kind));
    o.note(|| format!("tolerance {} offset {} kind {}", tol, off, kind));
    let now = cernan::time::now();
    check(&mut filter(tol), tol, kind, now + off)
}

fn sequence(o: &mut Oracle) -> Res<()> {
    let tol = *o.choose_from(&[0i64, 1, 60]);
    let mut offs = vec![];
    let ofs = [-tol - 1, -tol, 0, tol, tol + 1];
    let kinds = [0usize, 1, 4, 5, 6];
    let n = o.pick(3, 4);
    for _ in 0..n {
        offs.push((*o.choose_from(&ofs), *o.choose_from(&kinds)));
    }
    o.begin()?;
    let now = cernan::time::now();
    let mut f = filter(tol);
    for (i, (off, k)) in offs.iter().enumerate() {
        o.step();
        o.state(&(tol, &offs[..=i]));
        check(&mut f, tol, *k, now + off)?;
    }
    Ok(())
}

/// Timestamps come from the network: any of them must be decided.
fn extreme(o: &mut Oracle) -> Res<()> {
    let tol = *o.choose_from(&[0i64, 1, 60, i64::max_value()]);
    let ts = *o.choose_from(&[i64::min_value(), i64::min_value() + 1, -1, 0, i64::max_value() - 1, i64::max_value()]);
    let kind = o.choose(7);
    o.begin()?;
    o.step();
    o.state(&(tol, ts, kind));
    check(&mut filter(tol), tol, kind, ts)
}
