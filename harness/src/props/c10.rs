//! C10: statsd datagrams, one by one and many at once.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw};
use cernan::metric::{AggregationMethod, Event};
use cernan::source::{Statsd, StatsdConfig};

pub fn property() -> Property {
    Property {
        id: "C10",
        scenarios: |_| {
            vec![
                Scenario { name: "sequences", run: sequences },
                Scenario { name: "sizes", run: sizes },
                Scenario { name: "racing", run: racing },
            ]
        },
        rule: "every sequence of datagrams from a list up to a length, each waiting for the \
               source or sent once it is idle; every schedule up to a number of deviations of \
               sender, source and stop; states = (datagrams, which of them waited together)",
        assumptions: &["the private network keeps datagram boundaries, as UDP does"],
        level: "model_checking",
        hang_s: 120,
    }
}

pub const PORT: u16 = 8125;
pub fn config() -> StatsdConfig {
    StatsdConfig { host: "127.0.0.1".to_string(), port: PORT, ..StatsdConfig::default() }
}

fn m(name: &str, kind: AggregationMethod, v: f64, persist: bool) -> Event {
    let mut t = cernan::metric::Telemetry::new()
        .name(name)
        .value(v)
        .kind(kind)
        .timestamp(cernan::time::now())
        .persist(persist);
    if kind == AggregationMethod::Summarize {
        t = t.error(0.01);
    }
    Event::Telemetry(t.harden().expect("ENGINE: harden"))
}

const NDG: usize = 12;
fn nth(i: usize, pos: usize) -> (Vec<u8>, Vec<Event>) {
    use AggregationMethod::*;
    let n = format!("n{}", pos);
    match i {
        0 => (format!("{}:1|c", n).into_bytes(), vec![m(&n, Sum, 1.0, false)]),
        1 => (
            format!("{}:1|c\n{}:2|g\n{}:-3|g\n{}:4|ms\n", n, n, n, n).into_bytes(),
            vec![m(&n, Sum, 1.0, false), m(&n, Set, 2.0, true), m(&n, Sum, -3.0, true), m(&n, Summarize, 4.0, false)],
        ),
        2 => (b"".to_vec(), vec![]),
        3 => (b"junk".to_vec(), vec![]),
        // good lines, then a bad one
        4 => (format!("bad{}:1|c\nbad{}:2|c\njunk", n, n).into_bytes(), vec![]),
        // a bad line, then good ones
        5 => (format!("junk\nbad{}:1|c\n", n).into_bytes(), vec![]),
        // not text
        6 => (b"bad:1|c\n\xff\xfe".to_vec(), vec![]),
        7 => (b"\n".to_vec(), vec![]),
        8 => (format!("bad{}:1|q", n).into_bytes(), vec![]),
        9 => (format!("bad{}:1|c|@x", n).into_bytes(), vec![]),
        10 => (format!("{}:5|h|@0.5", n).into_bytes(), vec![m(&n, Summarize, 10.0, false)]),
        _ => (format!("bad{}:1|c\n:1|c\nbad{}:1|g", n, n).into_bytes(), vec![]),
    }
}

fn compare(out: &Out, want: &[Event], what: &str) -> Res<()> {
    must_end(&out.run, what)?;
    let got = show_events(&out.events);
    let mut w = show_events(want);
    w.push("shutdown".to_string());
    ensure!(got == w, "events", "{}: got {:?}, should be {:?}", what, got, w);
    Ok(())
}

fn sequences(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(o.pick(4, 5));
    let mut ids = vec![];
    let mut want = vec![];
    let mut waits = vec![];
    let mut dgs = vec![];
    for p in 0..n {
        // the longest sequences use a part of the list
        let i = if n < 4 { o.choose(NDG) } else { *o.choose_from(&[0usize, 1, 2, 4, 6]) };
        let (d, e) = nth(i, p);
        ids.push(i);
        want.extend(e);
        dgs.push(d);
        waits.push(p + 1 < n && o.choose(2) == 1);
    }
    o.begin()?;
    for p in 0..n {
        o.step();
        o.state(&(ids[..p + 1].to_vec(), waits[..p + 1].to_vec()));
    }
    let what = format!("datagrams {:?}, idle after {:?}", ids, waits);
    let out = serve::<Statsd, _, _>(o, opts(0), config(), move || {
        lull();
        for (d, w) in dgs.iter().zip(waits) {
            raw::udp_to(PORT, d);
            if w {
                lull();
            }
        }
        lull();
    });
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

/// Datagrams up to the largest there are.
fn sizes(o: &mut Oracle) -> Res<()> {
    let size = *o.choose_from(&[1432usize, 8192, 16_249, 16_250, 16_251, 16_300, 32_768, 65_507]);
    let tail = o.choose(4);
    let after = o.choose(2) == 1;
    o.begin()?;
    o.step();
    o.state(&(size, tail, after));
    let last = [&b"end:1|c"[..], b"end:1234567|g|@0.125", b"bad:1", b"\xff"][tail];
    let mut d = vec![];
    let mut want = vec![];
    let mut i = 0;
    loop {
        let l = format!("k{}:1|c\n", i);
        if d.len() + l.len() + last.len() + 12 > size {
            break;
        }
        d.extend(l.bytes());
        want.push(m(&format!("k{}", i), AggregationMethod::Sum, 1.0, false));
        i += 1;
    }
    // one name padded so that the size comes out
    let pad = size - d.len() - last.len() - 5;
    let name = "p".repeat(pad);
    d.extend(format!("{}:1|c\n", name).bytes());
    want.push(m(&name, AggregationMethod::Sum, 1.0, false));
    d.extend_from_slice(last);
    assert!(d.len() == size, "ENGINE: {} {}", d.len(), size);
    match tail {
        0 => want.push(m("end", AggregationMethod::Sum, 1.0, false)),
        1 => want.push(m("end", AggregationMethod::Set, 1_234_567.0 * 8.0, true)),
        _ => want.clear(),
    }
    if after {
        want.push(m("after", AggregationMethod::Sum, 2.0, false));
    }
    let what = format!("a datagram of {} bytes ending in {:?}", size, String::from_utf8_lossy(last));
    // more events than a queue's memory allowance, and a few steps for each
    let opts = sched::Opts { max_steps: 500_000, ..opts(0) };
    let out = serve_live::<Statsd, _, _, _>(o, opts, config(), move |_| {
        lull();
        if raw::udp_to(PORT, &d) != d.len() as isize {
            panic!("ENGINE: datagram not sent");
        }
        if after {
            raw::udp_to(PORT, b"after:2|c");
        }
        lull();
    }, |_| ());
    must_end(&out.run, &what)?;
    let got = show_events(&out.events);
    let mut w = show_events(&want);
    w.push("shutdown".to_string());
    if got != w {
        let k = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
        return fail(
            "events",
            format!("{}: {} events, should be {}; the first that differs: {:?}, should be {:?}", what, got.len(), w.len(), got.get(k), w.get(k)),
        );
    }
    Ok(())
}

/// Sender and stop race the source.
fn racing(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(o.pick(2, 3));
    let ids: Vec<usize> = (0..n).map(|_| *o.choose_from(&[0usize, 1, 4, 6])).collect();
    let idle = o.choose(2) == 1; // the stop comes once everything is idle
    let devs = o.pick(2, 3);
    o.begin()?;
    let what = format!("datagrams {:?} racing, {}", ids, if idle { "then idle" } else { "stopped at once" });
    let mut each = vec![];
    let mut dgs = vec![];
    for (p, i) in ids.iter().enumerate() {
        let (d, e) = nth(*i, p);
        dgs.push(d);
        each.push(show_events(&e));
    }
    let out = serve::<Statsd, _, _>(o, opts(devs), config(), move || {
        for d in dgs {
            raw::udp_to(PORT, &d);
            sched::point();
        }
        if idle {
            lull();
        }
    });
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    must_end(&out.run, &what)?;
    let got = show_events(&out.events);
    // whole datagrams, a prefix of those sent if the stop came early
    let mut ok = false;
    for k in 0..n + 1 {
        if idle && k < n {
            continue;
        }
        let mut w: Vec<String> = each[..k].iter().flat_map(|x| x.clone()).collect();
        w.push("shutdown".to_string());
        ok = ok || got == w;
    }
    ensure!(ok, "events", "{}: got {:?} for {:?}", what, got, each);
    Ok(())
}
