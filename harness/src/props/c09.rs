//! C09: Graphite lines under every segmentation.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use cernan::metric::{AggregationMethod, Event};
use cernan::source::{Graphite, TCPConfig};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C09",
        scenarios: |_| {
            vec![
                Scenario { name: "lines", run: lines },
                Scenario { name: "segments", run: segments },
                Scenario { name: "short-reads", run: short_reads },
                Scenario { name: "leaving", run: leaving },
                Scenario { name: "two-clients", run: two_clients },
                Scenario { name: "large", run: large },
            ]
        },
        rule: "every line of up to five words from a word list with every separator; every \
               sequence of lines from a list under every placement of segment boundaries; a \
               client that leaves at every byte; two clients' segments in every order; states = \
               (lines, boundary positions)",
        assumptions: &[
            "the private network behaves as TCP does",
            "a last line without its newline may be emitted or not, if it is well-formed",
        ],
        level: "model_checking",
        hang_s: 120,
    }
}

const PORT: u16 = 2003;
fn config() -> TCPConfig {
    TCPConfig {
        host: "127.0.0.1".to_string(),
        port: PORT,
        forwards: vec![],
        config_path: Some("sources.graphite".to_string()),
    }
}

fn metric(name: &str, v: f64, ts: i64) -> Event {
    Event::Telemetry(point(name, AggregationMethod::Set, v, ts, false, None))
}

/// Words, what they are as a value and what they are as a time.
fn words() -> Vec<(&'static [u8], Option<f64>, Option<i64>)> {
    vec![
        (b"a", None, None),
        (b"1", Some(1.0), Some(1)),
        (b"-2.5", Some(-2.5), None),
        (b"1e3", Some(1000.0), None),
        (b"+3", Some(3.0), Some(3)),
        (b"-7", Some(-7.0), Some(-7)),
        (b"x.y_z-%@", None, None),
        ("\u{e9}\u{1f980}".as_bytes(), None, None),
        (b"9223372036854775807", Some(9_223_372_036_854_775_807.0), Some(9_223_372_036_854_775_807)),
        (b"9223372036854775808", Some(9_223_372_036_854_775_808.0), None),
        (b"\xff\xfe", None, None),
        (b"1,5", None, None),
        (b"0x10", None, None),
    ]
}

/// One line, whole: exactly what it says, or nothing.
fn lines(o: &mut Oracle) -> Res<()> {
    let w = words();
    let n = o.choose(6);
    // the fourth and fifth word only matter by being there
    let ids: Vec<usize> =
        (0..n).map(|i| if i < 3 { o.choose(w.len()) } else { o.choose(2) }).collect();
    let sep: &[u8] = *o.choose_from(&[&b" "[..], b"\t", b"  "]);
    let ending: &[u8] = *o.choose_from(&[&b"\n"[..], b"\r\n", b" \n"]);
    let lead = o.choose(2) == 1;
    if !o.thorough() && (sep != b" ") as u8 + (ending != b"\n") as u8 + lead as u8 > 1 {
        return Err(Stop::Prune);
    }
    o.begin()?;
    o.step();
    o.state(&(ids.clone(), sep, ending, lead));
    let mut line = vec![];
    if lead {
        line.extend_from_slice(sep);
    }
    let ws: Vec<&[u8]> = ids.iter().map(|i| w[*i].0).collect();
    line.extend(ws.join(&sep[..]));
    line.extend_from_slice(ending);
    let mut want = vec![];
    if n == 3 && ids[0] != 10 {
        if let (Some(v), Some(t)) = (w[ids[1]].1, w[ids[2]].2) {
            let name = std::str::from_utf8(w[ids[0]].0).expect("ENGINE: name");
            want.push(metric(name, v, t));
        }
    }
    let what = format!("line {:?}", String::from_utf8_lossy(&line));
    // its neighbours must not notice
    let mut all = b"before 1 1\n".to_vec();
    all.extend(line);
    all.extend_from_slice(b"after 2 2\n");
    want.insert(0, metric("before", 1.0, 1));
    want.push(metric("after", 2.0, 2));
    let out = serve::<Graphite, _, _>(o, opts(0), config(), move || pieces(PORT, vec![all], End::Close));
    compare(&out, &want, &what)
}

fn compare(out: &Out, want: &[Event], what: &str) -> Res<()> {
    must_end(&out.run, what)?;
    let got = show_events(&out.events);
    let mut w = show_events(want);
    w.push("shutdown".to_string());
    ensure!(got == w, "events", "{}: got {:?}, should be {:?}", what, got, w);
    Ok(())
}

const NLINES: usize = 12;
fn nth(i: usize, pos: usize) -> (Vec<u8>, Vec<Event>) {
    let n = format!("n{}", pos);
    let one = |s: String, v: f64, t: i64| (s.into_bytes(), vec![metric(&n, v, t)]);
    let none = |b: &[u8]| (b.to_vec(), vec![]);
    match i {
        0 => one(format!("{} 1 10\n", n), 1.0, 10),
        1 => one(format!("{} -2.75 1234567890\r\n", n), -2.75, 1_234_567_890),
        2 => {
            let n = format!("{}\u{e9}\u{20ac}\u{1f980}", n);
            (format!("{} 3 30\n", n).into_bytes(), vec![metric(&n, 3.0, 30)])
        }
        3 => none(b"\n"),
        4 => none(b"junk\n"),
        5 => none(b"half 1\n"),
        6 => none(b"bad x 1\n"),
        7 => none(b"bad 1 x\n"),
        8 => none(b"\xff\xfe 1 1\n"),
        // starts well
        9 => none(b"good 1 2 bad x 3\n"),
        10 => none(b"good 1 2 bad\n"),
        _ => none(b"cut\xc3 1 1\n"),
    }
}

fn sequence(o: &mut Oracle, max: usize) -> (Vec<usize>, Vec<u8>, Vec<Event>) {
    let n = 1 + o.choose(max);
    let (mut ids, mut bytes, mut evs) = (vec![], vec![], vec![]);
    for p in 0..n {
        let i = o.choose(NLINES);
        let (b, e) = nth(i, p);
        ids.push(i);
        bytes.extend(b);
        evs.extend(e);
    }
    (ids, bytes, evs)
}

fn segments(o: &mut Oracle) -> Res<()> {
    let (ids, bytes, want) = sequence(o, 3);
    let n = match ids.len() {
        1 => o.pick(2, 3),
        2 => o.pick(1, 2),
        _ => o.pick(0, 1),
    };
    let c = cuts(o, n, bytes.len());
    let end = *o.choose_from(&[End::Close, End::Stay]);
    o.begin()?;
    for x in &c {
        o.step();
        o.state(&(ids.clone(), *x));
    }
    let parts = cut(&bytes, &c);
    let what = format!("lines {:?} cut at {:?}, {:?}", String::from_utf8_lossy(&bytes), c, end);
    let out = serve::<Graphite, _, _>(o, opts(0), config(), move || pieces(PORT, parts, end));
    o.note(|| format!("{}: {} steps", what, out.run.steps));
    compare(&out, &want, &what)
}

fn short_reads(o: &mut Oracle) -> Res<()> {
    let (ids, bytes, want) = sequence(o, 2);
    let limit = *o.choose_from(&[1usize, 2, 5, 1000]);
    let eintr = o.choose(o.pick(6, 40));
    o.begin()?;
    o.step();
    o.state(&(ids.clone(), limit, eintr));
    let mut n = 0;
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_RECV {
            n += 1;
            if n == eintr + 1 {
                return Answer::Err(libc::EINTR);
            }
            return Answer::Limit(limit);
        }
        Answer::Go
    })));
    let what = format!("lines {:?}, reads of {} bytes, read {} interrupted", ids, limit, eintr);
    let out = serve::<Graphite, _, _>(o, opts(0), config(), move || pieces(PORT, vec![bytes], End::Close));
    compare(&out, &want, &what)
}

/// A client leaves after every byte of its last line, or its connection
/// breaks; its handler goes with it.
fn leaving(o: &mut Oracle) -> Res<()> {
    let (mut ids, bytes, want) = sequence(o, 1);
    let last = o.choose(NLINES);
    let (b, _) = nth(last, 1);
    ids.push(last);
    let at = o.choose(b.len() + 1);
    let end = *o.choose_from(&[End::Close, End::Shutdown]);
    let fault = o.choose(3); // the read that follows fails: not, reset, other
    o.begin()?;
    o.step();
    o.state(&(ids.clone(), at, end == End::Close, fault));
    let what = format!("lines {:?}, the last one cut off at {}, {:?}, read fault {}", ids, at, end, fault);
    let mut all = bytes;
    all.extend_from_slice(&b[..at]);
    // what the last part may be, if it is emitted at all
    let text = String::from_utf8_lossy(&b[..at]).into_owned();
    let ws: Vec<&str> = text.split_whitespace().collect();
    let partial = if ws.len() == 3 && std::str::from_utf8(&b[..at]).is_ok() {
        match (ws[1].parse::<f64>(), ws[2].parse::<i64>()) {
            (Ok(v), Ok(t)) => Some(metric(ws[0], v, t)),
            _ => None,
        }
    } else {
        None
    };
    let ended = at == b.len();
    let faults = Arc::new(Mutex::new(false));
    let f2 = faults.clone();
    if fault > 0 {
        sched::set_io(Some(Box::new(move |io| {
            let mut f = f2.lock().unwrap();
            if *f && io.op == sched::OP_RECV {
                *f = false;
                return Answer::Err([0, libc::ECONNRESET, libc::ETIMEDOUT][fault]);
            }
            Answer::Go
        })));
    }
    let held = Arc::new(Mutex::new((0, 0)));
    let h2 = held.clone();
    let out = serve::<Graphite, _, _>(o, opts(0), config(), move || {
        lull();
        let base = sched::held();
        let other = raw::connect(PORT);
        lull();
        let fd = raw::connect(PORT);
        send(fd, &all);
        lull();
        *faults.lock().unwrap() = true;
        finish(fd, end);
        lull();
        *faults.lock().unwrap() = false;
        *h2.lock().unwrap() = (sched::held() - base, 1);
        send(other, b"other 9 9\n");
        lull();
        raw::close(other);
        lull();
        let n = sched::held() - base;
        let mut h = h2.lock().unwrap();
        if n != 0 {
            *h = (n, 0);
        }
    });
    must_end(&out.run, &what)?;
    let h = *held.lock().unwrap();
    ensure!(h.0 == h.1, "handlers", "{}: {} handlers remain, should be {}", what, h.0, h.1);
    let got = show_events(&out.events);
    let tail = vec![metric("other", 9.0, 9)];
    let mut with = want.clone();
    with.extend(partial.clone());
    with.extend(tail.clone());
    let mut without = want.clone();
    without.extend(tail);
    let fin = |v: &[Event]| {
        let mut s = show_events(v);
        s.push("shutdown".to_string());
        s
    };
    let ok = got == fin(&with) || (!ended && got == fin(&without));
    ensure!(ok, "events", "{}: got {:?}, should be {:?}", what, got, fin(&with));
    Ok(())
}

fn two_clients(o: &mut Oracle) -> Res<()> {
    let pair = [[0usize, 8], [1, 2], [9, 0], [2, 6]][o.choose(4)];
    let (mut ba, mut ea) = nth(pair[0], 0);
    let more = o.choose(NLINES);
    let (b, e) = nth(more, 1);
    ba.extend(b);
    ea.extend(e);
    let (bb, eb) = nth(pair[1], 5);
    let ca = 1 + o.choose(ba.len() - 1);
    let cb = 1 + o.choose(bb.len() - 1);
    let order = o.choose(6);
    let devs = o.pick(0, 1);
    o.begin()?;
    o.step();
    o.state(&(pair, more, ca, cb, order));
    let what = format!("clients {:?}+{} cut at {} and {}, order {}", pair, more, ca, cb, order);
    let pa = cut(&ba, &[ca]);
    let pb = cut(&bb, &[cb]);
    let seq = [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]][order];
    let out = serve::<Graphite, _, _>(o, opts(devs), config(), move || {
        let fds = [raw::connect(PORT), raw::connect(PORT)];
        let mut parts = [pa.into_iter(), pb.into_iter()];
        for c in &seq {
            if let Some(p) = parts[*c].next() {
                send(fds[*c], &p);
                lull();
            }
        }
        raw::close(fds[0]);
        raw::close(fds[1]);
        lull();
    });
    if out.run.outcome == sched::Outcome::Stopped {
        return Err(Stop::Prune);
    }
    must_end(&out.run, &what)?;
    let mut got = show_events(&out.events);
    ensure!(got.pop() == Some("shutdown".to_string()), "events", "{}: no shutdown at the end: {:?}", what, got);
    ensure!(
        super::c06::interleaves(&got, &show_events(&ea), &show_events(&eb)),
        "events",
        "{}: got {:?}",
        what,
        got
    );
    Ok(())
}

/// Lines longer than the buffers in the way.
fn large(o: &mut Oracle) -> Res<()> {
    let size = *o.choose_from(&[8190usize, 8191, 8192, 8193, 20_000, 70_000]);
    let good = o.choose(2) == 1;
    let k = o.choose(4);
    o.begin()?;
    o.step();
    o.state(&(size, good, k));
    let name = "x".repeat(size - 5);
    let mut b = format!("{} 1 {}\n", name, if good { "2" } else { "y" }).into_bytes();
    let c = [vec![], vec![1], vec![8192], vec![b.len() - 1]][k].clone();
    let c: Vec<usize> = c.into_iter().filter(|x| *x < b.len()).collect();
    b.extend_from_slice(b"after 1 1\n");
    let mut want = vec![];
    if good {
        want.push(metric(&name, 1.0, 2));
    }
    want.push(metric("after", 1.0, 1));
    let parts = cut(&b, &c);
    let what = format!("a line of {} bytes cut at {:?}", size, c);
    let out = serve::<Graphite, _, _>(o, opts(0), config(), move || pieces(PORT, parts, End::Close));
    must_end(&out.run, &what)?;
    let mut w = show_events(&want);
    w.push("shutdown".to_string());
    ensure!(show_events(&out.events) == w, "events", "{}: {} events", what, out.events.len());
    Ok(())
}
