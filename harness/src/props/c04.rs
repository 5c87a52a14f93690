//! C04: sending one event to several queues, in memory and on disk.
use super::stage::*;
use super::util::*;
use crate::engine::*;
use crate::sched;
use cernan::metric::Event;
use cernan::util;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering;

pub fn property() -> Property {
    Property {
        id: "C04",
        scenarios: |_| {
            vec![
                Scenario { name: "spill", run: spill },
                Scenario { name: "rotate", run: rotate },
                Scenario { name: "full", run: full },
                Scenario { name: "transient", run: transient },
            ]
        },
        rule: "every interleaving of sends (of every event kind) and receives over 1-3 queues \
               with every combination of memory allowances, through memory, disk and file \
               rotation; every placement of exhausted and failing queue files; states = \
               (allowances, per queue: sent, received, spilled)",
        assumptions: &[
            "crate hopper: a queue that has once refused an event because its whole allowance was \
             used up, or whose queue file could not be created, is not read further (vendored \
             dependency; what it already took is checked on disk)",
        ],
        level: "model_checking",
        hang_s: 30,
    }
}

struct Q {
    rx: <Rx as IntoIterator>::IntoIter,
    tx: Tx,
    mem: usize,
    // reference of the queue's placement rules, to know when a receive would block
    places: Vec<usize>, // 0: one event in memory, n: n events on disk
    limbo: usize,
    reading: usize,
    got: usize,
}

impl Q {
    fn sent(&mut self) {
        if self.limbo == 0 {
            if self.places.len() < self.mem {
                self.places.push(0);
            } else {
                self.limbo = 1;
            }
        } else {
            self.limbo += 1;
            if self.places.len() < self.mem {
                self.places.push(self.limbo);
                self.limbo = 0;
            }
        }
    }
    fn readable(&self) -> bool {
        self.reading > 0 || !self.places.is_empty()
    }
    fn receive(&mut self) -> Option<Event> {
        if self.reading > 0 {
            self.reading -= 1;
        } else {
            let p = self.places.remove(0);
            if p > 0 {
                self.reading = p - 1;
            }
        }
        self.rx.next()
    }
}

fn setup(mems: &[usize], file: usize, files: usize) -> (Vec<Queue>, Vec<Q>, Vec<Tx>) {
    let sz = std::mem::size_of::<Event>();
    let dirs: Vec<Queue> = mems
        .iter()
        .map(|m| Queue { dir: Dir::new("q"), mem: m * sz, file, files })
        .collect();
    let mut qs = vec![];
    let mut chans = vec![];
    for (d, m) in dirs.iter().zip(mems) {
        let (tx, rx) = d.ends();
        chans.push(tx.clone());
        qs.push(Q {
            rx: rx.into_iter(),
            tx,
            mem: (*m).max(1),
            places: vec![],
            limbo: 0,
            reading: 0,
            got: 0,
        });
    }
    (dirs, qs, chans)
}

fn get(q: &mut Q, i: usize, sent: &[Event], hist: &[String]) -> Res<()> {
    let e = q.receive();
    let want = &sent[q.got];
    q.got += 1;
    match e {
        Some(ref e) if show_event(e) == show_event(want) && e == want => Ok(()),
        Some(ref e) => fail(
            "copy",
            format!("after {:?}: queue {} gave {} instead of {}", hist, i, show_event(e), show_event(want)),
        ),
        None => fail(
            "lost",
            format!("after {:?}: queue {} gave nothing instead of {}", hist, i, show_event(want)),
        ),
    }
}

fn rest(qs: &mut Vec<Q>, sent: &[Event], hist: &[String]) -> Res<()> {
    for (i, q) in qs.iter_mut().enumerate() {
        while q.got < sent.len() {
            if !q.readable() {
                if q.tx.flush().is_err() {
                    return fail("lost", format!("after {:?}: queue {} cannot be flushed", hist, i));
                }
                if q.limbo == 0 {
                    return fail("lost", format!("after {:?}: queue {} holds too little", hist, i));
                }
                q.places.push(q.limbo);
                q.limbo = 0;
            }
            get(q, i, sent, hist)?;
        }
    }
    Ok(())
}

fn spill(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3);
    let mut mems = vec![];
    for _ in 0..n {
        mems.push(*o.choose_from(&[1usize, 2, 64]));
    }
    let depth = match n {
        1 => o.pick(13, 17),
        2 => o.pick(8, 10),
        _ => o.pick(7, 8),
    };
    let kind = o.choose(2);
    o.begin()?;
    let (_dirs, mut qs, mut chans) = setup(&mems, 1 << 20, 100);
    let mut sent = vec![];
    let mut hist = vec![];
    for step in 0..depth {
        // send, or receive from a queue that has something
        let ready: Vec<usize> = (0..n).filter(|i| qs[*i].readable()).collect();
        let c = o.choose(1 + ready.len());
        o.step();
        if c == 0 {
            let e = if kind == 0 {
                data(sent.len() % 3, sent.len())
            } else if sent.len() % 2 == 0 {
                Event::TimerFlush(step as u64)
            } else {
                data(sent.len() / 2, 7)
            };
            hist.push(format!("send {}", sent.len()));
            util::send(&mut chans, e.clone());
            sent.push(e);
            for q in qs.iter_mut() {
                q.sent();
            }
        } else {
            let i = ready[c - 1];
            hist.push(format!("receive from {}", i));
            get(&mut qs[i], i, &sent, &hist)?;
        }
        o.state(&(
            &mems,
            kind,
            qs.iter().map(|q| (q.places.clone(), q.limbo, q.reading, q.got)).collect::<Vec<_>>(),
        ));
    }
    o.note(|| format!("memory for {:?}: {:?}", mems, hist));
    rest(&mut qs, &sent, &hist)
}

/// A payload that does not compress.
pub fn blob(i: usize, len: usize) -> Event {
    let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ (i as u64 + 1);
    let mut v = Vec::with_capacity(len);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(len);
    raw(&v, i as u64)
}

/// Large events: the spilled part runs over several queue files.
fn rotate(o: &mut Oracle) -> Res<()> {
    let mems = o.choose_from(&[vec![1usize], vec![2], vec![1, 64], vec![64, 1]]).clone();
    let n = mems.len();
    let depth = if n == 1 { o.pick(7, 9) } else { o.pick(5, 7) };
    let size = *o.choose_from(&[400_000usize, 1_100_000]);
    o.begin()?;
    let (_dirs, mut qs, mut chans) = setup(&mems, 1 << 20, 100);
    let mut sent = vec![];
    let mut hist = vec![];
    for _ in 0..depth {
        let ready: Vec<usize> = (0..n).filter(|i| qs[*i].readable()).collect();
        let c = o.choose(1 + ready.len());
        o.step();
        if c == 0 {
            let e = blob(sent.len(), size);
            hist.push(format!("send {} ({} bytes)", sent.len(), size));
            util::send(&mut chans, e.clone());
            sent.push(e);
            for q in qs.iter_mut() {
                q.sent();
            }
        } else {
            let i = ready[c - 1];
            hist.push(format!("receive from {}", i));
            get(&mut qs[i], i, &sent, &hist)?;
        }
        o.state(&(
            &mems,
            size,
            qs.iter().map(|q| (q.places.clone(), q.limbo, q.reading, q.got)).collect::<Vec<_>>(),
        ));
    }
    rest(&mut qs, &sent, &hist)?;
    o.note(|| format!("memory for {:?}: {:?}", mems, hist));
    Ok(())
}

/// One queue runs out of its whole allowance: what it refuses is counted, what
/// it took is received, the others receive everything.
fn full(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3);
    let bad = o.choose(n);
    let files = o.choose(3);
    let size = *o.choose_from(&[600_000usize, 350_000]);
    let sends = o.pick(5, 8);
    o.begin()?;
    let sz = std::mem::size_of::<Event>();
    let mut keep = vec![];
    let mut chans = vec![];
    let mut rxs = vec![];
    for i in 0..n {
        let q = Queue {
            dir: Dir::new("q"),
            mem: if i == bad { sz } else { 64 * sz },
            file: 1 << 20,
            files: if i == bad { files } else { 100 },
        };
        let (tx, rx) = q.ends();
        chans.push(tx);
        rxs.push(rx);
        keep.push(q);
    }
    // reference: one event in memory, then files are filled up to 1 MiB each
    // (the first file is free), then nothing more fits
    let per_file = (1 << 20) / (size + 100);
    let fits = 1 + per_file * (files + 1);
    util::UTIL_SEND_HOPPER_ERROR_FULL.store(0, Ordering::Relaxed);
    for i in 0..sends {
        o.step();
        util::send(&mut chans, blob(i, size));
        let lost = (i + 1).saturating_sub(fits);
        o.state(&(n, bad, files, size, i, lost));
        let counted = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::Relaxed);
        ensure!(
            counted == lost,
            "count",
            "{} queues, number {} has room for {} of {} bytes: after {} sends {} losses are counted, not {}",
            n, bad, fits, size, i + 1, counted, lost
        );
    }
    for (i, rx) in rxs.into_iter().enumerate() {
        let mut it = rx.into_iter();
        let expect = if i == bad { sends.min(fits) } else { sends };
        for k in 0..expect {
            if i == bad && k == 1 {
                let _ = chans[i].flush();
            }
            let e = it.next();
            ensure!(
                e.as_ref() == Some(&blob(k, size)),
                "others",
                "{} queues, number {} has room for {}: queue {} gave {:?} as event {}",
                n,
                bad,
                fits,
                i,
                e.map(|e| show_event(&e).len()),
                k
            );
        }
    }
    o.note(|| format!("{} queues, number {} with {} extra files: {} fit", n, bad, files, fits));
    Ok(())
}

/// Count the records in a queue's files.
fn records(q: &Queue) -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir(q.dir.0.join("q")) {
        for f in d.flatten() {
            let b = std::fs::read(f.path()).unwrap_or_default();
            let mut at = 0;
            while at + 4 <= b.len() {
                let len = (b[at] as usize) << 24
                    | (b[at + 1] as usize) << 16
                    | (b[at + 2] as usize) << 8
                    | b[at + 3] as usize;
                at += 4 + len;
                n += 1;
            }
        }
    }
    n
}

/// Opening the next queue file fails for a while: the event is not given up,
/// not duplicated, and the other queues get it exactly once.
fn transient(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(3);
    let bad = o.choose(n);
    let fails = 1 + o.choose(4);
    let errno = *o.choose_from(&[libc::EMFILE, libc::ENFILE, libc::EINTR, libc::ENOMEM]);
    o.begin()?;
    let sz = std::mem::size_of::<Event>();
    let mut keep = vec![];
    let mut chans = vec![];
    let mut rxs = vec![];
    for i in 0..n {
        let q = Queue {
            dir: Dir::new("q"),
            mem: if i == bad { sz } else { 64 * sz },
            file: 1 << 20,
            files: 100,
        };
        let (tx, rx) = q.ends();
        chans.push(tx);
        rxs.push(rx);
        keep.push(q);
    }
    let left = Rc::new(RefCell::new(fails));
    let l2 = left.clone();
    sched::set_io(Some(Box::new(move |io| {
        if io.op == sched::OP_OPEN && *l2.borrow() > 0 {
            *l2.borrow_mut() -= 1;
            return sched::Answer::Err(errno);
        }
        sched::Answer::Go
    })));
    util::UTIL_SEND_HOPPER_ERROR_FULL.store(0, Ordering::Relaxed);
    let sends = 4;
    for i in 0..sends {
        o.step();
        o.state(&(n, bad, fails, errno, i));
        util::send(&mut chans, blob(i, 700_000));
    }
    sched::set_io(None);
    let _ = chans[bad].flush();
    ensure!(
        *left.borrow() == 0,
        "engine",
        "the queue never opened a file (the failures were not reached)"
    );
    let got = records(&keep[bad]);
    ensure!(
        got == sends - 1,
        "transient",
        "{} queues, opening a file of queue {} failed {} times: {} of {} spilled events are in its files",
        n, bad, fails, got, sends - 1
    );
    ensure!(
        util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::Relaxed) == 0,
        "count",
        "a transient failure was counted as a loss"
    );
    for (i, rx) in rxs.into_iter().enumerate() {
        if i == bad {
            continue;
        }
        let got = drain_events(&mut chans[i], rx);
        ensure!(
            got.len() == sends && (0..sends).all(|k| got[k] == blob(k, 700_000)),
            "others",
            "queue {} of {} received {} events instead of {} when queue {} had a transient failure",
            i, n, got.len(), sends, bad
        );
    }
    o.note(|| format!("{} queues, {} failures on queue {}", n, fails, bad));
    Ok(())
}
