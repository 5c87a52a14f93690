//! C12: the file source, with a writer whose steps fall between its system calls.
use super::net::*;
use super::stage::must_end;
use super::util::*;
use crate::engine::*;
use crate::sched::{self, Answer};
use cernan::metric::Event;
use cernan::source::{FileServer, FileServerConfig};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C12",
        scenarios: |_| {
            vec![
                Scenario { name: "append", run: append },
                Scenario { name: "rotate", run: rotate },
                Scenario { name: "generations", run: generations },
                Scenario { name: "reads", run: reads },
                Scenario { name: "two-files", run: two_files },
                Scenario { name: "sizes", run: sizes },
                Scenario { name: "stop", run: stop },
            ]
        },
        rule: "every script of appends, renames and (re)creations up to a length, with every \
               placement of its steps before, between and after the system calls of the source's \
               first polling rounds; every placement of short, interrupted and failed reads and \
               opens; states = (script steps done, system calls so far, what the file holds)",
        assumptions: &[
            "a file stays at its path until the source has opened it, and nothing is appended to \
             it after it was renamed away",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
    /// append to the file at the path
    Append(usize, Vec<u8>),
    /// rename it away
    Rename(usize),
    Unlink(usize),
    /// create it anew
    Create(usize),
    /// rename a finished file over it
    Replace(usize, Vec<u8>),
}

fn show_act(a: &Act) -> String {
    match a {
        Act::Append(i, b) if b.len() > 60 => format!("append {} {} bytes", i, b.len()),
        Act::Append(i, b) => format!("append {} {:?}", i, String::from_utf8_lossy(b)),
        Act::Rename(i) => format!("rename {}", i),
        Act::Unlink(i) => format!("unlink {}", i),
        Act::Create(i) => format!("create {}", i),
        Act::Replace(i, b) => format!("replace {} by {:?}", i, String::from_utf8_lossy(b)),
    }
}

/// The writer: it performs the script and knows what must be emitted.
struct Writer {
    dir: PathBuf,
    script: Vec<Act>,
    next: usize,
    /// per file: the bytes at the path since it was last created
    bytes: BTreeMap<usize, Vec<u8>>,
    /// per file: the lines of former files
    lines: BTreeMap<usize, Vec<String>>,
    generation: usize,
}

fn split(b: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    v.pop(); // not terminated
    // what is not text cannot be told
    v.iter().filter_map(|l| String::from_utf8(l.to_vec()).ok()).collect()
}

impl Writer {
    fn path(&self, i: usize) -> PathBuf {
        self.dir.join(format!("f{}.log", i))
    }
    fn away(&mut self, i: usize) -> PathBuf {
        self.generation += 1;
        self.dir.join(format!("f{}.log.{}", i, self.generation))
    }
    fn retire(&mut self, i: usize) {
        let b = self.bytes.insert(i, vec![]).unwrap_or_default();
        self.lines.entry(i).or_insert_with(Vec::new).extend(split(&b));
    }
    fn act(&mut self) -> bool {
        if self.next >= self.script.len() {
            return false;
        }
        let a = self.script[self.next].clone();
        self.next += 1;
        match a {
            Act::Append(i, b) => {
                let mut f = fs::OpenOptions::new()
                    .append(true)
                    .open(self.path(i))
                    .expect("ENGINE: open for append");
                f.write_all(&b).expect("ENGINE: append");
                self.bytes.entry(i).or_insert_with(Vec::new).extend(b);
            }
            Act::Rename(i) => {
                let to = self.away(i);
                fs::rename(self.path(i), to).expect("ENGINE: rename");
                self.retire(i);
            }
            Act::Unlink(i) => {
                fs::remove_file(self.path(i)).expect("ENGINE: unlink");
                self.retire(i);
            }
            Act::Create(i) => {
                fs::File::create(self.path(i)).expect("ENGINE: create");
            }
            Act::Replace(i, b) => {
                let from = self.away(i);
                fs::write(&from, &b).expect("ENGINE: write");
                fs::rename(&from, self.path(i)).expect("ENGINE: rename");
                self.retire(i);
                self.bytes.insert(i, b);
            }
        }
        true
    }
    fn expected(&self, i: usize) -> Vec<String> {
        let mut v = self.lines.get(&i).cloned().unwrap_or_default();
        if let Some(b) = self.bytes.get(&i) {
            v.extend(split(b));
        }
        v
    }
    /// What may be there already by now.
    fn total(&self) -> usize {
        self.next
    }
}

fn watched(fd: i32, dir: &Path) -> bool {
    fs::read_link(format!("/proc/self/fd/{}", fd))
        .map(|p| p.starts_with(dir) && p.to_string_lossy().contains(".log"))
        .unwrap_or(false)
}

#[derive(Clone)]
struct Cfg {
    files: usize,
    /// what a file holds before the source starts
    before: &'static [u8],
    max_read: usize,
    /// system calls before which the writer may act
    window: usize,
    /// faults, among so many of its calls
    faults: usize,
    fault_window: usize,
    /// stop at once when the script is done
    stop_early: bool,
    generations: bool,
    /// a directory and a file that is not text under matching names
    company: bool,
}

fn cfg() -> Cfg {
    Cfg {
        files: 1,
        before: b"",
        max_read: 2048,
        window: 0,
        faults: 0,
        fault_window: 0,
        stop_early: false,
        generations: false,
        company: false,
    }
}

struct World {
    w: Writer,
    armed: usize,
    ops: usize,
    window: usize,
    faults: usize,
    calls: usize,
    fault_window: usize,
    log: Vec<String>,
    done: Arc<AtomicBool>,
}

/// Run the source while the script unfolds; returns (per file) what was
/// emitted and what should have been.
fn run(o: &mut Oracle, c: Cfg, script: Vec<Act>) -> Res<()> {
    let dir = Dir::new("files");
    let d = dir.0.clone();
    for i in 0..c.files {
        fs::write(d.join(format!("f{}.log", i)), c.before).expect("ENGINE: write");
    }
    if c.company {
        fs::create_dir(d.join("d.log")).expect("ENGINE: mkdir");
        fs::write(d.join("g.log"), "").expect("ENGINE: write");
    }
    let gap: usize = script.len();
    let w = Writer {
        dir: d.clone(),
        script: script.clone(),
        next: 0,
        bytes: BTreeMap::new(),
        lines: BTreeMap::new(),
        generation: 0,
    };
    let started = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicBool::new(script.is_empty()));
    let world = Rc::new(RefCell::new(World {
        w,
        armed: 0,
        ops: 0,
        window: c.window,
        faults: c.faults,
        calls: 0,
        fault_window: c.fault_window,
        log: vec![],
        done: done.clone(),
    }));
    // What existed before the source started to watch is skipped: a file is
    // watched once it was read from.
    let need = c.files;
    let (wo, dd, st) = (world.clone(), d.clone(), started.clone());
    let mut seen: Vec<PathBuf> = vec![];
    sched::set_io(Some(Box::new(move |io| {
        // the writer's own calls are not looked at
        let mut w = match wo.try_borrow_mut() {
            Ok(w) => w,
            Err(_) => return Answer::Go,
        };
        let mine = match io.op {
            sched::OP_READ | sched::OP_AFTER_READ => watched(io.fd, &dd),
            sched::OP_OPEN => std::str::from_utf8(io.data)
                .map(|p| Path::new(p).starts_with(&dd) && p.contains(".log"))
                .unwrap_or(false),
            sched::OP_WAIT => true,
            _ => false,
        };
        if !mine {
            return Answer::Go;
        }
        if !st.load(Ordering::Relaxed) {
            if io.op == sched::OP_AFTER_READ {
                if let Ok(p) = fs::read_link(format!("/proc/self/fd/{}", io.fd)) {
                    if !seen.contains(&p) && p.file_name().map(|n| n.to_string_lossy().starts_with('f')).unwrap_or(false) {
                        seen.push(p);
                    }
                }
                if seen.len() == need {
                    st.store(true, Ordering::Relaxed);
                }
            }
            if !st.load(Ordering::Relaxed) {
                return Answer::Go;
            }
        }
        if w.ops < w.window {
            w.ops += 1;
            let left = gap - w.w.next;
            let k = if left > 0 { sched::decide(left + 1) } else { 0 };
            for _ in 0..k {
                let a = show_act(&w.w.script[w.w.next]);
                let at = format!("call {}: {}", w.ops, a);
                w.log.push(at);
                w.w.act();
            }
            if w.w.next == gap {
                w.done.store(true, Ordering::Relaxed);
            }
        }
        w.calls += 1;
        if w.faults > 0 && w.calls <= w.fault_window && (io.op == sched::OP_READ || io.op == sched::OP_OPEN) {
            let n = if io.op == sched::OP_READ { 5 } else { 2 };
            let f = sched::decide(n);
            if f > 0 {
                w.faults -= 1;
                let what = if io.op == sched::OP_READ { ["read 1 byte", "read 3 bytes", "EINTR", "EIO"][f - 1] } else { "EMFILE" };
                w.log.push(what.to_string());
                return if io.op == sched::OP_OPEN {
                    Answer::Err(libc::EMFILE)
                } else {
                    match f {
                        1 => Answer::Limit(1),
                        2 => Answer::Limit(3),
                        3 => Answer::Err(libc::EINTR),
                        _ => Answer::Err(libc::EIO),
                    }
                };
            }
        }
        Answer::Go
    })));
    let conf = FileServerConfig {
        path: Some(d.join("*.log")),
        max_read_bytes: c.max_read,
        forwards: vec![],
        config_path: Some("sources.files".to_string()),
    };
    // the client thread runs only while the source waits; it owns no Rc
    let steps = Arc::new(std::sync::Mutex::new(Shared(world.clone())));
    let s2 = steps.clone();
    let (stop_early, gens, company) = (c.stop_early, c.generations, c.company);
    let gfile = d.join("g.log");
    let d2 = done.clone();
    let st2 = started.clone();
    let out = serve::<FileServer, _, _>(o, opts(0), conf, move || {
        while !st2.load(Ordering::Relaxed) {
            sched::sleep(1_000_000);
        }
        if company {
            let mut f = fs::OpenOptions::new().append(true).open(&gfile).expect("ENGINE: open");
            f.write_all(b"\xff\xfe\n\xff\n\xffpart").expect("ENGINE: write");
        }
        if !d2.load(Ordering::Relaxed) {
            loop {
                // whatever did not happen between the source's calls
                if gens || !stop_early {
                    rounds();
                }
                let s = s2.lock().unwrap();
                let more = s.0.borrow_mut().w.act();
                if !more {
                    break;
                }
                if !gens {
                    while s.0.borrow_mut().w.act() {}
                    break;
                }
            }
        }
        if stop_early {
            // the source is told to stop while it may not have read it all
            return;
        }
        rounds();
    });
    sched::set_io(None);
    let w = world.borrow();
    let hist = format!(
        "{} (max_read_bytes {}), script {:?}, where: {:?}",
        if c.before.is_empty() { "empty file".to_string() } else { format!("file holding {:?}", String::from_utf8_lossy(c.before)) },
        c.max_read,
        script.iter().map(show_act).collect::<Vec<_>>(),
        w.log
    );
    must_end(&out.run, &hist)?;
    let mut events = out.events;
    ensure!(
        events.pop() == Some(Event::Shutdown),
        "shutdown",
        "{}: the last event is not the shutdown announcement",
        hist
    );
    let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for e in &events {
        match e {
            Event::Log(l) => {
                let mut ok = false;
                for i in 0..c.files {
                    if Path::new(&l.path) == w.w.path(i) {
                        got.entry(i).or_insert_with(Vec::new).push(l.value.clone());
                        ok = true;
                    }
                }
                // of the file that is not text, nothing is claimed
                ensure!(ok || c.company && l.path.ends_with("g.log"), "path", "{}: a line of path {:?}", hist, l.path);
            }
            e => return fail("events", format!("{}: emitted {}", hist, show_event(e))),
        }
    }
    o.step();
    o.state(&(w.w.total(), w.ops, w.log.clone(), format!("{:?}", script)));
    o.note(|| format!("{} -> {:?}", hist, got));
    for i in 0..c.files {
        let g = got.get(&i).cloned().unwrap_or_default();
        let e = w.w.expected(i);
        if c.stop_early {
            ensure!(e.starts_with(&g), "lines", "{}: file {}: emitted {:?}, not a beginning of {:?}", hist, i, brief(&g), brief(&e));
        } else {
            ensure!(g == e, "lines", "{}: file {}: emitted {:?}, should be {:?}", hist, i, brief(&g), brief(&e));
        }
    }
    Ok(())
}

fn brief(v: &[String]) -> Vec<String> {
    v.iter()
        .map(|s| if s.len() > 60 { format!("<{} bytes, hash {:x}>", s.len(), hash64(s)) } else { s.clone() })
        .collect()
}

/// The writer is used by one thread at a time, as the scheduler has it.
struct Shared(Rc<RefCell<World>>);
unsafe impl Send for Shared {}

const CHUNKS: [&[u8]; 8] = [
    b"ab\n",
    b"c",
    b"\n",
    b"d\xc3",
    b"\xa9e\n",
    b" x\r\ny\n",
    b"\n\nz\n",
    b"g\nh",
];

fn append(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(o.pick(3, 4));
    let mut script = vec![];
    for _ in 0..n {
        script.push(Act::Append(0, CHUNKS[o.choose(CHUNKS.len())].to_vec()));
    }
    let before: &[u8] = *o.choose_from(&[&b""[..], &b"old\n"[..], &b"old"[..]]);
    // what follows the middle of a line is the rest of that line
    if before == b"old" && (n > 1 || !o.thorough()) {
        return Err(Stop::Prune);
    }
    // a sequence that is not text: nothing is claimed about its line
    let all: Vec<u8> = script.iter().flat_map(|a| if let Act::Append(_, b) = a { b.clone() } else { vec![] }).collect();
    if std::str::from_utf8(&all).is_err() {
        return Err(Stop::Prune);
    }
    o.begin()?;
    let mut c = cfg();
    c.before = before;
    c.window = o.pick(if n == 3 { 6 } else { 10 }, if n >= 3 { 8 } else { 14 });
    run(o, c, script)
}

fn rotate(o: &mut Oracle) -> Res<()> {
    let mut script = vec![];
    let tails: [&[u8]; 4] = [b"a\n", b"a\nb", b"\n", b""];
    let pre = o.choose(4);
    if !tails[pre].is_empty() {
        script.push(Act::Append(0, tails[pre].to_vec()));
    }
    let more = o.choose(2) == 1;
    if more {
        script.push(Act::Append(0, b"late\n".to_vec()));
    }
    match o.choose(4) {
        0 => {
            script.push(Act::Rename(0));
            script.push(Act::Create(0));
        }
        1 => {
            script.push(Act::Unlink(0));
            script.push(Act::Create(0));
        }
        2 => script.push(Act::Replace(0, b"".to_vec())),
        _ => script.push(Act::Replace(0, b"first\nse".to_vec())),
    }
    let post: [&[u8]; 3] = [b"new\n", b"c\nd\n", b"\xc3\xa9\n"];
    script.push(Act::Append(0, post[o.choose(3)].to_vec()));
    if o.thorough() && o.choose_bool() {
        script.push(Act::Append(0, b"last\n".to_vec()));
    }
    let before: &[u8] = *o.choose_from(&[&b""[..], &b"old and longer than what follows\n"[..]]);
    o.begin()?;
    let mut c = cfg();
    c.before = before;
    c.window = o.pick(8, 11);
    run(o, c, script)
}

/// One rotation after another, each noticed before the next.
fn generations(o: &mut Oracle) -> Res<()> {
    let n = o.pick(5, 7);
    let mut script = vec![];
    let mut there = true;
    for i in 0..n {
        match o.choose(4) {
            0 if there => script.push(Act::Append(0, format!("line {}\n", i).into_bytes())),
            1 if there => script.push(Act::Append(0, format!("part {}", i).into_bytes())),
            2 if there => {
                script.push(Act::Rename(0));
                there = false;
            }
            3 if there => {
                script.push(Act::Unlink(0));
                there = false;
            }
            0 if !there => {
                script.push(Act::Create(0));
                there = true;
            }
            1 if !there => {
                script.push(Act::Replace(0, format!("made {}\nhalf", i).into_bytes()));
                there = true;
            }
            _ => return Err(Stop::Prune),
        }
    }
    o.begin()?;
    let mut c = cfg();
    c.generations = true;
    run(o, c, script)
}

/// Short, interrupted and failed reads; opens that fail.
fn reads(o: &mut Oracle) -> Res<()> {
    let scripts = [
        vec![Act::Append(0, b"a\xc3\xa9b\n\nccc\n".to_vec())],
        vec![Act::Append(0, b"a\xc3".to_vec()), Act::Append(0, b"\xa9\nb\n".to_vec())],
        vec![
            Act::Append(0, b"one\ntwo\n".to_vec()),
            Act::Rename(0),
            Act::Create(0),
            Act::Append(0, b"three\nfour\n".to_vec()),
        ],
        vec![
            Act::Append(0, b"one\ntw".to_vec()),
            Act::Replace(0, b"three\n".to_vec()),
            Act::Append(0, b"four\n".to_vec()),
        ],
    ];
    let s = o.choose(scripts.len());
    o.begin()?;
    let mut c = cfg();
    c.faults = o.pick(2, 3);
    c.window = 3;
    c.fault_window = o.pick(24, 40);
    run(o, c, scripts[s].clone())
}

fn two_files(o: &mut Oracle) -> Res<()> {
    let n = o.pick(3, 4);
    let mut script = vec![];
    let mut made = 0;
    for k in 0..n {
        let i = o.choose(2);
        match o.choose(4) {
            0 => script.push(Act::Append(i, format!("{}:{}\n", i, k).into_bytes())),
            1 => script.push(Act::Append(i, format!("{}", k).into_bytes())),
            2 => script.push(Act::Append(i, b"\n".to_vec())),
            _ => {
                if made & (1 << i) != 0 {
                    return Err(Stop::Prune);
                }
                made |= 1 << i;
                script.push(Act::Rename(i));
                script.push(Act::Create(i));
            }
        }
    }
    let max_read = *o.choose_from(&[2048usize, 0]);
    let company = o.choose_bool();
    o.begin()?;
    let mut c = cfg();
    c.files = 2;
    c.max_read = max_read;
    c.company = company;
    c.window = o.pick(4, 6);
    run(o, c, script)
}

/// Lines and files beyond the sizes of the buffers in the way.
fn sizes(o: &mut Oracle) -> Res<()> {
    let sz = *o.choose_from(&[0usize, 1, 2047, 2048, 2049, 8190, 8191, 8192, 8193, 20_000, 100_000]);
    let count = *o.choose_from(&[1usize, 2, 5]);
    let cut = o.choose(4);
    let max_read = *o.choose_from(&[2048usize, 0, 1, 1_000_000]);
    o.begin()?;
    let mut all = vec![];
    for i in 0..count {
        let mut l: Vec<u8> = format!("{}", i).into_bytes();
        l.resize(sz, b'a' + i as u8);
        all.extend(l);
        all.push(b'\n');
    }
    all.extend(b"end\n");
    let at = match cut {
        0 => 0,
        1 => all.len() / 2,
        2 => 8192.min(all.len() - 1),
        _ => all.len() - 5,
    };
    let script = vec![Act::Append(0, all[..at].to_vec()), Act::Append(0, all[at..].to_vec())];
    let mut c = cfg();
    c.max_read = max_read;
    c.window = 4;
    run(o, c, script)
}

/// Told to stop anywhere: what is emitted is a beginning of what was written.
fn stop(o: &mut Oracle) -> Res<()> {
    let n = o.choose(4);
    let mut script = vec![];
    for _ in 0..n {
        script.push(Act::Append(0, CHUNKS[*o.choose_from(&[0usize, 1, 2, 5])].to_vec()));
    }
    let max_read = *o.choose_from(&[2048usize, 0]);
    o.begin()?;
    let mut c = cfg();
    c.max_read = max_read;
    c.stop_early = true;
    c.window = o.pick(5, 8);
    run(o, c, script)
}

/// Long enough for several polling rounds.
fn rounds() {
    sched::sleep(13_000_000_000);
}
