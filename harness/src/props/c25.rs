//! C25: the whole program, under the scheduler, from its configuration file to
//! its exit.
use super::c06;
use super::c07::Peer;
use super::c08;
use super::c19;
use super::kafka;
use super::util::*;
use super::web;
use crate::engine::*;
use crate::sched::{self, raw, Answer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C25",
        scenarios: |_| {
            vec![
                Scenario { name: "topologies", run: topologies },
                Scenario { name: "each-kind", run: each_kind },
                Scenario { name: "twins", run: twins },
                Scenario { name: "raw", run: raw_events },
                Scenario { name: "refused", run: refused },
                Scenario { name: "settings", run: settings },
                Scenario { name: "disabled", run: disabled },
                Scenario { name: "start-up", run: start_up },
                Scenario { name: "schedules", run: schedules },
            ]
        },
        rule: "every graph of up to two sources, two filters and two sinks (filters in a chain or side \
               by side, every set of edges), every combination of kinds of source, filter and sink on a \
               chain, every place a forward can name a missing stage, each run as the whole program from \
               its configuration file, fed marked events and sent SIGTERM; schedules with up to one \
               deviation around the signal; states = progress of every thread",
        assumptions: &[
            "the private network delivers what is sent",
            "Kafka's brokers (librdkafka's client) take everything",
        ],
        level: "model_checking",
        hang_s: 60,
    }
}

// ---- configurations -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Statsd,
    Graphite,
    NativeIn,
    Files,
    Internal,
    AvroIn,
    Programmable,
    Delay,
    JsonEncode,
    FlushBoundary,
    Console,
    Null,
    Wavefront,
    NativeOut,
    Influx,
    Prometheus,
    Elastic,
    Kafka,
}
use Kind::*;

impl Kind {
    fn path(self, i: usize) -> String {
        match self {
            Statsd => format!("sources.statsd.s{}", i),
            Graphite => format!("sources.graphite.s{}", i),
            NativeIn => format!("sources.native.s{}", i),
            Files => format!("sources.files.s{}", i),
            AvroIn => format!("sources.avro.s{}", i),
            Internal => "sources.internal".to_string(),
            Programmable => format!("filters.programmable.f{}", i),
            Delay => format!("filters.delay.f{}", i),
            JsonEncode => format!("filters.json_encode.f{}", i),
            FlushBoundary => format!("filters.flush_boundary.f{}", i),
            Console => "sinks.console".to_string(),
            Null => "sinks.null".to_string(),
            Wavefront => "sinks.wavefront".to_string(),
            NativeOut => "sinks.native".to_string(),
            Influx => "sinks.influxdb".to_string(),
            Prometheus => "sinks.prometheus".to_string(),
            Elastic => "sinks.elasticsearch".to_string(),
            Kafka => format!("sinks.kafka.k{}", i),
        }
    }
    fn port(self, i: usize) -> u16 {
        i as u16
            + match self {
                Statsd => 8125,
                Graphite => 2003,
                NativeIn => 1972,
                AvroIn => 2102,
                Wavefront => 2878,
                NativeOut => 2972,
                Influx => 8086,
                Prometheus => 9090,
                Elastic => 9200,
                _ => 0,
            }
    }
    fn settings(self, i: usize, dir: &str) -> String {
        match self {
            // more than nine: another stage on the same file
            Files => format!("path = \"{}/in{}\"\n", dir, i % 10),
            Programmable => "script = \"same.lua\"\n".to_string(),
            Delay => "tolerance = 1000\n".to_string(),
            FlushBoundary => "tolerance = 1\n".to_string(),
            JsonEncode | Internal | Null => String::new(),
            Console => "bin_width = 1\n".to_string(),
            Influx => "secure = false\nhost = \"127.0.0.1\"\n".to_string(),
            Elastic => "delivery_attempt_limit = 10\nport = 9200\n".to_string(),
            Kafka => format!("topic = \"t{}\"\nbrokers = \"b:1\"\n", i),
            NativeIn => format!("ip = \"127.0.0.1\"\nport = {}\n", self.port(i)),
            _ => format!("host = \"127.0.0.1\"\nport = {}\n", self.port(i)),
        }
    }
}

/// Stages (in the order of the file) and what each forwards to.
#[derive(Clone, Debug)]
struct Plan {
    stages: Vec<(Kind, usize)>,
    edges: Vec<(usize, usize)>,
    /// forwards to something that does not exist
    missing: Option<(usize, &'static str)>,
    /// further settings, of everything and of a stage
    top: String,
    more: Vec<(usize, String)>,
}

const MARKS: [&str; 4] = ["alfa", "bravo", "coda", "delta"];

impl Plan {
    fn new(stages: &[(Kind, usize)], edges: &[(usize, usize)]) -> Plan {
        Plan { stages: stages.to_vec(), edges: edges.to_vec(), missing: None, top: "flush-interval = 5\n".to_string(), more: vec![] }
    }
    fn text(&self, dir: &str) -> String {
        let mut s = format!(
            "data-directory = \"{}/data\"\nscripts-directory = \"{}\"\n{}\n",
            dir, dir, self.top
        );
        for (n, (kind, i)) in self.stages.iter().enumerate() {
            s += &format!("[{}]\n{}", kind.path(*i), kind.settings(*i, dir));
            let mut to: Vec<String> = self
                .edges
                .iter()
                .filter(|e| e.0 == n)
                .map(|e| format!("\"{}\"", self.stages[e.1].0.path(self.stages[e.1].1)))
                .collect();
            if let Some((from, name)) = self.missing {
                if from == n {
                    to.push(format!("\"{}\"", name));
                }
            }
            for m in self.more.iter().filter(|m| m.0 == n) {
                s += &m.1;
            }
            if !to.is_empty() {
                s += &format!("forwards = [{}]\n", to.join(", "));
            }
            s += "\n";
        }
        s
    }
    /// How many paths lead from one stage to another.
    fn paths(&self, from: usize, to: usize) -> usize {
        if from == to {
            return 1;
        }
        self.edges.iter().filter(|e| e.0 == from).map(|e| self.paths(e.1, to)).sum()
    }
    fn show(&self) -> String {
        let name = |i: usize| self.stages[i].0.path(self.stages[i].1);
        let mut v: Vec<String> =
            self.edges.iter().map(|e| format!("{} -> {}", name(e.0), name(e.1))).collect();
        for i in 0..self.stages.len() {
            if !self.edges.iter().any(|e| e.0 == i || e.1 == i) {
                v.push(format!("{} alone", name(i)));
            }
        }
        if let Some((from, to)) = self.missing {
            v.push(format!("{} -> {} (missing)", name(from), to));
        }
        v.join(", ") + &self.more.iter().map(|m| format!(", {} has {:?}", name(m.0), m.1)).collect::<String>()
    }
}

// ---- running it -------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum End {
    Returned,
    Panicked,
    Exit(i32),
    Never,
}

struct Report {
    end: End,
    run: sched::Run,
    stdout: String,
    /// what each sink's peer was given
    peers: BTreeMap<u16, String>,
    /// what was scraped
    page: String,
    panics: Vec<String>,
    /// ports that took connections
    served: Vec<u16>,
}

/// What the outside does.
#[derive(Clone)]
struct World {
    dir: String,
    plan: Plan,
    page: Arc<Mutex<String>>,
    served: Arc<Mutex<Vec<u16>>>,
}

const SECOND: u64 = 1_000_000_000;

impl World {
    /// The event with this mark enters at a source.
    fn feed(&self, stage: usize, mark: &str) {
        let (kind, i) = self.plan.stages[stage];
        let port = kind.port(i);
        match kind {
            Statsd => {
                raw::udp_to(port, format!("{}:1|c\n", mark).as_bytes());
            }
            Graphite => {
                let fd = raw::connect(port);
                raw::write(fd, format!("{} 1 {}\n", mark, cernan::time::now()).as_bytes());
                sched::sleep(SECOND / 100);
                raw::close(fd);
            }
            NativeIn => {
                let fd = raw::connect(port);
                let pt = c06::Pt {
                    name: mark,
                    samples: &[1.0],
                    persisted: None,
                    method: Some(c06::K::Sum),
                    meta: &[],
                    ms: cernan::time::now() * 1000,
                    bounds: &[],
                };
                let (p, _) = c06::payload(&[pt], &[]);
                raw::write(fd, &c06::frame(&p));
                sched::sleep(SECOND / 100);
                raw::close(fd);
            }
            // not by the mark, but a payload
            AvroIn => {
                let fd = raw::connect(port);
                raw::write(fd, &c08::plain());
                sched::sleep(SECOND / 100);
                raw::close(fd);
            }
            Files => {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new()
                    .append(true)
                    .create(true)
                    .open(format!("{}/in{}", self.dir, i))
                    .expect("ENGINE: file");
                let line = format!("<{}>\n", mark);
                assert!(f.write(line.as_bytes()).ok() == Some(line.len()), "ENGINE: write");
            }
            _ => panic!("ENGINE: cannot feed {:?}", kind),
        }
    }
    fn knock(&self) {
        for (kind, i) in &self.plan.stages {
            let port = kind.port(*i);
            if let Graphite | NativeIn | AvroIn | Prometheus = kind {
                let fd = raw::connect(port);
                if fd >= 0 {
                    self.served.lock().unwrap().push(port);
                    raw::close(fd);
                }
            }
        }
    }
    fn scrape(&self) {
        if let Some(mut c) = c19::Client::new(Prometheus.port(0)) {
            c.say(b"GET /metrics HTTP/1.1\r\nHost: h\r\n\r\n");
            if let Some(r) = c.hear() {
                self.page.lock().unwrap().push_str(&String::from_utf8_lossy(&r.body));
            }
        }
    }
}

/// Let the program run on this configuration while `world` acts; it is given
/// two virtual minutes once that is over.
fn execute<F>(o: &mut Oracle, plan: &Plan, world: F) -> Report
where
    F: FnOnce(World) + Send + 'static,
{
    start(o, plan, 0, false, world)
}

/// `strike`: the signal comes while the program starts, whenever a thread is
/// about to wait or to do input or output.
fn start<F>(o: &mut Oracle, plan: &Plan, devs: i32, strike: bool, world: F) -> Report
where
    F: FnOnce(World) + Send + 'static,
{
    let dir = Dir::new("prog");
    let d = dir.0.to_str().unwrap().to_string();
    std::fs::create_dir_all(format!("{}/data", d)).expect("ENGINE: data");
    std::fs::write(format!("{}/cernan.toml", d), plan.text(&d)).expect("ENGINE: configuration");
    std::fs::write(
        format!("{}/same.lua", d),
        "function process_metric(pyld)\nend\nfunction process_log(pyld)\nend\nfunction tick(pyld)\nend\n",
    )
    .expect("ENGINE: script");
    for (kind, i) in &plan.stages {
        if *kind == Files {
            std::fs::write(format!("{}/in{}", d, i % 10), "").expect("ENGINE: file");
        }
    }
    sched::vnet(true);
    sched::vclock(true);
    sched::args(&["cernan", "-C", &format!("{}/cernan.toml", d)]);
    let has = |k: Kind| plan.stages.iter().any(|s| s.0 == k);
    let mut plain = vec![];
    let mut sites = vec![];
    for k in &[Wavefront, NativeOut] {
        if has(*k) {
            plain.push((k.port(0), Peer::new(k.port(0))));
        }
    }
    for k in &[Influx, Elastic] {
        if has(*k) {
            let port = k.port(0);
            let site = web::Held(Rc::new(RefCell::new(web::Site::new(
                port,
                0,
                Box::new(move |r| ("taken".to_string(), web::Act::Say(answer(port, r)))),
            ))));
            sites.push((port, site));
        }
    }
    let out = web::Held(Rc::new(RefCell::new(Vec::<u8>::new())));
    {
        let (out, sites) = (out.clone(), sites.iter().map(|s| s.1.clone()).collect::<Vec<_>>());
        let mut armed = strike;
        sched::set_io(Some(Box::new(move |io| {
            if armed && sched::blocked(libc::SIGTERM) && sched::decide(2) == 1 {
                armed = false;
                sched::signal(libc::SIGTERM);
            }
            if unsafe { sched::mc_vnow() } > SECOND / 20 {
                armed = false;
            }
            if io.op == sched::OP_WRITE && io.fd == 1 {
                out.0.borrow_mut().extend_from_slice(io.data);
                return Answer::Ret(io.len as isize);
            }
            for s in &sites {
                s.0.borrow_mut().io(io);
            }
            Answer::Go
        })));
        sched::tell_blocks();
    }
    let end = Arc::new(Mutex::new(End::Never));
    let e = end.clone();
    let w = World { dir: d, plan: plan.clone(), page: Arc::default(), served: Arc::default() };
    let w2 = w.clone();
    let run = sched::run(
        o,
        sched::Opts { max_steps: 40_000, devs, early: false },
        vec![
            Box::new(move || {
                let r = std::panic::catch_unwind(|| cernan_prog::mc_entry());
                *e.lock().unwrap() = if r.is_ok() { End::Returned } else { End::Panicked };
                sched::abort();
            }),
            Box::new(move || {
                sched::sleep(SECOND / 5);
                world(w2);
                sched::sleep(120 * SECOND);
                sched::abort();
            }),
        ],
    );
    sched::set_io(None);
    let mut peers = BTreeMap::new();
    for (port, p) in plain.iter_mut() {
        p.pump();
        let all: Vec<u8> = p.conns.iter().flat_map(|c| c.1.clone()).collect();
        peers.insert(*port, String::from_utf8_lossy(&all).into_owned());
    }
    for (port, s) in &sites {
        let all: Vec<String> =
            s.0.borrow().requests.iter().map(|r| String::from_utf8_lossy(&r.body).into_owned()).collect();
        peers.insert(*port, all.join("\n"));
    }
    let end = match sched::exit_code() {
        Some(n) => End::Exit(n),
        None => end.lock().unwrap().clone(),
    };
    let stdout = String::from_utf8_lossy(&out.0.borrow()).into_owned();
    let page = w.page.lock().unwrap().clone();
    let served = w.served.lock().unwrap().clone();
    Report { end, run, stdout, peers, page, panics: take_panics(), served }
}

/// Everything is accepted.
fn answer(port: u16, r: &web::Request) -> Vec<u8> {
    if port != Elastic.port(0) {
        return b"HTTP/1.1 204 No Content\r\n\r\n".to_vec();
    }
    let text = String::from_utf8_lossy(&r.body).into_owned();
    let items: Vec<serde_json::Value> = text
        .lines()
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter_map(|v| v["index"]["_id"].as_str().map(|s| s.to_string()))
        .map(|id| {
            json!({"index": {"_index": "i", "_type": "t", "_id": id, "_version": 1, "created": true, "status": 201,
                             "_shards": {"total": 2, "successful": 1, "failed": 0}}})
        })
        .collect();
    let v = json!({"took": 3, "errors": false, "items": items});
    web::reply(200, "Content-Type: application/json\r\n", v.to_string().as_bytes())
}

impl Report {
    /// How often the sink had the event with this mark.
    fn count(&self, sink: Kind, mark: &str) -> Option<f64> {
        let peer = || self.peers.get(&sink.port(0)).cloned().unwrap_or_default();
        Some(match sink {
            Console => {
                let lines = self.stdout.matches(&format!("<{}>", mark)).count() as f64;
                let head = format!("    {}(", mark);
                let points: f64 = self
                    .stdout
                    .lines()
                    .filter(|l| l.starts_with(&head))
                    .filter_map(|l| l.rsplit(' ').next().and_then(|v| v.parse::<f64>().ok()))
                    .sum();
                lines + points
            }
            Wavefront => peer()
                .lines()
                .filter(|l| l.split(' ').next() == Some(mark))
                .filter_map(|l| l.split(' ').nth(1).and_then(|v| v.parse::<f64>().ok()))
                .sum(),
            Influx => peer()
                .lines()
                .filter(|l| l.split(|c| c == ' ' || c == ',').next() == Some(mark))
                .filter_map(|l| l.split("value=").nth(1)?.split(|c| c == ' ' || c == 'i').next()?.parse::<f64>().ok())
                .sum(),
            NativeOut | Elastic => peer().matches(mark).count() as f64,
            Prometheus => self
                .page
                .lines()
                .filter(|l| l.split(|c| c == ' ' || c == '{').next() == Some(mark))
                .filter_map(|l| l.split(' ').nth(1).and_then(|v| v.parse::<f64>().ok()))
                .sum(),
            _ => return None,
        })
    }
    fn text(&self) -> String {
        format!("stdout {:?}, peers {:?}, page {:?}", self.stdout, self.peers, self.page)
    }
    /// It ended, as it should, after SIGTERM.
    fn ended(&self, plan: &Plan) -> Res<()> {
        if let Some(p) = self.panics.first() {
            return fail("panic", format!("{}: a thread panicked: {}", plan.show(), p));
        }
        if self.run.outcome == sched::Outcome::TooManyThreads {
            return Err(Stop::Engine("too many threads".to_string()));
        }
        ensure!(
            self.end == End::Returned || self.end == End::Exit(0),
            "no exit",
            "{}: two minutes after SIGTERM the program: {:?} ({:?} {})",
            plan.show(),
            self.end,
            self.run.outcome,
            self.run.left
        );
        Ok(())
    }
}

// ---- every graph --------------------------------------------------------------------

/// Which of these are edges?
fn subset(o: &mut Oracle, all: &[(usize, usize)], some: bool) -> Vec<(usize, usize)> {
    let n = (1 << all.len()) - some as usize;
    let mask = o.choose(n) + some as usize;
    (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect()
}

fn topologies(o: &mut Oracle) -> Res<()> {
    let pairs = [(Programmable, Delay), (Delay, FlushBoundary), (FlushBoundary, Programmable)];
    let n = o.pick(2, 3);
    let (a, b) = pairs[o.choose(n)];
    // 0, 1: sources; 2, 3: filters; 4, 5: sinks
    let stages = [(Statsd, 0), (Statsd, 1), (a, 0), (b, 1), (Console, 0), (Wavefront, 0)];
    let mut edges = subset(o, &[(0, 2), (0, 3), (0, 4), (0, 5)], true);
    edges.extend(subset(o, &[(1, 2), (1, 3), (1, 4), (1, 5)], true));
    edges.extend(subset(o, &[(2, 3), (2, 4), (2, 5)], false));
    edges.extend(subset(o, &[(3, 4), (3, 5)], false));
    let plan = Plan::new(&stages, &edges);
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, |w| {
            w.feed(0, MARKS[0]);
            w.feed(1, MARKS[1]);
            sched::sleep(SECOND / 5);
            sched::signal(libc::SIGTERM);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        for s in 0..2 {
            for k in 4..6 {
                let want = plan.paths(s, k) as f64;
                let got = r.count(stages[k].0, MARKS[s]).unwrap();
                ensure!(
                    got == want,
                    "routing",
                    "{}: {} had the event from {} {} times, not {}: {}",
                    plan.show(),
                    stages[k].0.path(0),
                    stages[s].0.path(s),
                    got,
                    want,
                    r.text()
                );
            }
        }
        Ok(())
    })
}

// ---- every kind ----------------------------------------------------------------------

fn each_kind(o: &mut Oracle) -> Res<()> {
    let sources = [Statsd, Graphite, NativeIn, Files];
    let filters = [None, Some(Programmable), Some(Delay), Some(JsonEncode), Some(FlushBoundary)];
    let sinks = [Console, Null, Wavefront, NativeOut, Influx, Prometheus, Elastic];
    let s = *o.choose_from(&sources);
    let f = *o.choose_from(&filters);
    let k = *o.choose_from(&sinks);
    // flushed by the timer before the signal, or by the shutdown
    let late = o.choose_bool();
    let log = s == Files;
    let takes = match k {
        Console | NativeOut => true,
        Elastic => log,
        _ => !log,
    };
    let encoded = log && f == Some(JsonEncode);
    let plan = match f {
        Some(f) => Plan::new(&[(s, 0), (f, 0), (k, 0)], &[(0, 1), (1, 2)]),
        None => Plan::new(&[(s, 0), (k, 0)], &[(0, 1)]),
    };
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, move |w| {
            w.feed(0, MARKS[0]);
            sched::sleep(2 * SECOND);
            w.scrape();
            if late {
                sched::sleep(20 * SECOND);
            }
            w.knock();
            sched::signal(libc::SIGTERM);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        if let Some(got) = r.count(k, MARKS[0]) {
            let want = (takes && !encoded) as usize as f64;
            ensure!(
                got == want,
                "routing",
                "{}: the sink had the event {} times, not {}: {}",
                plan.show(),
                got,
                want,
                r.text()
            );
        }
        Ok(())
    })
}

// ---- two of a kind ---------------------------------------------------------------------

fn twins(o: &mut Oracle) -> Res<()> {
    let filters = [Programmable, Delay, FlushBoundary];
    let of_sources = o.choose_bool();
    let plan = if of_sources {
        let two = *o.choose_from(&[(Statsd, 1), (Graphite, 1), (NativeIn, 1), (Files, 1), (Files, 10)]);
        let mut edges = subset(o, &[(0, 2), (0, 3), (0, 4)], true);
        edges.extend(subset(o, &[(1, 2), (1, 3), (1, 4)], true));
        edges.push((2, 3));
        Plan::new(&[(two.0, 0), (two.0, two.1), (Delay, 0), (Console, 0), (NativeOut, 0)], &edges)
    } else {
        let f = *o.choose_from(&filters);
        let mut edges = subset(o, &[(0, 2), (0, 3), (0, 4)], true);
        edges.extend(subset(o, &[(2, 3), (2, 4)], false));
        edges.extend(subset(o, &[(3, 4), (3, 5)], false));
        edges.extend(&[(1, 5), (2, 5)]);
        Plan::new(&[(Statsd, 0), (Graphite, 0), (f, 0), (f, 1), (Console, 0), (NativeOut, 0)], &edges)
    };
    o.begin()?;
    isolated(o, |o| {
        let same = plan.stages[1] == (Files, 10);
        let r = execute(o, &plan, move |w| {
            w.feed(0, MARKS[0]);
            if !same {
                w.feed(1, MARKS[1]);
            }
            sched::sleep(2 * SECOND);
            w.knock();
            sched::signal(libc::SIGTERM);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        for s in 0..2 {
            for (k, (kind, _)) in plan.stages.iter().enumerate() {
                let got = match r.count(*kind, MARKS[s]) {
                    Some(n) => n,
                    None => continue,
                };
                let want = match (same, s) {
                    (true, 0) => plan.paths(0, k) + plan.paths(1, k),
                    (true, _) => 0,
                    // the last value counts
                    _ if plan.stages[s].0 == Graphite && *kind == Console => plan.paths(s, k).min(1),
                    _ => plan.paths(s, k),
                } as f64;
                ensure!(
                    got == want,
                    "routing",
                    "{}: {:?} had the event fed to {} {} times, not {}: {}",
                    plan.show(),
                    kind,
                    plan.stages[s].0.path(plan.stages[s].1),
                    got,
                    want,
                    r.text()
                );
            }
        }
        Ok(())
    })
}

// ---- raw events -------------------------------------------------------------------------

fn raw_events(o: &mut Oracle) -> Res<()> {
    let kinds = [Programmable, Delay, JsonEncode, FlushBoundary];
    let a = o.choose(4);
    let b = if o.thorough() { o.choose(4) } else { (a + 1) % 4 };
    let (a, b) = (kinds[a], kinds[b]);
    // 0, 1: sources; 2, 3: filters; 4, 5: sinks
    let mut edges = subset(o, &[(0, 2), (0, 3), (0, 4), (0, 5)], true);
    edges.extend(subset(o, &[(2, 3), (2, 4)], false));
    edges.extend(subset(o, &[(3, 4), (3, 5)], false));
    edges.push((1, if o.choose_bool() { 4 } else { 2 }));
    let plan = Plan::new(&[(AvroIn, 0), (AvroIn, 1), (a, 0), (b, 1), (Kafka, 0), (Kafka, 1)], &edges);
    o.begin()?;
    isolated(o, |o| {
        let kept = web::Held(Rc::new(RefCell::new(vec![])));
        kafka::set(Some(Box::new(Keep(kept.clone()))));
        let r = execute(o, &plan, move |w| {
            w.feed(0, "");
            w.feed(1, "");
            sched::sleep(SECOND / 5);
            w.knock();
            sched::signal(libc::SIGTERM);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        for k in 0..2 {
            let got = kept.0.borrow().iter().filter(|r| r.topic == format!("t{}", k)).count();
            let want = plan.paths(0, 4 + k) + plan.paths(1, 4 + k);
            ensure!(got == want, "routing", "{}: topic {} had {} records, not {}", plan.show(), k, got, want);
        }
        Ok(())
    })
}

/// Kafka's brokers, who take everything.
struct Keep(web::Held<Vec<kafka::Record>>);
impl kafka::Broker for Keep {
    fn offer(&mut self, r: &kafka::Record) -> libc::c_int {
        (self.0).0.borrow_mut().push(r.clone());
        0
    }
    fn report(&mut self, held: &[kafka::Record]) -> Vec<(usize, libc::c_int)> {
        (0..held.len()).map(|i| (i, 0)).collect()
    }
}

// ---- configurations that cannot be ------------------------------------------------------

fn refused(o: &mut Oracle) -> Res<()> {
    let kinds = [
        Statsd, Graphite, NativeIn, Files, AvroIn, Internal, Programmable, Delay, JsonEncode, FlushBoundary,
    ];
    let from = *o.choose_from(&kinds);
    let names = ["sinks.nowhere", "sinks.wavefront", "filters.delay.other", "console", ""];
    let to = *o.choose_from(&names);
    let with = o.choose_bool();
    let mut plan = Plan::new(&[(Graphite, 5), (from, 0), (Console, 0)], &[(0, 2)]);
    if with {
        plan.edges.push((1, 2));
    }
    plan.missing = Some((1, to));
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, |w| {
            w.knock();
            sched::signal(libc::SIGTERM);
        });
        let refused = match r.end {
            End::Exit(n) => n != 0,
            End::Panicked => true,
            _ => false,
        };
        o.note(|| format!("{}: {:?}", plan.show(), r.end));
        ensure!(refused, "accepted", "{}: the program: {:?}, {}", plan.show(), r.end, r.text());
        ensure!(r.served.is_empty(), "served", "{}: ports {:?} were served", plan.show(), r.served);
        Ok(())
    })
}

// ---- what each stage is told ----------------------------------------------------------------

fn settings(o: &mut Oracle) -> Res<()> {
    let sinks = [Console, Wavefront, NativeOut, Influx, Elastic];
    let k = *o.choose_from(&sinks);
    let s = if k == Elastic || k == Console { Files } else { Statsd };
    // the interval (in tenths of a second) of everything, and the sink's own
    let intervals: [(&str, &str, u64); 5] = [
        ("flush-interval = 2\n", "", 20),
        ("flush-interval = 60\n", "flush_interval = 2\n", 20),
        ("flush-interval = 1\n", "flush_interval = 3\n", 30),
        ("flush-interval = 2.5\n", "", 25),
        ("", "flush_interval = 0.5\n", 5),
    ];
    let (top, own, at) = *o.choose_from(&intervals);
    let tagged = o.choose_bool();
    let after = o.choose_bool();
    let mut plan = Plan::new(&[(s, 0), (k, 0)], &[(0, 1)]);
    plan.top = top.to_string();
    if tagged {
        plan.top += "[tags]\nhue = \"teal\"\n";
    }
    plan.more.push((1, own.to_string()));
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, move |w| {
            w.feed(0, MARKS[0]);
            // the program has been up for two tenths of a second
            sched::sleep((at - 3) * (SECOND / 10));
            if after {
                sched::sleep(SECOND / 5);
            }
            sched::abort();
        });
        o.note(|| format!("{}{}: {:?} after {} steps", plan.top, plan.show(), r.end, r.run.steps));
        if let Some(p) = r.panics.first() {
            return fail("panic", format!("{}: a thread panicked: {}", plan.show(), p));
        }
        let got = r.count(k, MARKS[0]).unwrap();
        ensure!(
            got == after as usize as f64,
            "interval",
            "{}{}: {} the interval was over the sink had written the event {} times: {}",
            plan.top,
            plan.show(),
            if after { "after" } else { "before" },
            got,
            r.text()
        );
        if after {
            let all = r.text();
            ensure!(
                (all.contains("hue") && all.contains("teal")) == tagged,
                "tags",
                "{}{}: {}",
                plan.top,
                plan.show(),
                all
            );
        }
        Ok(())
    })
}

/// Sources that are not enabled take no part.
fn disabled(o: &mut Oracle) -> Res<()> {
    let s = *o.choose_from(&[Statsd, Graphite, NativeIn, AvroIn]);
    let says = *o.choose_from(&["enabled = false\n", "enabled = true\n", ""]);
    let shared = o.choose_bool();
    let on = says != "enabled = false\n";
    let mut plan = Plan::new(&[(s, 0), (Statsd, 1), (Console, 0), (Wavefront, 0)], &[(0, 2), (1, 3)]);
    if shared {
        plan.edges.push((0, 3));
    }
    plan.more.push((0, says.to_string()));
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, move |w| {
            if s != AvroIn {
                w.feed(0, MARKS[0]);
            }
            w.feed(1, MARKS[1]);
            w.knock();
            sched::sleep(SECOND / 5);
            sched::signal(libc::SIGTERM);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        if s != AvroIn {
            let a = r.count(Console, MARKS[0]).unwrap();
            ensure!(a == on as usize as f64, "routing", "{}: {} events: {}", plan.show(), a, r.text());
            let b = r.count(Wavefront, MARKS[0]).unwrap();
            ensure!(b == (on && shared) as usize as f64, "routing", "{}: {} events: {}", plan.show(), b, r.text());
        }
        if s != Statsd {
            ensure!(
                r.served.contains(&s.port(0)) == on,
                "served",
                "{}: of its ports these were served: {:?}",
                plan.show(),
                r.served
            );
        }
        let c = r.count(Wavefront, MARKS[1]).unwrap();
        ensure!(c == 1.0, "routing", "{}: {} events: {}", plan.show(), c, r.text());
        Ok(())
    })
}

/// The signal while the program starts.
fn start_up(o: &mut Oracle) -> Res<()> {
    let plans = [
        Plan::new(&[(Statsd, 0), (Console, 0)], &[(0, 1)]),
        Plan::new(
            &[(Graphite, 0), (NativeIn, 0), (Internal, 0), (Delay, 0), (JsonEncode, 0), (Null, 0), (Wavefront, 0)],
            &[(0, 3), (1, 4), (2, 5), (3, 6), (4, 6), (3, 4)],
        ),
        Plan::new(&[(Files, 0), (AvroIn, 0), (FlushBoundary, 0), (Prometheus, 0)], &[(0, 2), (1, 2), (2, 3)]),
    ];
    let plan = o.choose_from(&plans).clone();
    let devs = if plan.stages.len() == 2 { 1 } else { o.pick(0, 1) };
    o.begin()?;
    isolated(o, |o| {
        let r = start(o, &plan, devs, true, |_| sched::signal(libc::SIGTERM));
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        // killed before it had blocked the signal: it had not accepted anything
        if r.end == End::Exit(128 + libc::SIGTERM) && r.panics.is_empty() {
            return Ok(());
        }
        r.ended(&plan)
    })
}

// ---- the signal at any moment ---------------------------------------------------------------

fn schedules(o: &mut Oracle) -> Res<()> {
    let shape = o.choose(3);
    let plan = match shape {
        // a chain, a diamond, two sources in one sink
        0 => Plan::new(&[(Statsd, 0), (Delay, 0), (Console, 0)], &[(0, 1), (1, 2)]),
        1 => Plan::new(
            &[(Statsd, 0), (Delay, 0), (Programmable, 1), (Console, 0)],
            &[(0, 1), (0, 2), (1, 3), (2, 3)],
        ),
        _ => Plan::new(&[(Statsd, 0), (Graphite, 0), (Console, 0), (NativeOut, 0)], &[(0, 2), (0, 3), (1, 2)]),
    };
    let devs = o.pick(1, 2);
    o.begin()?;
    isolated(o, |o| {
        let r = execute(o, &plan, move |w| {
            w.feed(0, MARKS[0]);
            sched::sleep(SECOND / 5);
            sched::deviate(devs);
            sched::signal(libc::SIGTERM);
            w.feed(0, MARKS[1]);
            w.feed(0, MARKS[2]);
        });
        o.note(|| format!("{}: {:?} after {} steps", plan.show(), r.end, r.run.steps));
        r.ended(&plan)?;
        let mut seen = vec![];
        for (k, (kind, _)) in plan.stages.iter().enumerate() {
            let paths = plan.paths(0, k) as f64;
            if let Some(n) = r.count(*kind, MARKS[0]) {
                ensure!(n == paths, "routing", "{}: {:?} had the event {} times, not {}: {}", plan.show(), kind, n, paths, r.text());
                let m = r.count(*kind, MARKS[1]).unwrap();
                ensure!(m == 0.0 || m == paths, "torn", "{}: {:?} had the last event {} times of {}", plan.show(), kind, m, paths);
                let l = r.count(*kind, MARKS[2]).unwrap();
                ensure!(l == 0.0 || l == m, "torn", "{}: {:?} had the last event {} times of {}", plan.show(), kind, l, paths);
                seen.push((m > 0.0, l > 0.0));
            }
        }
        ensure!(
            seen.iter().all(|s| *s == seen[0]),
            "torn",
            "{}: the last event came to some sinks only: {}",
            plan.show(),
            r.text()
        );
        Ok(())
    })
}
