//! C29: a configuration means what it says.
use super::util::*;
use crate::engine::*;
use cernan::config::{parse_config, Args};
use cernan::metric::TagMap;
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C29",
        scenarios: |_| {
            vec![
                Scenario { name: "options", run: options },
                Scenario { name: "company", run: company },
                Scenario { name: "everything", run: everything },
                Scenario { name: "globals", run: globals },
                Scenario { name: "intervals", run: intervals },
                Scenario { name: "mappings", run: mappings },
            ]
        },
        rule: "every configuration out of a grammar of stages, their options (each left out or given \
               one of two values) and the global settings; states = (configuration)",
        assumptions: &["configurations are well-formed TOML with values of the types the options take"],
        level: "model_checking",
        hang_s: 60,
    }
}

/// What there is to be told about one stage, or about the program as a whole.
type Told = BTreeMap<String, String>;

/// An option: its name, what it is when left out, and the values it is given here, as written and as
/// understood.
struct Opt {
    key: &'static str,
    unset: &'static str,
    values: [(&'static str, &'static str); 2],
}

/// A kind of stage.
struct Kind {
    section: &'static str,
    /// are there many, each with a name?
    named: bool,
    /// settings it can't do without, as written and as understood
    must: &'static str,
    must_is: &'static [(&'static str, &'static str)],
    opts: &'static [Opt],
    /// does it have a flush interval?
    flush: bool,
    /// does it take the tags of all?
    tags: bool,
    forwards: bool,
    /// can it be switched off?
    enabled: bool,
}

const fn opt(key: &'static str, unset: &'static str, a: (&'static str, &'static str), b: (&'static str, &'static str)) -> Opt {
    Opt { key, unset, values: [a, b] }
}

const KINDS: [Kind; 19] = [
    Kind {
        section: "sinks.null",
        named: false,
        must: "",
        must_is: &[],
        opts: &[],
        flush: false,
        tags: false,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.console",
        named: false,
        must: "",
        must_is: &[],
        opts: &[opt("bin_width", "1", ("9", "9"), ("60", "60"))],
        flush: true,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.wavefront",
        named: false,
        must: "",
        must_is: &[],
        opts: &[
            opt("bin_width", "1", ("9", "9"), ("600", "600")),
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"\"", "")),
            opt("port", "2878", ("1024", "1024"), ("65535", "65535")),
            opt("age_threshold", "-", ("0", "0"), ("86400", "86400")),
            opt(
                "percentiles",
                "25=0.25 2=0.02 50=0.5 75=0.75 90=0.9 91=0.91 95=0.95 98=0.98 999=0.999 99=0.99 9=0.09 max=1 min=0",
                ("{ p5 = 0.05, max = 1.0 }", "max=1 p5=0.05"),
                ("{}", ""),
            ),
            opt(
                "padding",
                "",
                ("{ set = true, sum = false, histogram = true }", "histogram set"),
                ("{ summarize = true, sum = true }", "sum summarize"),
            ),
        ],
        flush: true,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.influxdb",
        named: false,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "8086", ("1024", "1024"), ("65535", "65535")),
            opt("db", "cernan", ("\"d\"", "d"), ("\"a b\"", "a b")),
            opt("secure", "true", ("false", "false"), ("true", "true")),
        ],
        flush: true,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.prometheus",
        named: false,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "8086", ("1024", "1024"), ("65535", "65535")),
            opt("capacity_in_seconds", "600", ("1", "1"), ("100000", "100000")),
            opt("age_threshold", "-", ("0", "0"), ("86400", "86400")),
        ],
        flush: false,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.elasticsearch",
        named: false,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "127.0.0.1", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "9200", ("1024", "1024"), ("65535", "65535")),
            opt("index-prefix", "-", ("\"logs\"", "logs"), ("\"\"", "")),
            opt("index_type", "payload", ("\"t\"", "t"), ("\"u\"", "u")),
            opt("delivery_attempt_limit", "10", ("0", "0"), ("255", "255")),
            opt("secure", "false", ("false", "false"), ("true", "true")),
        ],
        flush: true,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.native",
        named: false,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "1972", ("1024", "1024"), ("65535", "65535")),
        ],
        flush: true,
        tags: true,
        forwards: false,
        enabled: false,
    },
    Kind {
        section: "sinks.kafka",
        named: true,
        must: "topic = \"t\"\nbrokers = \"a:1,b:2\"\n",
        must_is: &[("topic", "t"), ("brokers", "a:1,b:2")],
        opts: &[
            opt("max_message_bytes", "10485760", ("1", "1"), ("20000000", "20000000")),
            opt(
                "librdkafka",
                "-",
                (
                    "{ \"a.b\" = \"x\", \"c\" = 7, \"d\" = true, \"e\" = 0.5 }",
                    "a.b=x c=7 d=true e=0.5",
                ),
                ("{}", ""),
            ),
        ],
        flush: true,
        tags: false,
        forwards: false,
        enabled: true,
    },
    Kind {
        section: "filters.delay",
        named: true,
        must: "tolerance = 60\n",
        must_is: &[("tolerance", "60")],
        opts: &[],
        flush: false,
        tags: false,
        forwards: true,
        enabled: false,
    },
    Kind {
        section: "filters.flush_boundary",
        named: true,
        must: "tolerance = 3\n",
        must_is: &[("tolerance", "3")],
        opts: &[],
        flush: false,
        tags: false,
        forwards: true,
        enabled: false,
    },
    Kind {
        section: "filters.json_encode",
        named: true,
        must: "",
        must_is: &[],
        opts: &[opt("parse_line", "false", ("false", "false"), ("true", "true"))],
        flush: false,
        tags: true,
        forwards: true,
        enabled: false,
    },
    Kind {
        section: "filters.programmable",
        named: true,
        must: "script = \"s.lua\"\n",
        must_is: &[],
        opts: &[],
        flush: false,
        tags: true,
        forwards: true,
        enabled: false,
    },
    Kind {
        section: "sources.files",
        named: true,
        must: "path = \"/x/*.log\"\n",
        must_is: &[("path", "/x/*.log")],
        opts: &[opt("max_read_bytes", "2048", ("1", "1"), ("1000000", "1000000"))],
        flush: false,
        tags: false,
        forwards: true,
        enabled: false,
    },
    Kind {
        section: "sources.statsd",
        named: true,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "8125", ("1024", "1024"), ("65535", "65535")),
            opt("summarize_error_bound", "0.01", ("0.5", "0.5"), ("0.0001", "0.0001")),
            opt(
                "mapping",
                "",
                ("{ m = { mask = \"foo.*\", bounds = [1.0, 2.5] } }", "foo.*=[1.0, 2.5]"),
                (
                    "{ m = { mask = \"^a$\", bounds = [] }, n = { bounds = [7.0], mask = \"b|c\" } }",
                    "^a$=[] b|c=[7.0]",
                ),
            ),
        ],
        flush: false,
        tags: false,
        forwards: true,
        enabled: true,
    },
    Kind {
        section: "sources.graphite",
        named: true,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "2003", ("1024", "1024"), ("65535", "65535")),
        ],
        flush: false,
        tags: false,
        forwards: true,
        enabled: true,
    },
    Kind {
        section: "sources.avro",
        named: true,
        must: "",
        must_is: &[],
        opts: &[
            opt("host", "localhost", ("\"a.example\"", "a.example"), ("\"::1\"", "::1")),
            opt("port", "2002", ("1024", "1024"), ("65535", "65535")),
        ],
        flush: false,
        tags: false,
        forwards: true,
        enabled: true,
    },
    Kind {
        section: "sources.native",
        named: true,
        must: "",
        must_is: &[],
        opts: &[
            opt("ip", "0.0.0.0", ("\"10.0.0.1\"", "10.0.0.1"), ("\"::1\"", "::1")),
            opt("port", "1972", ("1024", "1024"), ("65535", "65535")),
        ],
        flush: false,
        tags: false,
        forwards: true,
        enabled: true,
    },
    Kind {
        section: "sources.internal",
        named: false,
        must: "",
        must_is: &[],
        opts: &[],
        flush: false,
        tags: false,
        forwards: true,
        enabled: false,
    },
    // the section of a kind cernan does not know is none of its business
    Kind {
        section: "sources.sundial",
        named: true,
        must: "",
        must_is: &[],
        opts: &[],
        flush: false,
        tags: false,
        forwards: false,
        enabled: false,
    },
];

// ---- what the parser makes of a configuration ------------------------------------------------

fn told(pairs: &[(&str, String)]) -> Told {
    pairs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

fn tags_of(m: &TagMap) -> String {
    let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    v.sort();
    v.join(" ")
}

fn maybe<T: ToString>(x: &Option<T>) -> String {
    x.as_ref().map_or("-".to_string(), |x| x.to_string())
}

fn all_of(a: &Args) -> BTreeMap<String, Told> {
    let mut all: BTreeMap<String, Told> = BTreeMap::new();
    let mut put = |path: String, pairs: &[(&str, String)]| {
        let twice = all.insert(path.clone(), told(pairs)).is_some();
        assert!(!twice, "ENGINE: {} twice", path);
    };
    put(
        "".to_string(),
        &[
            ("max-hopper-in-memory-bytes", a.max_hopper_in_memory_bytes.to_string()),
            ("max-hopper-queue-bytes", a.max_hopper_queue_bytes.to_string()),
            ("max-hopper-queue-files", a.max_hopper_queue_files.to_string()),
            ("data-directory", a.data_directory.display().to_string()),
            ("scripts-directory", a.scripts_directory.display().to_string()),
            ("flush_interval", a.flush_interval.to_string()),
        ],
    );
    if let Some(c) = &a.null {
        put(c.config_path.clone(), &[]);
    }
    if let Some(c) = &a.console {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("bin_width", c.bin_width.to_string()),
                ("flush_interval", c.flush_interval.to_string()),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    if let Some(c) = &a.wavefront {
        let mut ps: Vec<String> = c.percentiles.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        ps.sort();
        let p = c.pad_control;
        let pads: Vec<&str> =
            [("histogram", p.histogram), ("set", p.set), ("sum", p.sum), ("summarize", p.summarize)]
                .iter()
                .filter(|x| x.1)
                .map(|x| x.0)
                .collect();
        put(
            c.config_path.clone().unwrap(),
            &[
                ("bin_width", c.bin_width.to_string()),
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("age_threshold", maybe(&c.age_threshold)),
                ("percentiles", ps.join(" ")),
                ("padding", pads.join(" ")),
                ("flush_interval", c.flush_interval.to_string()),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    if let Some(c) = &a.influxdb {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("db", c.db.clone()),
                ("secure", c.secure.to_string()),
                ("flush_interval", c.flush_interval.to_string()),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    if let Some(c) = &a.prometheus {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("capacity_in_seconds", c.capacity_in_seconds.to_string()),
                ("age_threshold", maybe(&c.age_threshold)),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    if let Some(c) = &a.elasticsearch {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("index-prefix", maybe(&c.index_prefix)),
                ("index_type", c.index_type.clone()),
                ("delivery_attempt_limit", c.delivery_attempt_limit.to_string()),
                ("secure", c.secure.to_string()),
                ("flush_interval", c.flush_interval.to_string()),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    if let Some(c) = &a.native_sink_config {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("flush_interval", c.flush_interval.to_string()),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    for c in a.kafkas.iter().flatten() {
        let table = c.rdkafka_config.as_ref().map(|m| {
            let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            v.sort();
            v.join(" ")
        });
        put(
            c.config_path.clone().unwrap(),
            &[
                ("topic", c.topic_name.clone().unwrap()),
                ("brokers", c.brokers.clone().unwrap()),
                ("max_message_bytes", c.max_message_bytes.to_string()),
                ("librdkafka", maybe(&table)),
                ("flush_interval", c.flush_interval.to_string()),
            ],
        );
    }
    let fwd = |v: &Vec<String>| v.join(" ");
    for (p, c) in a.delay_filters.iter().flatten() {
        assert!(c.config_path.as_ref() == Some(p), "{} calls itself {:?}", p, c.config_path);
        put(p.clone(), &[("tolerance", c.tolerance.to_string()), ("forwards", fwd(&c.forwards))]);
    }
    for (p, c) in a.flush_boundary_filters.iter().flatten() {
        assert!(c.config_path.as_ref() == Some(p), "{} calls itself {:?}", p, c.config_path);
        put(p.clone(), &[("tolerance", c.tolerance.to_string()), ("forwards", fwd(&c.forwards))]);
    }
    for (p, c) in a.json_encode_filters.iter().flatten() {
        assert!(c.config_path.as_ref() == Some(p), "{} calls itself {:?}", p, c.config_path);
        put(
            p.clone(),
            &[
                ("parse_line", c.parse_line.to_string()),
                ("forwards", fwd(&c.forwards)),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    for (p, c) in a.programmable_filters.iter().flatten() {
        assert!(c.config_path.as_ref() == Some(p), "{} calls itself {:?}", p, c.config_path);
        put(
            p.clone(),
            &[
                ("script", maybe(&c.script.as_ref().map(|p| p.display()))),
                ("scripts", maybe(&c.scripts_directory.as_ref().map(|p| p.display()))),
                ("forwards", fwd(&c.forwards)),
                ("tags", tags_of(&c.tags)),
            ],
        );
    }
    for c in a.files.iter().flatten() {
        put(
            c.config_path.clone().unwrap(),
            &[
                ("path", maybe(&c.path.as_ref().map(|p| p.display()))),
                ("max_read_bytes", c.max_read_bytes.to_string()),
                ("forwards", fwd(&c.forwards)),
            ],
        );
    }
    for (p, c) in a.statsds.iter().flatten() {
        let mut masks: Vec<String> =
            c.parse_config.histogram_masks.iter().map(|(m, b)| format!("{}={:?}", m.as_str(), b)).collect();
        masks.sort();
        put(
            p.clone(),
            &[
                ("host", c.host.clone()),
                ("port", c.port.to_string()),
                ("summarize_error_bound", c.parse_config.summarize_error_bound.to_string()),
                ("mapping", masks.join(" ")),
                ("forwards", fwd(&c.forwards)),
            ],
        );
    }
    for (p, c) in a.graphites.iter().flatten() {
        put(
            p.clone(),
            &[("host", c.host.clone()), ("port", c.port.to_string()), ("forwards", fwd(&c.forwards))],
        );
    }
    for (p, c) in a.avros.iter().flatten() {
        put(
            p.clone(),
            &[("host", c.host.clone()), ("port", c.port.to_string()), ("forwards", fwd(&c.forwards))],
        );
    }
    for (p, c) in a.native_server_config.iter().flatten() {
        put(
            p.clone(),
            &[("ip", c.ip.clone()), ("port", c.port.to_string()), ("forwards", fwd(&c.forwards))],
        );
    }
    put(
        a.internal.config_path.clone().unwrap(),
        &[("forwards", fwd(&a.internal.forwards))],
    );
    all
}

// ---- what it ought to be ----------------------------------------------------------------------

/// A stage of a configuration.
struct Stage {
    kind: usize,
    name: &'static str,
    /// per option: left out, or one of its values
    opts: Vec<usize>,
    /// its own flush interval
    every: Option<(&'static str, u64)>,
    enabled: Option<bool>,
    forwards: Vec<String>,
}

impl Stage {
    fn plain(kind: usize, name: &'static str) -> Stage {
        let k = &KINDS[kind];
        Stage {
            kind,
            name,
            opts: vec![0; k.opts.len()],
            every: None,
            enabled: None,
            forwards: if k.forwards { vec!["sinks.null".to_string()] } else { vec![] },
        }
    }
    fn kind(&self) -> &'static Kind {
        &KINDS[self.kind]
    }
    fn path(&self) -> String {
        if self.kind().named {
            format!("{}.{}", self.kind().section, self.name)
        } else {
            self.kind().section.to_string()
        }
    }
    fn text(&self) -> String {
        let k = self.kind();
        let mut s = format!("[{}]\n{}", self.path(), k.must);
        for (o, c) in k.opts.iter().zip(&self.opts) {
            if *c > 0 {
                s += &format!("{} = {}\n", o.key, o.values[*c - 1].0);
            }
        }
        if let Some((text, _)) = self.every {
            s += &format!("flush_interval = {}\n", text);
        }
        if let Some(on) = self.enabled {
            s += &format!("enabled = {}\n", on);
        }
        if k.forwards {
            s += &format!("forwards = {:?}\n", self.forwards);
        }
        s
    }
}

#[derive(Default)]
struct Config {
    /// the global settings, as written and as understood
    globals: Vec<(&'static str, String, String)>,
    every: Option<(&'static str, u64)>,
    tags: Vec<(&'static str, &'static str, &'static str)>,
    /// are the tags at the end of the file?
    tags_last: bool,
    stages: Vec<Stage>,
}

/// Where the configuration goes: this process' own file.
fn scratch_file() -> String {
    let base = std::env::var("MC_SCRATCH").expect("ENGINE: MC_SCRATCH");
    format!("{}/c29-{}.toml", base, std::process::id())
}

/// A variable of the environment.
const VARIABLE: (&str, &str) = ("CERNAN_MC_HUE", "teal and blue");

impl Config {
    fn text(&self) -> String {
        let mut s = String::new();
        for (k, v, _) in &self.globals {
            s += &format!("{} = {}\n", k, v);
        }
        if let Some((v, _)) = self.every {
            s += &format!("flush-interval = {}\n", v);
        }
        let mut tags = String::new();
        if !self.tags.is_empty() {
            tags += "[tags]\n";
            for (k, v, _) in &self.tags {
                tags += &format!("{} = {}\n", k, v);
            }
        }
        if !self.tags_last {
            s += &tags;
        }
        for st in &self.stages {
            s += &st.text();
        }
        if self.tags_last {
            s += &tags;
        }
        s
    }

    fn meaning(&self) -> BTreeMap<String, Told> {
        let mut all: BTreeMap<String, Told> = BTreeMap::new();
        let mut g = told(&[
            ("max-hopper-in-memory-bytes", "1048576".to_string()),
            ("max-hopper-queue-bytes", "104857600".to_string()),
            ("max-hopper-queue-files", "100".to_string()),
            ("data-directory", "/tmp/cernan-data".to_string()),
            ("scripts-directory", "/tmp/cernan-scripts".to_string()),
        ]);
        for (k, _, v) in &self.globals {
            g.insert(k.to_string(), v.clone());
        }
        let every = self.every.map_or(6000, |e| e.1);
        g.insert("flush_interval".to_string(), every.to_string());
        let scripts = g["scripts-directory"].clone();
        all.insert("".to_string(), g);
        all.insert("sources.internal".to_string(), told(&[("forwards", String::new())]));
        let mut tags: Vec<String> = self.tags.iter().map(|(k, _, v)| format!("{}={}", k, v)).collect();
        tags.sort();
        for st in &self.stages {
            let k = st.kind();
            if k.section == "sources.sundial" || st.enabled == Some(false) {
                continue;
            }
            let mut t = Told::new();
            for (a, b) in k.must_is {
                t.insert(a.to_string(), b.to_string());
            }
            if k.section == "filters.programmable" {
                t.insert("scripts".to_string(), scripts.clone());
                t.insert("script".to_string(), format!("{}/s.lua", scripts));
            }
            for (o, c) in k.opts.iter().zip(&st.opts) {
                let v = if *c == 0 { o.unset } else { o.values[*c - 1].1 };
                t.insert(o.key.to_string(), v.to_string());
            }
            if k.flush {
                t.insert("flush_interval".to_string(), st.every.map_or(every, |e| e.1).to_string());
            }
            if k.tags {
                t.insert("tags".to_string(), tags.join(" "));
            }
            if k.forwards {
                t.insert("forwards".to_string(), st.forwards.join(" "));
            }
            all.insert(st.path(), t);
        }
        all
    }
}

fn check(o: &mut Oracle, c: &Config) -> Res<()> {
    std::env::set_var(VARIABLE.0, VARIABLE.1);
    let text = c.text();
    o.note(|| text.clone());
    o.step();
    o.state(&text);
    let file = scratch_file();
    std::fs::write(&file, &text).expect("ENGINE: configuration file");
    let got = match guarded(|| all_of(&parse_config(&file))) {
        Ok(g) => g,
        Err(p) => return fail("refused", format!("{:?} is refused: {}", text, p)),
    };
    let want = c.meaning();
    for path in want.keys().chain(got.keys()) {
        let what = if path.is_empty() { "all" } else { path };
        match (want.get(path), got.get(path)) {
            (Some(_), None) => return fail("missing", format!("{:?}: there is no {}", text, what)),
            (None, Some(_)) => return fail("extra", format!("{:?}: there is a {}", text, what)),
            (Some(w), Some(g)) => {
                for key in w.keys().chain(g.keys()) {
                    ensure!(
                        w.get(key) == g.get(key),
                        "option",
                        "{:?}: {} of {} is {:?}, not {:?}",
                        text,
                        key,
                        what,
                        g.get(key),
                        w.get(key)
                    );
                }
            }
            (None, None) => {}
        }
    }
    Ok(())
}

// ---- scenarios --------------------------------------------------------------------------------

const EVERY: [Option<(&str, u64)>; 4] = [None, Some(("3", 300)), Some(("0.29", 29)), Some(("0", 0))];
const TAGS: [(&str, &str, &str); 3] = [
    ("source", "\"cernan\"", "cernan"),
    ("hue", "{ environment = true, value = \"CERNAN_MC_HUE\" }", "teal and blue"),
    ("empty", "\"\"", ""),
];

/// One stage, its options in every combination.
fn options(o: &mut Oracle) -> Res<()> {
    let kind = o.choose(KINDS.len());
    let k = &KINDS[kind];
    let mut st = Stage::plain(kind, "one");
    for c in st.opts.iter_mut() {
        *c = o.choose(3);
    }
    if k.flush {
        st.every = *o.choose_from(&EVERY);
    }
    if k.enabled {
        st.enabled = *o.choose_from(&[None, Some(true), Some(false)]);
    }
    if k.forwards {
        let n = o.choose(3);
        st.forwards = ["sinks.null", "filters.delay.x", "sinks.console"][..=n].iter().map(|s| s.to_string()).collect();
    }
    let mut c = Config::default();
    c.every = *o.choose_from(&EVERY);
    if o.choose_bool() {
        c.tags = TAGS[..2].to_vec();
        c.tags_last = o.choose_bool();
    }
    c.stages.push(st);
    o.begin()?;
    check(o, &c)
}

/// Two stages: each keeps its own settings.
fn company(o: &mut Oracle) -> Res<()> {
    let a = o.choose(KINDS.len());
    let b = o.choose(KINDS.len());
    let mut c = Config::default();
    for (kind, name) in [(a, "one"), (b, "two")].iter() {
        let k = &KINDS[*kind];
        let mut st = Stage::plain(*kind, name);
        let v = o.choose(3);
        for (i, x) in st.opts.iter_mut().enumerate() {
            // the values alternate, so that no two options of a stage agree throughout
            *x = if v == 0 { 0 } else { 1 + (v + i) % 2 };
        }
        if k.flush {
            st.every = EVERY[o.choose(3)];
        }
        if k.enabled {
            st.enabled = *o.choose_from(&[None, Some(true), Some(false)]);
        }
        if k.forwards && o.choose_bool() {
            st.forwards.push(format!("sinks.{}", name));
        }
        c.stages.push(st);
    }
    c.every = EVERY[o.choose(2)];
    if o.choose_bool() {
        c.tags = TAGS[..1].to_vec();
    }
    o.begin()?;
    if a == b && !KINDS[a].named {
        c.stages.pop();
    }
    check(o, &c)
}

/// All stages at once, but for one of them; two of each that can be many, in either order.
fn everything(o: &mut Oracle) -> Res<()> {
    let without = o.choose(KINDS.len() + 1);
    let v = o.choose(3);
    let reverse = o.choose_bool();
    let off = o.choose(3);
    let mut c = Config::default();
    for kind in 0..KINDS.len() {
        if kind == without {
            continue;
        }
        let k = &KINDS[kind];
        for (n, name) in ["one", "two"].iter().enumerate() {
            if n == 1 && !k.named {
                continue;
            }
            let mut st = Stage::plain(kind, name);
            for (i, x) in st.opts.iter_mut().enumerate() {
                *x = (v + i + n + kind) % 3;
            }
            if k.flush {
                st.every = EVERY[(v + n + kind) % 4];
            }
            if k.enabled && off > 0 && n == off - 1 {
                st.enabled = Some(false);
            }
            c.stages.push(st);
        }
    }
    if reverse {
        c.stages.reverse();
    }
    c.every = *o.choose_from(&EVERY);
    c.tags = TAGS[..o.choose(4)].to_vec();
    c.tags_last = o.choose_bool();
    o.begin()?;
    check(o, &c)
}

/// The settings of all, in every combination and either order.
fn globals(o: &mut Oracle) -> Res<()> {
    let settings: [(&'static str, [(&str, &str); 2]); 5] = [
        ("max-hopper-in-memory-bytes", [("0", "0"), ("2097152", "2097152")]),
        ("max-hopper-queue-bytes", [("1048576", "1048576"), ("5000000000", "5000000000")]),
        ("max-hopper-queue-files", [("1", "1"), ("1000", "1000")]),
        ("data-directory", [("\"/d\"", "/d"), ("\"rel/a b\"", "rel/a b")]),
        ("scripts-directory", [("\"/s\"", "/s"), ("\"rel/c\"", "rel/c")]),
    ];
    let mut c = Config::default();
    for (k, vals) in settings.iter() {
        let n = o.choose(3);
        if n > 0 {
            c.globals.push((*k, vals[n - 1].0.to_string(), vals[n - 1].1.to_string()));
        }
    }
    if o.choose_bool() {
        c.globals.reverse();
    }
    c.every = *o.choose_from(&EVERY);
    let mask = o.choose(8);
    c.tags = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| TAGS[i]).collect();
    c.tags_last = o.choose_bool();
    for name in ["sinks.console", "filters.programmable"].iter() {
        let kind = KINDS.iter().position(|k| k.section == *name).unwrap();
        c.stages.push(Stage::plain(kind, "one"));
    }
    o.begin()?;
    check(o, &c)
}

/// Every interval that is a number of ticks.
fn intervals(o: &mut Oracle) -> Res<()> {
    let sink = *o.choose_from(&["", "sinks.console", "sinks.wavefront", "sinks.influxdb", "sinks.elasticsearch", "sinks.native", "sinks.kafka"]);
    let hundreds = o.choose(o.pick(20, 200));
    o.begin()?;
    let file = scratch_file();
    for rest in 0..100 {
        let ticks = hundreds as u64 * 100 + rest;
        let mut forms = vec![format!("{}.{:02}", hundreds, rest)];
        if rest == 0 {
            forms.push(format!("{}", hundreds));
        }
        if rest % 10 == 0 {
            forms.push(format!("{}.{}", hundreds, rest / 10));
        }
        for f in forms {
            o.step();
            o.state(&(sink, &f));
            let text = if sink == "" {
                format!("flush-interval = {}\n[sinks.console]\n", f)
            } else if sink == "sinks.kafka" {
                format!("[sinks.kafka.one]\ntopic = \"t\"\nbrokers = \"b\"\nflush_interval = {}\n", f)
            } else {
                format!("[{}]\nflush_interval = {}\n", sink, f)
            };
            std::fs::write(&file, &text).expect("ENGINE: configuration file");
            let all = match guarded(|| all_of(&parse_config(&file))) {
                Ok(g) => g,
                Err(p) => return fail("refused", format!("{:?} is refused: {}", text, p)),
            };
            let of = |p: &str| all.get(p).and_then(|t| t.get("flush_interval")).cloned();
            let got = match sink {
                "" => {
                    ensure!(of("") == of("sinks.console"), "inherit", "{:?}: {:?} and {:?}", text, of(""), of("sinks.console"));
                    of("")
                }
                "sinks.kafka" => of("sinks.kafka.one"),
                s => of(s),
            };
            ensure!(
                got == Some(ticks.to_string()),
                "interval",
                "{:?} asks for {} pulses between flushes, and gets {:?}",
                text,
                ticks,
                got
            );
        }
    }
    Ok(())
}

/// The histogram mappings of statsd sources: which of them a name falls under.
fn mappings(o: &mut Oracle) -> Res<()> {
    const MASKS: [(&str, &str); 3] = [("^a", "[1.0]"), ("b$", "[2.0, 3.0]"), ("c", "[4.0, 5.0, 6.0]")];
    let mut text = String::new();
    let mut want: Vec<(String, Vec<String>, String)> = vec![];
    for name in ["one", "two"].iter() {
        let mask = o.choose(8);
        let bound = o.choose_bool();
        text += &format!("[sources.statsd.{}]\nforwards = [\"sinks.null\"]\n", name);
        if bound {
            text += "summarize_error_bound = 0.25\n";
        }
        let mut w = vec![];
        for (i, (m, b)) in MASKS.iter().enumerate() {
            if mask >> i & 1 == 1 {
                text += &format!("[sources.statsd.{}.mapping.m{}]\nmask = {:?}\nbounds = {}\n", name, i, m, b);
                w.push(format!("{}={}", m, b));
            }
        }
        w.sort();
        want.push((format!("sources.statsd.{}", name), w, if bound { "0.25" } else { "0.01" }.to_string()));
    }
    o.begin()?;
    o.note(|| text.clone());
    o.state(&text);
    o.step();
    let file = scratch_file();
    std::fs::write(&file, &text).expect("ENGINE: configuration file");
    let all = match guarded(|| all_of(&parse_config(&file))) {
        Ok(g) => g,
        Err(p) => return fail("refused", format!("{:?} is refused: {}", text, p)),
    };
    for (path, masks, bound) in want {
        let t = match all.get(&path) {
            Some(t) => t,
            None => return fail("missing", format!("{:?}: there is no {}", text, path)),
        };
        ensure!(t["mapping"] == masks.join(" "), "mapping", "{:?}: {} has {:?}", text, path, t["mapping"]);
        ensure!(t["summarize_error_bound"] == bound, "bound", "{:?}: {} has {:?}", text, path, t["summarize_error_bound"]);
    }
    Ok(())
}
