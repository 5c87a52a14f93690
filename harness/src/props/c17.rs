//! C17: JSON encoding of log lines.
use super::util::*;
use crate::engine::*;
use cernan::filter::{Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
use cernan::metric::{Encoding, Event, LogLine, TagMap};
use serde_json::{Map, Value};

pub fn property() -> Property {
    Property {
        id: "C17",
        scenarios: |_| {
            vec![
                Scenario { name: "encode", run: encode },
                Scenario { name: "sequence", run: sequence },
                Scenario { name: "times", run: times },
            ]
        },
        rule: "every combination of line text, fields, own tags, configured tags and parse_line \
               over clashing keys; sequences of events of every kind through one filter; \
               states = distinct encoded objects",
        assumptions: &[],
        level: "model_checking",
        hang_s: 60,
    }
}

const LINES: [&str; 16] = [
    "",
    "plain",
    "{}",
    "{\"message\":\"in\",\"x\":1}",
    "{\"path\":\"P\",\"time\":5,\"tags\":[]}",
    "{\"f\":null,\"g\":{\"x\":[true,1.5]}}",
    "[1,2]",
    "3",
    "\"s\"",
    "null",
    "{\"a\":1",
    "{\"a\":1} tail",
    "  {\"sp\":1}  ",
    "\u{0}\t padded \r\u{0}",
    "{}\u{0}",
    "quote \" back \\ nl \n nul \u{0} uni \u{1f600}",
];

fn days_to_date(z: i64) -> (i64, i64, i64) {
    // civil-from-days
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}

pub fn rfc3339(t: i64) -> String {
    let days = t.div_euclid(86_400);
    let s = t.rem_euclid(86_400);
    let (y, m, d) = days_to_date(days);
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00",
        y,
        m,
        d,
        s / 3600,
        s / 60 % 60,
        s % 60
    )
}

/// What the payload must decode to.
fn expect(l: &LogLine, conf: &TagMap, parse: bool) -> Value {
    let mut o = Map::new();
    o.insert("time".into(), rfc3339(l.time).into());
    o.insert("path".into(), l.path.clone().into());
    let mut tags = Map::new();
    for (k, v) in conf.iter() {
        tags.insert(k.clone(), v.clone().into());
    }
    for (k, v) in log_tags_of(l) {
        tags.insert(k, v.into());
    }
    o.insert("tags".into(), Value::Object(tags));
    for (k, v) in fields_of(l) {
        o.insert(k, v.into());
    }
    let parsed = if parse { serde_json::from_str::<Value>(&l.value).ok() } else { None };
    match parsed {
        Some(Value::Object(p)) => {
            for (k, v) in p {
                o.insert(k, v);
            }
        }
        _ => {
            o.insert("message".into(), l.value.clone().into());
        }
    }
    Value::Object(o)
}

fn check(f: &mut JSONEncodeFilter, ev: Event, conf: &TagMap, parse: bool, o: &mut Oracle) -> Res<()> {
    let mut res = vec![];
    let label = show_event(&ev);
    let copy = ev.clone();
    match guarded(|| f.process(ev, &mut res).is_ok()) {
        Err(e) => return fail("panic", format!("{}: {}", label, e)),
        Ok(ok) => ensure!(ok, "error", "{} failed", label),
    }
    ensure!(res.len() == 1, "count", "{} gave {} events", label, res.len());
    match copy {
        Event::Log(l) => match res[0] {
            Event::Raw { encoding: Encoding::JSON, ref bytes, ref metadata, ref connection_id, .. } => {
                let got: Value = match serde_json::from_slice(bytes) {
                    Ok(v) => v,
                    Err(e) => return fail("json", format!("{} does not decode: {}", label, e)),
                };
                let mut want = expect(&l, conf, parse);
                if l.time < -8_000_000_000_000 || l.time > 8_000_000_000_000 {
                    // beyond what a calendar date can say: any text will do
                    if got["time"].is_string() {
                        want["time"] = got["time"].clone();
                    }
                }
                o.state(&got.to_string());
                ensure!(
                    got == want,
                    "content",
                    "{} with configured tags {:?} became {} instead of {}",
                    label,
                    conf,
                    got,
                    want
                );
                ensure!(
                    metadata.is_none() && connection_id.is_none(),
                    "content",
                    "{} gained metadata or a connection",
                    label
                );
                Ok(())
            }
            ref e => fail("kind", format!("{} became {}", label, show_event(e))),
        },
        _ => {
            ensure!(show_event(&res[0]) == label, "pass", "{} became {}", label, show_event(&res[0]));
            Ok(())
        }
    }
}

fn filter(conf: &TagMap, parse: bool) -> JSONEncodeFilter {
    JSONEncodeFilter::new(JSONEncodeFilterConfig {
        config_path: None,
        forwards: vec![],
        parse_line: parse,
        tags: conf.clone(),
    })
}

fn encode(o: &mut Oracle) -> Res<()> {
    let line = *o.choose_from(&LINES);
    let path = *o.choose_from(&["p", "", "a\"b\\c\u{e9}"]);
    let parse = o.choose_bool();
    let fs: [&[(&str, &str)]; 5] = [
        &[],
        &[("x", "fx")],
        &[("message", "fm"), ("f", "ff")],
        &[("time", "ft"), ("path", "fp"), ("tags", "fg")],
        &[("a\"", "v\n")],
    ];
    let ts: [Option<&[(&str, &str)]>; 5] = [
        None,
        Some(&[]),
        Some(&[("a", "own")]),
        Some(&[("b", "own"), ("message", "t")]),
        Some(&[("a", "own"), ("b", "own2"), ("c", "")]),
    ];
    let cs: [&[(&str, &str)]; 4] = [&[], &[("a", "conf")], &[("a", "conf"), ("b", "conf2")], &[("z", "conf")]];
    let (f, t, c) = (o.choose(fs.len()), o.choose(ts.len()), o.choose(cs.len()));
    o.begin()?;
    o.step();
    let mut l = log(path, line, 1_234_567_890);
    for (k, v) in fs[f] {
        l = l.insert_field(k.to_string(), v.to_string());
    }
    l.tags = ts[t].map(tagmap);
    let conf = tagmap(cs[c]);
    o.note(|| format!("{} conf {:?} parse {}", show_log(&l), cs[c], parse));
    check(&mut filter(&conf, parse), Event::Log(l), &conf, parse, o)
}

fn sequence(o: &mut Oracle) -> Res<()> {
    let parse = o.choose_bool();
    let n = o.pick(4, 5);
    let seq: Vec<usize> = (0..n).map(|_| o.choose(7)).collect();
    o.begin()?;
    let conf = tagmap(&[("a", "conf")]);
    let mut f = filter(&conf, parse);
    for (i, c) in seq.iter().enumerate() {
        o.step();
        let ev = match c {
            0 => Event::Log(log("p", "plain", i as i64)),
            1 => Event::Log(log("q", "{\"x\":1,\"path\":2}", i as i64)),
            2 => Event::Log(log("q", "{broken", i as i64).overlay_tag("a", "own").insert_field("x", "f")),
            3 => Event::Telemetry(point("m", KINDS[2], 1.0, 4, true, None)),
            4 => Event::TimerFlush(i as u64),
            5 => raw(b"{\"x\":1}", 9),
            _ => Event::Shutdown,
        };
        check(&mut f, ev, &conf, parse, o)?;
    }
    Ok(())
}

/// Times come from clients: each must be encoded.
fn times(o: &mut Oracle) -> Res<()> {
    let t = *o.choose_from(&[
        0i64,
        -1,
        1,
        59,
        86_399,
        86_400,
        951_782_400,
        1_709_164_800,
        4_102_444_800,
        -62_135_596_800,
        253_402_300_799,
        i64::max_value(),
        i64::min_value(),
        10_000_000_000_000,
    ]);
    o.begin()?;
    o.step();
    let conf = TagMap::default();
    check(&mut filter(&conf, false), Event::Log(log("p", "x", t)), &conf, false, o)
}
