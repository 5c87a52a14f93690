//! C22: the Kafka sink, with the library's client played by the harness.
use super::kafka::{self, Broker, Record};
use super::stage::{consume, must_end};
use super::util::*;
use super::web::Held;
use crate::engine::*;
use crate::sched;
use cernan::metric::{global_ack_bag, Encoding, Event, Metadata};
use cernan::sink::{Kafka, KafkaConfig, Sink};
use cernan::util::Valve;
use std::cell::RefCell;
use std::collections::HashMap;
use std::os::raw::c_int;
use std::rc::Rc;
use uuid::Uuid;

pub fn property() -> Property {
    Property {
        id: "C22",
        scenarios: |_| {
            vec![
                Scenario { name: "histories", run: histories },
                Scenario { name: "reports", run: reports },
                Scenario { name: "codes", run: codes },
                Scenario { name: "contents", run: contents },
                Scenario { name: "valve", run: valve },
                Scenario { name: "queue", run: queue },
                Scenario { name: "schedules", run: schedules },
            ]
        },
        rule: "every sequence of deliveries, flushes and waits up to a length, ended by a flush or the stop, \
               with every placement of up to a number of refusals, failures and delays among what the \
               library makes of the records; every error code; every content of a list; the sink alone \
               and behind its queue; states = (fate of each event, acknowledgements)",
        assumptions: &[
            "librdkafka's client is replaced: it takes or refuses a record, and reports once on each it took",
            "a connection identifier belongs to one event",
        ],
        level: "model_checking",
        hang_s: 30,
    }
}

const TOPIC: &str = "a.topic_-1";

/// Kafka's own list, and the library's timeout.
const RETRIABLE: [c_int; 13] = [2, 3, 5, 6, 7, 13, 14, 15, 16, 19, 20, 41, -192];
/// What no repetition can heal.
const FATAL: [c_int; 8] = [4, 10, 12, 17, 18, 21, 29, 31];
/// All the library knows.
fn every_code() -> Vec<c_int> {
    let mut v: Vec<c_int> = (-199..=-155).collect();
    v.push(-1);
    v.extend(1..=55);
    // no answer to a record
    v.retain(|c| *c != -184);
    v
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Fate {
    New,
    InFlight,
    Failed(c_int),
    Accepted,
}

pub struct Item {
    record: Record,
    pub conn: Option<Uuid>,
    fate: Fate,
    offers: usize,
    event: Option<Event>,
}

/// What was delivered and what became of it.
pub struct Book {
    pub items: Vec<Item>,
    budget: usize,
    /// answers to give instead of asking the explorer
    fixed: Option<(bool, c_int, usize)>,
    wrong: Option<Stop>,
    /// only answers that leave no doubt whether to repeat
    clear: bool,
    pub tally: [usize; 3],
    log: Vec<String>,
}

fn may_retry(c: c_int) -> bool {
    !FATAL.contains(&c)
}
fn must_retry(c: c_int) -> bool {
    RETRIABLE.contains(&c)
}

impl Item {
    fn new(i: usize, payload: &[u8], order_by: u64, meta: Option<&[(&[u8], &[u8])]>, conn: bool) -> Item {
        let metadata: Option<Metadata> = meta.map(|m| m.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect());
        let mut headers: Vec<(String, Vec<u8>)> = meta
            .unwrap_or(&[])
            .iter()
            // a header's name is text
            .filter(|h| !h.0.contains(&0))
            .filter_map(|h| std::str::from_utf8(h.0).ok().map(|n| (n.to_string(), h.1.to_vec())))
            .collect();
        headers.sort();
        let id = Uuid::from_bytes(&{
            let mut b = [7u8; 16];
            b[0] = i as u8;
            b
        }).unwrap();
        let conn = if conn { Some(id) } else { None };
        Item {
            record: Record {
                topic: TOPIC.to_string(),
                payload: payload.to_vec(),
                key: format!("{:X}", order_by).into_bytes(),
                headers,
            },
            conn,
            fate: Fate::New,
            offers: 0,
            event: Some(Event::Raw { order_by, encoding: Encoding::Raw, bytes: payload.to_vec(), metadata, connection_id: conn }),
        }
    }
    fn settled(&self) -> bool {
        match self.fate {
            Fate::Accepted => true,
            Fate::Failed(c) => !must_retry(c),
            _ => false,
        }
    }
}

impl Book {
    pub fn new(budget: usize) -> Book {
        Book { items: vec![], budget, fixed: None, wrong: None, clear: false, tally: [0; 3], log: vec![] }
    }
    fn hist(&self) -> String {
        format!("{}; now {:?}", self.log.join(", "), self.items.iter().map(|i| i.fate).collect::<Vec<_>>())
    }
    fn complain(&mut self, class: &str, text: String) {
        if self.wrong.is_none() {
            let text = format!("{}: {}", self.hist(), text);
            self.wrong = Some(Stop::Violation { class: class.to_string(), text });
        }
    }
    /// No acknowledgement before the fate is known.
    fn no_early_ack(&mut self, acks: &[usize]) {
        for i in 0..acks.len() {
            if !self.items[i].settled() && acks[i] > 0 {
                self.complain("early", format!("event {} is acknowledged", i));
            }
        }
    }
    fn all_settled(&mut self, what: &str, acks: &[usize]) {
        for i in 0..acks.len() {
            if !self.items[i].settled() {
                self.complain("lost", format!("after the {} event {} is {:?}", what, i, self.items[i].fate));
            } else if self.items[i].conn.is_some() && acks[i] == 0 {
                self.complain("unacknowledged", format!("after the {} event {} has no acknowledgement", what, i));
            }
        }
    }
    fn unsettled_bytes(&self) -> usize {
        self.items.iter().filter(|i| !i.settled()).map(|i| i.record.payload.len()).sum()
    }
    /// The fault that comes next, if any: an index into so many.
    fn fault(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let k = sched::decide(n + 1);
        if k > 0 {
            self.budget -= 1;
        }
        k
    }
    /// Look the record up among those of a fate.
    fn find(&self, r: &Record, f: impl Fn(Fate) -> bool) -> Option<usize> {
        self.items.iter().position(|i| i.record == *r && f(i.fate))
    }
    fn failed(&mut self, i: usize, c: c_int) {
        self.items[i].fate = Fate::Failed(c);
        self.tally[if must_retry(c) { 1 } else { 2 }] += 1;
    }
}

/// How often each event was acknowledged. (Asking may switch threads, so the
/// book must not be held.)
fn acks(b: &Held<Book>) -> Vec<usize> {
    let conns: Vec<Option<Uuid>> = b.0.borrow().items.iter().map(|i| i.conn).collect();
    conns
        .iter()
        .map(|c| c.and_then(|c| global_ack_bag().props_for(c)).map_or(0, |p| p.acks_received()))
        .collect()
}

/// The broker, as the library tells of it.
struct Told(Held<Book>);
impl Broker for Told {
    fn offer(&mut self, r: &Record) -> c_int {
        let a = acks(&self.0);
        let mut b = (self.0).0.borrow_mut();
        b.no_early_ack(&a);
        let i = match b.find(r, |f| match f {
            Fate::New => true,
            Fate::Failed(c) => may_retry(c),
            _ => false,
        }) {
            Some(i) => i,
            None => {
                let text = format!("{:?} was published, out of {:?}", r, b.items.iter().map(|i| &i.record).collect::<Vec<_>>());
                b.complain("published", text);
                return 0;
            }
        };
        b.items[i].offers += 1;
        let ans = match b.fixed {
            Some((true, c, ref mut n)) if *n > 0 => {
                *n -= 1;
                c
            }
            Some(_) => 0,
            None => {
                let n = if b.clear { 2 } else { 3 };
                [0, 10, -184, -188][b.fault(n)]
            }
        };
        b.log.push(format!("{} taken {}", i, ans));
        if ans == 0 {
            b.items[i].fate = Fate::InFlight;
        } else if ans != -184 {
            b.failed(i, ans);
        }
        ans
    }
    fn report(&mut self, held: &[Record]) -> Vec<(usize, c_int)> {
        let a = acks(&self.0);
        let mut b = (self.0).0.borrow_mut();
        b.no_early_ack(&a);
        let mut out = vec![];
        for (k, r) in held.iter().enumerate() {
            let i = match b.find(r, |f| f == Fate::InFlight) {
                Some(i) => i,
                None => {
                    b.complain("published", format!("{:?} is in flight twice", r));
                    out.push((k, 0));
                    continue;
                }
            };
            let ans = match b.fixed {
                Some((false, c, ref mut n)) if *n > 0 => {
                    *n -= 1;
                    c
                }
                Some(_) => 0,
                None => {
                    let n = if b.clear { 4 } else { 5 };
                    [0, 1000, 6, -192, 10, -195][b.fault(n)]
                }
            };
            b.log.push(format!("{} reported {}", i, ans));
            match ans {
                1000 => continue,
                0 => {
                    b.items[i].fate = Fate::Accepted;
                    b.tally[0] += 1;
                }
                c => b.failed(i, c),
            }
            out.push((k, ans));
        }
        if out.len() > 1 && b.fixed.is_none() && b.budget > 0 && sched::decide(2) == 1 {
            out.reverse();
        }
        out
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Deliver(usize),
    Flush,
    Wait,
    Shutdown,
}

fn conf(max: usize) -> KafkaConfig {
    KafkaConfig {
        config_path: Some("sinks.kafka".to_string()),
        topic_name: Some(TOPIC.to_string()),
        brokers: Some("here:9092,there:1".to_string()),
        rdkafka_config: Some([("client.id".to_string(), "me".to_string())].iter().cloned().collect::<HashMap<_, _>>()),
        max_message_bytes: max,
        flush_interval: 60,
    }
}

fn hand(sink: &mut Kafka, e: Event) {
    if let Event::Raw { order_by, encoding, bytes, metadata, connection_id } = e {
        sink.deliver_raw(order_by, encoding, bytes, metadata, connection_id);
    }
}

/// Put the sink through it. The items are what the deliveries deliver.
fn drive(o: &mut Oracle, devs: i32, max: usize, mut items: Vec<Item>, ops: Vec<Op>, mut book: Book) -> Res<Held<Book>> {
    for i in &items {
        if let Some(c) = i.conn {
            global_ack_bag().prepare_wait(c);
        }
    }
    sched::vclock(true);
    book.items.reserve(items.len());
    let book = Held(Rc::new(RefCell::new(book)));
    kafka::set(Some(Box::new(Told(book.clone()))));
    let b2 = book.clone();
    let shown = format!("{:?}", ops);
    let mut conns: Vec<Uuid> = items.iter().filter_map(|i| i.conn).collect();
    let r = sched::run(
        o,
        sched::Opts { max_steps: 50_000, devs, early: false },
        vec![Box::new(move || {
            let mut sink = Some(Kafka::init(conf(max)));
            let book = b2;
            let mut since = 0;
            items.reverse();
            for (key, want) in &[("bootstrap.servers", "here:9092,there:1"), ("client.id", "me")] {
                let got = kafka::configured(key);
                if got.as_ref().map(|s| s.as_str()) != Some(*want) {
                    book.0.borrow_mut().complain("configured", format!("{} is {:?}, not {:?}", key, got, want));
                }
            }
            for op in ops {
                match op {
                    Op::Deliver(_) => {
                        let mut i = items.pop().unwrap();
                        let e = i.event.take().unwrap();
                        since += i.record.payload.len();
                        book.0.borrow_mut().items.push(i);
                        hand(sink.as_mut().unwrap(), e);
                    }
                    Op::Wait => sched::sleep(1_000_000_000),
                    Op::Flush => {
                        sink.as_mut().unwrap().flush();
                        since = 0;
                        let a = acks(&book);
                        book.0.borrow_mut().all_settled("flush", &a);
                    }
                    Op::Shutdown => {
                        sink.take().unwrap().shutdown();
                        let a = acks(&book);
                        book.0.borrow_mut().all_settled("stop", &a);
                    }
                }
                let a = acks(&book);
                let open = sink.as_ref().map(|s| s.valve_state() == Valve::Open);
                let mut b = book.0.borrow_mut();
                b.no_early_ack(&a);
                if let Some(open) = open {
                    let out = b.unsettled_bytes();
                    if open && out >= max {
                        b.complain("allowance", format!("open with {} bytes in flight, of {}", out, max));
                    }
                    if !open && since < max {
                        b.complain("allowance", format!("closed with {} bytes since the last flush, of {}", since, max));
                    }
                }
                b.log.push(format!("{:?} done", op));
            }
        })],
    );
    kafka::set(None);
    for c in conns.drain(..) {
        global_ack_bag().remove(c);
    }
    let b = book.clone();
    let mut b = b.0.borrow_mut();
    if let Some(w) = b.wrong.take() {
        if r.outcome != sched::Outcome::Stopped {
            return Err(w);
        }
    }
    must_end(&r, &format!("{}: {}", shown, b.hist()))?;
    o.step();
    o.state(&(b.items.iter().map(|i| (i.fate, i.offers)).collect::<Vec<_>>(), b.log.len()));
    o.note(|| format!("{} {}", shown, b.hist()));
    drop(b);
    Ok(book)
}

/// For the sake of the counters: how many were accepted, to be repeated, failed.
pub fn tally(o: &mut Oracle, sizes: &[usize], budget: usize) -> Res<([usize; 3], String)> {
    let mut items = vec![];
    let mut ops = vec![];
    for n in sizes {
        for _ in 0..*n {
            items.push(variant(items.len(), 2));
            ops.push(Op::Deliver(2));
        }
        ops.push(Op::Flush);
    }
    let mut book = Book::new(budget);
    book.clear = true;
    let book = drive(o, 0, 1 << 20, items, ops, book)?;
    let b = book.0.borrow();
    Ok((b.tally, b.hist()))
}

fn variant(i: usize, v: usize) -> Item {
    match v {
        0 => Item::new(i, &[b'a'; 3], i as u64, None, false),
        1 => Item::new(i, b"", !(i as u64), Some(&[(b"k", b"v")]), true),
        _ => Item::new(i, &[0xff, 0, b'\n', i as u8], 0x1f0 + i as u64, Some(&[(b"a", b""), ("\u{e9}".as_bytes(), &[0, 0xff])]), true),
    }
}

fn histories(o: &mut Oracle) -> Res<()> {
    let n = o.choose(o.pick(5, 6));
    let mut ops = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let k = o.choose(5);
        if k < 3 {
            items.push(variant(items.len(), k));
        }
        ops.push(match k {
            3 => Op::Flush,
            4 => Op::Wait,
            k => Op::Deliver(k),
        });
    }
    if ops.windows(2).any(|w| w[0] == w[1] && w[0] == Op::Wait) {
        return Err(Stop::Prune);
    }
    if o.choose_bool() {
        ops.push(Op::Flush);
    } else {
        ops.push(Op::Shutdown);
    }
    let budget = o.pick(2, 2);
    o.begin()?;
    drive(o, 0, 1 << 20, items, ops, Book::new(budget)).map(|_| ())
}

/// Few events, many faults.
fn reports(o: &mut Oracle) -> Res<()> {
    let n = 1 + o.choose(2);
    let items: Vec<Item> = (0..n).map(|i| variant(i, (i + 1) % 3)).collect();
    let mut ops: Vec<Op> = (0..n).map(Op::Deliver).collect();
    ops.push(if o.choose_bool() { Op::Flush } else { Op::Shutdown });
    let budget = o.pick(4, 5);
    o.begin()?;
    drive(o, 0, 1 << 20, items, ops, Book::new(budget)).map(|_| ())
}

fn codes(o: &mut Oracle) -> Res<()> {
    let codes = every_code();
    let code = *o.choose_from(&codes);
    let at_once = o.choose_bool();
    let times = [1usize, 2, 300][o.choose(3)];
    let n = 1 + o.choose(2);
    let items: Vec<Item> = (0..n).map(|i| variant(i, 2 - i)).collect();
    let mut ops: Vec<Op> = (0..n).map(Op::Deliver).collect();
    ops.push(if o.choose_bool() { Op::Flush } else { Op::Shutdown });
    o.begin()?;
    let mut book = Book::new(0);
    book.fixed = Some((at_once, code, times));
    let book = drive(o, 0, 1 << 20, items, ops, book)?;
    let b = book.0.borrow();
    if FATAL.contains(&code) || must_retry(code) {
        let extra = if must_retry(code) { times } else { 0 };
        let offers: usize = b.items.iter().map(|i| i.offers).sum();
        ensure!(
            offers == n + extra,
            "retries",
            "code {} {} times for {} events: published {} times, not {}",
            code,
            times,
            n,
            offers,
            n + extra
        );
    }
    Ok(())
}

fn contents(o: &mut Oracle) -> Res<()> {
    let orders = [0u64, 1, 9, 10, 15, 16, 255, 1 << 32, u64::max_value() - 1, u64::max_value()];
    let order = *o.choose_from(&orders);
    let big = vec![b'x'; 70_000];
    let payloads: [&[u8]; 6] = [b"", b"\0", b"\xff\xfe", b"text", b"a\0b\n", &big];
    let payload = *o.choose_from(&payloads);
    let keys: [&[u8]; 6] = [b"k", b"", b"a b", "\u{e9}\u{4e2d}".as_bytes(), b"\xff", b"a\0b"];
    let values: [&[u8]; 4] = [b"", b"v", b"\0\xff", &big];
    let n = o.choose(o.pick(3, 3));
    let mut meta: Vec<(&[u8], &[u8])> = vec![];
    for _ in 0..n {
        let k = *o.choose_from(&keys);
        let v = *o.choose_from(&values);
        if meta.iter().any(|m| m.0 >= k) {
            return Err(Stop::Prune);
        }
        meta.push((k, v));
    }
    let some = n > 0 || o.choose_bool();
    let fails = o.choose_bool();
    o.begin()?;
    let items = vec![Item::new(0, payload, order, if some { Some(&meta) } else { None }, true)];
    let mut book = Book::new(0);
    book.fixed = Some((false, 6, fails as usize));
    drive(o, 0, 1 << 20, items, vec![Op::Deliver(0), Op::Flush], book).map(|_| ())
}

fn valve(o: &mut Oracle) -> Res<()> {
    let max = *o.choose_from(&[1usize, 3, 4]);
    let n = 1 + o.choose(o.pick(4, 5));
    let mut ops = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let k = o.choose(5);
        if k < 4 {
            let i = items.len();
            items.push(Item::new(i, &vec![b'p'; k], i as u64, None, false));
        }
        ops.push(if k < 4 { Op::Deliver(k) } else { Op::Flush });
    }
    let wait = o.choose_bool();
    o.begin()?;
    if wait {
        ops.push(Op::Wait);
    }
    ops.push(Op::Flush);
    drive(o, 0, max, items, ops, Book::new(1)).map(|_| ())
}

/// Behind its queue: what does not fit is held back.
fn queue(o: &mut Oracle) -> Res<()> {
    let max = *o.choose_from(&[1usize, 4, 1 << 20]);
    let n = 1 + o.choose(4);
    let mut input = vec![];
    let mut items = vec![];
    for k in 0..n {
        if o.choose(3) == 2 {
            input.push(Event::TimerFlush(60 * (k as u64 + 1)));
        } else {
            let mut it = variant(items.len(), k % 3);
            input.push(it.event.take().unwrap());
            items.push(it);
        }
    }
    input.push(Event::Shutdown);
    let budget = o.pick(1, 2);
    o.begin()?;
    sched::vclock(true);
    for i in &items {
        if let Some(c) = i.conn {
            global_ack_bag().prepare_wait(c);
        }
    }
    let mut b = Book::new(budget);
    b.items = items;
    let book = Held(Rc::new(RefCell::new(b)));
    kafka::set(Some(Box::new(Told(book.clone()))));
    let r = consume::<Kafka, KafkaConfig>(o, &input, 1, conf(max));
    kafka::set(None);
    let a = acks(&book);
    let mut b = book.0.borrow_mut();
    let what = format!("{} events in {} inputs, allowance {}: {}", b.items.len(), input.len(), max, b.hist());
    if b.wrong.is_none() && r.outcome == sched::Outcome::AllDone {
        b.all_settled("stop", &a);
    }
    for i in &b.items {
        if let Some(c) = i.conn {
            global_ack_bag().remove(c);
        }
    }
    if let Some(w) = b.wrong.take() {
        return Err(w);
    }
    must_end(&r, &what)?;
    o.step();
    o.state(&(b.items.iter().map(|i| (i.fate, i.offers)).collect::<Vec<_>>(), b.log.len()));
    o.note(|| what);
    Ok(())
}

fn schedules(o: &mut Oracle) -> Res<()> {
    let plans: [&[Op]; 4] = [
        &[Op::Deliver(1), Op::Flush],
        &[Op::Deliver(1), Op::Deliver(2), Op::Flush, Op::Shutdown],
        &[Op::Deliver(2), Op::Wait, Op::Deliver(1), Op::Shutdown],
        &[Op::Deliver(0), Op::Flush, Op::Deliver(1), Op::Flush],
    ];
    let ops = o.choose_from(&plans).to_vec();
    let mut items = vec![];
    for op in &ops {
        if let Op::Deliver(k) = op {
            items.push(variant(items.len(), *k));
        }
    }
    let devs = o.pick(3, 4);
    o.begin()?;
    drive(o, devs, 1 << 20, items, ops, Book::new(1)).map(|_| ())
}
