//! A stand-in for librdkafka's client, put in its place by the linker
//! (--wrap): records go to the harness, which decides what became of them.
use crate::sched;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};

const QUEUE_FULL: c_int = -184;
const NO_ENTRY: c_int = -156;

/// What the program handed to the library.
#[derive(Clone, Debug, PartialEq)]
pub struct Record {
    pub topic: String,
    pub payload: Vec<u8>,
    pub key: Vec<u8>,
    pub headers: Vec<(String, Vec<u8>)>,
}

pub trait Broker {
    /// Take the record in (0), or refuse it at once.
    fn offer(&mut self, r: &Record) -> c_int;
    /// Which of the records in flight are reported on now, and how.
    fn report(&mut self, held: &[Record]) -> Vec<(usize, c_int)>;
}

/// Everything is taken, and accepted.
pub struct Agreeable(pub Vec<Record>);
impl Broker for Agreeable {
    fn offer(&mut self, r: &Record) -> c_int {
        self.0.push(r.clone());
        0
    }
    fn report(&mut self, held: &[Record]) -> Vec<(usize, c_int)> {
        (0..held.len()).map(|i| (i, 0)).collect()
    }
}

/// As librdkafka declares it.
#[repr(C)]
pub struct Message {
    err: c_int,
    rkt: *const c_void,
    partition: i32,
    payload: *const c_void,
    len: usize,
    key: *const c_void,
    key_len: usize,
    offset: i64,
    private: *mut c_void,
    // ours
    headers: *mut c_void,
    topic: CString,
    record: Record,
}

#[repr(C)]
pub struct McRecord {
    topic: *const c_char,
    value: *const u8,
    key: *const u8,
    value_len: usize,
    key_len: usize,
    opaque: *mut c_void,
    headers: *mut c_void,
    timestamp: i64,
    partition: i32,
    flags: c_int,
}

type Report = extern "C" fn(*mut c_void, *const Message, *mut c_void);

struct Client {
    opaque: *mut c_void,
    flight: Vec<Box<Message>>,
}

static mut BROKER: Option<Box<dyn Broker>> = None;
static mut OPAQUE: *mut c_void = std::ptr::null_mut();
static mut REPORT: Option<Report> = None;
/// what the last client was configured with
static mut SERVERS: Option<String> = None;
static mut CONF: Vec<(String, String)> = Vec::new();

pub fn set(b: Option<Box<dyn Broker>>) {
    unsafe {
        BROKER = b;
        SERVERS = None;
        CONF.clear();
    }
}
pub fn configured(key: &str) -> Option<String> {
    unsafe { CONF.iter().rev().find(|c| c.0 == key).map(|c| c.1.clone()) }
}
unsafe fn broker() -> &'static mut dyn Broker {
    if BROKER.is_none() {
        BROKER = Some(Box::new(Agreeable(vec![])));
    }
    &mut **BROKER.as_mut().unwrap()
}

extern "C" {
    fn __real_rd_kafka_conf_set_dr_msg_cb(conf: *mut c_void, f: Report);
    fn __real_rd_kafka_conf_set_opaque(conf: *mut c_void, p: *mut c_void);
    fn __real_rd_kafka_conf_set(
        conf: *mut c_void,
        k: *const c_char,
        v: *const c_char,
        e: *mut c_char,
        n: usize,
    ) -> c_int;
    fn rd_kafka_conf_destroy(conf: *mut c_void);
    fn rd_kafka_header_get_all(
        h: *const c_void,
        i: usize,
        name: *mut *const c_char,
        value: *mut *const u8,
        len: *mut usize,
    ) -> c_int;
    fn rd_kafka_headers_destroy(h: *mut c_void);
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_conf_set_dr_msg_cb(conf: *mut c_void, f: Report) {
    REPORT = Some(f);
    __real_rd_kafka_conf_set_dr_msg_cb(conf, f)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_conf_set_opaque(conf: *mut c_void, p: *mut c_void) {
    OPAQUE = p;
    __real_rd_kafka_conf_set_opaque(conf, p)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_conf_set(
    conf: *mut c_void,
    k: *const c_char,
    v: *const c_char,
    e: *mut c_char,
    n: usize,
) -> c_int {
    let s = |p: *const c_char| CStr::from_ptr(p).to_string_lossy().into_owned();
    CONF.push((s(k), s(v)));
    __real_rd_kafka_conf_set(conf, k, v, e, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_new(_kind: c_int, conf: *mut c_void, _e: *mut c_char, _n: usize) -> *mut c_void {
    rd_kafka_conf_destroy(conf);
    Box::into_raw(Box::new(Client { opaque: OPAQUE, flight: vec![] })) as *mut c_void
}
/// Left in memory: the client is gone, what it held is not reported on.
#[no_mangle]
pub extern "C" fn __wrap_rd_kafka_destroy(_rk: *mut c_void) {}
#[no_mangle]
pub extern "C" fn __wrap_rd_kafka_set_log_level(_rk: *mut c_void, _l: c_int) {}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_opaque(rk: *mut c_void) -> *mut c_void {
    (*(rk as *mut Client)).opaque
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_topic_name(rkt: *const c_void) -> *const c_char {
    rkt as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_message_timestamp(_m: *const c_void, kind: *mut c_int) -> i64 {
    if !kind.is_null() {
        *kind = 0;
    }
    -1
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_message_headers(m: *const c_void, h: *mut *mut c_void) -> c_int {
    let m = m as *const Message;
    if (*m).headers.is_null() {
        return NO_ENTRY;
    }
    *h = (*m).headers;
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_outq_len(rk: *mut c_void) -> c_int {
    (*(rk as *mut Client)).flight.len() as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mc_kafka_produce(rk: *mut c_void, r: *const McRecord) -> c_int {
    let r = &*r;
    let bytes = |p: *const u8, n: usize| {
        if p.is_null() || n == 0 {
            vec![]
        } else {
            std::slice::from_raw_parts(p, n).to_vec()
        }
    };
    let mut headers = vec![];
    if !r.headers.is_null() {
        let (mut name, mut value, mut len) = (std::ptr::null(), std::ptr::null(), 0usize);
        let mut i = 0;
        while rd_kafka_header_get_all(r.headers, i, &mut name, &mut value, &mut len) == 0 {
            headers.push((CStr::from_ptr(name).to_string_lossy().into_owned(), bytes(value, len)));
            i += 1;
        }
    }
    headers.sort();
    let topic = CStr::from_ptr(r.topic).to_owned();
    let record = Record {
        topic: topic.to_string_lossy().into_owned(),
        payload: bytes(r.value, r.value_len),
        key: bytes(r.key, r.key_len),
        headers,
    };
    let ans = broker().offer(&record);
    if ans == QUEUE_FULL {
        // room is made by the library's own threads
        sched::sleep(1_000_000);
    }
    if ans != 0 {
        return ans;
    }
    let mut m = Box::new(Message {
        err: 0,
        rkt: std::ptr::null(),
        partition: 0,
        payload: std::ptr::null(),
        len: record.payload.len(),
        key: std::ptr::null(),
        key_len: record.key.len(),
        offset: 0,
        private: r.opaque,
        headers: r.headers,
        topic,
        record,
    });
    m.rkt = m.topic.as_ptr() as *const c_void;
    // what was given with no pointer comes back with none
    if !r.value.is_null() {
        m.payload = m.record.payload.as_ptr() as *const c_void;
    }
    if !r.key.is_null() {
        m.key = m.record.key.as_ptr() as *const c_void;
    }
    (*(rk as *mut Client)).flight.push(m);
    0
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_rd_kafka_poll(rk: *mut c_void, timeout_ms: c_int) -> c_int {
    let c = &mut *(rk as *mut Client);
    sched::point();
    let held: Vec<Record> = c.flight.iter().map(|m| m.record.clone()).collect();
    let mut what = if held.is_empty() { vec![] } else { broker().report(&held) };
    if what.is_empty() {
        sched::sleep(timeout_ms.max(1) as u64 * 1_000_000);
        return 0;
    }
    let mut gone = vec![];
    for (i, err) in what.drain(..) {
        let m = &mut c.flight[i];
        m.err = err;
        m.offset = if err == 0 { 7 } else { -1001 };
        REPORT.expect("ENGINE: no delivery callback")(rk, &**m, c.opaque);
        gone.push(i);
    }
    let n = gone.len();
    gone.sort();
    for i in gone.into_iter().rev() {
        let m = c.flight.remove(i);
        if !m.headers.is_null() {
            rd_kafka_headers_destroy(m.headers);
        }
    }
    n as c_int
}
