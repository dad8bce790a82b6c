//! Random numbers, guarded calls and the recording of histories.
//!
//! The harness only drives the library and writes down what it did. What is
//! right is decided by the TLA+ specification in ../spec.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::LocalKey;
use std::time::Duration;

/// splitmix64
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: &str) -> Rng {
        let mut h = seed ^ 0x9E37_79B9_7F4A_7C15;
        for b in stream.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01B3);
        }
        let mut r = Rng(h);
        r.next();
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// 0 .. n-1
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }

    /// a ..= b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }

    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }

    pub fn byte(&mut self) -> u8 { self.next() as u8 }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0 .. n).map(|_| self.byte()).collect() }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
}

/// JSON text under construction
#[derive(Default, Clone)]
pub struct J(pub String);

impl J {
    pub fn num(x: i64) -> J { J(x.to_string()) }
    pub fn boolean(x: bool) -> J { J((if x { "true" } else { "false" }).to_string()) }
    pub fn str(x: &str) -> J { J(format!("\"{}\"", x)) }
    pub fn bytes(x: &[u8]) -> J { J::ints(x.iter().map(|&b| i64::from(b))) }
    pub fn ints<I: IntoIterator<Item = i64>>(x: I) -> J {
        let mut s = String::from("[");
        for (i, v) in x.into_iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&v.to_string());
        }
        s.push(']');
        J(s)
    }
    pub fn list<I: IntoIterator<Item = J>>(x: I) -> J {
        let mut s = String::from("[");
        for (i, v) in x.into_iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&v.0);
        }
        s.push(']');
        J(s)
    }
    pub fn obj(x: &[(&str, J)]) -> J {
        let mut s = String::from("{");
        for (i, (k, v)) in x.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push('"');
            s.push_str(k);
            s.push_str("\":");
            s.push_str(&v.0);
        }
        s.push('}');
        J(s)
    }
}

/// Big numbers: base 10000 digits, least significant first (BigNat.tla)
pub fn big(mut x: u128) -> J {
    let mut d = Vec::new();
    while x > 0 {
        d.push((x % 10000) as i64);
        x /= 10000;
    }
    J::ints(d)
}

static OUT: Mutex<Option<BufWriter<File>>> = Mutex::new(None);
static RECORDS: AtomicU64 = AtomicU64::new(0);
/// 0: no call running, else number of the call running
static RUNNING: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// Where the last panic was
    static PLACE: RefCell<String> = RefCell::new(String::new());
}
static CURRENT: Mutex<String> = Mutex::new(String::new());

const HANG_S: u64 = 25;

/// Opens the record file and starts the watchdog.
pub fn start(path: &str) {
    *OUT.lock().unwrap() = Some(BufWriter::with_capacity(1 << 20, File::create(path).unwrap()));
    std::panic::set_hook(Box::new(|i| {
        let place = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PLACE.with(|p| *p.borrow_mut() = place);
    }));
    std::thread::spawn(|| {
        let mut last = (0, 0, 0);
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let run = RUNNING.load(Ordering::SeqCst);
            let now = (run, CALLS.load(Ordering::SeqCst), RECORDS.load(Ordering::SeqCst));
            if now == last {
                same += 1;
                // between calls, values are made with the library as well
                if same >= if run != 0 { HANG_S } else { 3 * HANG_S } {
                    let what = CURRENT.lock().unwrap().clone();
                    emit(&J::obj(&[("k", J::str("fault")), ("st", J::str("hang")), ("what", J::str(&what))]));
                    finish();
                    std::process::exit(0);
                }
            } else {
                same = 0;
                last = now;
            }
        }
    });
}

pub fn finish() {
    let mut out = OUT.lock().unwrap();
    if let Some(f) = out.as_mut() {
        f.flush().unwrap();
    }
    println!("records={} calls={}", RECORDS.load(Ordering::SeqCst), CALLS.load(Ordering::SeqCst));
}

/// What becomes of the records of a thread (see threads.rs)
pub struct Sink {
    of: &'static str,
    every: u64,
    count: u64,
    known: Arc<HashSet<u64>>,
    extra: usize,
    pub seen: HashSet<u64>,
}

impl Sink {
    /// One record of `every` is written, all are remembered
    pub fn alone(of: &'static str, every: u64, from: u64) -> Sink {
        Sink { of, every, count: from, known: Arc::default(), extra: 0, seen: HashSet::new() }
    }
    /// Records not known are written
    pub fn among(of: &'static str, known: Arc<HashSet<u64>>, extra: usize) -> Sink {
        Sink { of, every: 0, count: 0, known, extra, seen: HashSet::new() }
    }
    fn take(&mut self, s: &str) -> Option<String> {
        let mut h = DefaultHasher::new();
        (self.of, s).hash(&mut h);
        let h = h.finish();
        self.count += 1;
        let take = if self.every > 0 {
            self.seen.insert(h);
            self.count % self.every == 0 || s.contains("\"k\":\"fault\"")
        } else {
            let new = ! self.known.contains(&h) && self.extra > 0;
            if new { self.extra -= 1; }
            new
        };
        if take { Some(format!("{{\"of\":\"{}\",{}", self.of, &s[1 ..])) } else { None }
    }
}

thread_local! {
    /// Calls and records not counted yet, if the thread counts by itself
    static FREE: Cell<Option<u64>> = Cell::new(None);
    static FREE_RECORDS: Cell<Option<u64>> = Cell::new(None);
    /// Who makes the calls
    static HAND: RefCell<Option<Sender<Job>>> = RefCell::new(None);
    /// How often before() was called
    static BEFORE: Cell<usize> = Cell::new(0);
    static SINK: RefCell<Option<Sink>> = RefCell::new(None);
    /// Number of the worker, if workers take turns
    static WORKER: Cell<usize> = Cell::new(usize::max_value());
}

/// Sets another sink, gives the one before
pub fn sink(s: Option<Sink>) -> Option<Sink> {
    BEFORE.with(|x| x.set(0));
    SINK.with(|x| std::mem::replace(&mut *x.borrow_mut(), s))
}

/// Workers taking turns: whose turn it is, who has not ended, calls between passing on
struct Turns { turn: usize, alive: Vec<bool>, calls: usize, rng: Rng }

static TURNS: Mutex<Option<Turns>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

pub fn turns(workers: usize, seed: u64, calls: usize) {
    *TURNS.lock().unwrap() = Some(Turns { turn: 0, alive: vec![true; workers], calls, rng: Rng::new(seed, "turns") });
}

fn pass(t: &mut Turns) {
    let on: Vec<usize> = (0 .. t.alive.len()).filter(|&w| t.alive[w]).collect();
    if ! on.is_empty() { t.turn = *t.rng.pick(&on); }
    TURN.notify_all();
}

fn wait(w: usize) {
    let mut g = TURNS.lock().unwrap();
    while g.as_ref().unwrap().turn != w { g = TURN.wait(g).unwrap(); }
}

pub fn turn_begin(w: usize) { WORKER.with(|x| x.set(w)); wait(w); }

pub fn turn_end() {
    let w = WORKER.with(|x| x.replace(usize::max_value()));
    let mut g = TURNS.lock().unwrap();
    let t = g.as_mut().unwrap();
    t.alive[w] = false;
    pass(t);
}

/// Before a call: perhaps it is another worker's turn
fn turn() {
    let w = WORKER.with(|x| x.get());
    if w == usize::max_value() { return; }
    {
        let mut g = TURNS.lock().unwrap();
        let t = g.as_mut().unwrap();
        if t.rng.below(t.calls) != 0 { return; }
        pass(t);
    }
    wait(w);
}

pub struct Job(*mut dyn FnMut(), Sender<()>);

// the caller waits until the job is done
unsafe impl Send for Job {}

/// A thread that makes the calls of several workers
pub fn hands() -> Sender<Job> {
    let (s, r) = channel::<Job>();
    std::thread::spawn(move || for j in r { unsafe { (*j.0)() }; j.1.send(()).unwrap(); });
    s
}

/// From now on that thread makes the calls of this one
pub fn lend(to: Option<Sender<Job>>) { HAND.with(|x| *x.borrow_mut() = to); }

fn hand<T, F: FnOnce() -> T>(to: &Sender<Job>, f: F) -> Option<T> {
    CALLS.fetch_add(1, Ordering::SeqCst);
    let (s, r) = channel();
    let (mut f, mut out) = (Some(f), None);
    {
        let mut job = || out = f.take().and_then(|f| catch_unwind(AssertUnwindSafe(f)).ok());
        let p: *mut (dyn FnMut() + '_) = &mut job;
        let p: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(p) };
        to.send(Job(p, s)).unwrap();
        r.recv().unwrap();
    }
    out
}

/// Counts something in a thread that shall not wait for others, now and then in all
fn count(mine: &'static LocalKey<Cell<Option<u64>>>, all: &AtomicU64) -> bool {
    mine.with(|x| match x.get() {
        Some(n) => {
            if n == 255 { all.fetch_add(256, Ordering::SeqCst); }
            x.set(Some((n + 1) % 256));
            true
        },
        None => false,
    })
}

/// From now on the thread counts by itself
pub fn free() {
    FREE.with(|x| x.set(Some(0)));
    FREE_RECORDS.with(|x| x.set(Some(0)));
}

pub fn emit(j: &J) {
    if ! count(&FREE_RECORDS, &RECORDS) { RECORDS.fetch_add(1, Ordering::SeqCst); }
    let other = SINK.with(|x| x.borrow_mut().as_mut().map(|x| x.take(&j.0)));
    let text = match &other { Some(None) => return, Some(Some(s)) => s, None => &j.0 };
    let mut out = OUT.lock().unwrap();
    let f = out.as_mut().unwrap();
    f.write_all(text.as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
}

/// Runs a recorder. A panic of the library while values for it are made is
/// recorded as a fault, a panic of the recorder ends the process.
pub fn guarded<F: FnOnce()>(f: F) {
    if catch_unwind(AssertUnwindSafe(f)).is_ok() { return; }
    let place = PLACE.with(|p| p.borrow().clone());
    if place.is_empty() || place.starts_with("src/") {
        eprintln!("recorder panicked at {}", place);
        std::process::exit(101);
    }
    emit(&J::obj(&[("k", J::str("fault")), ("st", J::str("panic")), ("what", J::str(&place))]));
}

/// Names what is being exercised, for the report of a hang.
pub fn what(s: &str) {
    let mut c = CURRENT.lock().unwrap();
    c.clear();
    c.extend(s.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(400));
}

/// Runs library code. `None`: it panicked.
pub fn call<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    turn();
    if let Some(h) = HAND.with(|x| x.borrow().clone()) { return hand(&h, f); }
    if count(&FREE, &CALLS) { return catch_unwind(AssertUnwindSafe(f)).ok(); }
    let n = CALLS.fetch_add(1, Ordering::SeqCst) + 1;
    RUNNING.store(n, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    RUNNING.store(0, Ordering::SeqCst);
    r.ok()
}

pub fn st<T>(r: &Option<T>) -> J { J::str(if r.is_some() { "ok" } else { "panic" }) }

/// CRC-32 of sections built by the harness itself (bit by bit)
pub fn crc(data: &[u8]) -> u32 {
    let mut r: u32 = 0xFFFF_FFFF;
    for &b in data {
        r ^= u32::from(b) << 24;
        for _ in 0 .. 8 {
            r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04C1_1DB7 } else { r << 1 };
        }
    }
    r
}

/// Completes a section: length field and checksum
pub fn seal(sec: &mut Vec<u8>) {
    let len = sec.len() + 4 - 3;
    sec[1] = (sec[1] & 0xF0) | (len >> 8) as u8;
    sec[2] = len as u8;
    let c = crc(sec);
    sec.extend_from_slice(&c.to_be_bytes());
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
}

impl Ctx {
    /// Quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { (4 * quick).min(thorough) } }
    pub fn rng(&self, stream: &str) -> Rng { Rng::new(self.seed, stream) }
}

/// A vector with this content that was used before: the room behind it is not blank
pub fn used(rng: &mut Rng, content: &[u8]) -> Vec<u8> {
    let n = rng.below(9000);
    let mut v = content.to_vec();
    v.extend(rng.bytes(n));
    v.truncate(content.len());
    v
}

/// What an output may hold already, every time something else; the room behind it is not always blank
pub fn before() -> Vec<u8> {
    const SIZES: [usize; 16] = [1, 0, 1, 2, 5, 1, 13, 100, 1, 184, 250, 0, 254, 255, 256, 300];
    let k = BEFORE.with(|x| x.replace(x.get() + 1));
    let n = if k % 240 == 239 { [1000, 1024, 2048, 4000, 4096, 5000][k / 240 % 6] } else { SIZES[k % 16] };
    let mut v: Vec<u8> = (0 .. n).map(|i| (i * 7 + k) as u8).collect();
    if k % 5 == 0 { v.resize(n + 600, 0xE5); v.truncate(n); }
    v
}
