//! The whole path from encoder to parser (C28)

use crate::core::*;
use crate::io::{Item, Script, Source};
use crate::mux::empty;
use crate::tables::{schedule, table, Table, KINDS};
use mpegts::psi::Psi;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use mpegts::ts;
use std::io::Read;

/// A PID with tables of one kind or of several
struct Line { pid: u16, cc: u8, sent: Vec<Table>, got: Vec<Table>, out: Vec<u8>, psi: Psi, now: Vec<Table> }

fn parsers() -> Vec<Table> { KINDS.iter().map(|k| Table::empty(k)).collect() }

/// Reads the adapter in pieces
#[derive(Debug)]
struct Pieces<R> { inner: R, sizes: Vec<usize>, turn: usize }

impl<R: Read> Read for Pieces<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.turn % self.sizes.len()].min(buf.len());
        self.turn += 1;
        self.inner.read(&mut buf[.. n])
    }
}

struct Any(Box<dyn Read>);

impl std::fmt::Debug for Any {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Any") }
}

impl Read for Any {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { self.0.read(buf) }
}

/// What an application does with a packet of the line
fn receive(l: &mut Line, p: &[u8]) {
    if ! ts::is_payload(p) { return; }
    l.psi.mux(p);
    let b = &l.psi.buffer;
    if b.len() >= 8 && b[0] == 0x70 {
        // no checksum
    } else if ! l.psi.check() {
        return;
    }
    // every parser takes what is its own
    for t in &mut l.now { t.parse(&l.psi); }
    let kind = match b[0] {
        0x00 => "pat", 0x02 => "pmt", 0x40 | 0x41 => "nit", 0x42 | 0x46 => "sdt", 0x4E ..= 0x6F => "eit", 0x70 => "tdt", 0x73 => "tot",
        _ => return,
    };
    let last = match kind {
        "tdt" | "tot" => true,
        "eit" => b[0] == b[13] && b[6] == b[7],
        _ => b[6] == b[7],
    };
    if last {
        let i = KINDS.iter().position(|k| *k == kind).unwrap();
        l.got.push(std::mem::replace(&mut l.now[i], Table::empty(kind)));
    }
}

fn named(t: &Table) -> J { J::obj(&[("kind", J::str(t.kind())), ("t", t.json())]) }

fn history(rng: &mut Rng, kinds: &[&'static str], room: usize, long: bool) {
    let (usual, shared) = (rng.chance(1, 3), rng.chance(1, 4));
    path(rng, kinds, room, long, usual, shared);
}

/// usual: the PIDs of the standard; shared: all tables are written to one output
fn path(rng: &mut Rng, kinds: &[&'static str], room: usize, long: bool, usual: bool, shared: bool) {
    what("path");
    let mut lines: Vec<Line> = Vec::new();
    for kind in kinds {
        let pid = loop {
            let p = match *kind {
                "pat" if usual => 0, "nit" if usual => 0x10, "sdt" if usual => 0x11, "eit" if usual => 0x12, "tdt" | "tot" if usual => 0x14,
                _ => rng.below(8191) as u16,
            };
            if usual || lines.iter().all(|l| l.pid != p) { break p; }
        };
        let mut sent: Vec<Table> = Vec::new();
        for _ in 0 .. rng.range(1, 3) {
            let n = match *kind { "pat" => if long { rng.range(200, 1500) } else { rng.below(20) }, _ => if long { rng.range(3, 40) } else { rng.below(4) } };
            let n = if *kind == "eit" { n.max(1).min(20) } else { n };
            sent.push(if *kind == "eit" && rng.chance(1, 3) { schedule(rng, 6, room) } else { table(rng, kind, n, room) });
        }
        match lines.iter_mut().find(|l| l.pid == pid) {
            Some(l) => for t in sent {
                // tables of several kinds in any order
                let k = rng.below(l.sent.len() + 1);
                l.sent.insert(k, t);
            },
            None => lines.push(Line { pid, cc: rng.below(16) as u8, sent, got: vec![], out: vec![], psi: Psi::default(), now: parsers() }),
        }
    }
    // the encoder: each table once or several times, counters running on
    let mut order: Vec<Vec<usize>> = Vec::new();
    let mut wire: Vec<u8> = Vec::new();
    let r = call(|| if shared {
        // all into one output
        let mut ccs: Vec<u8> = lines.iter().map(|l| l.cc).collect();
        let mut next = vec![0usize; lines.len()];
        order = vec![vec![]; lines.len()];
        loop {
            let open: Vec<usize> = (0 .. lines.len()).filter(|&i| next[i] < lines[i].sent.len()).collect();
            if open.is_empty() { break; }
            let i = *rng.pick(&open);
            lines[i].sent[next[i]].demux(lines[i].pid, &mut ccs[i], &mut wire);
            order[i].push(next[i]);
            if rng.chance(2, 3) { next[i] += 1; }
        }
    } else {
        for l in &mut lines {
            let mut cc = l.cc;
            let mut o = Vec::new();
            for (k, t) in l.sent.iter().enumerate() {
                for _ in 0 .. rng.range(1, 2) {
                    t.demux(l.pid, &mut cc, &mut l.out);
                    o.push(k);
                }
            }
            order.push(o);
        }
    });
    // the multiplexer
    let mut at = vec![0usize; lines.len()];
    let burst = rng.chance(1, 3);
    loop {
        let open: Vec<usize> = (0 .. lines.len()).filter(|&i| at[i] < lines[i].out.len()).collect();
        if open.is_empty() { break; }
        let i = *rng.pick(&open);
        let n = if burst { rng.range(1, 6) } else { 1 };
        for _ in 0 .. n {
            if at[i] + 188 > lines[i].out.len() { break; }
            wire.extend_from_slice(&lines[i].out[at[i] .. at[i] + 188]);
            at[i] += 188;
        }
        match rng.below(6) {
            0 => wire.extend_from_slice(ts::NULL_PACKET),
            1 => {
                // other traffic, with sync bytes inside
                let mut p = rng.bytes(188);
                p[0] = 0x47;
                let free = loop { let x = rng.below(8192) as u16; if lines.iter().all(|l| l.pid != x) { break x; } };
                p[1] = (p[1] & 0xE0) | (free >> 8) as u8;
                p[2] = free as u8;
                for _ in 0 .. 3 { let k = rng.range(1, 187); if k > 2 { p[k] = 0x47; } }
                wire.extend_from_slice(&p);
            },
            2 => {
                // without payload, on a line of ours: the counter stands
                let prev = lines[i].out[at[i] - 188 + 3] & 15;
                wire.extend_from_slice(&empty(lines[i].pid, prev, true)[..]);
            },
            _ => {},
        }
    }
    // the receiver
    let mode = rng.below(4);
    let sizes: Vec<usize> = match rng.below(5) { 0 => vec![1], 1 => vec![188], 2 => vec![1_000_000], 3 => vec![rng.range(1, 400)],
        _ => (0 .. rng.range(2, 9)).map(|_| rng.range(1, 300)).collect() };
    let mut read = 0;
    let r2 = call(|| {
        let items: Vec<Item> = wire.chunks(188).map(|p| Item::Packet(p.to_vec())).collect();
        let inner: Box<dyn Read> = match mode {
            0 => Box::new(TsDrain::new(Script(items.into()))),
            1 => Box::new(Pieces { inner: TsDrain::new(Script(items.into())), sizes, turn: 0 }),
            2 => { let mut v = Vec::new(); TsDrain::new(Script(items.into())).read_to_end(&mut v).unwrap(); Box::new(Source::new(v, vec![], sizes)) },
            _ => Box::new(Pieces { inner: TsDrain::new(TsReader::new(Source::new(wire.clone(), vec![], sizes.clone()))), sizes: vec![77, 3, 188, 1], turn: 0 }),
        };
        let mut rd = TsReader::new(Any(inner));
        let mut p = [0u8; 188];
        while let Ok(n) = rd.read(&mut p) {
            if n == 0 { break; }
            read += 1;
            let pid = ts::get_pid(&p);
            for l in lines.iter_mut() { if l.pid == pid { receive(l, &p); } }
        }
    });
    let ok = r.is_some() && r2.is_some();
    emit(&J::obj(&[
        ("k", J::str("path")), ("st", J::str(if ok { "ok" } else { "panic" })), ("mode", J::num(mode as i64)),
        ("wire", J::bytes(&wire)), ("read", J::num(read)),
        ("lines", J::list(lines.iter().zip(order.iter()).map(|(l, o)| J::obj(&[
            ("pid", J::num(i64::from(l.pid))), ("cc", J::num(i64::from(l.cc))),
            ("sent", J::list(o.iter().map(|&k| named(&l.sent[k])))),
            ("got", J::list(l.got.iter().map(named))),
        ])))),
    ]));
}

pub fn c28(ctx: &Ctx) {
    let mut rng = ctx.rng("c28");
    for kind in &KINDS { for _ in 0 .. 4 { history(&mut rng, &[kind], 40, false); } }
    for _ in 0 .. 12 { history(&mut rng, &KINDS, 40, false); }
    for _ in 0 .. ctx.n(6, 60) { history(&mut rng, &["tdt", "tot", "eit", "eit", "sdt"], 60, false); }
    for _ in 0 .. ctx.n(90, 900) {
        let n = rng.range(2, 5);
        let kinds: Vec<&'static str> = (0 .. n).map(|_| *rng.pick(&KINDS)).collect();
        let room = *rng.pick(&[20, 60, 200]);
        history(&mut rng, &kinds, room, false);
    }
    for _ in 0 .. ctx.n(10, 100) {
        let n = rng.range(1, 3);
        let kinds: Vec<&'static str> = (0 .. n).map(|_| *rng.pick(&KINDS)).collect();
        history(&mut rng, &kinds, 150, true);
    }
    for _ in 0 .. ctx.n(3, 30) { path(&mut rng, &["pat", "pmt", "sdt", "tdt", "pat", "tot"], 150, true, true, true); }
}
