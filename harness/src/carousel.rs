//! Tables sent again and again to a receiver that joins somewhere (C35)

use crate::core::*;
use crate::io::Source;
use crate::mux::empty;
use crate::tables::{table, Table};
use mpegts::psi::Psi;
use mpegts::reader::{TsRead, TsReader};
use mpegts::ts;
use std::collections::BTreeMap;

/// What is collected of a table
struct Part { ver: u8, last: u8, tot: Vec<u8>, have: BTreeMap<u8, Psi>, told: bool }

struct Line {
    pid: u16,
    cc: u8,
    /// tables in the order of their sending, those of one slot are versions of one table
    slots: Vec<Vec<Table>>,
    psi: Psi,
    parts: BTreeMap<(u8, u16), Part>,
}

fn named(t: &Table) -> J { J::obj(&[("kind", J::str(t.kind())), ("t", t.json())]) }

/// Table id, extension and version
fn ids(t: &Table) -> (u8, u16, u8) {
    match t {
        Table::Pat(t) => (0, t.tsid, t.version), Table::Pmt(t) => (2, t.pnr, t.version),
        Table::Sdt(t) => (t.table_id, t.tsid, t.version), Table::Nit(t) => (t.table_id, t.network_id, t.version),
        Table::Eit(t) => (t.table_id, t.pnr, t.version), Table::Tdt(_) => (0x70, 0, 0), Table::Tot(_) => (0x73, 0, 0),
    }
}

/// Makes b the next version of a
fn succeed(a: &Table, b: &mut Table) {
    match (a, b) {
        (Table::Pat(a), Table::Pat(b)) => { b.tsid = a.tsid; b.version = (a.version + 1) & 31; },
        (Table::Pmt(a), Table::Pmt(b)) => { b.pnr = a.pnr; b.version = (a.version + 1) & 31; },
        (Table::Sdt(a), Table::Sdt(b)) => { b.table_id = a.table_id; b.tsid = a.tsid; b.onid = a.onid; b.version = (a.version + 1) & 31; },
        (Table::Nit(a), Table::Nit(b)) => { b.table_id = a.table_id; b.network_id = a.network_id; b.version = (a.version + 1) & 31; },
        (Table::Eit(a), Table::Eit(b)) => { b.table_id = a.table_id; b.pnr = a.pnr; b.tsid = a.tsid; b.onid = a.onid; b.version = (a.version + 1) & 31; },
        _ => {},
    }
}

/// What the receiving program does with a packet of the line
fn receive(l: &mut Line, p: &[u8]) -> Option<Table> {
    if ! ts::is_payload(p) { return None; }
    l.psi.mux(p);
    if ! l.psi.check() { return None; }
    let b = &l.psi.buffer[.. l.psi.size];
    let kind = match b[0] {
        0x00 => "pat", 0x02 => "pmt", 0x40 | 0x41 => "nit", 0x42 | 0x46 => "sdt", 0x4E ..= 0x6F => "eit", 0x73 => "tot",
        _ => return None,
    };
    let (tid, ext, ver) = ids(&Table::from_psi(kind, &l.psi));
    let (num, last, tot) = if kind == "tot" { (0, 0, b.to_vec()) } else { (b[6], b[7], vec![]) };
    let fresh = |tot| Part { ver, last, tot, have: BTreeMap::new(), told: false };
    let part = l.parts.entry((tid, ext)).or_insert_with(|| fresh(tot.clone()));
    if part.ver != ver || part.last != last || part.tot != tot { *part = fresh(tot); }
    let psi = &l.psi;
    part.have.entry(num).or_insert_with(|| psi.clone());
    if part.told || part.have.len() != usize::from(last) + 1 { return None; }
    part.told = true;
    let mut t = Table::empty(kind);
    for s in part.have.values() { t.parse(s); }
    Some(t)
}

fn size(rng: &mut Rng, kind: &str, long: bool) -> usize {
    match kind {
        "pat" => if long { rng.range(250, 600) } else { rng.below(30) },
        "eit" => rng.range(1, if long { 8 } else { 3 }),
        _ => if long { rng.range(10, 30) } else { rng.below(4) },
    }
}

fn history(rng: &mut Rng, long: bool, rounds: usize) {
    what("repeated tables");
    let kinds = ["pat", "pmt", "sdt", "nit", "eit", "tot"];
    let room = if long { rng.range(60, 130) } else { rng.range(0, 60) };
    let mut lines: Vec<Line> = Vec::new();
    for _ in 0 .. if long { 1 } else { rng.range(1, 3) } {
        let pid = loop { let p = rng.below(8191) as u16; if lines.iter().all(|l| l.pid != p) { break p; } };
        let mut slots: Vec<Vec<Table>> = Vec::new();
        for _ in 0 .. if long { 1 } else { rng.range(1, 3) } {
            let kind = *rng.pick(&kinds[.. if long { 5 } else { 6 }]);
            let n = size(rng, kind, long);
            let t = table(rng, kind, n, room);
            let (tid, ext, _) = ids(&t);
            if slots.iter().all(|s| { let (a, b, _) = ids(&s[0]); (a, b) != (tid, ext) }) { slots.push(vec![t]); }
        }
        lines.push(Line { pid, cc: rng.below(16) as u8, slots, psi: Psi::default(), parts: BTreeMap::new() });
    }
    // the sender; marks: where the repetitions begin
    let (mut wire, mut marks) = (Vec::new(), Vec::new());
    let calm = rng.chance(1, 2);
    let sent = call(|| for round in 0 .. rounds {
        if round + 1 == rounds && calm { for _ in 0 .. rng.range(1, 3) { wire.extend_from_slice(ts::NULL_PACKET); } }
        marks.push(wire.len());
        let mut outs: Vec<Vec<u8>> = Vec::new();
        for l in &mut lines {
            let mut out = Vec::new();
            for s in &mut l.slots {
                if round > 0 && rng.chance(1, 3) {
                    let kind = s[0].kind();
                    let n = if rng.chance(1, 3) { s[s.len() - 1].len() } else { size(rng, kind, long) };
                    let mut t = table(rng, kind, n, room);
                    succeed(&s[s.len() - 1], &mut t);
                    s.push(t);
                }
                s[s.len() - 1].demux(l.pid, &mut l.cc, &mut out);
            }
            outs.push(out);
        }
        let mut at = vec![0usize; outs.len()];
        loop {
            let open: Vec<usize> = (0 .. outs.len()).filter(|&i| at[i] < outs[i].len()).collect();
            if open.is_empty() { break; }
            let i = *rng.pick(&open);
            let p = &outs[i][at[i] .. at[i] + 188];
            wire.extend_from_slice(p);
            at[i] += 188;
            match rng.below(12) {
                0 => wire.extend_from_slice(ts::NULL_PACKET),
                1 => wire.extend_from_slice(&empty(lines[i].pid, p[3] & 15, true)[..]),
                _ => {},
            }
        }
    });
    // the channel: joined somewhere, disturbed up to the last repetition
    let end = marks.last().cloned().unwrap_or(0);
    let cut = if end == 0 { 0 } else { match rng.below(4) { 0 => 0, 1 => 188 * rng.below(end / 188), _ => rng.below(end) } };
    let (mut d, mut from, mut k) = (Vec::new(), None, cut);
    let faults = rng.below(3);
    while k < wire.len() {
        if k >= end && from.is_none() { from = Some(d.len()); }
        let next = (k / 188 + 1) * 188;
        if k < end && rng.chance(faults, 12) {
            match rng.below(4) {
                0 => k += 1 + rng.below(next - k),
                1 => { let i = k + rng.below(next - k); d.extend_from_slice(&wire[k .. i]); k = next.min(i + rng.range(1, 20)); },
                // strange bytes between packets
                2 => { let n = rng.range(1, 100); d.extend(rng.bytes(n)); d.extend_from_slice(&wire[k .. next]); k = next; },
                // damaged, on its own PID
                _ => {
                    let j = loop { let j = rng.below(next - k); let b = (k + j) % 188; if b != 1 && b != 2 { break j; } else if next - k < 4 { break 0; } };
                    let i = d.len();
                    d.extend_from_slice(&wire[k .. next]);
                    d[i + j] ^= 1 << rng.below(8);
                    k = next;
                },
            }
        } else {
            d.extend_from_slice(&wire[k .. next]);
            k = next;
        }
    }
    let pieces: Vec<usize> = match rng.below(4) { 0 => vec![1], 1 => vec![188], 2 => vec![1_000_000], _ => (0 .. rng.range(1, 7)).map(|_| rng.range(1, 400)).collect() };
    // the receiver
    let (mut read, mut ev) = (0, Vec::new());
    let got = call(|| {
        let mut rd = TsReader::new(Source::new(d.clone(), vec![], pieces));
        let mut p = [0u8; 188];
        while let Ok(n) = rd.read(&mut p) {
            if n == 0 { break; }
            read += 1;
            let pid = ts::get_pid(&p);
            for (i, l) in lines.iter_mut().enumerate().filter(|(_, l)| l.pid == pid) {
                if let Some(t) = receive(l, &p) {
                    ev.push(J::obj(&[("i", J::num(read)), ("line", J::num(i as i64 + 1)), ("kind", J::str(t.kind())), ("t", t.json())]));
                }
            }
        }
    });
    emit(&J::obj(&[
        ("k", J::str("carousel")), ("st", J::str(if sent.is_some() && got.is_some() { "ok" } else { "panic" })),
        ("d", J::bytes(&d)), ("from", J::num(from.unwrap_or(0) as i64)), ("read", J::num(read)),
        ("lines", J::list(lines.iter().map(|l| J::obj(&[
            ("pid", J::num(i64::from(l.pid))),
            ("sent", J::list(l.slots.iter().flatten().map(named))),
            ("final", J::list(l.slots.iter().map(|s| named(&s[s.len() - 1])))),
        ])))),
        ("ev", J::list(ev)),
    ]));
}

pub fn c35(ctx: &Ctx) {
    let mut rng = ctx.rng("c35");
    for _ in 0 .. ctx.n(250, 4000) {
        let rounds = rng.range(2, 6);
        history(&mut rng, false, rounds);
    }
    for _ in 0 .. ctx.n(50, 500) {
        let rounds = rng.range(2, 4);
        history(&mut rng, true, rounds);
    }
    // joined before the first packet, never changed or disturbed
    for _ in 0 .. ctx.n(5, 40) { history(&mut rng, false, 1); }
}
