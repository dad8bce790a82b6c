//! Tables: values, writing and reading (C06 .. C14)

use crate::core::*;
use crate::desc::{descriptors, list_json, moment, raw, second, unknown_tag, upto};
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

pub const KINDS: [&str; 7] = ["pat", "pmt", "sdt", "nit", "eit", "tdt", "tot"];

pub enum Table {
    Pat(Pat), Pmt(Pmt), Sdt(Sdt), Nit(Nit), Eit(Eit), Tdt(Tdt), Tot(Tot),
}

fn item_json(n: Vec<i64>, d: &Descriptors) -> J { J::obj(&[("n", J::ints(n)), ("d", list_json(d))]) }

macro_rules! each {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            Table::Pat($t) => $e, Table::Pmt($t) => $e, Table::Sdt($t) => $e, Table::Nit($t) => $e, Table::Eit($t) => $e,
            Table::Tdt($t) => $e, Table::Tot($t) => $e,
        }
    };
}

impl Table {
    pub fn empty(kind: &str) -> Table {
        match kind {
            "pat" => Table::Pat(Pat::default()), "pmt" => Table::Pmt(Pmt::default()), "sdt" => Table::Sdt(Sdt::default()),
            "nit" => Table::Nit(Nit::default()), "eit" => Table::Eit(Eit::default()), "tdt" => Table::Tdt(Tdt::default()),
            _ => Table::Tot(Tot::default()),
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Table::Pat(_) => "pat", Table::Pmt(_) => "pmt", Table::Sdt(_) => "sdt", Table::Nit(_) => "nit",
            Table::Eit(_) => "eit", Table::Tdt(_) => "tdt", Table::Tot(_) => "tot",
        }
    }

    pub fn json(&self) -> J {
        let none = Descriptors::default();
        let i = |v: u16| i64::from(v);
        let b = |v: u8| i64::from(v);
        let (hd, ds, items): (Vec<i64>, &Descriptors, Vec<J>) = match self {
            Table::Pat(t) => (vec![b(t.version), i(t.tsid)], &none,
                t.items.iter().map(|x| item_json(vec![i(x.pnr), i(x.pid)], &none)).collect()),
            Table::Pmt(t) => (vec![b(t.version), i(t.pnr), i(t.pcr)], &t.descriptors,
                t.items.iter().map(|x| item_json(vec![b(x.stream_type), i(x.pid)], &x.descriptors)).collect()),
            Table::Sdt(t) => (vec![b(t.table_id), b(t.version), i(t.tsid), i(t.onid)], &none,
                t.items.iter().map(|x| item_json(vec![i(x.pnr), b(x.eit_schedule_flag), b(x.eit_present_following_flag),
                    b(x.running_status), b(x.free_ca_mode)], &x.descriptors)).collect()),
            Table::Nit(t) => (vec![b(t.table_id), b(t.version), i(t.network_id)], &t.descriptors,
                t.items.iter().map(|x| item_json(vec![i(x.tsid), i(x.onid)], &x.descriptors)).collect()),
            Table::Eit(t) => (vec![b(t.table_id), b(t.version), i(t.pnr), i(t.tsid), i(t.onid)], &none,
                t.items.iter().map(|x| {
                    let m = moment(x.start);
                    item_json(vec![i(x.event_id), m[0], m[1], i64::from(x.duration), b(x.status), b(x.ca_mode)], &x.descriptors)
                }).collect()),
            Table::Tdt(t) => (moment(t.time).to_vec(), &none, vec![]),
            Table::Tot(t) => (moment(t.time).to_vec(), &t.descriptors, vec![]),
        };
        J::obj(&[("hd", J::ints(hd)), ("ds", list_json(ds)), ("items", J::list(items))])
    }

    pub fn demux(&self, pid: u16, cc: &mut u8, dst: &mut Vec<u8>) { each!(self, t => t.demux(pid, cc, dst)) }

    pub fn parse(&mut self, psi: &Psi) { each!(self, t => t.parse(psi)) }

    pub fn from_psi(kind: &str, psi: &Psi) -> Table {
        match kind {
            "pat" => Table::Pat(Pat::from(psi)), "pmt" => Table::Pmt(Pmt::from(psi)), "sdt" => Table::Sdt(Sdt::from(psi)),
            "nit" => Table::Nit(Nit::from(psi)), "eit" => Table::Eit(Eit::from(psi)), "tdt" => Table::Tdt(Tdt::from(psi)),
            _ => Table::Tot(Tot::from(psi)),
        }
    }

    /// Takes over the contents of another table of its kind, field by field
    pub fn become_like(&mut self, t: Table) {
        match (self, t) {
            (Table::Pat(a), Table::Pat(b)) => { a.version = b.version; a.tsid = b.tsid; a.items = b.items; },
            (Table::Pmt(a), Table::Pmt(b)) => { a.version = b.version; a.pnr = b.pnr; a.pcr = b.pcr; a.descriptors = b.descriptors; a.items = b.items; },
            (Table::Sdt(a), Table::Sdt(b)) => { a.table_id = b.table_id; a.version = b.version; a.tsid = b.tsid; a.onid = b.onid; a.items = b.items; },
            (Table::Nit(a), Table::Nit(b)) => {
                a.table_id = b.table_id; a.version = b.version; a.network_id = b.network_id; a.descriptors = b.descriptors; a.items = b.items;
            },
            (Table::Eit(a), Table::Eit(b)) => {
                a.table_id = b.table_id; a.version = b.version; a.pnr = b.pnr; a.tsid = b.tsid; a.onid = b.onid; a.items = b.items;
            },
            (Table::Tdt(a), Table::Tdt(b)) => a.time = b.time,
            (Table::Tot(a), Table::Tot(b)) => { a.time = b.time; a.descriptors = b.descriptors; },
            _ => {},
        }
    }

    pub fn debug(&self) -> String { each!(self, t => format!("{:?}", t)) }

    pub fn len(&self) -> usize {
        match self {
            Table::Pat(t) => t.items.len(), Table::Pmt(t) => t.items.len(), Table::Sdt(t) => t.items.len(),
            Table::Nit(t) => t.items.len(), Table::Eit(t) => t.items.len(), _ => 0,
        }
    }
}

// ---------------------------------------------------------------------------
// Values

fn ver(rng: &mut Rng) -> u8 { rng.below(32) as u8 }
// often a few values, so that some coincide
fn id(rng: &mut Rng) -> u16 {
    match rng.below(8) { 0 | 1 => *rng.pick(&[0, 1, 2, 0x100, 0x1FFF, 0xFFFF]), 2 => rng.below(300) as u16, _ => upto(rng, 65535) as u16 }
}
fn pid13(rng: &mut Rng) -> u16 {
    match rng.below(8) { 0 | 1 => *rng.pick(&[0, 1, 2, 0x10, 0x100, 0x1FFF]), 2 => rng.below(36) as u16, 3 => 0x1FE0 + rng.below(32) as u16, _ => upto(rng, 8191) as u16 }
}
fn stream_type(rng: &mut Rng) -> u8 {
    if rng.chance(1, 2) { *rng.pick(&[1, 2, 3, 4, 5, 6, 0x0B, 0x0F, 0x10, 0x11, 0x1B, 0x24, 0x81]) } else { rng.byte() }
}

/// Raw descriptors of exactly n bytes (n = 0 or n >= 2)
pub fn filler(rng: &mut Rng, n: usize) -> Descriptors {
    let mut ds = Descriptors::default();
    let mut left = n;
    // sometimes very many of them
    let tiny = rng.chance(1, 8);
    while left > 0 {
        let mut m = if tiny { rng.range(2, 4).min(left) } else if rng.chance(1, 2) { left } else { rng.range(2, left.max(2)) }.min(257);
        if left - m == 1 { m -= 1; }
        if m < 2 { m = left; }
        let t = unknown_tag(rng);
        ds.push(raw(rng, t, m - 2));
        left -= m;
    }
    ds
}

fn item_descriptors(rng: &mut Rng, room: usize) -> Descriptors {
    match rng.below(6) {
        0 => Descriptors::default(),
        1 => { let n = rng.below(room.min(120) + 1); filler(rng, if n == 1 { 0 } else { n }) },
        _ => descriptors(rng, room),
    }
}

pub fn duration(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => *rng.pick(&[0, 1, 59, 60, 3599, 3600, 86399, 86400, 86401, 90000, 99 * 3600, 359_999]),
        1 => rng.below(360_000) as u32,
        _ => rng.below(14_400) as u32,
    }
}

pub fn pat_item(rng: &mut Rng) -> PatItem { make!(PatItem { pnr: id(rng), pid: pid13(rng) }) }
pub fn pmt_item(rng: &mut Rng, ds: Descriptors) -> PmtItem { make!(PmtItem { stream_type: stream_type(rng), pid: pid13(rng), descriptors: ds }) }
pub fn sdt_item(rng: &mut Rng, ds: Descriptors) -> SdtItem {
    make!(SdtItem {
        pnr: id(rng), eit_schedule_flag: rng.byte() & 1, eit_present_following_flag: rng.byte() & 1, running_status: rng.byte() & 7,
        free_ca_mode: rng.byte() & 1, descriptors: ds,
    })
}
pub fn nit_item(rng: &mut Rng, ds: Descriptors) -> NitItem { make!(NitItem { tsid: id(rng), onid: id(rng), descriptors: ds }) }
pub fn eit_item(rng: &mut Rng, start: u64, ds: Descriptors) -> EitItem {
    make!(EitItem { event_id: id(rng), start, duration: duration(rng), status: rng.byte() & 7, ca_mode: rng.byte() & 1, descriptors: ds })
}

/// The same table held by a program that has sent and received others with it before
fn worn(rng: &mut Rng, t: Table) -> Table {
    let n = rng.below(5);
    let mut u = plain_table(rng, t.kind(), n, 40);
    if rng.chance(1, 2) {
        let mut out = Vec::new();
        for _ in 0 .. rng.range(1, 2) { call(|| u.demux(100, &mut 0, &mut out)); }
    }
    if rng.chance(1, 2) {
        for s in sections(rng, &u, 2) { call(|| u.parse(&psi(&s, s.len()))); }
    }
    u.become_like(t);
    u
}

/// A table with n entries, the descriptors of each at most `room` bytes; sometimes two entries alike
pub fn table(rng: &mut Rng, kind: &str, n: usize, room: usize) -> Table {
    let mut t = plain_table(rng, kind, n, room);
    if n >= 2 && rng.chance(1, 6) {
        let a = rng.below(n);
        let b = if rng.chance(1, 2) { (a + 1) % n } else { rng.below(n) };
        match &mut t {
            Table::Pat(t) => t.items[b] = make!(PatItem { pnr: t.items[a].pnr, pid: t.items[a].pid }),
            Table::Pmt(t) => t.items[b] = make!(PmtItem { stream_type: t.items[a].stream_type, pid: t.items[a].pid, descriptors: t.items[a].descriptors.clone() }),
            Table::Sdt(t) => { t.items[b].pnr = t.items[a].pnr; t.items[b].descriptors = t.items[a].descriptors.clone(); },
            Table::Nit(t) => t.items[b] = make!(NitItem { tsid: t.items[a].tsid, onid: t.items[a].onid, descriptors: t.items[a].descriptors.clone() }),
            Table::Eit(t) => { t.items[b].event_id = t.items[a].event_id; t.items[b].start = t.items[a].start; },
            _ => {},
        }
    }
    if rng.chance(1, 3) { worn(rng, t) } else { t }
}

fn plain_table(rng: &mut Rng, kind: &str, n: usize, room: usize) -> Table {
    let ds = |rng: &mut Rng| if room == 0 { Descriptors::default() } else { item_descriptors(rng, room) };
    match kind {
        "pat" => Table::Pat(make!(Pat { version: ver(rng), tsid: id(rng), items: (0 .. n).map(|_| pat_item(rng)).collect() })),
        "pmt" => Table::Pmt(make!(Pmt {
            version: ver(rng), pnr: id(rng), pcr: pid13(rng), descriptors: ds(rng),
            items: (0 .. n).map(|_| { let d = ds(rng); pmt_item(rng, d) }).collect(),
        })),
        "sdt" => Table::Sdt(make!(Sdt {
            table_id: *rng.pick(&[0x42, 0x46]), version: ver(rng), tsid: id(rng), onid: id(rng),
            items: (0 .. n).map(|_| { let d = ds(rng); sdt_item(rng, d) }).collect(),
        })),
        "nit" => Table::Nit(make!(Nit {
            table_id: *rng.pick(&[0x40, 0x41]), version: ver(rng), network_id: id(rng), descriptors: ds(rng),
            items: (0 .. n).map(|_| { let d = ds(rng); nit_item(rng, d) }).collect(),
        })),
        "eit" => Table::Eit(make!(Eit {
            table_id: *rng.pick(&[0x4E, 0x4F]), version: ver(rng), pnr: id(rng), tsid: id(rng), onid: id(rng),
            items: (0 .. n).map(|_| { let (d, t) = (ds(rng), second(rng)); eit_item(rng, t, d) }).collect(),
        })),
        "tdt" => Table::Tdt(make!(Tdt { time: second(rng) })),
        _ => Table::Tot(make!(Tot { time: second(rng), descriptors: ds(rng) })),
    }
}

// ---------------------------------------------------------------------------
// Sections made by the harness, with any reserved bits

fn loop_bytes(ds: &Descriptors) -> Vec<u8> {
    let mut b = Vec::new();
    call(|| { ds.assemble(&mut b); });
    b
}

fn put16(b: &mut Vec<u8>, v: u16) { b.extend_from_slice(&v.to_be_bytes()); }
fn bcd(v: u32) -> u8 { (v / 10 * 16 + v % 10) as u8 }
fn put_time(b: &mut Vec<u8>, t: u64) {
    put16(b, (t / 86400 + 40587) as u16);
    put_hms(b, (t % 86400) as u32);
}
fn put_hms(b: &mut Vec<u8>, s: u32) { b.extend_from_slice(&[bcd(s / 3600), bcd(s / 60 % 60), bcd(s % 60)]); }

/// Sections carrying the table, `per` entries each, as another sender may write them
pub fn sections(rng: &mut Rng, t: &Table, per: usize) -> Vec<Vec<u8>> {
    let entries: Vec<Vec<u8>> = match t {
        Table::Pat(t) => t.items.iter().map(|x| {
            let mut b = Vec::new();
            put16(&mut b, x.pnr);
            put16(&mut b, (rng.below(8) as u16) << 13 | x.pid);
            b
        }).collect(),
        Table::Pmt(t) => t.items.iter().map(|x| {
            let d = loop_bytes(&x.descriptors);
            let mut b = vec![x.stream_type];
            put16(&mut b, (rng.below(8) as u16) << 13 | x.pid);
            put16(&mut b, (rng.below(16) as u16) << 12 | d.len() as u16);
            b.extend(d);
            b
        }).collect(),
        Table::Sdt(t) => t.items.iter().map(|x| {
            let d = loop_bytes(&x.descriptors);
            let mut b = Vec::new();
            put16(&mut b, x.pnr);
            b.push((rng.byte() & 0xFC) | x.eit_schedule_flag << 1 | x.eit_present_following_flag);
            put16(&mut b, u16::from(x.running_status) << 13 | u16::from(x.free_ca_mode) << 12 | d.len() as u16);
            b.extend(d);
            b
        }).collect(),
        Table::Nit(t) => t.items.iter().map(|x| {
            let d = loop_bytes(&x.descriptors);
            let mut b = Vec::new();
            put16(&mut b, x.tsid);
            put16(&mut b, x.onid);
            put16(&mut b, (rng.below(16) as u16) << 12 | d.len() as u16);
            b.extend(d);
            b
        }).collect(),
        Table::Eit(t) => t.items.iter().map(|x| {
            let d = loop_bytes(&x.descriptors);
            let mut b = Vec::new();
            put16(&mut b, x.event_id);
            put_time(&mut b, x.start);
            put_hms(&mut b, x.duration);
            put16(&mut b, u16::from(x.status) << 13 | u16::from(x.ca_mode) << 12 | d.len() as u16);
            b.extend(d);
            b
        }).collect(),
        _ => vec![],
    };
    let groups: Vec<Vec<u8>> = if entries.is_empty() { vec![vec![]] } else {
        entries.chunks(per.max(1)).map(|c| c.concat()).collect()
    };
    let last = (groups.len() - 1) as u8;
    // some senders repeat the descriptors of the whole table in every section
    let repeated = rng.chance(1, 4);
    let wide = |k: usize, ds: &Descriptors| {
        let d = loop_bytes(ds);
        if k == 0 || repeated && d.len() <= 200 { d } else { vec![] }
    };
    groups.iter().enumerate().map(|(k, g)| {
        let bits = rng.byte() & 0xF0;
        let vb = |rng: &mut Rng, v: u8| (rng.byte() & 0xC1) | v << 1;
        let mut b = vec![0, bits, 0];
        match t {
            Table::Pat(t) => { put16(&mut b, t.tsid); b.extend(&[vb(rng, t.version), k as u8, last]); },
            Table::Pmt(t) => {
                b[0] = 2;
                put16(&mut b, t.pnr);
                b.extend(&[vb(rng, t.version), k as u8, last]);
                put16(&mut b, (rng.below(8) as u16) << 13 | t.pcr);
                let d = wide(k, &t.descriptors);
                put16(&mut b, (rng.below(16) as u16) << 12 | d.len() as u16);
                b.extend(d);
            },
            Table::Sdt(t) => {
                b[0] = t.table_id;
                put16(&mut b, t.tsid);
                b.extend(&[vb(rng, t.version), k as u8, last]);
                put16(&mut b, t.onid);
                b.push(rng.byte());
            },
            Table::Nit(t) => {
                b[0] = t.table_id;
                put16(&mut b, t.network_id);
                b.extend(&[vb(rng, t.version), k as u8, last]);
                let d = wide(k, &t.descriptors);
                put16(&mut b, (rng.below(16) as u16) << 12 | d.len() as u16);
                b.extend(d);
                put16(&mut b, (rng.below(16) as u16) << 12 | g.len() as u16);
            },
            Table::Eit(t) => {
                b[0] = t.table_id;
                put16(&mut b, t.pnr);
                b.extend(&[vb(rng, t.version), k as u8, last]);
                put16(&mut b, t.tsid);
                put16(&mut b, t.onid);
                b.extend(&[last, t.table_id]);
            },
            Table::Tdt(t) => { b[0] = 0x70; b[2] = 5; put_time(&mut b, t.time); return b; },
            Table::Tot(t) => {
                b[0] = 0x73;
                put_time(&mut b, t.time);
                let d = loop_bytes(&t.descriptors);
                put16(&mut b, (rng.below(16) as u16) << 12 | d.len() as u16);
                b.extend(d);
            },
        }
        b.extend_from_slice(g);
        seal(&mut b);
        b
    }).collect()
}

pub fn psi(b: &[u8], n: usize) -> Psi {
    let mut p = Psi::default();
    p.buffer.extend_from_slice(b);
    p.size = n;
    p
}

/// The sections in packets made by the library
fn unpack(d: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for p in d.chunks(188) {
        if p.len() < 188 { break; }
        if p[1] & 0x40 != 0 { out.push(p[5 ..].to_vec()); } else if let Some(x) = out.last_mut() { x.extend_from_slice(&p[4 ..]); }
    }
    for s in &mut out {
        let n = 3 + (((s[1] as usize) & 15) << 8 | s[2] as usize);
        s.truncate(n);
    }
    out
}

// ---------------------------------------------------------------------------
// Records

/// Writing a table, reading it again
pub fn enc_record(t: &Table, pre: Vec<u8>, pid: u16, cc0: u8) {
    what(t.kind());
    let mut cc = cc0;
    let mut out = pre;
    let pre = out.clone();
    let r = call(|| t.demux(pid, &mut cc, &mut out));
    let mut back = Table::empty(t.kind());
    let p = call(|| for s in unpack(&out[pre.len() ..]) { back.parse(&psi(&s, s.len())); });
    emit(&J::obj(&[
        ("k", J::str("enc")), ("kind", J::str(t.kind())), ("st", J::str(if r.is_some() && p.is_some() { "ok" } else { "panic" })),
        ("tb", t.json()), ("pre", J::bytes(&pre)), ("pid", J::num(i64::from(pid))), ("cc", J::num(i64::from(cc0))), ("out", J::bytes(&out)),
        ("cc2", J::num(i64::from(cc))), ("back", back.json()),
    ]));
}

fn enc(rng: &mut Rng, t: &Table) {
    let pid = if rng.chance(1, 8) { *rng.pick(&[0, 1, 0x10, 0x12, 0xFF, 0x100, 0x1000, 0x1FFE, 0x1FFF]) } else { rng.below(8192) as u16 };
    let cc = rng.below(16) as u8;
    let pre = match rng.below(6) { 0 => rng.bytes(188), 1 => { let n = rng.below(60); rng.bytes(n) }, _ => Vec::new() };
    let pre = if rng.chance(1, 4) { used(rng, &pre) } else { pre };
    enc_record(t, pre, pid, cc);
}

/// Reading sections
fn dec_record(mut t: Table, secs: &[Vec<u8>], via_from: bool) {
    let kind = t.kind();
    let r = call(|| {
        if via_from && secs.len() == 1 { t = Table::from_psi(kind, &psi(&secs[0], secs[0].len())); }
        else { for s in secs { t.parse(&psi(s, s.len())); } }
        t.debug().len()
    });
    emit(&J::obj(&[
        ("k", J::str("dec")), ("kind", J::str(kind)), ("st", st(&r)), ("secs", J::list(secs.iter().map(|s| J::bytes(s)))),
        ("tb", t.json()),
    ]));
}

fn dec(rng: &mut Rng, t: &Table) {
    let per = if rng.chance(1, 4) { rng.range(7, 60) } else { rng.range(1, 6) };
    let s = sections(rng, t, per);
    let empty = Table::empty(t.kind());
    let empty = if rng.chance(1, 4) { worn(rng, empty) } else { empty };
    if s.iter().all(|x| x.len() <= 4096) { dec_record(empty, &s, rng.chance(1, 4)); }
}

/// An extended event that does not fit in 255 bytes, somewhere in the table
pub fn oversize(rng: &mut Rng, t: &mut Table) {
    let n = *rng.pick(&[250usize, 251, 252, 255, 256, 300, 500]);
    let mut lists: Vec<&mut Descriptors> = Vec::new();
    match t {
        Table::Pmt(t) => { lists.push(&mut t.descriptors); lists.extend(t.items.iter_mut().map(|i| &mut i.descriptors)) },
        Table::Sdt(t) => lists.extend(t.items.iter_mut().map(|i| &mut i.descriptors)),
        Table::Nit(t) => { lists.push(&mut t.descriptors); lists.extend(t.items.iter_mut().map(|i| &mut i.descriptors)) },
        Table::Eit(t) => lists.extend(t.items.iter_mut().map(|i| &mut i.descriptors)),
        Table::Tot(t) => lists.push(&mut t.descriptors),
        _ => {},
    }
    if lists.is_empty() { return; }
    let k = rng.below(lists.len());
    let old = std::mem::take(lists[k]);
    let at = rng.below(old.len() + 1);
    let big = || Desc4E { number: 0, last_number: 1, lang: StringDVB::from_str("eng", 0), items: vec![], text: StringDVB::from_str(&"x".repeat(n), 0) };
    for (i, d) in old.iter().enumerate() {
        if i == at { lists[k].push(big()); }
        lists[k].push(d.clone());
    }
    if at == old.len() { lists[k].push(big()); }
}

fn both(rng: &mut Rng, t: Table) {
    enc(rng, &t);
    dec(rng, &t);
}

/// Sizes of sections about which something may change: packets, length bytes, limits
const EDGES: [usize; 45] = [
    182, 183, 184, 185, 254, 255, 256, 257, 258, 259, 260, 366, 367, 368, 369, 511, 512, 513, 514, 515, 550, 551, 552, 553, 767, 768, 769,
    1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 2047, 2048, 2049, 2051, 3071, 3072, 4093, 4094, 4095, 4096,
];

/// A table coded in one section of this size
fn of_size(rng: &mut Rng, kind: &str, size: usize) -> Option<Table> {
    if kind != "eit" && size > 1024 { return None; }
    of_any_size(rng, kind, size)
}

/// The same, also of sizes other senders alone may use
fn of_any_size(rng: &mut Rng, kind: &str, size: usize) -> Option<Table> {
    let least = match kind { "pat" => 12, "pmt" => 21, "sdt" => 20, "nit" => 22, "eit" => 30, _ => 14 };
    let n = size - least;
    if n == 1 || kind == "tdt" || kind == "pat" && n % 4 != 0 { return None; }
    if kind == "pat" { return Some(table(rng, kind, n / 4, 0)); }
    let wide = rng.chance(1, 3);
    let mut t = table(rng, kind, 1, 0);
    let d = filler(rng, n);
    match &mut t {
        Table::Pmt(t) => if wide { t.descriptors = d; t.items[0].descriptors = Descriptors::default() } else { t.descriptors = Descriptors::default(); t.items[0].descriptors = d },
        Table::Nit(t) => if wide { t.descriptors = d; t.items[0].descriptors = Descriptors::default() } else { t.descriptors = Descriptors::default(); t.items[0].descriptors = d },
        Table::Sdt(t) => t.items[0].descriptors = d,
        Table::Eit(t) => t.items[0].descriptors = d,
        Table::Tot(t) => t.descriptors = d,
        _ => {},
    }
    Some(t)
}

fn edges(rng: &mut Rng, kind: &str) {
    for &n in &EDGES {
        for _ in 0 .. 2 { if let Some(t) = of_size(rng, kind, n) { both(rng, t); } }
    }
}

/// Values of header and entry fields one by one, random tables
fn common(ctx: &Ctx, rng: &mut Rng, kind: &str, room: usize) {
    edges(rng, kind);
    for n in 0 .. 12 { let t = table(rng, kind, n, room); both(rng, t); let t = table(rng, kind, n, 0); both(rng, t); }
    for v in 0 .. 32u8 {
        let mut t = table(rng, kind, 1, 30);
        match &mut t {
            Table::Pat(t) => t.version = v, Table::Pmt(t) => t.version = v, Table::Sdt(t) => t.version = v,
            Table::Nit(t) => t.version = v, Table::Eit(t) => t.version = v, _ => {},
        }
        both(rng, t);
    }
    for _ in 0 .. ctx.n(160, 2500) {
        let n = match rng.below(8) { 0 => 0, 1 => rng.range(5, 20), _ => rng.range(1, 5) };
        let r = match rng.below(4) { 0 => 0, 1 => room, _ => room.min(60) };
        let t = table(rng, kind, n, r);
        both(rng, t);
    }
    if kind == "pat" || kind == "tdt" { return; }
    for _ in 0 .. ctx.n(12, 120) {
        let n = rng.range(1, 4);
        let mut t = table(rng, kind, n, room.min(100));
        oversize(rng, &mut t);
        enc(rng, &t);
    }
}

/// Every bit of a 16-bit identifier
fn walk() -> Vec<u16> { (0 .. 16).map(|k| 1u16 << k).chain([0, 0xFFFF, 0x1234].iter().cloned()).collect() }

pub fn c06(ctx: &Ctx) {
    let mut rng = ctx.rng("c06");
    common(ctx, &mut rng, "pat", 0);
    for v in walk() {
        both(&mut rng, Table::Pat(make!(Pat { version: 3, tsid: v, items: vec![make!(PatItem { pnr: v, pid: v & 0x1FFF }), make!(PatItem { pnr: !v, pid: !v & 0x1FFF })] })));
    }
    for n in (245 ..= 262).chain([500, 505, 506, 507, 508, 760, 1011, 1012, 1013].iter().cloned()) {
        let t = table(&mut rng, "pat", n, 0);
        enc(&mut rng, &t);
    }
    for n in 12 .. 60 { let t = table(&mut rng, "pat", n * 4, 0); enc(&mut rng, &t); }
    for n in &[33000usize, 64768] { let t = table(&mut rng, "pat", *n, 0); enc(&mut rng, &t); }
    if ctx.thorough {
        for n in &[5000usize, 20000, 64767] { let t = table(&mut rng, "pat", *n, 0); enc(&mut rng, &t); }
    }
}

pub fn c07(ctx: &Ctx) {
    let mut rng = ctx.rng("c07");
    common(ctx, &mut rng, "pmt", 200);
    for v in walk() {
        let (a, b) = (filler(&mut rng, 0), filler(&mut rng, 9));
        let w = filler(&mut rng, 4);
        both(&mut rng, Table::Pmt(make!(Pmt {
            version: 1, pnr: v, pcr: v & 0x1FFF, descriptors: w,
            items: vec![make!(PmtItem { stream_type: v as u8, pid: v & 0x1FFF, descriptors: a }), make!(PmtItem { stream_type: (v >> 8) as u8, pid: !v & 0x1FFF, descriptors: b })],
        })));
    }
    // program descriptors of every size
    let mut sizes: Vec<usize> = vec![0, 2, 3, 4, 5, 10, 12, 13, 100, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 900, 1000, 1006, 1007, 1008];
    sizes.extend((20 .. 1000).step_by(ctx.n(61, 7)));
    for &n in &sizes {
        let mut t = table(&mut rng, "pmt", 2, 20);
        if let Table::Pmt(t) = &mut t { t.descriptors = filler(&mut rng, n); }
        both(&mut rng, t);
        if n <= 1003 {
            let d = filler(&mut rng, n);
            let i = pmt_item(&mut rng, d);
            both(&mut rng, Table::Pmt(make!(Pmt { version: 4, pnr: 5, pcr: 6, descriptors: Descriptors::default(), items: vec![i] })));
        }
    }
    long(ctx, &mut rng, "pmt");
}

pub fn c08(ctx: &Ctx) {
    let mut rng = ctx.rng("c08");
    common(ctx, &mut rng, "sdt", 200);
    for v in walk() {
        for &tid in &[0x42u8, 0x46] {
            let d = filler(&mut rng, 6);
            let mut i = sdt_item(&mut rng, d);
            i.pnr = v;
            both(&mut rng, Table::Sdt(make!(Sdt { table_id: tid, version: 9, tsid: v, onid: !v, items: vec![i] })));
        }
    }
    for f in 0 .. 64u8 {
        let d = filler(&mut rng, (f as usize) & !1);
        both(&mut rng, Table::Sdt(make!(Sdt { table_id: 0x42, version: 0, tsid: 1, onid: 2, items: vec![make!(SdtItem {
            pnr: 7, eit_schedule_flag: f & 1, eit_present_following_flag: f >> 1 & 1, running_status: f >> 2 & 7, free_ca_mode: f >> 5, descriptors: d })] })));
    }
    for n in (0 ..= 1000).step_by(ctx.n(53, 7)).chain(vec![253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 1002, 1003, 1004]) {
        let d = filler(&mut rng, if n == 1 { 2 } else { n });
        let i = sdt_item(&mut rng, d);
        both(&mut rng, Table::Sdt(make!(Sdt { table_id: 0x46, version: 31, tsid: 0, onid: 65535, items: vec![i] })));
    }
    long(ctx, &mut rng, "sdt");
}

pub fn c09(ctx: &Ctx) {
    let mut rng = ctx.rng("c09");
    common(ctx, &mut rng, "nit", 200);
    for v in walk() {
        for &tid in &[0x40u8, 0x41] {
            let d = filler(&mut rng, 6);
            let w = filler(&mut rng, 5);
            both(&mut rng, Table::Nit(make!(Nit { table_id: tid, version: 9, network_id: v, descriptors: w,
                items: vec![make!(NitItem { tsid: v, onid: !v, descriptors: d })] })));
        }
    }
    let mut sizes: Vec<usize> = vec![0, 2, 3, 4, 253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 1001, 1002, 1006, 1007, 1008];
    sizes.extend((20 .. 1000).step_by(ctx.n(61, 7)));
    for &n in &sizes {
        let mut t = table(&mut rng, "nit", 2, 20);
        if let Table::Nit(t) = &mut t { t.descriptors = filler(&mut rng, n); }
        both(&mut rng, t);
        if n <= 1002 {
            let d = filler(&mut rng, n);
            let i = nit_item(&mut rng, d);
            both(&mut rng, Table::Nit(make!(Nit { table_id: 0x40, version: 4, network_id: 5, descriptors: Descriptors::default(), items: vec![i] })));
        }
    }
    long(ctx, &mut rng, "nit");
}

fn event(rng: &mut Rng, start: u64, room: usize) -> EitItem {
    let d = item_descriptors(rng, room);
    eit_item(rng, start, d)
}

pub fn c10(ctx: &Ctx) {
    let mut rng = ctx.rng("c10");
    common(ctx, &mut rng, "eit", 300);
    for v in walk() {
        for &tid in &[0x4Eu8, 0x4F] {
            let t = second(&mut rng);
            let mut i = event(&mut rng, t, 20);
            i.event_id = v;
            both(&mut rng, Table::Eit(make!(Eit { table_id: tid, version: 9, pnr: v, tsid: !v, onid: v.swap_bytes(), items: vec![i] })));
        }
    }
    let one = |rng: &mut Rng, i: EitItem| {
        let tid = *rng.pick(&[0x4Eu8, 0x4F, 0x50, 0x60]);
        let t = Table::Eit(make!(Eit { table_id: tid, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![i] }));
        both(rng, t);
    };
    // dates, times of day, durations
    for day in (0 ..= 24948u64).step_by(ctx.n(211, 23)).chain(vec![1, 364, 365, 10956, 11015, 11016, 19722, 19782, 24946, 24947]) {
        let t = day * 86400 + rng.below(86400) as u64;
        let i = event(&mut rng, t, 0);
        one(&mut rng, i);
    }
    for s in (0 .. 86400u64).step_by(ctx.n(997, 101)).chain(vec![1, 59, 60, 599, 600, 3599, 3600, 35999, 36000, 71999, 72000, 86399]) {
        let mut i = event(&mut rng, 17000 * 86400 + s, 0);
        i.duration = (s as u32 * 4 + 3).min(359_999);
        one(&mut rng, i);
    }
    for h in 0 .. 100u32 {
        for r in &[0u32, 1, 3599, 2051] {
            let t = second(&mut rng);
            let mut i = event(&mut rng, t, 0);
            i.duration = h * 3600 + r;
            if *r != 2051 || h % 4 == 0 || ctx.thorough { one(&mut rng, i); }
        }
    }
    for f in 0 .. 16u8 {
        let t = second(&mut rng);
        let mut i = event(&mut rng, t, 40);
        i.status = f & 7;
        i.ca_mode = f >> 3;
        one(&mut rng, i);
    }
    for n in (2 .. 4050usize).step_by(ctx.n(211, 53)).chain(vec![255, 256, 257, 258, 511, 512, 513, 1023, 1024, 4063, 4064, 4065, 4066]) {
        let t = second(&mut rng);
        let d = filler(&mut rng, n);
        let i = eit_item(&mut rng, t, d);
        one(&mut rng, i);
    }
    // many events; the section number is a byte
    for n in &[2usize, 3, 8, 16, 40, 120, 256] { let t = table(&mut rng, "eit", *n, 0); enc(&mut rng, &t); }
    for n in (2 .. 256).step_by(if ctx.thorough { 1 } else { 5 }) { let n = n + rng.below(4); let t = table(&mut rng, "eit", n.min(256), 0); enc(&mut rng, &t); }
    for &n in &[100usize, 339, 1200] {
        let t = table(&mut rng, "eit", n, 0);
        let s = sections(&mut rng, &t, 339);
        dec_record(Table::empty("eit"), &s, false);
    }
    // schedules
    for _ in 0 .. ctx.n(60, 800) {
        let mut t = schedule(&mut rng, 20, 60);
        enc(&mut rng, &t);
        dec(&mut rng, &t);
        if rng.chance(1, 8) { oversize(&mut rng, &mut t); enc(&mut rng, &t); }
    }
}

pub fn c12(ctx: &Ctx) {
    let mut rng = ctx.rng("c12");
    let mut times: Vec<u64> = Vec::new();
    for day in (0 ..= 24948u64).step_by(ctx.n(31, 1)) { times.push(day * 86400 + *rng.pick(&[0, 86399, rng.clone().below(86400) as u64])); }
    for s in (0 .. 86400u64).step_by(ctx.n(131, 17)) { times.push(rng.below(24949) as u64 * 86400 + s); }
    for h in 0 .. 24u64 { for m in &[0u64, 9, 10, 59] { for s in &[0u64, 9, 10, 59] { times.push(86400 * 20000 + h * 3600 + m * 60 + s); } } }
    times.extend(&[0, 1, 86399, 86400, 24949 * 86400 - 1]);
    for (i, &t) in times.iter().enumerate() {
        both(&mut rng, Table::Tdt(make!(Tdt { time: t })));
        let n = if i % 8 == 0 { rng.below(4) } else { 0 };
        let mut ds = Descriptors::default();
        for _ in 0 .. n { let full = rng.chance(1, 5); let d = crate::desc::known(&mut rng, 0x58, 255, full); ds.push(d); }
        both(&mut rng, Table::Tot(make!(Tot { time: t, descriptors: ds })));
    }
    for _ in 0 .. ctx.n(200, 3000) {
        let ds = descriptors(&mut rng, 300);
        let t = Table::Tot(make!(Tot { time: second(&mut rng), descriptors: ds }));
        both(&mut rng, t);
    }
    for n in (2 .. 1000usize).step_by(ctx.n(97, 11)).chain(vec![255, 256, 257, 258, 511, 512, 513, 1009, 1010]) {
        let ds = filler(&mut rng, n);
        let t = Table::Tot(make!(Tot { time: second(&mut rng), descriptors: ds }));
        both(&mut rng, t);
    }
    edges(&mut rng, "tot");
    for _ in 0 .. ctx.n(10, 80) {
        let mut ds = Descriptors::default();
        for _ in 0 .. rng.range(4, 120) {
            let full = rng.chance(1, 12);
            let d = crate::desc::known(&mut rng, 0x58, if full { 255 } else { 40 }, full);
            ds.push(d);
            if call(|| ds.size()).unwrap_or(4000) > 3800 { break; }
        }
        let t = Table::Tot(make!(Tot { time: second(&mut rng), descriptors: ds }));
        both(&mut rng, t);
    }
    for &n in &[1025usize, 1026, 2047, 2048, 2049, 3000, 4095, 4096] {
        if let Some(t) = of_any_size(&mut rng, "tot", n) { both(&mut rng, t); }
    }
    for _ in 0 .. ctx.n(12, 120) {
        let mut t = table(&mut rng, "tot", 0, 100);
        oversize(&mut rng, &mut t);
        enc(&mut rng, &t);
    }
    // incomplete, damaged, foreign
    for kind in &["tdt", "tot"] {
        for _ in 0 .. ctx.n(60, 600) { history(&mut rng, kind, 6, 40); }
        for _ in 0 .. 3 {
            let t = table(&mut rng, kind, 0, 40);
            let s = sections(&mut rng, &t, 1).remove(0);
            for n in 3 .. s.len() { two_steps(&mut rng, kind, &s[.. n].to_vec(), s.len()); }
            for n in 3 ..= s.len() { two_steps(&mut rng, kind, &s[.. n].to_vec(), n); }
        }
    }
}

/// Long tables with sizes around the section limit
fn long(ctx: &Ctx, rng: &mut Rng, kind: &str) {
    // entries without descriptors
    for n in &[166usize, 167, 168, 169, 200, 201, 202, 203, 204, 205, 420] {
        let t = table(rng, kind, *n, 0);
        enc(rng, &t);
    }
    for _ in 0 .. ctx.n(6, 60) {
        let n = rng.range(10, 60);
        let t = table(rng, kind, n, 120);
        enc(rng, &t);
    }
}

/// A table with entries of the given sizes (with their descriptors)
fn sized(rng: &mut Rng, kind: &str, wide: usize, sizes: &[usize]) -> Table {
    let mut t = table(rng, kind, 0, 0);
    let fit = |n: usize, h: usize| { let m = n.saturating_sub(h); if m == 1 { 2 } else { m } };
    match &mut t {
        Table::Pat(t) => for _ in sizes { t.items.push(pat_item(rng)); },
        Table::Pmt(t) => {
            t.descriptors = filler(rng, wide);
            for &n in sizes { let d = filler(rng, fit(n, 5)); t.items.push(pmt_item(rng, d)); }
        },
        Table::Sdt(t) => for &n in sizes { let d = filler(rng, fit(n, 5)); t.items.push(sdt_item(rng, d)); },
        Table::Nit(t) => {
            t.descriptors = filler(rng, wide);
            for &n in sizes { let d = filler(rng, fit(n, 6)); t.items.push(nit_item(rng, d)); }
        },
        _ => {},
    }
    t
}

pub fn c13(ctx: &Ctx) {
    let mut rng = ctx.rng("c13");
    for n in (0 ..= 30).chain(240 ..= 270).chain(500 ..= 512).chain([758, 759, 760, 1011, 1012, 1013, 2530, 2531].iter().cloned()) {
        let t = table(&mut rng, "pat", n, 0);
        enc(&mut rng, &t);
    }
    for _ in 0 .. ctx.n(8, 80) { let n = rng.range(250, 3000); let t = table(&mut rng, "pat", n, 0); enc(&mut rng, &t); }
    if ctx.thorough { for n in &[253 * 255usize, 253 * 255 + 1, 253 * 256 - 1, 253 * 256] { let t = table(&mut rng, "pat", *n, 0); enc(&mut rng, &t); } }
    for kind in &["pmt", "sdt", "nit"] {
        let (head, item) = match *kind { "pmt" => (12, 5), "sdt" => (11, 5), _ => (12, 6) };
        let room = 1020 - head;
        // two entries that just fit, do not fit by one, ...
        for d in 0 .. 9usize {
            for &a in &[item, item + 2, 100, 255, 500] {
                let b = room + 4 - d - a;
                for tail in 0 .. 2 {
                    let mut v = vec![a, b];
                    if tail == 1 { v.push(item); }
                    let t = sized(&mut rng, kind, 0, &v);
                    enc(&mut rng, &t);
                }
            }
            // one entry filling a section, at the first and at a later place
            for &n in &[room - d, room] {
                let t = sized(&mut rng, kind, 0, &[n]);
                enc(&mut rng, &t);
                let t = sized(&mut rng, kind, 0, &[item + 3, n, item, n, n]);
                enc(&mut rng, &t);
            }
            // table-wide descriptors taking the room
            if *kind != "sdt" {
                for &w in &[room - d, room - item - d, room - item - d - 100, 300, 257] {
                    let w = if w == 1 { 2 } else { w };
                    let t = sized(&mut rng, kind, w, &[item, 100, item + 7]);
                    enc(&mut rng, &t);
                    let t = sized(&mut rng, kind, w, &[]);
                    enc(&mut rng, &t);
                    let left = room - w;
                    if left > item + 3 { let t = sized(&mut rng, kind, w, &[left, item, room]); enc(&mut rng, &t); }
                }
            }
        }
        // many entries of one size, exactly filling and not
        for &n in &[item, item + 2, 28, 36, 48, 56, 63, 72, 84, 112, 126, 144, 168, 202, 252, 336, 504, 505, 506] {
            for k in 0 .. 3 {
                let per = room / n;
                let v = vec![n; per * rng.clone().range(1, 3) + k];
                if v.len() < 420 { let t = sized(&mut rng, kind, 0, &v); enc(&mut rng, &t); }
            }
        }
        // more sections than a seven bit number tells
        let v: Vec<usize> = (0 .. if ctx.thorough { 256 } else { 131 }).map(|_| room / 2 + 1 + rng.below(9)).collect();
        let t = sized(&mut rng, kind, 0, &v);
        enc(&mut rng, &t);
        for _ in 0 .. ctx.n(25, 300) {
            let n = rng.range(3, 40);
            let v: Vec<usize> = (0 .. n).map(|_| match rng.below(5) {
                0 => item, 1 => rng.range(room - 3, room), 2 => rng.range(room / 2 - 3, room / 2 + 3), _ => rng.range(item + 2, 300) }).collect();
            let w = if rng.chance(1, 2) { 0 } else { rng.range(2, 700) };
            let t = sized(&mut rng, kind, w, &v);
            enc(&mut rng, &t);
        }
        // many sections
        let v = vec![room; ctx.n(if *kind == "pmt" { 256 } else { 140 }, 256)];
        let t = sized(&mut rng, kind, 0, &v);
        enc(&mut rng, &t);
        long(ctx, &mut rng, kind);
        for _ in 0 .. ctx.n(2, 40) {
            let n = rng.range(41, 255);
            let v: Vec<usize> = (0 .. n).map(|_| rng.range(room / 2 + 1, room / 2 + 40)).collect();
            let t = sized(&mut rng, kind, 0, &v);
            enc(&mut rng, &t);
        }
    }
}

// ---------------------------------------------------------------------------
// C11

/// First day of a schedule: any, the first and the last ones that can be coded
fn day(rng: &mut Rng) -> u64 {
    match rng.below(4) { 0 => 24780 + rng.below(169) as u64, 1 => rng.below(3) as u64, _ => rng.below(24900) as u64 }
}

/// Events in order, descriptors of each at most `room` bytes
pub fn schedule(rng: &mut Rng, n: usize, room: usize) -> Table {
    let first = day(rng) * 86400 + match rng.below(4) {
        0 => 10800 * rng.below(8) as u64,
        1 => 10800 * rng.range(1, 8) as u64 - 1,
        _ => rng.below(86400) as u64,
    };
    let mut t = first;
    let end = (first / 86400 + 64).min(24949) * 86400 - 1;
    let n = rng.range(1, n);
    let style = rng.below(5);
    let mut items = Vec::new();
    for _ in 0 .. n {
        items.push(event(rng, t, room));
        t += match style {
            0 => rng.range(600, 7200) as u64,
            1 => 10800,
            2 => rng.range(0, 86400 * 6) as u64,
            3 => if rng.chance(1, 3) { rng.range(0, 200_000) as u64 } else { rng.range(0, 4000) as u64 },
            _ => {
                // to the next segment boundary, one second before or after it
                let b = (t / 10800 + 1) * 10800;
                match rng.below(4) { 0 => b - t, 1 => b - 1 - t, 2 => b + 1 - t, _ => rng.below(20000) as u64 }
            },
        };
        if t > end { break; }
    }
    Table::Eit(make!(Eit {
        table_id: *rng.pick(&[0x50, 0x60, 0x50, 0x5F, 0x60, 0x51, 0x6A]), version: ver(rng), pnr: id(rng), tsid: id(rng), onid: id(rng), items,
    }))
}

fn schedule_of(rng: &mut Rng, tid: u8, first_day: u64, at: &[(u64, usize)]) -> Table {
    // also up to the last day
    let first_day = if rng.chance(1, 4) { day(rng).min(24885) } else { first_day };
    let items = at.iter().map(|&(s, n)| { let d = filler(rng, if n == 1 { 2 } else { n }); eit_item(rng, first_day * 86400 + s, d) }).collect();
    Table::Eit(make!(Eit { table_id: tid, version: ver(rng), pnr: id(rng), tsid: id(rng), onid: id(rng), items }))
}

pub fn c11(ctx: &Ctx) {
    let mut rng = ctx.rng("c11");
    const H3: u64 = 10800;
    // one event in each segment of the day, at each of its ends
    for s in 0 .. 8u64 {
        for d in &[0u64, 1, H3 - 1, 5000] {
            let t = schedule_of(&mut rng, 0x50, 18000, &[(s * H3 + d, 10)]);
            enc(&mut rng, &t);
            let t = schedule_of(&mut rng, 0x60, 18000, &[(s * H3 + d, 0), (s * H3 + d, 4)]);
            enc(&mut rng, &t);
        }
    }
    for &n in &EDGES {
        for tid in &[0x50u8, 0x60] {
            let s = rng.below(86400) as u64;
            let t = schedule_of(&mut rng, *tid, 18000, &[(s, n - 30)]);
            enc(&mut rng, &t);
        }
    }
    // two events: all distances in segments around a day, a table and several of them
    for s in 0 .. 8u64 {
        for k in (0 .. 12u64).chain(vec![23, 24, 25, 30, 31, 32, 33, 63, 64, 65, 95, 96, 128, 255, 256, 480, 503]) {
            if s + k > 511 { continue; }
            if !ctx.thorough && k > 12 && (s + k) % 3 != 0 { continue; }
            let d = *rng.pick(&[0u64, 1, H3 - 1]);
            let e = *rng.pick(&[0u64, 1, H3 - 1]);
            let (a, b) = (s * H3 + d, (s + k) * H3 + e);
            if b < a { continue; }
            let t = schedule_of(&mut rng, 0x50, 18500, &[(a, 7), (b, 9)]);
            enc(&mut rng, &t);
        }
    }
    // the last event in any segment
    let from = rng.below(9) as u64;
    for k in (from .. 512).step_by(if ctx.thorough { 1 } else { 4 }) {
        let a = rng.below(8) as u64;
        if k <= a { continue; }
        let (tid, d) = (*rng.pick(&[0x50u8, 0x60]), rng.below(10800) as u64);
        let t = schedule_of(&mut rng, tid, 18500, &[(a * H3 + 5, 7), (k * H3 + d, 9)]);
        enc(&mut rng, &t);
    }
    // the last event at the end of each table
    for tb in 0 .. 16u64 {
        for seg in &[0u64, 1, 30, 31] {
            let s = tb * 32 + seg;
            let t = schedule_of(&mut rng, 0x50, 18500, &[(100, 7), (s.max(1) * H3 + 77, 9)]);
            if ctx.thorough || tb < 3 || tb == 15 || *seg == 31 { enc(&mut rng, &t); }
        }
    }
    // dense segments: one to eight sections (first segments: fewer, see known findings)
    for k in 1 ..= 8usize {
        for s in &[2u64, 3, 31, 32] {
            let mut v = vec![(50u64, 10usize)];
            let n = if *s == 31 { 2000 } else { 4066 - 7 * k };
            for j in 0 .. k { v.push((s * H3 + 60 * j as u64, n)); }
            v.push((s * H3 + 7000, if *s == 31 { 2000 } else { 4 }));
            if k == 8 { v.pop(); }
            v.push(((s + 1) * H3, 6));
            let t = schedule_of(&mut rng, 0x50, 19000, &v);
            if ctx.thorough || *s != 3 || k % 3 == 0 { enc(&mut rng, &t); }
        }
    }
    // late ones, between others far away
    for (j, &s) in [41u64, 63, 64, 101, 130, 165, 199, 225, 255, 256, 300, 330, 355, 390, 420, 450, 479, 510].iter().enumerate() {
        let k = 2 + j % 7;
        let mut v = vec![(50u64, 10usize)];
        for j in 0 .. k { v.push((s * H3 + 60 * j as u64, if k < 4 { 4000 } else { 2100 })); }
        if j % 2 == 0 { v.push(((s + 1) * H3, 6)); }
        let t = schedule_of(&mut rng, 0x50, 19000, &v);
        enc(&mut rng, &t);
    }
    for k in 1 ..= 4usize {
        for z in &[4066usize, 4065, 4064, 2027, 2028, 2026, 1340] {
            let s = rng.below(8) as u64;
            let v: Vec<(u64, usize)> = (0 .. k).map(|j| (s * H3 + 600 * j as u64, *z)).collect();
            let t = schedule_of(&mut rng, 0x60, 19001, &v);
            enc(&mut rng, &t);
            let mut v: Vec<(u64, usize)> = vec![(s * H3, 5)];
            v.extend((0 .. k).map(|j| ((s + 2) * H3 + 600 * j as u64, *z)));
            let t = schedule_of(&mut rng, 0x60, 19001, &v);
            enc(&mut rng, &t);
        }
    }
    // fill levels around the limit: 14 + sum(12 + n) + 4 against 4096
    for d in 0 .. 8usize {
        let v = vec![(0u64, 3usize), (3 * H3, 2000), (3 * H3 + 5, 4096 - 18 - 2012 - 12 - 4 + d), (3 * H3 + 6, 0)];
        let t = schedule_of(&mut rng, 0x50, 19002, &v);
        enc(&mut rng, &t);
    }
    // very many events in a segment
    for &n in &[41usize, 101, 255, 256, 257, 338, 339, 340, 341, 690] {
        let s = *rng.pick(&[0u64, 1, 7, 31, 32]);
        let mut v: Vec<(u64, usize)> = vec![(0, 0)];
        v.extend((0 .. n).map(|j| (s * H3 + j as u64 * 10, 0)));
        v.push(((s + 2) * H3, 5));
        let t = schedule_of(&mut rng, 0x50, 19003, &v);
        enc(&mut rng, &t);
    }
    if ctx.thorough {
        let v: Vec<(u64, usize)> = (0 .. 1020).map(|j| (j / 2 * H3 + j % 2, if j % 2 == 0 { 4060 } else { 12 })).collect();
        let t = schedule_of(&mut rng, 0x50, 19004, &v);
        enc(&mut rng, &t);
    }
    // every table id of the schedules
    for tid in 0x50 ..= 0x6F { let t = schedule_of(&mut rng, tid, 18700, &[(500, 7), (9 * H3, 9), (33 * H3, 9)]); enc(&mut rng, &t); }
    // very many short events
    for _ in 0 .. ctx.n(2, 20) { let t = schedule(&mut rng, 900, 0); enc(&mut rng, &t); }
    for _ in 0 .. ctx.n(220, 3000) { let t = schedule(&mut rng, 40, 60); enc(&mut rng, &t); }
    for _ in 0 .. ctx.n(20, 200) { let t = schedule(&mut rng, 120, 250); enc(&mut rng, &t); }
}

// ---------------------------------------------------------------------------
// C14

struct Parse { kind: String, t: Table, steps: Vec<J> }

impl Parse {
    fn new(kind: &str) -> Parse { Parse { kind: kind.to_string(), t: Table::empty(kind), steps: Vec::new() } }
    fn feed(&mut self, b: &[u8], n: usize) {
        let p = psi(b, n);
        let t = &mut self.t;
        let r = call(|| t.parse(&p));
        self.steps.push(J::obj(&[("b", J::bytes(b)), ("n", J::num(n as i64)), ("st", st(&r)), ("tb", self.t.json())]));
    }
    fn done(self) {
        emit(&J::obj(&[("k", J::str("hist")), ("kind", J::str(&self.kind)), ("steps", J::list(self.steps))]));
    }
}

/// A section of the kind, one of its own table
fn own(rng: &mut Rng, kind: &str, room: usize) -> Vec<u8> {
    let n = rng.below(4);
    let mut t = table(rng, kind, n, room);
    if let Table::Eit(e) = &mut t { e.table_id = rng.range(0x4E, 0x6F) as u8; }
    let per = rng.range(1, 4);
    let mut v = sections(rng, &t, per);
    let k = rng.below(v.len());
    v.swap_remove(k)
}

/// Any section and its announced size
fn any(rng: &mut Rng, kind: &str, room: usize) -> (Vec<u8>, usize) {
    let mut b = own(rng, kind, room);
    let n = b.len();
    match rng.below(12) {
        0 ..= 4 => (b, n),
        5 => {
            // foreign table, right checksum
            b[0] = rng.byte();
            if kind != "tdt" { let c = crc(&b[.. n - 4]); b.truncate(n - 4); b.extend_from_slice(&c.to_be_bytes()); }
            (b, n)
        },
        6 => { let k = rng.below(8 * n); b[k / 8] ^= 0x80 >> (k % 8); if b.len() >= 3 && kind == "tdt" { b[1] |= 0x70; } (b, n) },
        7 => { let m = rng.range(3, n - 1); b.truncate(m); (b, n) },
        8 => { let m = rng.range(3, n - 1); b.truncate(m); let s = b.len(); (b, s) },
        9 => {
            // too short, right checksum
            let m = rng.range(3, 16.min(n));
            b.truncate(m);
            if m > 4 { seal(&mut b); }
            let s = b.len();
            (b, s)
        },
        10 => { let x = *rng.pick(&KINDS); let o = own(rng, x, room); let s = o.len(); (o, s) },
        _ => {
            // followed by other bytes
            let m = rng.range(1, 184);
            b.extend(if rng.chance(1, 2) { vec![0xFF; m] } else { rng.bytes(m) });
            (b, n)
        },
    }
}

/// Descriptors without a known tag, also when read from the wrong place
fn quiet(rng: &mut Rng, n: usize) -> Descriptors {
    let mut ds = Descriptors::default();
    for _ in 0 .. n {
        let t = rng.range(0xC0, 0xFE) as u8;
        let m = rng.below(9);
        let data = (0 .. m).map(|_| if rng.chance(1, 2) { rng.below(7) as u8 } else { rng.range(0xC0, 0xFF) as u8 }).collect();
        ds.push(make!(DescRaw { tag: t, data }));
    }
    ds
}

/// Where the entries of a section begin, and the places of the length fields of loops
/// (table-wide one first) with the place where each loop begins
fn loops(kind: &str, b: &[u8]) -> (usize, Vec<(usize, usize)>) {
    let len = |at: usize| (usize::from(b[at]) & 15) << 8 | usize::from(b[at + 1]);
    let mut out = Vec::new();
    let (at, head) = match kind {
        "pat" => (8, 4),
        "pmt" => { out.push((10, 12)); (12 + len(10), 5) },
        "sdt" => (11, 5),
        "nit" => { out.push((8, 10)); (12 + len(8), 6) },
        "eit" => (14, 12),
        "tot" => { out.push((8, 10)); (10 + len(8), 99) },
        _ => (8, 99),
    };
    let mut i = at;
    while kind != "pat" && i + head + 4 <= b.len() {
        out.push((i + head - 2, i + head));
        i += head + len(i + head - 2);
    }
    (at, out)
}

/// Sections with a right checksum whose inner lengths do not add up
fn uneven(rng: &mut Rng, kind: &str) -> Vec<u8> {
    let n = rng.range(1, 3);
    let mut t = table(rng, kind, n, 0);
    match &mut t {
        Table::Pmt(t) => { t.descriptors = quiet(rng, rng.clone().below(3)); for i in &mut t.items { let k = rng.below(4); i.descriptors = quiet(rng, k); } },
        Table::Sdt(t) => for i in &mut t.items { let k = rng.below(4); i.descriptors = quiet(rng, k); },
        Table::Nit(t) => { t.descriptors = quiet(rng, rng.clone().below(3)); for i in &mut t.items { let k = rng.below(4); i.descriptors = quiet(rng, k); } },
        Table::Eit(t) => for i in &mut t.items { let k = rng.below(4); i.descriptors = quiet(rng, k); },
        Table::Tot(t) => t.descriptors = quiet(rng, rng.clone().below(4)),
        _ => {},
    }
    let mut b = sections(rng, &t, 4).remove(0);
    let (_, ls) = loops(kind, &b);
    let m = b.len() - 4;
    b.truncate(m);
    match rng.below(4) {
        // entries end early or late
        0 => { let k = rng.range(1, 11); b.extend((0 .. k).map(|_| 0xE0 | rng.byte())); },
        1 => { let k = rng.range(1, 11).min(m - loops_floor(kind)); b.truncate(m - k); },
        // length of a loop
        2 if !ls.is_empty() => {
            // (a shorter one would make entries of descriptor bytes)
            let (at, _) = ls[if kind == "eit" { ls.len() - 1 } else { rng.below(ls.len()) }];
            let old = (usize::from(b[at]) & 15) << 8 | usize::from(b[at + 1]);
            let new = match rng.below(6) { 0 => old + 1, 1 => old + 2, 2 => old + rng.range(3, 6), 3 => old + rng.range(1, 300), 4 => 4095, _ => 2048 + old }.min(4095);
            b[at] = b[at] & 0xF0 | (new >> 8) as u8;
            b[at + 1] = new as u8;
        },
        // length of a descriptor
        _ => {
            let full: Vec<usize> = ls.iter().filter(|&&(at, _)| b[at] & 15 != 0 || b[at + 1] > 1).map(|x| x.1).collect();
            if !full.is_empty() {
                let at = full[rng.below(full.len())] + 1;
                b[at] = match rng.below(4) { 0 => b[at].wrapping_add(1), 1 => b[at].wrapping_add(rng.byte() & 7), 2 => b[at].saturating_sub(1), _ => rng.byte() };
            }
        },
    }
    seal(&mut b);
    b
}

fn loops_floor(kind: &str) -> usize { match kind { "pat" => 8, "pmt" => 12, "sdt" => 11, "nit" => 12, "eit" => 14, _ => 10 } }

fn history(rng: &mut Rng, kind: &str, len: usize, room: usize) {
    let mut p = Parse::new(kind);
    for _ in 0 .. rng.range(1, len) { let (b, n) = any(rng, kind, room); p.feed(&b, n); }
    p.done();
}

/// The given one between two good ones
fn two_steps(rng: &mut Rng, kind: &str, b: &[u8], n: usize) {
    let mut p = Parse::new(kind);
    let s = own(rng, kind, 30);
    p.feed(&s, s.len());
    p.feed(b, n);
    let s = own(rng, kind, 30);
    p.feed(&s, s.len());
    p.done();
}

pub fn c14(ctx: &Ctx) {
    let mut rng = ctx.rng("c14");
    for kind in &KINDS {
        // every table id
        for tid in 0 ..= 255u8 {
            let mut b = own(&mut rng, kind, 30);
            b[0] = tid;
            if *kind != "tdt" { let n = b.len() - 4; b.truncate(n); seal(&mut b); }
            two_steps(&mut rng, kind, &b, b.len());
        }
        for &n in &EDGES {
            if let Some(t) = of_any_size(&mut rng, kind, n) {
                let s = sections(&mut rng, &t, 2000).remove(0);
                two_steps(&mut rng, kind, &s, s.len());
            }
        }
        // as many entries as there is room for, very many in all
        let entry = match *kind { "pat" => 4, "pmt" | "sdt" => 5, "nit" => 6, "eit" => 12, _ => 0 };
        if entry > 0 {
            for &room in &[1000usize, 4072] {
                let n = room / entry;
                let t = table(&mut rng, kind, n, 0);
                let s = sections(&mut rng, &t, 2000).remove(0);
                if s.len() <= 4096 { two_steps(&mut rng, kind, &s, s.len()); }
            }
            let t = table(&mut rng, kind, 1300, 0);
            let mut p = Parse::new(kind);
            let per = rng.range(60, 160);
            for s in sections(&mut rng, &t, per) { p.feed(&s, s.len()); }
            p.done();
        }
        // cut anywhere, with the size announced or as it is; short ones with right checksum
        for _ in 0 .. ctx.n(1, 6) {
            let s = own(&mut rng, kind, 30);
            for n in 3 .. s.len() {
                two_steps(&mut rng, kind, &s[.. n], s.len());
                two_steps(&mut rng, kind, &s[.. n], n);
                if n > 4 && n < 24 { let mut x = s[.. n].to_vec(); seal(&mut x); two_steps(&mut rng, kind, &x, x.len()); }
            }
        }
        two_steps(&mut rng, kind, &[], 0);
        // every bit
        let s = own(&mut rng, kind, 20);
        for k in 0 .. 8 * s.len() {
            if *kind == "tdt" { break; }
            if !ctx.thorough && k > 200 && k % 5 != 0 { continue; }
            let mut x = s.clone();
            x[k / 8] ^= 0x80 >> (k % 8);
            two_steps(&mut rng, kind, &x, x.len());
        }
        // sections of the other tables
        for other in &KINDS {
            for _ in 0 .. 4 { let x = own(&mut rng, other, 40); two_steps(&mut rng, kind, &x, x.len()); }
        }
        // the sections of a table in any order, with repetitions and strangers
        for _ in 0 .. ctx.n(40, 500) {
            let n = rng.range(1, 8);
            let t = table(&mut rng, kind, n, 40);
            let per = rng.range(1, 3);
            let v = sections(&mut rng, &t, per);
            let mut p = Parse::new(kind);
            for _ in 0 .. rng.range(1, 10) {
                if rng.chance(1, 4) { let (b, n) = any(&mut rng, kind, 20); p.feed(&b, n); }
                else { let x = rng.pick(&v).clone(); p.feed(&x, x.len()); }
            }
            p.done();
        }
        for _ in 0 .. ctx.n(80, 1200) { history(&mut rng, kind, 12, 60); }
        // inner lengths that do not add up
        if *kind != "tdt" { for _ in 0 .. ctx.n(150, 2000) { let b = uneven(&mut rng, kind); two_steps(&mut rng, kind, &b, b.len()); } }
        // more in the buffer than the section
        for i in 0 .. ctx.n(120, 1500) {
            let mut b = if i % 3 == 0 && *kind != "tdt" { uneven(&mut rng, kind) } else { own(&mut rng, kind, 30) };
            for _ in 0 .. 60 {
                // the checksum could pass for an entry
                if b[b.len() - 1] & 15 == 0 { break; }
                b = own(&mut rng, kind, 30);
            }
            let n = b.len();
            match rng.below(4) {
                0 => { let k = rng.range(1, 60); b.resize(n + k, 0); },
                1 => { let x = own(&mut rng, kind, 30); b.extend(x); },
                2 => { let k = rng.range(1, 30); b.extend(rng.bytes(k)); },
                _ => { let k = rng.range(1, 30); for _ in 0 .. k { let x = rng.below(8) as u8; b.push(x); } },
            }
            two_steps(&mut rng, kind, &b, n);
        }
    }
}
