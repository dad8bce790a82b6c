//! Received sections and tables changed and sent on (C34)

use crate::core::*;
use crate::desc::{descriptors, list_json, raw, second, unknown_tag, upto};
use crate::mux::{pkt_json, section, section_size, style, Cutter};
use crate::tables::{psi, sections, table, Table};
use mpegts::psi::*;

// ---------------------------------------------------------------------------
// Sections

/// A stream of sections through one accumulator; each that verifies is changed
/// (in the accumulator or in a copy of it) and packetised behind the others.
fn sections_on(rng: &mut Rng, secs: &[Vec<u8>]) {
    let mut pk = Vec::new();
    let mut cut = Cutter { cc: rng.below(16) as u8, pid: rng.below(8192) as u16 };
    let mut sty = style(rng);
    sty.idle = 0;
    cut.cut(rng, secs, sty, &mut pk);
    if pk.len() > 300 { return; }
    let mut acc = Psi::default();
    let mut out = Vec::new();
    let mut cc = rng.below(16) as u8;
    let cc0 = cc;
    let mut pid = rng.below(8192) as u16;
    let mut steps = Vec::new();
    for p in &pk {
        if rng.chance(1, 6) { pid = rng.below(8192) as u16; }
        let fed = call(|| { acc.mux(&p[..]); acc.check() });
        let mut x = vec![("p", pkt_json(p)), ("pid", J::num(i64::from(pid)))];
        let take = fed == Some(true) && acc.size >= 8;
        let (mut put, mut keep, mut add) = (Vec::new(), -1, Vec::new());
        let mut good = true;
        if take {
            let n = acc.size - 4;
            let mut place = |rng: &mut Rng, n: usize| {
                for _ in 0 .. rng.below(4) {
                    let i = match rng.below(n - 2) { 0 => 0, k => k + 2 };
                    put.push((i, rng.byte()));
                }
            };
            let r = match rng.below(3) {
                // in the accumulator, which goes on receiving
                0 => {
                    place(rng, n);
                    let was = (acc.pid, acc.cc);
                    let r = call(|| {
                        for &(i, v) in &put { acc.buffer[i] = v; }
                        acc.finalize();
                        acc.pid = pid;
                        acc.cc = cc;
                        acc.demux(&mut out);
                        acc.cc
                    });
                    acc.pid = was.0;
                    acc.cc = was.1;
                    r
                },
                // in a copy
                1 => {
                    place(rng, n);
                    let mut q = acc.clone();
                    call(|| {
                        for &(i, v) in &put { q.buffer[i] = v; }
                        q.finalize();
                        q.pid = pid;
                        q.cc = cc;
                        q.demux(&mut out);
                        q.cc
                    })
                },
                // in a copy, cut somewhere and continued
                _ => {
                    let k = match rng.below(4) { 0 => n, 1 => rng.range(4.min(n), n), _ => n.min(8) };
                    let m = match rng.below(4) { 0 => 0, 1 => rng.below(400), _ => rng.below(30) }.min(4092 - k);
                    add = rng.bytes(m);
                    keep = k as i64;
                    place(rng, k);
                    let mut q = acc.clone();
                    call(|| {
                        q.buffer.truncate(k);
                        q.size = 0;
                        for &(i, v) in &put { q.buffer[i] = v; }
                        q.buffer.extend_from_slice(&add);
                        q.finalize();
                        q.pid = pid;
                        q.cc = cc;
                        q.demux(&mut out);
                        q.cc
                    })
                },
            };
            match r { Some(c) => cc = c, None => good = false }
        }
        x.push(("st", J::str(if fed.is_some() && good { "ok" } else { "panic" })));
        x.push(("ok", J::boolean(take)));
        x.push(("put", J::list(put.iter().map(|&(i, v)| J::ints(vec![i as i64 + 1, i64::from(v)])))));
        x.push(("keep", J::num(keep)));
        x.push(("add", J::bytes(&add)));
        x.push(("len", J::num(out.len() as i64)));
        x.push(("cc", J::num(i64::from(cc))));
        steps.push(J::obj(&x));
        if fed.is_none() || ! good { break; }
    }
    emit(&J::obj(&[("k", J::str("sections")), ("cc", J::num(i64::from(cc0))), ("steps", J::list(steps)), ("out", J::bytes(&out))]));
}

// ---------------------------------------------------------------------------
// Tables

fn op(name: &str, i: usize, j: usize, x: &[i64], d: J) -> J {
    J::obj(&[("op", J::str(name)), ("i", J::num(i as i64)), ("j", J::num(j as i64)), ("x", J::ints(x.to_vec())), ("d", d)])
}

/// Descriptors of entry i (from 1), of the table for 0
fn loop_of(t: &mut Table, i: usize) -> Option<&mut Descriptors> {
    if i == 0 {
        return match t {
            Table::Pmt(t) => Some(&mut t.descriptors), Table::Nit(t) => Some(&mut t.descriptors), Table::Tot(t) => Some(&mut t.descriptors),
            _ => None,
        };
    }
    match t {
        Table::Pmt(t) => Some(&mut t.items[i - 1].descriptors), Table::Sdt(t) => Some(&mut t.items[i - 1].descriptors),
        Table::Nit(t) => Some(&mut t.items[i - 1].descriptors), Table::Eit(t) => Some(&mut t.items[i - 1].descriptors),
        _ => None,
    }
}

macro_rules! items {
    ($t:expr, $v:ident => $e:expr) => {
        match $t {
            Table::Pat(t) => { let $v = &mut t.items; $e }, Table::Pmt(t) => { let $v = &mut t.items; $e },
            Table::Sdt(t) => { let $v = &mut t.items; $e }, Table::Nit(t) => { let $v = &mut t.items; $e },
            Table::Eit(t) => { let $v = &mut t.items; $e }, _ => {},
        }
    };
}

/// One change of the table; None: not possible
fn alter(rng: &mut Rng, t: &mut Table) -> Option<J> {
    let none = || J::list(vec![]);
    let n = t.len();
    let one = |rng: &mut Rng| if n == 0 { None } else { Some(rng.range(1, n)) };
    Some(match rng.below(10) {
        // next version
        0 => {
            let (at, v) = match t {
                Table::Pat(t) => (1, &mut t.version), Table::Pmt(t) => (1, &mut t.version), Table::Sdt(t) => (2, &mut t.version),
                Table::Nit(t) => (2, &mut t.version), Table::Eit(t) => (2, &mut t.version), _ => return None,
            };
            *v = if rng.chance(3, 4) { (*v + 1) & 31 } else { rng.below(32) as u8 };
            op("head", at, 0, &[i64::from(*v)], none())
        },
        // identifiers, time
        1 => {
            let x = upto(rng, 65535) as u16;
            let at = match t {
                Table::Pat(t) => { t.tsid = x; 2 },
                Table::Pmt(t) => if rng.chance(1, 2) { t.pnr = x; 2 } else { t.pcr = x & 8191; return Some(op("head", 3, 0, &[i64::from(x & 8191)], none())); },
                Table::Sdt(t) => match rng.below(3) {
                    0 => { t.table_id ^= 4; return Some(op("head", 1, 0, &[i64::from(t.table_id)], none())); },
                    1 => { t.tsid = x; 3 },
                    _ => { t.onid = x; 4 },
                },
                Table::Nit(t) => if rng.chance(1, 2) { t.table_id ^= 1; return Some(op("head", 1, 0, &[i64::from(t.table_id)], none())); } else { t.network_id = x; 3 },
                Table::Eit(t) => match rng.below(4) {
                    0 => { t.table_id ^= 1; return Some(op("head", 1, 0, &[i64::from(t.table_id)], none())); },
                    1 => { t.pnr = x; 3 },
                    2 => { t.tsid = x; 4 },
                    _ => { t.onid = x; 5 },
                },
                Table::Tdt(t) => { t.time = second(rng); return Some(op("time", 0, 0, &[(t.time / 86400) as i64, (t.time % 86400) as i64], none())); },
                Table::Tot(t) => { t.time = second(rng); return Some(op("time", 0, 0, &[(t.time / 86400) as i64, (t.time % 86400) as i64], none())); },
            };
            op("head", at, 0, &[i64::from(x)], none())
        },
        2 => { let i = one(rng)?; items!(t, v => { v.remove(i - 1); }); op("drop", i, 0, &[], none()) },
        3 => { let (i, j) = (one(rng)?, one(rng)?); items!(t, v => v.swap(i - 1, j - 1)); op("swap", i, j, &[], none()) },
        // an entry once more at the end
        4 => {
            let i = one(rng)?;
            let k = i - 1;
            match t {
                Table::Pat(t) => { let x = make!(PatItem { pnr: t.items[k].pnr, pid: t.items[k].pid }); t.items.push(x); },
                Table::Pmt(t) => { let x = &t.items[k]; let x = make!(PmtItem { stream_type: x.stream_type, pid: x.pid, descriptors: x.descriptors.clone() }); t.items.push(x); },
                Table::Sdt(t) => {
                    let x = &t.items[k];
                    let x = make!(SdtItem {
                        pnr: x.pnr, eit_schedule_flag: x.eit_schedule_flag, eit_present_following_flag: x.eit_present_following_flag,
                        running_status: x.running_status, free_ca_mode: x.free_ca_mode, descriptors: x.descriptors.clone(),
                    });
                    t.items.push(x);
                },
                Table::Nit(t) => { let x = &t.items[k]; let x = make!(NitItem { tsid: x.tsid, onid: x.onid, descriptors: x.descriptors.clone() }); t.items.push(x); },
                Table::Eit(t) => {
                    let x = &t.items[k];
                    let x = make!(EitItem { event_id: x.event_id, start: x.start, duration: x.duration, status: x.status, ca_mode: x.ca_mode, descriptors: x.descriptors.clone() });
                    t.items.push(x);
                },
                _ => return None,
            }
            op("again", i, 0, &[], none())
        },
        // a number of an entry
        5 => {
            let i = one(rng)?;
            let k = i - 1;
            let w = upto(rng, 65535) as u16;
            let (j, x) = match t {
                Table::Pat(t) => if rng.chance(1, 2) { t.items[k].pnr = w; (1, w) } else { t.items[k].pid = w & 8191; (2, w & 8191) },
                Table::Pmt(t) => if rng.chance(1, 2) { t.items[k].stream_type = w as u8; (1, w & 255) } else { t.items[k].pid = w & 8191; (2, w & 8191) },
                Table::Sdt(t) => match rng.below(5) {
                    0 => { t.items[k].pnr = w; (1, w) },
                    1 => { t.items[k].eit_schedule_flag = w as u8 & 1; (2, w & 1) },
                    2 => { t.items[k].eit_present_following_flag = w as u8 & 1; (3, w & 1) },
                    3 => { t.items[k].running_status = w as u8 & 7; (4, w & 7) },
                    _ => { t.items[k].free_ca_mode = w as u8 & 1; (5, w & 1) },
                },
                Table::Nit(t) => if rng.chance(1, 2) { t.items[k].tsid = w; (1, w) } else { t.items[k].onid = w; (2, w) },
                Table::Eit(t) => match rng.below(3) {
                    0 => { t.items[k].event_id = w; (1, w) },
                    1 => { t.items[k].duration = u32::from(w); (4, w) },
                    _ => { t.items[k].status = w as u8 & 7; (5, w & 7) },
                },
                _ => return None,
            };
            op("number", i, j, &[i64::from(x)], none())
        },
        // descriptors
        6 | 7 => {
            let i = if rng.chance(1, 3) { 0 } else { one(rng)? };
            let tag = unknown_tag(rng);
            let m = rng.below(20);
            let more = if rng.chance(1, 2) { descriptors(rng, 60) } else { let mut d = Descriptors::default(); d.push(raw(rng, tag, m)); d };
            let l = loop_of(t, i)?;
            if l.size() + more.size() > 600 { return None; }
            let r = op("append", i, 0, &[], list_json(&more));
            for d in more.iter() { l.push(d.clone()); }
            r
        },
        8 => {
            // all but those with one tag
            let i = if rng.chance(1, 3) { 0 } else { one(rng)? };
            let l = loop_of(t, i)?;
            if l.is_empty() { return None; }
            let tag = { let k = rng.below(l.len()); l.get(k)?.tag() };
            let mut kept = Descriptors::default();
            for d in l.iter() { if d.tag() != tag { kept.push(d.clone()); } }
            *l = kept;
            op("without", i, 0, &[i64::from(tag)], none())
        },
        _ => {
            // taken from one entry, given to another
            let (i, j) = (one(rng)?, one(rng)?);
            if i == j { return None; }
            let d = std::mem::take(loop_of(t, i)?);
            *loop_of(t, j)? = d;
            op("give", i, j, &[], none())
        },
    })
}

fn table_on(rng: &mut Rng, kind: &str, n: usize, room: usize, times: usize) {
    what("table changed and sent on");
    let per = rng.range(1, 6);
    let src = table(rng, kind, n, room);
    let secs = sections(rng, &src, per);
    if secs.iter().any(|s| s.len() > 4096) { return; }
    let mut t = Table::empty(kind);
    let r = call(|| for s in &secs { t.parse(&psi(s, s.len())); });
    if r.is_none() {
        emit(&J::obj(&[("k", J::str("fault")), ("st", J::str("panic")), ("what", J::str("parse"))]));
        return;
    }
    // what is sent on must fit in a section
    if call(|| loop_of(&mut t, 0).map_or(false, |d| d.size() > 600)).unwrap_or(true) { return; }
    let (mut out, mut cc) = (Vec::new(), rng.below(16) as u8);
    let (pid, cc0) = (rng.below(8192) as u16, cc);
    let mut steps = Vec::new();
    // sent as it is, then after every few changes
    for round in 0 ..= times {
        let mut ops = Vec::new();
        if round > 0 {
            for _ in 0 .. rng.range(1, 4) {
                match call(|| alter(rng, &mut t)) {
                    Some(Some(o)) => ops.push(o),
                    Some(None) => {},
                    None => {
                        emit(&J::obj(&[("k", J::str("fault")), ("st", J::str("panic")), ("what", J::str("change of a table"))]));
                        return;
                    },
                }
            }
        }
        let r = call(|| t.demux(pid, &mut cc, &mut out));
        steps.push(J::obj(&[("st", st(&r)), ("ops", J::list(ops)), ("len", J::num(out.len() as i64)), ("cc", J::num(i64::from(cc)))]));
        if r.is_none() { break; }
    }
    emit(&J::obj(&[
        ("k", J::str("table")), ("kind", J::str(kind)), ("secs", J::list(secs.iter().map(|s| J::bytes(s)))),
        ("pid", J::num(i64::from(pid))), ("cc", J::num(i64::from(cc0))), ("steps", J::list(steps)), ("out", J::bytes(&out)),
    ]));
}

pub fn c34(ctx: &Ctx) {
    let mut rng = ctx.rng("c34");
    what("section changed and sent on");
    for i in 0 .. ctx.n(250, 4000) {
        let n = rng.range(1, 6);
        let secs: Vec<Vec<u8>> = (0 .. n).map(|_| {
            let size = match i % 4 { 0 => section_size(&mut rng).min(4096), 1 => rng.range(8, 40), _ => rng.range(8, 260) };
            let good = rng.chance(7, 8);
            section(&mut rng, size, good)
        }).collect();
        sections_on(&mut rng, &secs);
    }
    // sections that end around packet borders, the longest ones
    for k in 1 .. 23 {
        for d in 0 .. 4 {
            let x = rng.range(8, 100);
            let secs = vec![section(&mut rng, (184 * k + d - 2).min(4096), true), section(&mut rng, x, true)];
            sections_on(&mut rng, &secs);
        }
    }
    for _ in 0 .. ctx.n(60, 800) {
        for kind in &["pat", "pmt", "sdt", "nit", "eit", "tdt", "tot"] {
            let n = match rng.below(8) { 0 => 0, 1 => rng.range(5, 15), _ => rng.range(1, 5) };
            let room = match rng.below(3) { 0 => 0, 1 => 40, _ => 150 };
            let times = rng.range(1, 6);
            table_on(&mut rng, kind, n, room, times);
        }
    }
    // tables of several sections
    for _ in 0 .. ctx.n(6, 60) {
        for kind in &["pat", "pmt", "sdt", "nit"] {
            let n = if *kind == "pat" { rng.range(240, 600) } else { rng.range(15, 40) };
            table_on(&mut rng, kind, n, 120, 3);
        }
    }
}
