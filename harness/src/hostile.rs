//! Hostile input (C03): batches of inputs, each handed to one part of the
//! library. Recorded: how many were given, how many calls came back, and the
//! first input that did not.

use crate::core::*;
use crate::desc::{descriptors, KNOWN};
use crate::mux::{packet, section};
use crate::tables::{psi, sections, table, Table, KINDS};
use mpegts::psi::{Descriptors, Psi, PmtItem};
use mpegts::textcode::StringDVB;
use mpegts::ts;

struct Batch { op: String, n: i64, back: i64, bad: Vec<u8> }

impl Batch {
    fn new(op: &str) -> Batch {
        what(op);
        Batch { op: op.to_string(), n: 0, back: 0, bad: Vec::new() }
    }

    fn run<F: FnOnce()>(&mut self, input: &[u8], f: F) {
        self.n += 1;
        if call(f).is_some() { self.back += 1; } else if self.bad.is_empty() { self.bad = input.to_vec(); }
        if self.n == 5000 { let op = self.op.clone(); std::mem::replace(self, Batch::new(&op)).done(); }
    }

    fn done(self) {
        if self.n == 0 { return; }
        emit(&J::obj(&[
            ("k", J::str("batch")), ("op", J::str(&self.op)), ("n", J::num(self.n)), ("back", J::num(self.back)),
            ("bad", J::bytes(&self.bad)),
        ]));
    }
}

/// Everything that may be done with received values
fn handle(t: &Table) {
    let _ = t.debug().len();
    let look = |d: &Descriptors| {
        let c = d.clone();
        let _ = format!("{:?}", c).len() + c.len();
        let _ = c.size();
        for x in c.iter() { let _ = x.tag(); }
    };
    match t {
        Table::Pmt(t) => { look(&t.descriptors); for x in &t.items { look(&x.descriptors); let _ = x.get_stream_type(); } },
        Table::Sdt(t) => for x in &t.items { look(&x.descriptors); },
        Table::Nit(t) => { look(&t.descriptors); for x in &t.items { look(&x.descriptors); } },
        Table::Eit(t) => for x in &t.items { look(&x.descriptors); let _ = format!("{:?}", x.clone()).len(); },
        Table::Tot(t) => look(&t.descriptors),
        _ => {},
    }
}

fn parse(b: &mut Batch, kind: &str, buf: &[u8], n: usize) {
    b.run(buf, || {
        let p = psi(buf, n);
        let mut t = Table::from_psi(kind, &p);
        t.parse(&p);
        handle(&t);
        let q = p.clone();
        let _ = p == q;
        let _ = format!("{:?}", q).len();
    });
}

fn reseal(b: &[u8]) -> Vec<u8> {
    let mut v = b[.. b.len() - 4].to_vec();
    seal(&mut v);
    v
}

const VALUES: [u8; 13] = [0, 1, 2, 3, 0x0F, 0x10, 0x7F, 0x80, 0xF0, 0xF1, 0xFC, 0xFE, 0xFF];

fn tables(ctx: &Ctx, rng: &mut Rng) {
    for kind in &KINDS {
        let mut b = Batch::new(&format!("parse {}", kind));
        for round in 0 .. ctx.n(3, 20) {
            let mut t = table(rng, kind, 3, if round % 2 == 0 { 60 } else { 20 });
            if let Table::Eit(e) = &mut t { e.table_id = *rng.pick(&[0x4E, 0x50, 0x6F]); }
            for s in sections(rng, &t, 3) {
                if s.len() > 1024 { continue; }
                let step = if s.len() > 260 { s.len() / 260 + 1 } else { 1 };
                // each byte with each value, the same and the next byte
                for i in (1 .. s.len()).step_by(step) {
                    for &v in &VALUES {
                        let mut x = s.clone();
                        x[i] = v;
                        let x = if s.len() > 12 && i < s.len() - 4 { reseal(&x) } else { x };
                        parse(&mut b, kind, &x, x.len());
                        if i + 1 < s.len() - 4 && v > 0x7F {
                            let mut y = s.clone();
                            y[i] = v;
                            y[i + 1] = 0xFF;
                            let y = reseal(&y);
                            parse(&mut b, kind, &y, y.len());
                        }
                    }
                }
                // cut anywhere, with and without a right checksum
                for n in 3 .. s.len() {
                    parse(&mut b, kind, &s[.. n], s.len());
                    parse(&mut b, kind, &s[.. n], n);
                    if n > 4 {
                        let mut x = s[.. n].to_vec();
                        seal(&mut x);
                        parse(&mut b, kind, &x, x.len());
                    }
                }
            }
        }
        // any contents
        for k in 0 .. ctx.n(6000, 200_000) {
            let m = if k % 4 == 0 { rng.below(30) } else { rng.below(200) };
            let mut x = vec![0, 0xB0, 0];
            x[0] = match *kind {
                "pat" => 0, "pmt" => 2, "sdt" => *rng.pick(&[0x42, 0x46]), "nit" => *rng.pick(&[0x40, 0x41]),
                "eit" => rng.range(0x4E, 0x6F) as u8, "tdt" => 0x70, _ => 0x73,
            };
            x.extend(rng.bytes(m));
            // length fields that are likely to be in range
            if rng.chance(1, 2) {
                for i in 3 .. x.len() { if rng.chance(1, 5) { x[i] = *rng.pick(&[0, 0xF0, 1, 5, m as u8]); } }
            }
            if *kind == "tdt" && rng.chance(1, 2) { x.resize(8, 0); } else { seal(&mut x); }
            parse(&mut b, kind, &x, x.len());
        }
        // every code of the date and time bytes
        if *kind == "tdt" {
            for i in 3 .. 8 {
                for v in 0 ..= 255u8 { for f in &[0u8, 0x23, 0x59, 0xFF] { let mut x = vec![0x70, 0x70, 5, *f, *f, *f, *f, *f]; x[i] = v; parse(&mut b, kind, &x, 8); } }
            }
        }
        b.done();
    }
}

fn desc_loop(b: &mut Batch, x: &[u8]) {
    b.run(x, || {
        let mut d = Descriptors::default();
        d.parse(x);
        let c = d.clone();
        let _ = format!("{:?}", d).len() + format!("{:?}", c).len();
        let _ = c.size() + c.len();
        for k in c.iter() { let _ = k.tag(); }
        let i = make!(PmtItem { stream_type: 6, pid: 0, descriptors: c });
        let _ = i.get_stream_type();
    });
}

fn loops(ctx: &Ctx, rng: &mut Rng) {
    let mut b = Batch::new("descriptor loop");
    // every tag with every length
    for tag in 0 ..= 255u8 {
        for n in (0 ..= 255usize).step_by(if KNOWN.contains(&tag) { 1 } else { 17 }) {
            let mut x = vec![tag, n as u8];
            x.extend(match rng.below(4) { 0 => vec![0; n], 1 => vec![0xFF; n], _ => rng.bytes(n) });
            desc_loop(&mut b, &x);
            x.pop();
            desc_loop(&mut b, &x);
        }
    }
    // known tags: each byte with each value
    for &tag in &KNOWN {
        for n in 0 .. ctx.n(28, 60) {
            for base in 0 .. 3 {
                let mut x = vec![tag, n as u8];
                x.extend(match base { 0 => vec![0; n], 1 => vec![0xFF; n], _ => rng.bytes(n) });
                for i in 0 .. n {
                    for v in VALUES.iter().cloned().chain(vec![n as u8, (n - i) as u8, (n - i - 1) as u8, (n - i + 1) as u8]) {
                        let mut y = x.clone();
                        y[2 + i] = v;
                        desc_loop(&mut b, &y);
                    }
                }
            }
        }
    }
    // loops of good ones, altered
    for _ in 0 .. ctx.n(12000, 300_000) {
        let room = rng.range(2, 255);
        let d = descriptors(rng, room);
        let mut x = Vec::new();
        call(|| { d.assemble(&mut x); });
        for _ in 0 .. rng.range(1, 4) {
            if x.is_empty() { break; }
            let i = rng.below(x.len());
            match rng.below(4) { 0 => x.truncate(i), 1 => x[i] = *rng.pick(&VALUES), 2 => { x.remove(i); }, _ => x[i] = rng.byte() }
        }
        desc_loop(&mut b, &x);
    }
    for _ in 0 .. ctx.n(8000, 200_000) { let n = rng.below(80); let x = rng.bytes(n); desc_loop(&mut b, &x); }
    for t in 0 ..= 255u8 { desc_loop(&mut b, &[t]); desc_loop(&mut b, &[t, 0]); desc_loop(&mut b, &[0x40, 0, t]); }
    b.done();
}

fn text(b: &mut Batch, x: &[u8]) {
    b.run(x, || {
        let s = StringDVB::from(x);
        let c = s.clone();
        let _ = s == c;
        let _ = format!("{} {:?}", s, c).len();
        let _ = s.size() + s.as_bytes().len();
        let _ = s.is_empty();
        let _ = s.get_codepage();
    });
}

fn texts(ctx: &Ctx, rng: &mut Rng) {
    let mut b = Batch::new("text");
    for x in 0 ..= 255u8 {
        text(&mut b, &[x]);
        for y in 0 ..= 255u8 {
            text(&mut b, &[x, y]);
            if x < 0x20 { for z in (0 ..= 255u8).step_by(if x == 0x10 || x == 0x15 { 1 } else { 15 }) { text(&mut b, &[x, y, z]); } }
        }
    }
    for _ in 0 .. ctx.n(20000, 400_000) {
        let n = rng.below(40);
        let mut x = rng.bytes(n);
        if n > 0 && rng.chance(3, 4) { x[0] = rng.below(0x20) as u8; }
        if n > 2 && rng.chance(1, 2) { x[0] = *rng.pick(&[0x10, 0x15, 0x1F]); if rng.chance(3, 4) { x[1] = 0; x[2] = rng.below(20) as u8; } }
        text(&mut b, &x);
    }
    for n in 0 .. 300 { text(&mut b, &vec![0xE2; n]); text(&mut b, &vec![0x15; n]); text(&mut b, &vec![0x10; n]); text(&mut b, &vec![0xC1; n]); }
    b.done();
}

fn printed(b: &mut Batch, p: &[u8]) {
    b.run(p, || {
        let _ = format!("{:?} {:?}", ts::TsPacket::new(p), ts::TsAdaptation::new(p)).len();
        let _ = format!("{:#?}", ts::TsPacket::new(p)).len();
        let _ = ts::get_payload_offset(p);
        if ts::is_pcr(p) { let _ = ts::get_pcr(p); }
    });
}

fn printer(ctx: &Ctx, rng: &mut Rng) {
    let mut b = Batch::new("packet printer");
    for f in 0 ..= 255u8 {
        for l in (0 ..= 255u8).step_by(if f & 0x20 != 0 { 1 } else { 51 }) {
            for fill in &[0u8, 0x10, 0xFF] {
                let mut p = vec![*fill; 188];
                p[0] = 0x47;
                p[3] = f;
                p[4] = l;
                printed(&mut b, &p);
            }
        }
    }
    for _ in 0 .. ctx.n(5000, 100_000) { let p = rng.bytes(188); printed(&mut b, &p); }
    b.done();
}

fn feed(b: &mut Batch, a: &mut Psi, p: &[u8]) {
    b.run(p, || {
        a.mux(p);
        let ok = a.check();
        if ok { let c = a.clone(); let _ = *a == c; }
        if a.buffer.len() < 40 { let _ = format!("{:?}", a).len(); }
    });
}

/// Accumulators in different states
fn states(rng: &mut Rng) -> Vec<Psi> {
    let mut v = vec![Psi::default()];
    let s = section(rng, 500, true);
    for n in &[1usize, 2, 3, 4, 100, 182] {
        let mut pay = vec![0];
        pay.extend_from_slice(&s[.. *n]);
        let mut a = Psi::default();
        a.mux(&packet(0, true, 0, &pay)[..]);
        v.push(a);
    }
    // complete, nearly complete
    for n in &[8usize, 50, 182, 183, 184, 366, 367, 368] {
        let s = section(rng, *n, true);
        let mut all = vec![0];
        all.extend_from_slice(&s);
        let mut a = Psi::default();
        let mut cc = 0;
        for (k, c) in all.chunks(184).enumerate() {
            if k > 0 && rng.chance(1, 2) && c.len() < 10 { break; }
            a.mux(&packet(0, k == 0, cc, c)[..]);
            cc += 1;
        }
        a.cc = 0;
        v.push(a);
    }
    let mut a = Psi::default();
    a.mux(&packet(0, true, 0, &[0, 0x42, 0xFF, 0xFF])[..]);
    v.push(a);
    v
}

fn accumulator(ctx: &Ctx, rng: &mut Rng) {
    let mut b = Batch::new("accumulator");
    let st = states(rng);
    for s in &st {
        // adaptation field and pointer of every size
        for flags in &[0x11u8, 0x31, 0x21, 0x01, 0x30, 0x10] {
            for l in 0 ..= 255usize {
                if flags & 0x20 == 0 && l > 0 { break; }
                let off = if flags & 0x20 != 0 { 5 + l } else { 4 };
                for pusi in &[0u8, 0x40] {
                    let ptrs: Vec<usize> = if *pusi == 0 { vec![0] } else if l % 16 == 0 || l > 170 { (0 .. 256).collect() } else { vec![0, 1, 255, 187usize.saturating_sub(off), 188usize.saturating_sub(off)] };
                    for ptr in ptrs {
                        let mut p = match rng.below(4) { 0 => vec![0xFF; 188], 1 => vec![0; 188], _ => rng.bytes(188) };
                        p[0] = 0x47;
                        p[1] = *pusi;
                        p[2] = 0;
                        p[3] = *flags;
                        if flags & 0x20 != 0 { p[4] = l as u8; }
                        if *pusi != 0 && off < 188 { p[off] = ptr as u8; }
                        let mut a = s.clone();
                        feed(&mut b, &mut a, &p);
                    }
                }
            }
        }
    }
    // streams
    for _ in 0 .. ctx.n(400, 12_000) {
        let mut a = rng.pick(&st).clone();
        let mut cc = a.cc;
        for _ in 0 .. rng.range(5, 80) {
            let n = match rng.below(5) { 0 => rng.range(1, 4), 1 => rng.range(1, 184), _ => 184 };
            let mut pay = rng.bytes(n);
            match rng.below(6) { 0 => pay[0] = 0, 1 => pay[0] = n as u8, 2 => { let v = *rng.pick(&VALUES); let i = rng.below(n); pay[i] = v; }, _ => {} }
            if n > 4 && rng.chance(1, 3) { pay[2] = *rng.pick(&[0, 0xF0, 0xBF, 0xFF]); pay[3] = *rng.pick(&[0, 1, 5, 9, 0xFF]); }
            cc = if rng.chance(9, 10) { (cc + 1) & 15 } else { rng.below(16) as u8 };
            let mut p = packet(0, rng.chance(1, 3), cc, &pay);
            if rng.chance(1, 30) { p[4] = rng.byte(); }
            if rng.chance(1, 30) { p[3] = rng.byte(); }
            feed(&mut b, &mut a, &p);
        }
    }
    b.done();
}

pub fn c03(ctx: &Ctx) {
    let mut rng = ctx.rng("c03");
    tables(ctx, &mut rng);
    loops(ctx, &mut rng);
    texts(ctx, &mut rng);
    printer(ctx, &mut rng);
    accumulator(ctx, &mut rng);
}
