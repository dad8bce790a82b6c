//! Section accumulator: C01, C02

use crate::core::*;
use mpegts::psi::Psi;

pub type Pkt = [u8; 188];

/// Packet with `pay` bytes of payload; an adaptation field fills the rest.
pub fn packet(pid: u16, pusi: bool, cc: u8, pay: &[u8]) -> Pkt {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = (if pusi { 0x40 } else { 0 }) | (pid >> 8) as u8;
    p[2] = pid as u8;
    p[3] = 0x10 | cc;
    if pay.len() < 184 {
        p[3] |= 0x20;
        p[4] = (183 - pay.len()) as u8;
        if p[4] > 0 { p[5] = 0; }
    }
    p[188 - pay.len() ..].copy_from_slice(pay);
    p
}

/// Packet without payload
pub fn empty(pid: u16, cc: u8, af: bool) -> Pkt {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = (pid >> 8) as u8;
    p[2] = pid as u8;
    p[3] = cc | if af { 0x20 } else { 0 };
    p[4] = 183;
    p[5] = 0;
    p
}

/// Short form, see Trace_Mux.tla
pub fn pkt_json(p: &Pkt) -> J {
    if p[3] & 0x30 == 0x30 && p[4] <= 182 {
        let off = 5 + p[4] as usize;
        let n = 188 - off;
        let mut q = packet(0, false, 0, &p[off ..]);
        q[.. 4].copy_from_slice(&p[.. 4]);
        if q[..] == p[..] {
            let mut v = p[.. 4].to_vec();
            v.extend_from_slice(&p[188 - n ..]);
            return J::bytes(&v);
        }
    }
    J::bytes(&p[..])
}

fn observe(psi: &Psi, alive: bool) -> J {
    let r = if alive { call(|| psi.check()) } else { None };
    let c = psi.size > 0 && psi.buffer.len() >= psi.size;
    J::obj(&[
        ("st", st(&r)),
        ("c", J::boolean(c)),
        ("ok", J::boolean(r.unwrap_or(false))),
        ("n", J::num(psi.buffer.len() as i64)),
        ("b", J::bytes(if c { &psi.buffer[.. psi.size] } else { &[] })),
    ])
}

/// Feeds the packets to one accumulator and records what it shows.
pub fn history(psi: &mut Psi, pk: &[Pkt], sent: Option<&[Vec<u8>]>) {
    let mut obs = Vec::new();
    let mut fed = Vec::new();
    // a packet may be followed by others in the caller's buffer
    let all: Vec<u8> = pk.iter().flat_map(|p| p.to_vec()).collect();
    let behind = pk.len() % 2 * 200;
    for (i, p) in pk.iter().enumerate() {
        fed.push(pkt_json(p));
        let end = std::cmp::min(188 * (i + 1) + behind, all.len());
        let r = call(|| psi.mux(&all[188 * i .. end]));
        obs.push(observe(psi, r.is_some()));
        if r.is_none() { break; }
    }
    emit(&J::obj(&[
        ("k", J::str("mux")),
        ("intact", J::boolean(sent.is_some())),
        ("pk", J::list(fed)),
        ("obs", J::list(obs)),
        ("sent", J::list(sent.unwrap_or(&[]).iter().map(|s| J::bytes(s)))),
    ]));
}

// ---------------------------------------------------------------------------
// Sections

/// Section of `size` bytes; `good`: with the right checksum
pub fn section(rng: &mut Rng, size: usize, good: bool) -> Vec<u8> {
    let mut s = rng.bytes(size);
    if s[0] == 0xFF { s[0] = 0x42; }
    s[1] = (s[1] & 0xF0) | ((size - 3) >> 8) as u8;
    s[2] = (size - 3) as u8;
    if size >= 8 {
        let mut c = crc(&s[.. size - 4]);
        if ! good { c ^= 1 << rng.below(32); }
        s[size - 4 ..].copy_from_slice(&c.to_be_bytes());
    }
    // few distinct bytes: misplaced ones are more likely to go unnoticed by
    // a wrong accumulator, not by the specification
    s
}

pub fn section_size(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => rng.range(3, 7),
        1 | 2 => rng.range(8, 20),
        3 => rng.range(170, 200),
        4 => 184 * rng.range(1, 5) + rng.range(0, 6) - 3,
        5 => rng.range(8, 1024),
        6 => *rng.pick(&[1021, 1022, 1023, 1024, 1025, 4093, 4094, 4095, 4096, 4097, 4098]),
        7 => rng.range(1024, 4098),
        _ => rng.range(8, 400),
    }
}

/// Contents of the adaptation field and priority bit, free for the sender
fn dress(rng: &mut Rng, pk: &mut [Pkt]) {
    if rng.chance(1, 3) { return; }
    for p in pk {
        if rng.chance(1, 3) { p[1] |= 0x20; }
        if p[3] & 0x20 == 0 || rng.chance(1, 2) { continue; }
        let end = std::cmp::min(5 + p[4] as usize, 188);
        for i in 5 .. end { p[i] = rng.byte(); }
        if end > 5 && rng.chance(1, 2) { p[5] = 1 << rng.below(8); }
    }
}

// ---------------------------------------------------------------------------
// Legal packetisation

pub struct Cutter {
    pub cc: u8,
    pub pid: u16,
}

/// What a packet may carry
#[derive(Clone, Copy)]
pub struct Style {
    /// payload size: 0 full packets, 1 any, 2 small, 3 mixed
    pub cap: u8,
    /// start the next section in the packet that ends one: n of 4
    pub join: usize,
    /// start a further section behind a complete short one: n of 4
    pub chain: usize,
    /// packets without payload: n of 16
    pub idle: usize,
}

pub fn style(rng: &mut Rng) -> Style {
    Style {
        cap: rng.below(4) as u8,
        join: rng.below(5),
        chain: rng.below(5),
        idle: *rng.pick(&[0, 0, 1, 4]),
    }
}

impl Cutter {
    fn cap(&self, rng: &mut Rng, st: Style) -> usize {
        match st.cap {
            0 => 184,
            1 => rng.range(1, 184),
            2 => rng.range(1, 12),
            _ => match rng.below(4) {
                0 => rng.range(1, 6),
                1 => rng.range(180, 184),
                2 => 184,
                _ => rng.range(1, 184),
            },
        }
    }

    /// Packets carrying the sections, no packet completing two of them
    pub fn cut(&mut self, rng: &mut Rng, secs: &[Vec<u8>], st: Style, out: &mut Vec<Pkt>) {
        let mut i = 0; // current section
        let mut off = 0; // bytes of it already sent
        while i < secs.len() {
            if rng.below(16) < st.idle {
                let af = rng.chance(3, 4);
                out.push(empty(self.pid, (self.cc + 15) & 0x0F, af));
            }
            let mut cap = self.cap(rng, st);
            let rest = if off == 0 { 0 } else { secs[i].len() - off };
            let next = if off == 0 { i } else { i + 1 };
            let start = off == 0 || (next < secs.len() && rest + 2 <= cap && rng.below(4) < st.join);
            let mut pay = Vec::new();
            if ! start {
                let n = std::cmp::min(rest, cap);
                pay.extend_from_slice(&secs[i][off .. off + n]);
                off += n;
                if off == secs[i].len() {
                    i += 1;
                    off = 0;
                }
            } else {
                if cap < 2 { cap = 2; }
                let mut done = 0;
                pay.push(rest as u8);
                if rest > 0 {
                    pay.extend_from_slice(&secs[i][off ..]);
                    done = 1;
                }
                i = next;
                let room = cap - pay.len();
                if secs[i].len() <= room && done == 1 {
                    // the next section would be completed too: make the packet
                    // smaller or start it later
                    if secs[i].len() == 1 || rng.chance(1, 2) || room < 2 {
                        // can not start here; undo the start
                        let tail = pay[1 ..].to_vec();
                        pay = tail;
                        cap = if rng.chance(1, 2) { pay.len() } else { cap };
                        while pay.len() < cap { pay.push(0xFF); }
                        out.push(packet(self.pid, false, self.cc, &pay));
                        self.cc = (self.cc + 1) & 0x0F;
                        off = 0;
                        continue;
                    }
                    let n = rng.range(1, std::cmp::min(room, secs[i].len() - 1));
                    pay.extend_from_slice(&secs[i][.. n]);
                    cap = pay.len();
                    off = n;
                } else if secs[i].len() <= room {
                    pay.extend_from_slice(&secs[i]);
                    i += 1;
                    off = 0;
                    let room = cap - pay.len();
                    if i < secs.len() && room > 0 && rng.below(4) < st.chain {
                        let n = std::cmp::min(room, secs[i].len() - 1);
                        pay.extend_from_slice(&secs[i][.. n]);
                        off = n;
                        if n < room { cap = pay.len(); }
                    }
                } else {
                    pay.extend_from_slice(&secs[i][.. room]);
                    off = room;
                }
                while pay.len() < cap { pay.push(0xFF); }
                out.push(packet(self.pid, true, self.cc, &pay));
                self.cc = (self.cc + 1) & 0x0F;
                continue;
            }
            while pay.len() < cap { pay.push(0xFF); }
            out.push(packet(self.pid, false, self.cc, &pay));
            self.cc = (self.cc + 1) & 0x0F;
        }
    }
}

/// All packetisations of `secs` with the payload sizes `caps` (depth first)
fn all_cuts(secs: &[Vec<u8>], caps: &[usize], i: usize, off: usize, cc: u8,
    acc: &mut Vec<Pkt>, f: &mut dyn FnMut(&[Pkt]), budget: &mut usize)
{
    if *budget == 0 { return; }
    if i == secs.len() {
        *budget -= 1;
        f(acc);
        return;
    }
    for &cap in caps {
        let rest = if off == 0 { 0 } else { secs[i].len() - off };
        // without unit start
        if off > 0 {
            let n = std::cmp::min(rest, cap);
            let mut pay = secs[i][off .. off + n].to_vec();
            while pay.len() < cap { pay.push(0xFF); }
            let (ni, no) = if n == rest { (i + 1, 0) } else { (i, off + n) };
            acc.push(packet(0x100, false, cc, &pay));
            all_cuts(secs, caps, ni, no, (cc + 1) & 15, acc, f, budget);
            acc.pop();
        }
        // with unit start
        let next = if off == 0 { i } else { i + 1 };
        if next < secs.len() && cap >= rest + 2 {
            let mut pay = vec![rest as u8];
            if rest > 0 { pay.extend_from_slice(&secs[i][off ..]); }
            let room = cap - pay.len();
            let s = &secs[next];
            if s.len() > room {
                pay.extend_from_slice(&s[.. room]);
                acc.push(packet(0x100, true, cc, &pay));
                all_cuts(secs, caps, next, room, (cc + 1) & 15, acc, f, budget);
                acc.pop();
            } else if rest == 0 {
                pay.extend_from_slice(s);
                let room = room - s.len();
                let base = pay.clone();
                // stuffing behind it
                for _ in 0 .. room { pay.push(0xFF); }
                acc.push(packet(0x100, true, cc, &pay));
                all_cuts(secs, caps, next + 1, 0, (cc + 1) & 15, acc, f, budget);
                acc.pop();
                // or the next section
                if room > 0 && next + 1 < secs.len() && secs[next + 1].len() > room {
                    let mut pay = base;
                    pay.extend_from_slice(&secs[next + 1][.. room]);
                    acc.push(packet(0x100, true, cc, &pay));
                    all_cuts(secs, caps, next + 1, room, (cc + 1) & 15, acc, f, budget);
                    acc.pop();
                }
            }
        }
    }
}

pub fn c01(ctx: &Ctx) {
    let mut rng = ctx.rng("C01");

    // 1. every packetisation of two short sections over small payload sizes
    let a = section(&mut rng, 8, true);
    let b = section(&mut rng, 9, true);
    let c = section(&mut rng, 10, true);
    let mut budget = ctx.n(6000, 60000);
    for caps in &[&[2usize, 5, 9, 10][..], &[1, 3, 12], &[4, 8, 13, 20]] {
        let secs = vec![a.clone(), b.clone()];
        all_cuts(&secs, caps, 0, 0, 15, &mut Vec::new(), &mut |pk| {
            what("c01 packetisation");
            history(&mut Psi::default(), pk, Some(&secs));
        }, &mut budget);
    }
    let mut budget = ctx.n(3000, 30000);
    let secs = vec![a, b, c];
    all_cuts(&secs, &[4, 9, 13], 0, 0, 9, &mut Vec::new(), &mut |pk| {
        history(&mut Psi::default(), pk, Some(&secs));
    }, &mut budget);

    // 2. section sizes around the packet limits, full packets, joined or not
    let mut sizes: Vec<usize> = (3 .. 40).collect();
    for k in 1 .. 23 {
        for d in 0 .. 6 {
            sizes.push(184 * k + d - 4);
        }
    }
    sizes.extend_from_slice(&[1021, 1023, 1024, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098]);
    if ctx.thorough { sizes.extend((40 .. 4099).step_by(7)); }
    for (n, &size) in sizes.iter().enumerate() {
        if size > 4098 { continue; }
        for join in 0 .. 2 {
            if ! ctx.thorough && size > 600 && (n + join) % 3 != 0 { continue; }
            let x = rng.range(8, 300);
            let secs = vec![section(&mut rng, size, true), section(&mut rng, x, true), section(&mut rng, 8, true)];
            let mut pk = Vec::new();
            let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x100 };
            cut.cut(&mut rng, &secs, Style { cap: 0, join: 4 * join, chain: 4 * join, idle: 0 }, &mut pk);
            history(&mut Psi::default(), &pk, Some(&secs));
        }
    }

    // 3. every pointer value and every adaptation length
    for p in 1 ..= 182usize {
        let size = 183 + p;
        let secs = vec![section(&mut rng, size, true), section(&mut rng, 60, true)];
        let mut pk = vec![];
        let mut pay = vec![0u8];
        pay.extend_from_slice(&secs[0][.. 183]);
        pk.push(packet(0x20, true, 3, &pay));
        let mut pay = vec![p as u8];
        pay.extend_from_slice(&secs[0][183 ..]);
        let room = std::cmp::min(184 - pay.len(), 59);
        pay.extend_from_slice(&secs[1][.. room]);
        pk.push(packet(0x20, true, 4, &pay));
        let mut pay = secs[1][room ..].to_vec();
        while pay.len() < 1 + p { pay.push(0xFF); }
        pk.push(packet(0x20, false, 5, &pay));
        history(&mut Psi::default(), &pk, Some(&secs));
    }

    // 4. random streams; the accumulator has seen other sections before
    for _ in 0 .. ctx.n(260, 3000) {
        let n = rng.range(1, 6);
        let secs: Vec<Vec<u8>> = (0 .. n).map(|_| {
            let size = section_size(&mut rng);
            let good = rng.chance(5, 6);
            section(&mut rng, size, good)
        }).collect();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: rng.below(8192) as u16 };
        let sty = style(&mut rng);
        cut.cut(&mut rng, &secs, sty, &mut pk);
        if pk.len() > 600 { continue; }
        dress(&mut rng, &mut pk);
        history(&mut Psi::default(), &pk, Some(&secs));
    }
    // many short sections through one accumulator: counters wrap many times
    for i in 0 .. ctx.n(20, 200) {
        let n = if i % 20 == 0 { 300 } else { rng.range(20, 60) };
        let secs: Vec<Vec<u8>> = (0 .. n).map(|_| {
            let size = rng.range(3, 60);
            section(&mut rng, size, true)
        }).collect();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x11 };
        let sty = style(&mut rng);
        cut.cut(&mut rng, &secs, sty, &mut pk);
        dress(&mut rng, &mut pk);
        history(&mut Psi::default(), &pk, Some(&secs));
    }
}

// ---------------------------------------------------------------------------

/// Packets of the exhaustive alphabet; `d`: step of the continuity counter
fn alphabet(a: &[u8], b: &[u8]) -> Vec<Box<dyn Fn(u8) -> Pkt>> {
    let v = |x: &[u8]| x.to_vec();
    let mut out: Vec<Box<dyn Fn(u8) -> Pkt>> = Vec::new();
    let mut pay = |pusi: bool, ptr: Option<u8>, parts: Vec<Vec<u8>>| {
        let mut p = Vec::new();
        if let Some(x) = ptr { p.push(x); }
        for s in parts { p.extend_from_slice(&s); }
        out.push(Box::new(move |cc| packet(0x100, pusi, cc, &p)));
    };
    pay(true, Some(0), vec![v(&a[.. 6])]);
    pay(false, None, vec![v(&a[6 ..])]);
    pay(true, Some(4), vec![v(&a[6 ..]), v(&b[.. 5])]);
    pay(false, None, vec![v(&b[5 ..]), vec![0xFF; 3]]);
    pay(true, Some(0), vec![v(a), v(&b[.. 5])]);
    pay(true, Some(0), vec![v(a)]);
    pay(true, Some(0), vec![v(&a[.. 2])]);
    pay(false, None, vec![v(&a[2 .. 3])]);
    pay(false, None, vec![v(&a[2 ..])]);
    pay(true, Some(3), vec![v(&a[6 .. 9]), v(&b[.. 5])]);
    pay(true, Some(0), vec![v(a), v(&b[.. 1])]);
    pay(false, None, vec![v(&b[1 ..])]);
    pay(false, None, vec![vec![0xFF; 5]]);
    pay(true, Some(200), vec![v(&a[.. 6])]);
    pay(true, Some(6), vec![v(&a[.. 6])]);
    out.push(Box::new(|cc| empty(0x100, cc, true)));
    out.push(Box::new(|cc| {
        let mut p = packet(0x100, false, cc, &[1, 2, 3]);
        p[4] = 183;
        p
    }));
    out.push(Box::new(|cc| {
        let mut p = packet(0x100, true, cc, &[0, 2, 3]);
        p[4] = 255;
        p
    }));
    out
}

/// Damages a stream of packets
fn damage(rng: &mut Rng, pk: &mut Vec<Pkt>, faults: usize) {
    for _ in 0 .. faults {
        if pk.is_empty() { return; }
        let i = rng.below(pk.len());
        match rng.below(14) {
            0 | 1 => { pk.remove(i); },
            2 => { let p = pk[i]; pk.insert(i, p); },
            3 => { let j = rng.below(pk.len()); pk.swap(i, j); },
            4 => { if i > 0 { pk.swap(i, i - 1); } },
            5 => { pk[i][1] ^= 0x40; },
            6 => { pk[i][3] ^= *rng.pick(&[0x10, 0x20, 0x30]); },
            7 => { pk[i][3] = (pk[i][3] & 0xF0) | rng.below(16) as u8; },
            8 => { pk[i][4] = *rng.pick(&[0, 1, 181, 182, 183, 184, 250, 251, 255]); },
            9 => {
                // pointer, or header of the section behind it
                let off = if pk[i][3] & 0x20 == 0 { 4 } else { 5 + pk[i][4] as usize };
                let off = off + rng.below(4);
                if off < 188 {
                    pk[i][off] = match rng.below(4) {
                        0 => 0xFF,
                        1 => 0,
                        2 => pk[i][off].wrapping_add(1),
                        _ => rng.byte(),
                    };
                }
            },
            10 => { let k = rng.range(0, 187); pk[i][k] ^= 1 << rng.below(8); },
            11 => {
                let mut p = [0u8; 188];
                for b in p.iter_mut() { *b = rng.byte(); }
                p[0] = 0x47;
                pk.insert(i, p);
            },
            12 => { let n = rng.range(1, 17); for _ in 0 .. n { if i < pk.len() { pk.remove(i); } } },
            _ => { let n = rng.range(1, 5); let v: Vec<Pkt> = pk[i .. std::cmp::min(i + n, pk.len())].to_vec();
                   for (k, p) in v.into_iter().enumerate() { pk.insert(i + k, p); } },
        }
    }
}

pub fn c02(ctx: &Ctx) {
    let mut rng = ctx.rng("C02");

    // 1. all sequences over the alphabet, counter in order or not
    let a = section(&mut rng, 10, true);
    let b = section(&mut rng, 12, true);
    let al = alphabet(&a, &b);
    let n = al.len();
    let go = |seq: &[usize]| {
        let mut cc = 7u8;
        let mut pk = Vec::new();
        for &x in seq {
            let (sym, d) = (x / 2, x % 2);
            let p = al[sym]((cc + [1, 3][d]) & 15);
            // a packet without payload does not count
            if p[3] & 0x10 != 0 { cc = p[3] & 15; }
            pk.push(p);
        }
        // what comes next must be recovered
        let mut pay = vec![0];
        pay.extend_from_slice(&a[.. 7]);
        pk.push(packet(0x100, true, (cc + 5) & 15, &pay));
        pk.push(packet(0x100, false, (cc + 6) & 15, &a[7 ..]));
        history(&mut Psi::default(), &pk, None);
    };
    let depth3 = ctx.thorough;
    for x in 0 .. 2 * n {
        for y in 0 .. 2 * n {
            go(&[x, y]);
            for z in 0 .. 2 * n {
                if depth3 || (z % 2 == 0) || rng.chance(1, 6) {
                    go(&[x, y, z]);
                }
            }
        }
    }
    for _ in 0 .. ctx.n(4000, 40000) {
        let len = rng.range(4, 9);
        let seq: Vec<usize> = (0 .. len).map(|_| {
            let s = rng.below(n);
            2 * s + (rng.below(5) == 0) as usize
        }).collect();
        go(&seq);
    }

    // every pointer, a section being in progress that ends there, before or after
    for p in 0 ..= 255usize {
        for &(d, cc) in &[(0i64, 4u8), (0, 5), (1, 4), (-1, 4), (-40, 4), (40, 4)] {
            let rem = (p.min(182) as i64 + d).max(1) as usize;
            let old = section(&mut rng, 183 + rem, true);
            let new = section(&mut rng, 30, true);
            let mut pay = vec![0];
            pay.extend_from_slice(&old[.. 183]);
            let mut pk = vec![packet(0x100, true, 3, &pay)];
            let mut pay = vec![p as u8];
            pay.extend_from_slice(&old[183 .. 183 + rem.min(p)]);
            pay.resize(1 + p.min(183), 0xFF);
            pay.extend_from_slice(&new);
            pay.resize(184, 0xFF);
            pk.push(packet(0x100, true, cc, &pay));
            pk.push(packet(0x100, false, cc + 1, &vec![0xFF; 184]));
            let mut pay = vec![0];
            pay.extend_from_slice(&a[.. 7]);
            pk.push(packet(0x100, true, cc + 2, &pay));
            pk.push(packet(0x100, false, cc + 3, &a[7 ..]));
            history(&mut Psi::default(), &pk, None);
        }
    }

    // 2. damaged streams
    for i in 0 .. ctx.n(500, 6000) {
        let n = rng.range(2, 6);
        let small = i % 3 != 0;
        let secs: Vec<Vec<u8>> = (0 .. n).map(|_| {
            let size = if small { rng.range(8, 70) } else { section_size(&mut rng) };
            section(&mut rng, size, true)
        }).collect();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x100 };
        let mut sty = style(&mut rng);
        if small { sty.cap = *rng.pick(&[2, 2, 1]); }
        cut.cut(&mut rng, &secs, sty, &mut pk);
        if pk.len() > 250 { pk.truncate(250); }
        dress(&mut rng, &mut pk);
        let f = rng.range(1, 5);
        damage(&mut rng, &mut pk, f);
        // an intact section at the end
        let x = rng.range(8, 100);
        let tail = vec![section(&mut rng, x, true)];
        cut.cc = rng.below(16) as u8;
        cut.cut(&mut rng, &tail, Style { cap: 1, join: 0, chain: 0, idle: 0 }, &mut pk);
        history(&mut Psi::default(), &pk, None);
    }

    // 3. loss of every single packet, repetition of every single packet and
    //    exchange of every neighbouring pair in fixed streams
    for _ in 0 .. ctx.n(12, 60) {
        let secs: Vec<Vec<u8>> = (0 .. 4).map(|_| {
            let x = rng.range(8, 60);
            section(&mut rng, x, true)
        }).collect();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x100 };
        let mut sty = style(&mut rng);
        sty.cap = 2;
        cut.cut(&mut rng, &secs, sty, &mut pk);
        for i in 0 .. pk.len() {
            let mut q = pk.clone(); q.remove(i); history(&mut Psi::default(), &q, None);
            let mut q = pk.clone(); let p = q[i]; q.insert(i, p); history(&mut Psi::default(), &q, None);
            if i > 0 { let mut q = pk.clone(); q.swap(i, i - 1); history(&mut Psi::default(), &q, None); }
        }
    }

    //    a packet that cannot be used in front of every packet
    for round in 0 .. ctx.n(3, 12) {
        let secs: Vec<Vec<u8>> = (0 .. 3).map(|_| {
            let x = rng.range(20, if round == 0 { 400 } else { 90 });
            section(&mut rng, x, true)
        }).collect();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x100 };
        let mut sty = style(&mut rng);
        sty.cap = if round == 0 { 0 } else { 2 };
        cut.cut(&mut rng, &secs, sty, &mut pk);
        for i in 1 .. pk.len().min(40) {
            let prev = pk[i - 1][3] & 15;
            for &d in &[0u8, 1, 2, 9] {
                let cc = (prev + d) & 15;
                for &ptr in &[0u8, 182, 183, 184, 200, 254, 255] {
                    let mut p = pk[i];
                    p[1] |= 0x40;
                    p[3] = 0x10 | cc;
                    p[4] = ptr;
                    let mut q = pk.clone(); q.insert(i, p); history(&mut Psi::default(), &q, None);
                }
                for &len in &[183u8, 184, 185, 254, 255] {
                    let mut p = pk[i];
                    p[3] = 0x30 | cc;
                    p[4] = len;
                    let mut q = pk.clone(); q.insert(i, p); history(&mut Psi::default(), &q, None);
                }
            }
        }
    }

    // 4. wrong length fields: too long, too short, followed by joined sections
    for _ in 0 .. ctx.n(60, 400) {
        let secs: Vec<Vec<u8>> = (0 .. 5).map(|_| {
            let x = rng.range(8, 80);
            section(&mut rng, x, true)
        }).collect();
        let mut bad = secs.clone();
        let k = rng.below(3);
        bad[k][1] = (bad[k][1] & 0xF0) | *rng.pick(&[0, 0, 1, 15]);
        bad[k][2] = rng.byte();
        let mut pk = Vec::new();
        let mut cut = Cutter { cc: rng.below(16) as u8, pid: 0x100 };
        let sty = Style { cap: *rng.pick(&[2, 1, 0]), join: 4, chain: 3, idle: 0 };
        cut.cut(&mut rng, &bad, sty, &mut pk);
        history(&mut Psi::default(), &pk, None);
    }

    // 5. endless continuation: memory
    for &len in &[0x0FFFusize, 0x0FFE, 0x0800, 0x0100] {
        let mut pk = Vec::new();
        let mut pay = vec![0, 0x42, 0xF0 | (len >> 8) as u8, len as u8];
        pay.extend_from_slice(&rng.bytes(180));
        pk.push(packet(0x100, true, 0, &pay));
        for i in 0 .. 60u8 {
            let pay = rng.bytes(184);
            pk.push(packet(0x100, false, (i + 1) & 15, &pay));
        }
        history(&mut Psi::default(), &pk, None);
        // unit start packets with pointers only
        let mut pk = Vec::new();
        for i in 0 .. 50u8 {
            let mut pay = vec![182, 0x42];
            pay.extend_from_slice(&rng.bytes(182));
            pay[183] = 0x42;
            pk.push(packet(0x100, true, i & 15, &pay));
        }
        history(&mut Psi::default(), &pk, None);
    }
}
