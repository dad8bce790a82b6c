//! Checksum, finalising, comparing (C04) and packetising (C05)

use crate::core::*;
use crate::mux::section;
use crate::tables::{schedule, table, KINDS};
use mpegts::psi::{crc32b, Psi};

fn crc_record(d: &[u8]) {
    let r = call(|| crc32b(d));
    let x = r.unwrap_or(0);
    emit(&J::obj(&[
        ("k", J::str("crc")), ("st", st(&r)), ("d", J::bytes(d)),
        ("w", J::ints(vec![i64::from(x >> 16), i64::from(x & 0xFFFF)])),
    ]));
}

fn psi_of(b: &[u8], n: usize) -> Psi {
    let mut p = Psi::default();
    p.buffer.extend_from_slice(b);
    p.size = n;
    p
}

fn finalize_record(d: &[u8]) {
    let mut p = psi_of(d, 0);
    let a = call(|| { p.finalize(); p.check() });
    let (b, n) = (p.buffer.clone(), p.size);
    let c = if a.is_some() { call(|| p.finalize()) } else { None };
    emit(&J::obj(&[
        ("k", J::str("fin")), ("st", st(&c)), ("d", J::bytes(d)),
        ("b", J::bytes(&b)), ("n", J::num(n as i64)), ("ok", J::boolean(a.unwrap_or(false))),
        ("b2", J::bytes(&p.buffer)), ("n2", J::num(p.size as i64)),
    ]));
}

/// A section finalised, then changed in place and finalised again, several times
fn edit_record(rng: &mut Rng, d: &[u8], times: usize) {
    let mut p = psi_of(d, 0);
    let (mut e, mut o) = (Vec::new(), Vec::new());
    // bytes behind the section, as an accumulator may hold them
    let m = if rng.chance(1, 2) { 0 } else { rng.range(1, 60) };
    let x = rng.bytes(m);
    let r = call(|| {
        p.finalize();
        p.buffer.extend_from_slice(&x);
        for _ in 0 .. times {
            let mut a = Vec::new();
            for _ in 0 .. rng.range(1, 4) {
                let i = match rng.below(d.len() - 2) { 0 => 0, k => k + 2 };
                let v = rng.byte();
                a.push(J::ints(vec![i as i64 + 1, i64::from(v)]));
                p.buffer[i] = v;
            }
            let before = p.check();
            p.finalize();
            e.push(J::list(a));
            o.push(J::obj(&[("c", J::boolean(before)), ("ok", J::boolean(p.check())), ("b", J::bytes(&p.buffer)), ("n", J::num(p.size as i64))]));
        }
    });
    emit(&J::obj(&[("k", J::str("edit")), ("st", st(&r)), ("d", J::bytes(d)), ("x", J::bytes(&x)), ("e", J::list(e)), ("o", J::list(o))]));
}

/// check() of a section with each of the alterations
fn verify_record(sec: &[u8], alter: &[Vec<(usize, u8)>]) {
    let mut ok = Vec::new();
    let mut fine = true;
    for e in alter {
        let mut b = sec.to_vec();
        for &(i, v) in e { b[i] = v; }
        let p = psi_of(&b, b.len());
        match call(|| p.check()) {
            Some(x) => ok.push(J::boolean(x)),
            None => { fine = false; break; },
        }
    }
    emit(&J::obj(&[
        ("k", J::str("ver")), ("st", J::str(if fine { "ok" } else { "panic" })), ("b", J::bytes(sec)),
        ("e", J::list(alter.iter().map(|e| J::list(e.iter().map(|&(i, v)| J::ints(vec![i as i64 + 1, i64::from(v)])))))),
        ("ok", J::list(ok)),
    ]));
}

fn flip(sec: &[u8], bits: &[usize]) -> Vec<(usize, u8)> {
    let mut b = sec.to_vec();
    for &k in bits { b[k / 8] ^= 0x80 >> (k % 8); }
    (0 .. b.len()).filter(|&i| b[i] != sec[i]).map(|i| (i, b[i])).collect()
}

fn check_record(b: &[u8], n: usize) {
    let p = psi_of(b, n);
    let r = call(|| p.check());
    emit(&J::obj(&[
        ("k", J::str("chk")), ("st", st(&r)), ("b", J::bytes(b)), ("n", J::num(n as i64)),
        ("ok", J::boolean(r.unwrap_or(false))),
    ]));
}

fn eq_record(a: &Psi, b: &Psi) {
    let r = call(|| a == b);
    let side = |x: &Psi| J::obj(&[("b", J::bytes(&x.buffer)), ("n", J::num(x.size as i64))]);
    emit(&J::obj(&[
        ("k", J::str("eq")), ("st", st(&r)), ("a", side(a)), ("b", side(b)), ("r", J::boolean(r.unwrap_or(false))),
    ]));
}

pub fn c04(ctx: &Ctx) {
    let mut rng = ctx.rng("c04");

    // each table slot, alone and behind / before other bytes
    crc_record(&[]);
    for b in 0 ..= 255u8 {
        crc_record(&[b]);
        crc_record(&[0, b]);
        crc_record(&[b, 0xFF, 0]);
        crc_record(&[rng.byte(), b, rng.byte(), rng.byte()]);
    }
    for n in 0 .. 260 { let d = rng.bytes(n); crc_record(&d); }
    for n in &[511, 512, 1020, 1021, 1024, 4092, 4093, 4096] { let d = rng.bytes(*n); crc_record(&d); }
    for f in &[0u8, 0xFF] {
        for n in &[1, 2, 3, 4, 5, 8, 64, 188] { crc_record(&vec![*f; *n]); }
    }
    for _ in 0 .. ctx.n(300, 4000) { let n = rng.range(1, 400); let d = rng.bytes(n); crc_record(&d); }

    // finalising: contents of every length
    let mut sizes: Vec<usize> = (4 ..= 300).collect();
    if ctx.thorough { sizes.extend(301 ..= 4092); } else {
        sizes.extend((301 .. 4092).step_by(97));
        sizes.extend([509, 510, 511, 512, 1019, 1020, 1021, 1022, 2047, 2048, 4088, 4089, 4090, 4091, 4092].iter());
    }
    for &n in &sizes {
        let d = match rng.below(8) { 0 => vec![0; n], 1 => vec![0xFF; n], _ => rng.bytes(n) };
        finalize_record(&d);
    }
    for hi in 0 ..= 255u8 {
        let n = rng.range(4, 40);
        let mut d = rng.bytes(n);
        d[1] = hi;
        finalize_record(&d);
    }

    // changed and finalised again
    for _ in 0 .. ctx.n(100, 1000) {
        let n = rng.range(4, 30);
        let d = rng.bytes(n);
        edit_record(&mut rng, &d, 40);
    }
    for _ in 0 .. ctx.n(10, 200) {
        let n = if rng.chance(1, 4) { rng.range(400, 4092) } else { rng.range(30, 400) };
        let d = rng.bytes(n);
        edit_record(&mut rng, &d, 5);
    }

    // altered sections: all single bits, bursts
    let count = ctx.n(24, 160);
    for i in 0 .. count {
        let n = if i < 12 { 8 + i } else { rng.range(8, 90) };
        let s = section(&mut rng, n, true);
        let bits = 8 * s.len();
        let mut alter: Vec<Vec<(usize, u8)>> = vec![vec![]];
        for k in 0 .. bits { alter.push(flip(&s, &[k])); }
        for k in 0 .. bits {
            let w = rng.range(2, 32).min(bits - k);
            let mut set = vec![k, k + w - 1];
            for j in k + 1 .. k + w - 1 { if rng.chance(1, 2) { set.push(j); } }
            set.sort_unstable();
            set.dedup();
            alter.push(flip(&s, &set));
        }
        // anything goes
        for _ in 0 .. 20 {
            let m = rng.range(1, 5);
            let set: Vec<usize> = (0 .. m).map(|_| rng.below(bits)).collect();
            alter.push(flip(&s, &set));
        }
        // bytes swapped
        for k in 0 .. s.len() - 1 { alter.push(vec![(k, s[k + 1]), (k + 1, s[k])]); }
        for part in alter.chunks(200) { verify_record(&s, part); }
    }

    // verdict for buffers longer and shorter than the section, any size
    for i in 0 .. ctx.n(400, 3000) {
        let n = if i < 60 { 8 + i / 4 } else { rng.range(8, 400) };
        let good = rng.chance(3, 4);
        let s = section(&mut rng, n, good);
        let mut b = s.clone();
        match rng.below(5) {
            0 => {},
            1 => b.truncate(rng.below(n)),
            2 => b.truncate(n - 1),
            3 => { let m = rng.range(1, 200); b.extend(rng.bytes(m)) },
            _ => b.extend(vec![0xFF; 184]),
        }
        check_record(&b, n);
    }
    for n in 0 .. 24 {
        for m in 0 .. 24 { let b = rng.bytes(m); check_record(&b, n); }
    }
    for _ in 0 .. 100 { let m = rng.below(30); let b = rng.bytes(m); check_record(&b, *rng.pick(&[0, 8, 183, 4095, 4098])); }

    // comparing
    let mut pool: Vec<Psi> = vec![Psi::default(), psi_of(&[], 8), psi_of(&[1], 0), psi_of(&[1, 2, 3], 0), psi_of(&[2, 0xB0, 9], 12)];
    for n in &[8usize, 9, 12, 13, 100, 184, 185, 1024] {
        let s = section(&mut rng, *n, true);
        let mut alt = s.clone();
        alt[n - 5] ^= 1;                       // same length, same checksum field
        pool.push(psi_of(&alt, *n));
        alt[n - 1] ^= 1;
        pool.push(psi_of(&alt, *n));
        for k in 1 .. 5 {
            let mut x = s.clone();
            x[n - k] ^= 0x80;                  // one byte of the checksum
            pool.push(psi_of(&x, *n));
        }
        let mut long = s.clone();
        long.extend(rng.bytes(17));
        pool.push(psi_of(&long, *n));
        pool.push(psi_of(&s[.. n - 1], *n));
        pool.push(psi_of(&s[.. n / 2], *n));
        pool.push(psi_of(&s[.. 3], *n));
        pool.push(psi_of(&s, *n));
        let mut other = s.clone();
        other.push(0);
        other[2] = other[2].wrapping_add(1);
        let m = other.len();
        other.copy_within(n - 4 .. *n, m - 4);
        pool.push(psi_of(&other, m));          // other length, same checksum field
    }
    for (i, x) in pool.iter().enumerate() {
        for (j, y) in pool.iter().enumerate() {
            // everything near each other, a sample of the rest
            if i / 12 == j / 12 || i < 5 || j < 5 || rng.chance(1, 8) {
                let mut y = y.clone();
                if rng.chance(1, 2) { y.pid = rng.below(8192) as u16; y.cc = rng.below(16) as u8; }
                if x.buffer.len() < 300 || rng.chance(1, 4) { eq_record(x, &y); }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// C05

struct Out {
    dst: Vec<u8>,
    pre: Vec<u8>,
    pid: u16,
    cc0: u8,
    cc: u8,
    calls: Vec<J>,
}

impl Out {
    fn new(pre: Vec<u8>, pid: u16, cc: u8) -> Out {
        Out { dst: pre.clone(), pre, pid, cc0: cc, cc, calls: Vec::new() }
    }

    fn note(&mut self, ok: bool, sec: Option<&[u8]>) {
        self.calls.push(J::obj(&[
            ("st", J::str(if ok { "ok" } else { "panic" })),
            ("one", J::boolean(sec.is_some())),
            ("sec", J::bytes(sec.unwrap_or(&[]))),
            ("len", J::num(self.dst.len() as i64)),
            ("cc", J::num(i64::from(self.cc))),
        ]));
    }

    /// One section
    fn section(&mut self, sec: &[u8], size: usize) {
        let mut p = psi_of(sec, size);
        p.pid = self.pid;
        p.cc = self.cc;
        let dst = &mut self.dst;
        let r = call(|| p.demux(dst));
        self.cc = p.cc;
        self.note(r.is_some(), Some(&sec[.. size]));
    }

    /// One section several times, the counter running in the section itself
    fn repeated(&mut self, sec: &[u8], size: usize, times: usize) {
        let mut p = psi_of(sec, size);
        p.pid = self.pid;
        p.cc = self.cc;
        for _ in 0 .. times {
            let dst = &mut self.dst;
            let r = call(|| p.demux(dst));
            self.cc = p.cc;
            self.note(r.is_some(), Some(&sec[.. size]));
        }
    }

    /// A table, given by its packetising call
    fn table<F: FnOnce(u16, &mut u8, &mut Vec<u8>)>(&mut self, f: F) {
        let (pid, cc, dst) = (self.pid, &mut self.cc, &mut self.dst);
        let r = call(|| f(pid, cc, dst));
        self.note(r.is_some(), None);
    }

    fn done(self) {
        emit(&J::obj(&[
            ("k", J::str("pack")),
            ("pre", J::bytes(&self.pre)),
            ("pid", J::num(i64::from(self.pid))),
            ("cc", J::num(i64::from(self.cc0))),
            ("calls", J::list(self.calls)),
            ("out", J::bytes(&self.dst)),
        ]));
    }
}

pub fn c05(ctx: &Ctx) {
    let mut rng = ctx.rng("c05");
    let pids = [0u16, 1, 16, 17, 18, 20, 31, 255, 256, 4096, 7936, 8190, 8191];

    // every size
    let mut sizes: Vec<usize> = (1 .. 600).collect();
    for k in 3 ..= 22 {
        for d in 0 .. 5 { sizes.push(184 * k + d - 3); }
    }
    sizes.extend([1024, 4093, 4094, 4095, 4096, 4097, 4098].iter());
    if ctx.thorough { sizes.extend(600 ..= 4098); }
    for &n in &sizes {
        let mut o = Out::new(vec![], *rng.pick(&pids), rng.below(16) as u8);
        let s = match rng.below(6) { 0 => vec![0; n], 1 => vec![0xFF; n], 2 => vec![0x47; n], _ => rng.bytes(n) };
        o.section(&s, n);
        o.done();
    }
    for cc in 0 .. 16 {
        for n in &[1, 182, 183, 184, 366, 367, 368, 3300] {
            let mut o = Out::new(vec![], *rng.pick(&pids), cc);
            let s = rng.bytes(*n);
            o.section(&s, *n);
            o.section(&s, *n);
            o.done();
        }
    }
    for &pid in &pids {
        let mut o = Out::new(rng.bytes(188), pid, 15);
        let s = rng.bytes(200);
        o.section(&s, 200);
        o.done();
    }
    for k in 0 .. 13 {
        let mut o = Out::new(vec![], 1 << k, 0);
        let s = rng.bytes(60);
        o.section(&s, 60);
        o.done();
    }

    // tables: counters of all values, several sections
    for cc in 0 .. 16 {
        for kind in &KINDS {
            let mut o = Out::new(vec![], *rng.pick(&pids), cc);
            for n in &[0usize, 1, 3] { let t = table(&mut rng, kind, *n, 60); o.table(|pid, cc, dst| t.demux(pid, cc, dst)); }
            o.done();
        }
        let mut o = Out::new(rng.bytes(10), *rng.pick(&pids), cc);
        let t = table(&mut rng, "sdt", 30, 200);
        o.table(|pid, cc, dst| t.demux(pid, cc, dst));
        let t = schedule(&mut rng, 10, 60);
        o.table(|pid, cc, dst| t.demux(pid, cc, dst));
        let t = table(&mut rng, "pat", 300, 0);
        o.table(|pid, cc, dst| t.demux(pid, cc, dst));
        o.done();
    }

    // sequences of calls on one output
    for _ in 0 .. ctx.n(220, 2500) {
        let pre = match rng.below(4) { 0 => vec![], 1 => { let n = rng.below(400); rng.bytes(n) }, _ => rng.bytes(188) };
        let mut o = Out::new(pre, rng.below(8192) as u16, rng.below(16) as u8);
        if rng.chance(1, 2) { o.dst = used(&mut rng, &o.pre); }
        for _ in 0 .. rng.range(1, 7) {
            match rng.below(15) {
                14 => { let n = rng.range(1, 600); let s = rng.bytes(n + 20); let times = rng.range(2, 6); o.repeated(&s, n, times) },
                10 ..= 13 => {
                    let kind = *rng.pick(&KINDS);
                    let n = rng.below(5);
                    let room = rng.range(2, 300);
                    let t = if kind == "eit" && rng.chance(1, 3) { schedule(&mut rng, 8, 40) } else { table(&mut rng, kind, n, room) };
                    o.table(|pid, cc, dst| t.demux(pid, cc, dst))
                },
                0 => o.section(&[], 0),
                1 => { let s = rng.bytes(40); o.section(&s, 0) },
                2 => {
                    // the buffer holds more than the section
                    let n = rng.range(8, 400);
                    let s = { let extra = rng.range(1, 184); rng.bytes(n + extra) };
                    o.section(&s, n)
                },
                3 => { let n = rng.range(600, 4098); let s = rng.bytes(n); o.section(&s, n) },
                _ => { let n = rng.range(1, 600); let s = rng.bytes(n); o.section(&s, n) },
            }
        }
        o.done();
    }
}
