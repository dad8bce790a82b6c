//! Packet reader (C24) and byte-stream adapter (C25)

use crate::core::*;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault { Intr, Err(ErrorKind), Eof }

/// Input that gives its data in pieces, with faults at certain positions
#[derive(Debug)]
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    faults: VecDeque<(usize, Fault)>,
    /// largest piece of each read, in turn
    pieces: Vec<usize>,
    turn: usize,
}

impl Source {
    pub fn new(data: Vec<u8>, faults: Vec<(usize, Fault)>, pieces: Vec<usize>) -> Source {
        Source { data, pos: 0, faults: faults.into(), pieces, turn: 0 }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        if let Some(&(at, f)) = self.faults.front() {
            if at == self.pos {
                self.faults.pop_front();
                return match f {
                    Fault::Intr => Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
                    Fault::Err(k) => Err(io::Error::new(k, "fault")),
                    Fault::Eof => Ok(0),
                };
            }
        }
        let limit = self.faults.front().map(|f| f.0).unwrap_or(self.data.len()).min(self.data.len());
        let piece = self.pieces[self.turn % self.pieces.len()].max(1);
        self.turn += 1;
        let n = buf.len().min(piece).min(limit - self.pos);
        buf[.. n].copy_from_slice(&self.data[self.pos .. self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn failure(k: ErrorKind) -> String { format!("err {:?}", k) }

pub fn reader_history(data: &[u8], faults: &[(usize, Fault)], pieces: &[usize], sizes: &[usize]) {
    let mut r = TsReader::new(Source::new(data.to_vec(), faults.to_vec(), pieces.to_vec()));
    let mut res = Vec::new();
    let visible = faults.iter().filter(|f| f.1 != Fault::Intr).count();
    // until the end is reached for certain, and once more
    let most = data.len() / 188 + visible + 2;
    // the caller's buffer: a new one for each read, or always the same
    let again = (data.len() + faults.len() + pieces[0]) % 2 == 0;
    let mut room = vec![0xA5u8; 1000];
    for i in 0 .. most {
        if ! again { room = vec![0xA5u8; 1000]; }
        let buf = &mut room[.. sizes[i % sizes.len()]];
        let x = call(|| r.read(buf));
        let (kind, n) = match &x {
            None => ("panic".to_string(), 0),
            Some(Err(e)) => (failure(e.kind()), 0),
            Some(Ok(0)) => ("eof".to_string(), 0),
            Some(Ok(n)) => ("pkt".to_string(), *n),
        };
        let p: &[u8] = if n > 0 { &room[.. 188] } else { &[] };
        res.push(J::obj(&[("kind", J::str(&kind)), ("n", J::num(n as i64)), ("p", J::bytes(p))]));
        if kind == "panic" { break; }
    }
    emit(&J::obj(&[
        ("k", J::str("read")),
        ("d", J::bytes(data)),
        ("faults", J::list(faults.iter().filter(|f| f.1 != Fault::Intr).map(|f| {
            J::list(vec![J::num(f.0 as i64), J::str(&match f.1 { Fault::Err(k) => failure(k), _ => "eof".to_string() })])
        }))),
        ("intr", J::ints(faults.iter().filter(|f| f.1 == Fault::Intr).map(|f| f.0 as i64))),
        ("pieces", J::ints(pieces.iter().map(|&x| x as i64))),
        ("res", J::list(res)),
    ]));
}

fn packets(rng: &mut Rng, n: usize, syncs: usize) -> Vec<u8> {
    let mut d = rng.bytes(188 * n);
    for i in 0 .. n { d[188 * i] = 0x47; }
    for _ in 0 .. syncs * n { let i = rng.below(d.len()); d[i] = 0x47; }
    d
}

fn pieces(rng: &mut Rng) -> Vec<usize> {
    match rng.below(7) {
        0 => vec![100_000],
        1 => vec![1],
        2 => vec![188],
        3 => vec![187],
        4 => vec![rng.range(1, 400)],
        5 => { let n = rng.range(2, 12); (0 .. n).map(|_| rng.range(1, 20)).collect() },
        _ => { let n = rng.range(2, 12); (0 .. n).map(|_| rng.range(1, 300)).collect() },
    }
}

pub fn c24(ctx: &Ctx) {
    let mut rng = ctx.rng("c24");
    let err = Fault::Err(ErrorKind::Other);
    let kinds = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof,
        ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::InvalidData];

    // two packets: cut at every position; fault at every position
    let d = packets(&mut rng, 2, 0);
    for cut in 1 ..= 376 { reader_history(&d, &[], &[cut, 100_000], &[188]); }
    for at in 0 ..= 376 {
        for f in &[Fault::Intr, err, Fault::Eof] {
            reader_history(&d, &[(at, *f)], if at % 2 == 0 { &[100_000] } else { &[53] }, &[188]);
        }
    }
    // garbage of every length before the first packet; partial packet of every length at the end
    for n in 0 .. 190 {
        let mut d: Vec<u8> = (0 .. n).map(|_| rng.byte()).map(|b| if b == 0x47 { 0x48 } else { b }).collect();
        d.extend(packets(&mut rng, 1, 0));
        reader_history(&d, &[], &[100_000], &[188, 200]);
        let mut d = packets(&mut rng, 1, 0);
        d.extend(packets(&mut rng, 1, 0)[.. n.min(187)].to_vec());
        reader_history(&d, &[], &[100_000], &[188]);
    }
    // pieces of every size
    let d = packets(&mut rng, 3, 2);
    for n in 1 .. 200 { reader_history(&d, &[], &[n], &[188]); }
    // several interruptions at the same place
    for n in 1 .. 6 {
        for at in &[0, 1, 94, 187, 188, 189] {
            reader_history(&d, &vec![(*at, Fault::Intr); n], &[100_000], &[188]);
        }
    }
    // long stretches without sync byte, long streams
    for &n in &[255usize, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1880, 2048, 4095, 4096, 4097, 8192, 10_000] {
        let mut d = packets(&mut rng, 1, 0);
        d.extend((0 .. n).map(|_| rng.byte()).map(|b| if b == 0x47 { 0x48 } else { b }).collect::<Vec<u8>>());
        d.extend(packets(&mut rng, 1, 0));
        let p = pieces(&mut rng);
        reader_history(&d, &[], &p, &[188]);
    }
    for &n in &[16usize, 17, 33, 64, 65, 129] {
        let d = packets(&mut rng, n, 1);
        let p = pieces(&mut rng);
        reader_history(&d, &[(188 * (n - 1), err)], &p, &[188]);
    }
    for &n in &[15usize, 16, 17, 40, 100, 300] {
        let at = 188 + rng.below(188);
        reader_history(&d, &vec![(at, Fault::Intr); n], &[100_000], &[188]);
        reader_history(&d, &vec![(at, err); n], &[100_000], &[188]);
        reader_history(&d, &vec![(at, Fault::Eof); n], &[100_000], &[188]);
    }
    reader_history(&[], &[], &[1], &[188]);
    reader_history(&vec![0x47; 1000], &[], &[7], &[188]);
    reader_history(&vec![0; 1000], &[], &[1000], &[188]);

    for _ in 0 .. ctx.n(700, 8000) {
        let mut d = Vec::new();
        for _ in 0 .. rng.range(1, 5) {
            match rng.below(5) {
                0 => { let n = rng.below(60); d.extend(rng.bytes(n)) },
                1 => { let n = rng.range(1, 187); d.extend(packets(&mut rng, 1, 1)[.. n].to_vec()) },
                2 => { let n = rng.range(1, 3); d.extend(packets(&mut rng, n, 3)) },
                _ => { let n = rng.range(1, 3); d.extend(packets(&mut rng, n, 0)) },
            }
        }
        let mut faults: Vec<(usize, Fault)> = Vec::new();
        for _ in 0 .. rng.below(6) {
            let near = 188 * rng.below(d.len() / 188 + 1) + rng.below(4);
            let at = if rng.chance(1, 2) { near.min(d.len()) } else { rng.below(d.len() + 1) };
            let f = match rng.below(3) { 0 => Fault::Intr, 1 => Fault::Eof, _ => Fault::Err(*rng.pick(&kinds)) };
            faults.push((at, f));
        }
        faults.sort_by_key(|f| f.0);
        let p = pieces(&mut rng);
        let sizes: Vec<usize> = (0 .. rng.range(1, 4)).map(|_| *rng.pick(&[188, 188, 189, 204, 376, 1000])).collect();
        reader_history(&d, &faults, &p, &sizes);
    }
}

// ---------------------------------------------------------------------------
// C25

#[derive(Debug, Clone)]
pub enum Item { Packet(Vec<u8>), Err(ErrorKind), End }

/// Packet source following a script
#[derive(Debug)]
pub struct Script(pub VecDeque<Item>);

impl TsRead for Script {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        assert!(packet.len() >= 188);
        match self.0.pop_front() {
            None | Some(Item::End) => Ok(0),
            Some(Item::Err(k)) => Err(io::Error::new(k, "fault")),
            Some(Item::Packet(p)) => { packet[.. 188].copy_from_slice(&p); Ok(188) },
        }
    }
}

fn drain_history(items: &[Item], bufs: &[usize]) {
    let mut d = TsDrain::new(Script(items.to_vec().into()));
    let mut res = Vec::new();
    for &n in bufs {
        let mut b = vec![0u8; n];
        let x = call(|| d.read(&mut b));
        let (kind, m) = match &x {
            None => ("panic".to_string(), 0),
            Some(Err(e)) => (failure(e.kind()), 0),
            Some(Ok(m)) => ("ok".to_string(), *m),
        };
        // more than asked for: recorded as such
        let bytes = if m <= n { b[.. m].to_vec() } else { vec![0; m.min(100_000)] };
        res.push(J::obj(&[("n", J::num(n as i64)), ("kind", J::str(&kind)), ("b", J::bytes(&bytes))]));
        if kind == "panic" { break; }
    }
    emit(&J::obj(&[
        ("k", J::str("drain")),
        ("src", J::list(items.iter().map(|i| match i {
            Item::Packet(p) => J::list(vec![J::str("pkt"), J::bytes(p)]),
            Item::Err(k) => J::list(vec![J::str(&failure(*k)), J::list(vec![])]),
            Item::End => J::list(vec![J::str("eof"), J::list(vec![])]),
        }))),
        ("res", J::list(res)),
    ]));
}

fn pkt(rng: &mut Rng) -> Item {
    let mut p = rng.bytes(188);
    p[0] = 0x47;
    Item::Packet(p)
}

pub fn c25(ctx: &Ctx) {
    let mut rng = ctx.rng("c25");
    let kinds = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Interrupted, ErrorKind::UnexpectedEof];

    // all sequences of buffer sizes over the boundary values
    let sizes = [0usize, 1, 94, 187, 188, 189, 376];
    let depth = ctx.n(3, 4) as u32;
    for code in 0 .. sizes.len().pow(depth) {
        let mut c = code;
        let mut bufs: Vec<usize> = (0 .. depth).map(|_| { let x = sizes[c % sizes.len()]; c /= sizes.len(); x }).collect();
        let items = vec![pkt(&mut rng), pkt(&mut rng)];
        bufs.extend([1, 400, 188, 500, 3].iter());
        drain_history(&items, &bufs);
    }
    // every buffer size alone and in turn with another one
    for n in 1 .. 192 {
        let items = vec![pkt(&mut rng), pkt(&mut rng)];
        drain_history(&items, &vec![n; 376 / n + 3]);
        let m = rng.range(1, 400);
        let bufs: Vec<usize> = (0 .. 12).map(|i| if i % 2 == 0 { n } else { m }).collect();
        drain_history(&items, &bufs);
    }
    // scripts of three items x short size sequences
    let set = [0usize, 60, 188, 200];
    for code in 0 .. 27 {
        let mut c = code;
        let mut items = Vec::new();
        for _ in 0 .. 3 {
            items.push(match c % 3 { 0 => pkt(&mut rng), 1 => Item::Err(ErrorKind::Other), _ => Item::End });
            c /= 3;
        }
        items.push(pkt(&mut rng));
        for s in 0 .. 64 {
            let (a, b, c) = (set[s % 4], set[s / 4 % 4], set[s / 16]);
            drain_history(&items, &[a, b, c, a, b, c, 500, 60, 200, 500, 10, 500, 500]);
        }
    }
    for _ in 0 .. ctx.n(700, 8000) {
        let n = rng.range(1, 8);
        let faulty = rng.below(3);
        let items: Vec<Item> = (0 .. n)
            .map(|_| if rng.below(6) < faulty {
                if rng.chance(2, 3) { Item::Err(*rng.pick(&kinds)) } else { Item::End }
            } else { pkt(&mut rng) })
            .collect();
        let style = rng.below(5);
        let m = rng.range(2, 60);
        let bufs: Vec<usize> = (0 .. m)
            .map(|_| match style {
                0 => rng.range(0, 20),
                1 => rng.range(0, 188),
                2 => rng.range(180, 196),
                3 => *rng.pick(&[0, 1, 187, 188, 189, 375, 376, 377, 4096]),
                _ => rng.below(4097),
            })
            .collect();
        drain_history(&items, &bufs);
    }
}
