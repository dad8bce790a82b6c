//! Tables of the program's own (C33)

use crate::core::*;
use mpegts::psi::*;

/// sealed: the program finalises the section itself before it is sent
struct Sec { tid: u8, n: usize, ver: u8, add: Vec<u8>, sealed: bool }

struct Own { secs: Vec<Sec>, word: Option<(usize, u8, u8)> }

impl PsiDemux for Own {
    fn psi_list_assemble(&self) -> Vec<Psi> {
        self.secs.iter().map(|x| {
            let mut p = Psi::new(x.tid, x.n, x.ver);
            p.buffer.extend_from_slice(&x.add);
            if x.sealed { p.finalize(); }
            p
        }).collect()
    }

    fn finalize(&self, psi: &mut Psi) {
        if let Some((at, mode, v)) = self.word {
            let v = match mode { 0 => v, 1 => psi.buffer[6].wrapping_add(v), _ => psi.buffer[7].wrapping_add(v) };
            psi.buffer[at] = v;
        }
    }
}

fn new_record(tid: u8, n: usize, ver: u8) {
    let mut b = Vec::new();
    let r = call(|| b = Psi::new(tid, n, ver).buffer);
    emit(&J::obj(&[("k", J::str("new")), ("st", st(&r)), ("tid", J::num(i64::from(tid))), ("n", J::num(n as i64)), ("ver", J::num(i64::from(ver))), ("b", J::bytes(&b))]));
}

fn own_record(rng: &mut Rng, secs: Vec<Sec>) {
    let shortest = secs.iter().map(|x| x.n + x.add.len()).min().unwrap_or(8);
    let word = if rng.chance(1, 3) { None } else {
        let at = match rng.below(4) { 0 => *rng.pick(&[0usize, 3, 4, 5]), _ if shortest > 8 => rng.range(8, shortest - 1), _ => 3 };
        Some((at, rng.below(3) as u8, rng.byte()))
    };
    let n = match rng.below(4) { 0 => 188, 1 => rng.below(400), _ => 0 };
    let pre = rng.bytes(n);
    let (pid, cc0) = (rng.below(8192) as u16, rng.below(16) as u8);
    let own = Own { secs, word };
    let (mut out, mut cc) = (pre.clone(), cc0);
    let r = call(|| own.demux(pid, &mut cc, &mut out));
    emit(&J::obj(&[
        ("k", J::str("own")), ("st", st(&r)),
        ("secs", J::list(own.secs.iter().map(|x| J::obj(&[("tid", J::num(i64::from(x.tid))), ("n", J::num(x.n as i64)), ("ver", J::num(i64::from(x.ver))), ("add", J::bytes(&x.add))])))),
        ("w", J::ints(word.map_or(vec![], |(a, m, v)| vec![a as i64 + 1, i64::from(m), i64::from(v)]))),
        ("pre", J::bytes(&pre)), ("pid", J::num(i64::from(pid))), ("cc", J::num(i64::from(cc0))), ("out", J::bytes(&out)), ("cc2", J::num(i64::from(cc))),
    ]));
}

fn sec(rng: &mut Rng, size: usize) -> Sec {
    let n = rng.range(8, size.min(24));
    Sec { tid: rng.byte(), n, ver: rng.byte(), add: rng.bytes(size - n), sealed: rng.chance(1, 5) }
}

pub fn c33(ctx: &Ctx) {
    let mut rng = ctx.rng("c33");
    what("new section");
    for n in 3 ..= 40 {
        for _ in 0 .. ctx.n(20, 200) { let (t, v) = (rng.byte(), rng.byte()); new_record(t, n, v); }
    }
    for v in 0 ..= 255u8 { new_record(v, 8, v); new_record(0x42, 11, v); }
    for _ in 0 .. ctx.n(20, 200) { let n = rng.range(41, 4092); let (t, v) = (rng.byte(), rng.byte()); new_record(t, n, v); }
    what("own table");
    own_record(&mut rng, Vec::new());
    own_record(&mut rng, Vec::new());
    // one section, every size around the packet borders
    for k in 0 ..= 22usize {
        for d in 0 .. 9 {
            let size = (k * 184 + 175 + d).min(4092);
            let s = sec(&mut rng, size);
            own_record(&mut rng, vec![s]);
        }
    }
    for size in 8 .. 60 { let s = sec(&mut rng, size); own_record(&mut rng, vec![s]); }
    for size in 4084 ..= 4092 { let s = vec![sec(&mut rng, size), sec(&mut rng, 9), sec(&mut rng, size)]; own_record(&mut rng, s); }
    // several
    for _ in 0 .. ctx.n(300, 3000) {
        let n = rng.range(2, 9);
        let s = (0 .. n).map(|_| { let size = match rng.below(4) { 0 => rng.range(8, 20), 1 => rng.range(170, 200), 2 => rng.range(8, 1020), _ => rng.range(8, 200) }; sec(&mut rng, size) }).collect();
        own_record(&mut rng, s);
    }
    for n in 10 ..= 40 { let s = (0 .. n).map(|_| { let size = rng.range(8, 60); sec(&mut rng, size) }).collect(); own_record(&mut rng, s); }
    for &n in &[100, 127, 128, 129, 200, 255, 256] {
        let s = (0 .. n).map(|_| { let size = rng.range(8, 30); sec(&mut rng, size) }).collect();
        own_record(&mut rng, s);
    }
}
