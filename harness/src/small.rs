//! Printed packets (C31), numbers and bit fields in byte arrays (C32)

use crate::core::*;
use mpegts::bytes::Bytes;
use mpegts::set_bits;
use mpegts::ts::{self, TsAdaptation, TsPacket};

// ---------------------------------------------------------------------------
// C31

/// The `name: value` pairs of a printed structure
fn pairs(text: &str) -> Vec<(String, String)> {
    text.split(|c| c == '{' || c == '}' || c == ',' || c == '\n')
        .filter_map(|x| {
            let x = x.trim();
            let i = x.find(':')?;
            let clean = |y: &str| y.trim().chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').collect::<String>();
            Some((clean(&x[.. i]), clean(&x[i + 1 ..])))
        })
        .collect()
}

fn printed(p: &[u8]) {
    let r = call(|| (format!("{:?}", TsPacket::new(p)), format!("{:#?}", TsPacket::new(p)), format!("{:?}", TsAdaptation::new(p))));
    let ok = st(&r);
    let (a, b, c) = r.unwrap_or_default();
    let (a, b) = (pairs(&a), pairs(&b));
    let alone = pairs(&c);
    let clock = |x: &[(String, String)]| x.iter().find(|v| v.0 == "pcr").and_then(|v| v.1.parse::<u128>().ok()).map_or(J::ints(vec![-1]), big);
    let list = |x: &[(String, String)]| J::list(x.iter().map(|v| J::list(vec![J::str(&v.0), J::str(&v.1)])));
    emit(&J::obj(&[
        ("k", J::str("print")), ("st", ok), ("p", J::bytes(&p[.. 12])), ("shown", J::list(vec![list(&a), list(&b)])),
        ("alone", list(&alone)), ("pcr", J::list(vec![clock(&a), clock(&b), clock(&alone)])),
    ]));
}

pub fn c31(ctx: &Ctx) {
    let mut rng = ctx.rng("c31");
    for k in 0 .. 256 {
        for at in &[0usize, 1, 2, 3, 4, 5] {
            for fill in &[0u8, 0xFF] {
                let mut p = vec![*fill; 188];
                p[0] = 0x47;
                p[3] = if *fill == 0 { 0x20 } else { 0xFF };
                p[4] = 7;
                p[*at] = k as u8;
                printed(&p);
            }
        }
    }
    for pid in &[0u16, 1, 255, 256, 4095, 4096, 8191] {
        let mut p = rng.bytes(188);
        call(|| ts::set_pid(&mut p, *pid));
        printed(&p);
    }
    printed(ts::NULL_PACKET);
    for _ in 0 .. ctx.n(1500, 20000) {
        let mut p = rng.bytes(188);
        if rng.chance(1, 2) { p[3] |= 0x20; p[4] = *rng.pick(&[0, 1, 6, 7, 8, 100, 182, 183]); }
        if rng.chance(1, 2) { p[5] |= 0x10; }
        printed(&p);
    }
}

// ---------------------------------------------------------------------------
// C32

fn words(rng: &mut Rng, steps: usize) {
    let n = rng.range(4, 14);
    let mut a = match rng.below(3) { 0 => vec![0; n], 1 => vec![0xFF; n], _ => rng.bytes(n) };
    let start = a.clone();
    let (mut ops, mut sts, mut out) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0 .. steps {
        let w = rng.range(2, 4);
        let o = rng.below(n - w + 1);
        let get = rng.chance(1, 3);
        let max = (1u64 << (8 * w)) - 1;
        let mut x = crate::desc::upto(rng, max) as u32;
        let r = call(|| {
            let s = &mut a[o ..];
            if get {
                x = match w { 2 => u32::from(s.get_u16()), 3 => s.get_u24(), _ => s.get_u32() };
            } else {
                match w { 2 => s.set_u16(x as u16), 3 => s.set_u24(x), _ => s.set_u32(x) }
            }
        });
        ops.push(J::ints(vec![o as i64, w as i64, i64::from(x >> 16), i64::from(x & 0xFFFF), i64::from(get as u8)]));
        sts.push(st(&r));
        out.push(J::bytes(&a));
        if r.is_none() { break; }
    }
    emit(&J::obj(&[("k", J::str("words")), ("a", J::bytes(&start)), ("ops", J::list(ops)), ("st", J::list(sts)), ("out", J::list(out))]));
}

fn packed(top: usize, v: &[u16], w: &[usize]) {
    // eight bits: the way the library uses it
    macro_rules! pack {
        ($t:ty) => { {
            let v: Vec<$t> = v.iter().map(|&x| x as $t).collect();
            i64::from(match v.len() {
                1 => set_bits!(top, v[0], w[0]),
                2 => set_bits!(top, v[0], w[0], v[1], w[1]),
                3 => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2]),
                4 => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2], v[3], w[3]),
                5 => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2], v[3], w[3], v[4], w[4]),
                6 => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2], v[3], w[3], v[4], w[4], v[5], w[5]),
                7 => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2], v[3], w[3], v[4], w[4], v[5], w[5], v[6], w[6]),
                _ => set_bits!(top, v[0], w[0], v[1], w[1], v[2], w[2], v[3], w[3], v[4], w[4], v[5], w[5], v[6], w[6], v[7], w[7]),
            })
        } };
    }
    let r = call(|| if top == 8 { pack!(u8) } else { pack!(u16) });
    emit(&J::obj(&[
        ("k", J::str("packed")), ("st", st(&r)), ("top", J::num(top as i64)), ("vs", J::ints(v.iter().map(|&x| i64::from(x)))),
        ("ws", J::ints(w.iter().map(|&x| x as i64))), ("r", J::num(r.unwrap_or(-1))),
    ]));
}

pub fn c32(ctx: &Ctx) {
    let mut rng = ctx.rng("c32");
    for _ in 0 .. ctx.n(1200, 20000) { let n = rng.range(1, 8); words(&mut rng, n); }
    // all ways to cut eight bits into fields from the top
    for cut in 0 .. 256usize {
        let mut w = Vec::new();
        let mut n = 0;
        for k in 0 .. 8 {
            n += 1;
            if cut >> k & 1 == 1 { w.push(n); n = 0; }
        }
        if w.is_empty() { continue; }
        let max = |x: usize| ((1u32 << x) - 1) as u16;
        packed(8, &w.iter().map(|&x| max(x)).collect::<Vec<_>>(), &w);
        packed(8, &w.iter().map(|_| 0).collect::<Vec<_>>(), &w);
        for i in 0 .. w.len() { packed(8, &(0 .. w.len()).map(|j| if i == j { max(w[j]) } else { 0 }).collect::<Vec<_>>(), &w); }
        for _ in 0 .. ctx.n(2, 20) { packed(8, &w.iter().map(|&x| rng.next() as u16 & max(x)).collect::<Vec<_>>(), &w); }
    }
    for _ in 0 .. ctx.n(500, 5000) {
        let mut left = 16;
        let mut w = Vec::new();
        while left > 0 && w.len() < 8 { let n = rng.range(1, left); w.push(n); left -= n; if rng.chance(1, 5) { break; } }
        let v: Vec<u16> = w.iter().map(|&x| (rng.next() & ((1 << x) - 1)) as u16).collect();
        packed(16, &v, &w);
    }
}
