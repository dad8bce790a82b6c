//! DVB text: code pages (C18), splitting and truncating (C19)

use crate::core::*;
use mpegts::textcode::StringDVB;

pub const PAGES: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

/// Written form of a text with the given code page
pub fn selector(cp: u8) -> Vec<u8> {
    match cp {
        0 => vec![],
        1 ..= 4 => vec![0x10, 0, cp],
        5 ..= 15 => vec![cp - 4],
        _ => vec![cp],
    }
}

pub fn text_json(s: &StringDVB) -> J {
    J::ints(std::iter::once(i64::from(s.get_codepage())).chain(s.as_bytes().iter().map(|&b| i64::from(b))))
}

fn chars(s: &str) -> J { J::ints(s.chars().map(|c| i64::from(u32::from(c)))) }

/// A text of n bytes or a little less; the first character can be written
/// without being taken for a selector
pub fn text(rng: &mut Rng, n: usize) -> StringDVB {
    if n == 0 { return StringDVB::default(); }
    let cp = if rng.chance(1, 3) { 0 } else { *rng.pick(&PAGES) };
    text_in(rng, cp, n)
}

/// A text of code page cp, n bytes long with its selector (or a little less)
pub fn text_in(rng: &mut Rng, cp: u8, n: usize) -> StringDVB {
    let sel = selector(cp);
    if n <= sel.len() { return StringDVB::default(); }
    let mut b = sel.clone();
    if cp == 21 {
        loop {
            let c = character(rng);
            let mut buf = [0; 4];
            let e = c.encode_utf8(&mut buf).as_bytes();
            if b.len() + e.len() > n { break; }
            b.extend_from_slice(e);
        }
        while b.len() < n { b.push(b'x'); }
    } else {
        while b.len() < n {
            b.push(match rng.below(8) { 0 => rng.byte() | 0xA0, 1 => rng.byte(), 2 => 0xA0, _ => 0x20 + rng.below(95) as u8 });
        }
        if cp == 0 && b[0] < 0x20 { b[0] = b'A'; }
    }
    StringDVB::from(b.as_slice())
}

fn character(rng: &mut Rng) -> char {
    loop {
        let v = match rng.below(12) {
            0 ..= 3 => rng.range(0x20, 0x7E) as u32,
            4 => rng.below(0xA0) as u32,
            5 | 6 => rng.range(0x80, 0x7FF) as u32,
            7 | 8 => rng.range(0x800, 0xFFFF) as u32,
            9 => *rng.pick(&[0x7F, 0x80, 0x9F, 0xA0, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x10041]),
            10 => *rng.pick(&[0xAB, 0xBB, 0x2018, 0x2019, 0x201B, 0x201C, 0x201D, 0x201F, 0x2026, 0x201A, 0x201E]),
            _ => rng.range(0x10000, 0x10FFFF) as u32,
        };
        if let Some(c) = std::char::from_u32(v) { return c; }
    }
}

/// Encoding one character in every page: runs of characters with one result
fn page_record(cp: u8, from: u32, to: u32) {
    let mut runs: Vec<(u32, u32, Vec<u8>)> = Vec::new();
    let mut pages = Vec::new();
    let mut fine = true;
    for v in from ..= to {
        let c = match std::char::from_u32(v) { Some(c) => c, None => continue };
        let s = c.to_string();
        match call(|| StringDVB::from_str(&s, cp)) {
            None => { fine = false; break; },
            Some(x) => {
                if !pages.contains(&x.get_codepage()) { pages.push(x.get_codepage()); }
                match runs.last_mut() {
                    Some(r) if r.2 == x.as_bytes() => r.1 = v,
                    _ => runs.push((v, v, x.as_bytes().to_vec())),
                }
            },
        }
    }
    emit(&J::obj(&[
        ("k", J::str("page")), ("st", J::str(if fine { "ok" } else { "panic" })), ("cp", J::num(i64::from(cp))),
        ("cps", J::ints(pages.iter().map(|&x| i64::from(x)))),
        ("from", J::num(i64::from(from))), ("to", J::num(i64::from(to))),
        ("runs", J::list(runs.iter().map(|r| J::list(vec![
            J::ints(vec![i64::from(r.0), i64::from(r.1)]), J::bytes(&r.2)])))),
    ]));
}

/// Encode, write, read, print
fn encode_record(cp: u8, s: &str) {
    let held = before();
    let pre = held.clone();
    let r = call(|| {
        let x = StringDVB::from_str(s, cp);
        let mut out = held;
        x.assemble(&mut out);
        let mut sized = pre.clone();
        x.assemble_sized(&mut sized);
        let back = StringDVB::from(&out[pre.len() ..]);
        let same = back == x;
        let print = back.to_string();
        let clone = x.clone();
        let _ = format!("{:?} {:?}", x, back);
        (x.size(), x.is_empty(), clone, out, sized, back, same, print, x.to_string())
    });
    let bad = r.is_none();
    let (size, empty, x, out, sized, back, same, print, direct) = r.unwrap_or_default();
    emit(&J::obj(&[
        ("k", J::str("enc")), ("st", J::str(if bad { "panic" } else { "ok" })), ("cp", J::num(i64::from(cp))),
        ("c", chars(s)), ("x", text_json(&x)), ("size", J::num(size as i64)), ("empty", J::boolean(empty)),
        ("pre", J::bytes(&pre)), ("out", J::bytes(&out)), ("sized", J::bytes(&sized)), ("back", text_json(&back)), ("same", J::boolean(same)),
        ("print", chars(&print)), ("direct", chars(&direct)),
    ]));
}

/// Read and print
fn decode_record(b: &[u8]) {
    let r = call(|| {
        let x = StringDVB::from(b);
        let mut out = Vec::new();
        x.assemble(&mut out);
        let p = x.to_string();
        let _ = format!("{:?}", x);
        (x.size(), x, out, p)
    });
    let bad = r.is_none();
    let (size, x, out, p) = r.unwrap_or_default();
    emit(&J::obj(&[
        ("k", J::str("dec")), ("st", J::str(if bad { "panic" } else { "ok" })), ("b", J::bytes(b)),
        ("x", text_json(&x)), ("size", J::num(size as i64)), ("out", J::bytes(&out)), ("print", chars(&p)),
    ]));
}

pub fn c18(ctx: &Ctx) {
    let mut rng = ctx.rng("c18");
    // every character of the basic plane in every page, some of the others
    for &cp in &PAGES {
        if cp == 21 {
            for k in 0 .. 256u32 { if ctx.thorough || k < 16 || k % 8 == 0 || k > 0xD0 { page_record(cp, k << 8, (k << 8) + 255); } }
        } else {
            page_record(cp, 0, 0xFFFF);
        }
        for p in 1 ..= 16u32 {
            for &o in &[0u32, 0x20, 0x40, 0x80, 0xA0, 0x400, 0x2000, 0xFF00, 0xFFC0] {
                page_record(cp, (p << 16) + o, (p << 16) + o + 63);
            }
        }
    }
    // every byte of every page, alone and among others
    for cp in 0 ..= 31u8 {
        let sel: Vec<Vec<u8>> = match cp {
            0 => vec![vec![]],
            1 ..= 15 => {
                let mut v = vec![vec![0x10, 0, cp]];
                if cp >= 5 { v.push(vec![cp - 4]); }
                v
            },
            21 => vec![vec![21]],
            _ => vec![vec![0x10, 0, cp]],
        };
        for s in sel {
            for b in 0 ..= 255u8 {
                if cp == 0 && b < 0x20 { continue; }
                let mut d = s.clone();
                d.push(b);
                decode_record(&d);
            }
            let mut d = s.clone();
            if cp == 0 { d.push(b' '); }
            d.extend(0 ..= 255u8);
            decode_record(&d);
            decode_record(&s);
        }
    }
    // selectors, complete and cut off
    decode_record(&[]);
    for a in 0 ..= 255u8 {
        decode_record(&[a]);
        decode_record(&[a, 0xC1]);
        decode_record(&[a, 0x00, 0xE1]);
        decode_record(&[a, b'a', 0x85, 0xE1, 0xA1]);
        decode_record(&[0x10, 0, a]);
        decode_record(&[0x10, 0, a, 0xE1, 0x41]);
    }
    decode_record(&[0x10, 0]);

    // texts
    let alphabets: Vec<Vec<char>> = PAGES.iter().map(|&cp| {
        // what the page offers is learned from the library: any text will do
        let mut v: Vec<char> = (0x20u8 ..= 0x7E).map(char::from).collect();
        if cp != 21 {
            for b in 0xA0 ..= 0xFFu8 {
                let mut d = selector(cp);
                d.push(b);
                if let Some(s) = call(|| StringDVB::from(d.as_slice()).to_string()) { v.extend(s.chars()); }
            }
        } else {
            v.extend("\u{e9}\u{416}\u{20ac}\u{1F600}\u{ffff}\u{10000}".chars());
        }
        v
    }).collect();
    for &cp in &PAGES {
        encode_record(cp, "");
        for n in 1 .. 40 { let s: String = (0 .. n).map(|_| *rng.pick(&alphabets[0])).collect(); encode_record(cp, &s); }
    }
    for i in 0 .. ctx.n(900, 12000) {
        let k = i % PAGES.len();
        let n = match rng.below(10) { 0 => rng.range(100, 255), 1 => rng.range(0, 3), _ => rng.range(1, 40) };
        let s: String = (0 .. n).map(|j| match rng.below(8) {
            0 if j > 0 => character(&mut rng),
            1 | 2 => *rng.pick(&alphabets[rng.clone().below(alphabets.len())]),
            _ => *rng.pick(&alphabets[k]),
        }).collect();
        encode_record(PAGES[k], &s);
    }
    // long texts
    for i in 0 .. ctx.n(12, 120) {
        let k = i % PAGES.len();
        let n = *rng.pick(&[256usize, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000]);
        let s: String = (0 .. n).map(|_| if rng.chance(1, 8) { character(&mut rng) } else { *rng.pick(&alphabets[k]) }).collect();
        encode_record(PAGES[k], &s);
        let mut d = selector(PAGES[k]);
        d.extend(rng.bytes(n));
        decode_record(&d);
    }
    for _ in 0 .. ctx.n(800, 8000) {
        let n = rng.range(1, 60);
        let mut b = rng.bytes(n);
        if rng.chance(2, 3) { let mut d = selector(*rng.pick(&PAGES)); d.extend(b); b = d; }
        decode_record(&b);
    }
}

// ---------------------------------------------------------------------------
// C19

fn split_record(x: &StringDVB, n: usize) {
    let r = call(|| x.split(n));
    let ok = r.is_some();
    let p = r.unwrap_or_default();
    let sizes = call(|| p.iter().map(|y| { let mut d = Vec::new(); y.assemble(&mut d); d.len() }).collect::<Vec<_>>());
    emit(&J::obj(&[
        ("k", J::str("split")), ("st", J::str(if ok && sizes.is_some() { "ok" } else { "panic" })),
        ("x", text_json(x)), ("n", J::num(n as i64)), ("p", J::list(p.iter().map(text_json))),
        ("w", J::ints(sizes.unwrap_or_default().into_iter().map(|v| v as i64))),
    ]));
}

fn truncate_record(x: &StringDVB, n: usize) {
    let mut y = x.clone();
    let r = call(|| y.truncate(n));
    emit(&J::obj(&[
        ("k", J::str("trunc")), ("st", st(&r)), ("x", text_json(x)), ("n", J::num(n as i64)), ("r", text_json(&y)),
    ]));
}

pub fn c19(ctx: &Ctx) {
    let mut rng = ctx.rng("c19");
    let wide = ["a", "\u{e9}", "\u{20ac}", "\u{1F600}"];

    // every position of wide characters relative to the limit
    for &n in &[8usize, 9, 10, 11, 12, 13, 16, 17, 32, 200, 249, 255] {
        for w in 1 .. 4 {
            for lead in 0 .. 5usize {
                for extra in 0 .. 5usize {
                    let mut s = "b".repeat(lead);
                    while s.len() < n + 1 + extra { s.push_str(wide[w]); }
                    if rng.chance(1, 2) { s.push('z'); }
                    let x = StringDVB::from_str(&s, 21);
                    if n <= 32 || lead < 2 || ctx.thorough { split_record(&x, n); truncate_record(&x, n); }
                }
            }
        }
    }
    // all short texts over characters of 1 to 4 bytes, small limits
    let depth = ctx.n(5, 6);
    for len in 1 ..= depth {
        for code in 0 .. 4usize.pow(len as u32) {
            let mut c = code;
            let mut s = String::new();
            for _ in 0 .. len { s.push_str(wide[c % 4]); c /= 4; }
            if s.len() < 4 { continue; }
            let x = StringDVB::from_str(&s, 21);
            let t = 3 + rng.below(s.len());
            truncate_record(&x, t);
            if s.len() >= 7 { split_record(&x, *rng.pick(&[8, 9, 10, 11])); }
        }
    }
    // every limit
    for &cp in &PAGES {
        for n in 3 .. 40 {
            let m = rng.range(n, n + 30);
            let x = text_in(&mut rng, cp, m);
            truncate_record(&x, n);
            if n >= 8 { split_record(&x, n); }
        }
        // sizes around multiples of the limit
        for n in 8 .. 24usize {
            for d in 0 .. 8usize {
                let k = rng.range(1, 4);
                let x = text_in(&mut rng, cp, (n * k + d).saturating_sub(3));
                split_record(&x, n);
                truncate_record(&x, (n + d).saturating_sub(4).max(3));
                truncate_record(&x, x.as_bytes().len().max(3));
                truncate_record(&x, (x.as_bytes().len() + 1).max(3));
                truncate_record(&x, x.as_bytes().len().saturating_sub(1).max(3));
            }
        }
        split_record(&StringDVB::default(), 8);
        truncate_record(&StringDVB::default(), 3);
    }
    for _ in 0 .. ctx.n(700, 9000) {
        let m = match rng.below(4) { 0 => rng.range(1, 20), 1 => rng.range(200, 600), _ => rng.range(10, 120) };
        let x = text(&mut rng, m);
        let n = match rng.below(4) { 0 => 249, 1 => rng.range(8, 20), _ => rng.range(8, 255) };
        split_record(&x, n);
        let n = if rng.chance(1, 2) { rng.range(3, m.max(3)) } else { rng.range(3, 255) };
        truncate_record(&x, n);
    }
    // long texts, many parts
    for i in 0 .. ctx.n(12, 120) {
        let m = *rng.pick(&[256usize, 257, 1000, 1023, 1024, 1025, 1800, 2500, 4000]);
        let x = text_in(&mut rng, PAGES[i % PAGES.len()], m);
        split_record(&x, rng.clone().range(8, 14));
        split_record(&x, *rng.pick(&[255, 256, 257, 500, 1000, 5000]));
        truncate_record(&x, *rng.pick(&[255, 256, 257, 258, 259, 260, 500, 1000, 1024, 5000]));
    }
    // malformed UTF-8: sizes and order still hold
    for _ in 0 .. ctx.n(200, 2000) {
        let m = rng.range(1, 80);
        let mut b = vec![21];
        for _ in 0 .. m { b.push(match rng.below(3) { 0 => 0x80 | rng.byte(), 1 => 0x80, _ => rng.byte() }); }
        let x = StringDVB::from(b.as_slice());
        split_record(&x, rng.range(8, 20));
        truncate_record(&x, rng.range(3, 20));
    }
}
