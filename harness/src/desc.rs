//! Descriptors: values, reading and writing (C15, C16, C17)

use crate::core::*;
use crate::tables::{oversize, table};
use crate::text::{text, text_in, text_json, PAGES};
use mpegts::psi::*;
use mpegts::textcode::StringDVB;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NUMERIC: [u8; 8] = [0x09, 0x0E, 0x41, 0x43, 0x44, 0x52, 0x5A, 0x83];
pub const TEXTUAL: [u8; 6] = [0x0A, 0x40, 0x48, 0x4D, 0x4E, 0x58];
pub const KNOWN: [u8; 14] = [0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];

// ---------------------------------------------------------------------------
// Values as JSON (see Descriptors.tla)

fn value(tag: u8, kind: u8, n: Vec<i64>, s: Vec<J>) -> J {
    J::obj(&[
        ("t", J::num(i64::from(tag))), ("k", J::num(i64::from(kind))),
        ("n", J::ints(n)), ("s", J::list(s)),
    ])
}

fn typed<T: 'static + Desc>(d: &Descriptor) -> Option<&T> {
    catch_unwind(AssertUnwindSafe(|| d.downcast_ref::<T>())).ok()
}

fn freq(f: u32) -> [i64; 2] { [i64::from(f / 10000), i64::from(f % 10000)] }

pub fn moment(t: u64) -> [i64; 2] { [(t / 86400).min(1 << 30) as i64, (t % 86400) as i64] }

/// A descriptor that the library does not know
#[derive(Debug, Clone)]
pub struct Own { pub tag: u8, pub data: Vec<u8> }

impl Desc for Own {
    fn tag(&self) -> u8 { self.tag }
    fn size(&self) -> usize { 2 + self.data.len() }
    fn assemble(&self, buffer: &mut Vec<u8>) {
        buffer.push(self.tag);
        buffer.push(self.data.len() as u8);
        buffer.extend(&self.data);
    }
}

pub fn json(d: &Descriptor) -> J {
    let t = d.tag();
    if let Some(x) = typed::<DescRaw>(d) {
        return value(t, 0, x.data.iter().map(|&b| i64::from(b)).collect(), vec![]);
    }
    if let Some(x) = typed::<Own>(d) {
        return value(t, 2, x.data.iter().map(|&b| i64::from(b)).collect(), vec![]);
    }
    macro_rules! get { ($t:ty) => { match typed::<$t>(d) { Some(x) => x, None => return value(t, 1, vec![-1], vec![]) } } }
    let i = |x: u8| i64::from(x);
    let (n, s): (Vec<i64>, Vec<J>) = match t {
        0x09 => {
            let x = get!(Desc09);
            let mut n = vec![i64::from(x.caid), i64::from(x.pid)];
            n.extend(x.data.iter().map(|&b| i(b)));
            (n, vec![])
        },
        0x0A => {
            let x = get!(Desc0A);
            (x.items.iter().map(|v| i(v.audio_type)).collect(), x.items.iter().map(|v| text_json(&v.code)).collect())
        },
        0x0E => (vec![i64::from(get!(Desc0E).bitrate)], vec![]),
        0x40 => (vec![], vec![text_json(&get!(Desc40).name)]),
        0x41 => {
            let x = get!(Desc41);
            (x.items.iter().flat_map(|v| vec![i64::from(v.service_id), i(v.service_type)]).collect(), vec![])
        },
        0x43 => {
            let x = get!(Desc43);
            let f = freq(x.frequency);
            (vec![f[0], f[1], i64::from(x.orbital_position), i(x.west_east_flag), i(x.polarization), i(x.rof), i(x.s2),
                i(x.modulation), i64::from(x.symbol_rate), i(x.fec)], vec![])
        },
        0x44 => {
            let x = get!(Desc44);
            let f = freq(x.frequency);
            (vec![f[0], f[1], i(x.fec_outer), i(x.modulation), i64::from(x.symbol_rate), i(x.fec)], vec![])
        },
        0x48 => { let x = get!(Desc48); (vec![i(x.service_type)], vec![text_json(&x.provider), text_json(&x.name)]) },
        0x4D => { let x = get!(Desc4D); (vec![], vec![text_json(&x.lang), text_json(&x.name), text_json(&x.text)]) },
        0x4E => {
            let x = get!(Desc4E);
            let mut s = vec![text_json(&x.lang), text_json(&x.text)];
            for (a, b) in &x.items { s.push(text_json(a)); s.push(text_json(b)); }
            (vec![i(x.number), i(x.last_number), x.items.len() as i64], s)
        },
        0x52 => (vec![i(get!(Desc52).tag)], vec![]),
        0x58 => {
            let x = get!(Desc58);
            (x.items.iter().flat_map(|v| {
                let m = moment(v.time_of_change);
                vec![i(v.region_id), i(v.offset_polarity), i64::from(v.offset), m[0], m[1], i64::from(v.next_offset)]
            }).collect(), x.items.iter().map(|v| text_json(&v.country_code)).collect())
        },
        0x5A => {
            let x = get!(Desc5A);
            let f = freq(x.frequency);
            (vec![f[0], f[1], i(x.bandwidth), i(x.priority), i(x.time_slicing), i(x.mpe_fec), i(x.modulation), i(x.hierarchy),
                i(x.code_rate_hp), i(x.code_rate_lp), i(x.guard_interval), i(x.transmission), i(x.other_frequency_flag)], vec![])
        },
        0x83 => {
            let x = get!(Desc83);
            (x.items.iter().flat_map(|v| vec![i64::from(v.service_id), i(v.visible), i64::from(v.lcn)]).collect(), vec![])
        },
        _ => (vec![-1], vec![]),
    };
    value(t, 1, n, s)
}

pub fn list_json(d: &Descriptors) -> J { J::list(d.iter().map(json)) }

// ---------------------------------------------------------------------------
// Values within the standard field widths

/// 0 ..= max, boundaries preferred
pub fn upto(rng: &mut Rng, max: u64) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => max,
        2 => max - rng.below(2) as u64 * u64::from(max > 0),
        3 => { let k = rng.below(64) as u32; let v = 1u64 << k; if v <= max { v } else { max / 2 } },
        _ => rng.next() % (max + 1),
    }
}

fn u8s(rng: &mut Rng, max: u64) -> u8 { upto(rng, max) as u8 }
fn u16s(rng: &mut Rng, max: u64) -> u16 { upto(rng, max) as u16 }

pub fn code(rng: &mut Rng) -> StringDVB {
    let b: Vec<u8> = match rng.below(3) {
        0 => rng.pick(&["eng", "rus", "deu", "fra", "\u{20}\u{20}\u{20}", "AAA", "zzz"]).bytes().collect(),
        1 => (0 .. 3).map(|_| b'a' + rng.below(26) as u8).collect(),
        _ => (0 .. 3).map(|k| if k == 0 { rng.range(32, 255) as u8 } else { rng.byte() }).collect(),
    };
    StringDVB::from(b.as_slice())
}

/// Any second the format can hold
pub fn second(rng: &mut Rng) -> u64 {
    let day = upto(rng, 24948);
    day * 86400 + match rng.below(6) { 0 => 0, 1 => 86399, 2 => 43200, _ => rng.below(86400) as u64 }
}

pub fn raw(rng: &mut Rng, tag: u8, n: usize) -> DescRaw { make!(DescRaw { tag, data: rng.bytes(n) }) }

/// A descriptor the contents of which have at most `room` bytes; `full`: as many as possible
pub fn known(rng: &mut Rng, tag: u8, room: usize, full: bool) -> Descriptor {
    let some = |rng: &mut Rng, m: usize| if full { m } else { match rng.below(4) { 0 => rng.below(m + 1), 1 => m.min(1), _ => rng.below(m.min(5) + 1) } };
    let short = |rng: &mut Rng, m: usize| if full { m } else { match rng.below(6) { 0 => 0, 1 => rng.below(m + 1), _ => rng.below(m.min(24) + 1) } };
    match tag {
        0x09 => { let n = short(rng, room - 4); make!(Desc09 { caid: u16s(rng, 65535), pid: u16s(rng, 8191), data: rng.bytes(n) }).into() },
        0x0A => {
            let n = some(rng, room / 4);
            make!(Desc0A { items: (0 .. n).map(|_| Desc0Ai { code: code(rng), audio_type: rng.byte() }).collect() }).into()
        },
        0x0E => make!(Desc0E { bitrate: upto(rng, 0x3F_FFFF) as u32 }).into(),
        0x40 => { let n = short(rng, room); make!(Desc40 { name: text(rng, n) }).into() },
        0x41 => {
            let n = some(rng, room / 3);
            make!(Desc41 { items: (0 .. n).map(|_| Desc41i { service_id: u16s(rng, 65535), service_type: rng.byte() }).collect() }).into()
        },
        0x43 => make!(Desc43 {
            frequency: 10 * upto(rng, 99_999_999) as u32, orbital_position: 6 * u16s(rng, 9999),
            west_east_flag: u8s(rng, 1), polarization: u8s(rng, 3), rof: u8s(rng, 3), s2: u8s(rng, 1), modulation: u8s(rng, 3),
            symbol_rate: upto(rng, 999_999) as u32, fec: u8s(rng, 15),
        }).into(),
        0x44 => make!(Desc44 {
            frequency: 100 * upto(rng, 42_949_672) as u32, fec_outer: u8s(rng, 15), modulation: rng.byte(),
            symbol_rate: upto(rng, 999_999) as u32, fec: u8s(rng, 15),
        }).into(),
        0x48 => {
            let a = short(rng, room - 3);
            let a = if full { rng.below(a + 1) } else { a };
            let provider = text(rng, a);
            let b = short(rng, room - 3 - provider.size());
            make!(Desc48 { service_type: rng.byte(), provider, name: text(rng, b) }).into()
        },
        0x4D => {
            let a = short(rng, room - 5);
            let a = if full { rng.below(a + 1) } else { a };
            let name = text(rng, a);
            let b = short(rng, room - 5 - name.size());
            make!(Desc4D { lang: code(rng), name, text: text(rng, b) }).into()
        },
        0x4E => {
            let mut left = room - 6;
            let mut items = Vec::new();
            let n = rng.below(6);
            for _ in 0 .. n {
                if left < 2 { break; }
                let a = rng.below((left - 2).min(40) + 1);
                let x = text(rng, a);
                let b = rng.below((left - 2 - x.size()).min(60) + 1);
                let y = text(rng, b);
                left -= 2 + x.size() + y.size();
                items.push((x, y));
            }
            let c = short(rng, left);
            Desc4E { number: u8s(rng, 15), last_number: u8s(rng, 15), lang: code(rng), items, text: text(rng, c) }.into()
        },
        0x52 => make!(Desc52 { tag: rng.byte() }).into(),
        0x58 => {
            let n = some(rng, room / 13);
            make!(Desc58 { items: (0 .. n).map(|_| make!(Desc58i {
                country_code: code(rng), region_id: u8s(rng, 63), offset_polarity: u8s(rng, 1),
                offset: u16s(rng, 1439), time_of_change: second(rng), next_offset: u16s(rng, 1439),
            })).collect() }).into()
        },
        0x5A => make!(Desc5A {
            frequency: 10 * upto(rng, 429_457_407) as u32, bandwidth: u8s(rng, 7), priority: u8s(rng, 1), time_slicing: u8s(rng, 1),
            mpe_fec: u8s(rng, 1), modulation: u8s(rng, 3), hierarchy: u8s(rng, 7), code_rate_hp: u8s(rng, 7),
            code_rate_lp: u8s(rng, 7), guard_interval: u8s(rng, 3), transmission: u8s(rng, 3), other_frequency_flag: u8s(rng, 1),
        }).into(),
        _ => {
            let n = some(rng, room / 4);
            make!(Desc83 { items: (0 .. n).map(|_| Desc83i { service_id: u16s(rng, 65535), visible: u8s(rng, 1), lcn: u16s(rng, 1023) }).collect() }).into()
        },
    }
}

/// A tag without a known layout
pub fn unknown_tag(rng: &mut Rng) -> u8 {
    loop { let t = rng.byte(); if !KNOWN.contains(&t) { return t; } }
}

/// Descriptors of at most `room` bytes in all
pub fn descriptors(rng: &mut Rng, room: usize) -> Descriptors {
    let mut ds = Descriptors::default();
    let mut left = room;
    let n = rng.below(4);
    for _ in 0 .. n {
        if left < 15 { break; }
        let max = (left - 2).min(255);
        let d: Descriptor = if rng.chance(1, 4) {
            let m = rng.below(max.min(30) + 1);
            let t = unknown_tag(rng);
            raw(rng, t, m).into()
        } else {
            let t = *rng.pick(&KNOWN);
            let full = rng.chance(1, 12);
            known(rng, t, max, full)
        };
        let had = ds.size();
        ds.push(d);
        // sometimes the same once more
        if rng.chance(1, 10) && 2 * ds.size() - had <= room { let d = ds.iter().last().unwrap().clone(); ds.push(d); }
        left = room.saturating_sub(ds.size());
    }
    ds
}

// ---------------------------------------------------------------------------
// Records

/// Writing a list, reading it again
fn enc_record(ds: &Descriptors) {
    let d = list_json(ds);
    let held = before();
    let pre = held.clone();
    let r = call(|| {
        let size = ds.size();
        let each: usize = ds.iter().count();
        let mut out = held;
        let ret = ds.assemble(&mut out);
        let mut back = Descriptors::default();
        back.parse(&out[pre.len() ..]);
        let twin = ds.clone();
        let mut out2 = Vec::new();
        twin.assemble(&mut out2);
        let _ = format!("{:?}{:?}", ds, back);
        (size, each, ret, out, back, out2)
    });
    let ok = r.is_some();
    let (size, each, ret, out, back, out2) = r.unwrap_or_default();
    emit(&J::obj(&[
        ("k", J::str("enc")), ("st", J::str(if ok { "ok" } else { "panic" })), ("d", d), ("size", J::num(size as i64)),
        ("each", J::num(each as i64)), ("ret", J::num(ret as i64)), ("pre", J::bytes(&pre)), ("out", J::bytes(&out)), ("back", list_json(&back)),
        ("clone", J::bytes(&out2)),
    ]));
}

/// Reading a loop, writing it again
fn dec_record(b: &[u8]) {
    let r = call(|| {
        let mut ds = Descriptors::default();
        ds.parse(b);
        ds
    });
    let ok = r.is_some();
    let mut ds = r.unwrap_or_default();
    let c = call(|| {
        let twin = ds.clone();
        let _ = format!("{:?}{:?}", ds, twin);
        (ds.size(), ds.len(), ds.is_empty(), list_json(&twin))
    });
    // values outside the domain of a field (digits above 9) need not be writable
    let w = call(|| {
        let mut out = Vec::new();
        let ret = ds.assemble(&mut out);
        let mut out2 = Vec::new();
        ds.clone().assemble(&mut out2);
        (out, ret, out2)
    });
    // each one alone
    let n = ds.len();
    let mut one = Vec::new();
    for i in 0 .. n {
        let mut x = Descriptors::default();
        let d = ds.get(i).cloned();
        if let Some(d) = d { x.push(d); }
        let mut o = Vec::new();
        if call(|| { x.assemble(&mut o); }).is_none() { o = vec![]; }
        one.push(J::bytes(&o));
    }
    let ok2 = c.is_some();
    let (size, len, empty, twin) = c.unwrap_or((0, 0, false, J::list(vec![])));
    let wr = st(&w);
    let (out, ret, out2) = w.unwrap_or_default();
    emit(&J::obj(&[
        ("k", J::str("dec")), ("st", J::str(if ok && ok2 { "ok" } else { "panic" })), ("b", J::bytes(b)),
        ("d", list_json(&ds)), ("wr", wr), ("out", J::bytes(&out)), ("ret", J::num(ret as i64)), ("clone", J::bytes(&out2)),
        ("size", J::num(size as i64)), ("len", J::num(len as i64)), ("empty", J::boolean(empty)),
        ("twin", twin), ("one", J::list(one)),
    ]));
}

fn enc_one<T: Into<Descriptor>>(d: T) {
    let mut ds = Descriptors::default();
    ds.push(d);
    enc_record(&ds);
}

/// The written form of a descriptor (as the library writes it)
fn bytes_of(d: Descriptor) -> Vec<u8> {
    let mut ds = Descriptors::default();
    ds.push(d);
    let mut out = Vec::new();
    call(|| { ds.assemble(&mut out); });
    out
}

fn lists(ctx: &Ctx, rng: &mut Rng, tags: &[u8]) {
    for _ in 0 .. ctx.n(250, 3000) {
        let mut ds = Descriptors::default();
        for _ in 0 .. rng.range(2, 5) {
            if rng.chance(1, 6) {
                let (t, m) = (unknown_tag(rng), rng.below(20));
                ds.push(raw(rng, t, m));
            } else {
                let t = *rng.pick(tags);
                let full = rng.chance(1, 20);
                let d = known(rng, t, 255, full);
                ds.push(d);
            }
        }
        enc_record(&ds);
    }
}

/// Written descriptors with single bits and bytes changed: what the bytes say is what is read
fn altered(ctx: &Ctx, rng: &mut Rng, tags: &[u8]) {
    for &t in tags {
        for i in 0 .. ctx.n(6, 40) {
            let full = i == 0;
            let b = bytes_of(known(rng, t, 255, full));
            if b.len() < 3 { continue; }
            if b.len() < 40 {
                for k in 16 .. 8 * b.len() {
                    let mut x = b.clone();
                    x[k / 8] ^= 0x80 >> (k % 8);
                    dec_record(&x);
                }
            } else {
                for _ in 0 .. 60 {
                    let mut x = b.clone();
                    let k = rng.range(2, b.len() - 1);
                    x[k] = rng.byte();
                    dec_record(&x);
                }
            }
        }
        if t != 0x40 && t != 0x48 && t != 0x4D && t != 0x4E {
            for _ in 0 .. ctx.n(60, 800) {
                // any contents of a length that suits
                let n = match t { 0x09 => rng.range(4, 30), 0x0A | 0x83 => 4 * rng.below(8), 0x0E => 3, 0x41 => 3 * rng.below(8),
                    0x52 => 1, 0x58 => 13 * rng.below(4), _ => 11 };
                let mut b = vec![t, n as u8];
                for _ in 0 .. n {
                    // mostly decimal digits
                    b.push(if rng.chance(2, 3) { (rng.below(10) * 16 + rng.below(10)) as u8 } else { rng.byte() });
                }
                dec_record(&b);
            }
        }
    }
}

pub fn c15(ctx: &Ctx) {
    let mut rng = ctx.rng("c15");
    for &t in &NUMERIC {
        for i in 0 .. ctx.n(300, 4000) { let d = known(&mut rng, t, 255, i % 40 == 0); enc_one(d); }
    }
    // fields one by one over their whole range, the others at both ends
    for v in 0 ..= 255u8 {
        enc_one(make!(Desc52 { tag: v }));
        enc_one(make!(Desc44 { frequency: 312_000_000, fec_outer: v & 15, modulation: v, symbol_rate: 6_900, fec: v >> 4 }));
        enc_one(make!(Desc43 {
            frequency: 11_700_000, orbital_position: 780, west_east_flag: v >> 7, polarization: (v >> 5) & 3, rof: (v >> 3) & 3,
            s2: (v >> 2) & 1, modulation: v & 3, symbol_rate: 27_500, fec: v & 15,
        }));
        for o in &[0u8, 0xFF] {
            enc_one(make!(Desc5A {
                frequency: 474_000_000, bandwidth: v >> 5, priority: (v >> 4) & 1, time_slicing: (v >> 3) & 1, mpe_fec: (v >> 2) & 1,
                modulation: o & 3, hierarchy: o & 7, code_rate_hp: o & 7, code_rate_lp: o & 7, guard_interval: o & 3,
                transmission: o & 3, other_frequency_flag: o & 1,
            }));
            enc_one(make!(Desc5A {
                frequency: 474_000_000, bandwidth: o & 7, priority: o & 1, time_slicing: o & 1, mpe_fec: o & 1,
                modulation: v >> 6, hierarchy: (v >> 3) & 7, code_rate_hp: v & 7, code_rate_lp: o & 7, guard_interval: o & 3,
                transmission: o & 3, other_frequency_flag: o & 1,
            }));
            enc_one(make!(Desc5A {
                frequency: 474_000_000, bandwidth: o & 7, priority: o & 1, time_slicing: o & 1, mpe_fec: o & 1,
                modulation: o & 3, hierarchy: o & 7, code_rate_hp: o & 7, code_rate_lp: v >> 5, guard_interval: (v >> 3) & 3,
                transmission: (v >> 1) & 3, other_frequency_flag: v & 1,
            }));
        }
        enc_one(make!(Desc41 { items: vec![Desc41i { service_id: u16::from(v) << 8 | u16::from(!v), service_type: v }] }));
    }
    for k in 0 .. 22 { for d in 0 .. 3u32 { enc_one(make!(Desc0E { bitrate: ((1 << k) + d).wrapping_sub(1) & 0x3F_FFFF })); } }
    for k in 0 .. 16 {
        for d in 0 .. 2u16 {
            let v = (1u16 << k).wrapping_sub(d);
            enc_one(make!(Desc09 { caid: v, pid: v & 0x1FFF, data: vec![] }));
            enc_one(make!(Desc83 { items: vec![Desc83i { service_id: v, visible: (k & 1) as u8, lcn: v & 0x3FF }] }));
        }
    }
    for lcn in 0 .. 1024u16 { if lcn % 8 == 0 || lcn > 1000 || ctx.thorough {
        enc_one(make!(Desc83 { items: (0 .. 8).map(|i| Desc83i { service_id: lcn * 64 + i, visible: (i & 1) as u8, lcn: (lcn + i) & 1023 }).collect() }));
    } }
    // every digit of the decimal fields
    for p in 0 .. 8u32 {
        for g in 0 .. 10u32 {
            let v = g * 10u32.pow(p);
            enc_one(make!(Desc43 {
                frequency: 10 * v, orbital_position: (6 * (v % 10_000)) as u16, west_east_flag: 1, polarization: 2, rof: 1, s2: 1,
                modulation: 1, symbol_rate: v % 1_000_000, fec: 9,
            }));
            enc_one(make!(Desc44 { frequency: 100 * v.min(42_949_672), fec_outer: 2, modulation: 3, symbol_rate: v % 1_000_000, fec: 4 }));
            enc_one(make!(Desc5A { frequency: 10 * v }));
        }
    }
    // every list length
    for n in 0 ..= 85 {
        enc_one(make!(Desc41 { items: (0 .. n).map(|_| Desc41i { service_id: rng.next() as u16, service_type: rng.byte() }).collect() }));
        if n < 64 {
            enc_one(make!(Desc83 { items: (0 .. n).map(|_| Desc83i {
                service_id: rng.next() as u16, visible: rng.byte() & 1, lcn: rng.next() as u16 & 1023 }).collect() }));
        }
    }
    for n in 0 ..= 251 {
        let data = rng.bytes(n);
        enc_one(make!(Desc09 { caid: rng.next() as u16, pid: rng.next() as u16 & 0x1FFF, data }));
    }
    lists(ctx, &mut rng, &NUMERIC);
    altered(ctx, &mut rng, &NUMERIC);
}

pub fn c16(ctx: &Ctx) {
    let mut rng = ctx.rng("c16");
    for &t in &TEXTUAL {
        for i in 0 .. ctx.n(250, 3500) { let d = known(&mut rng, t, 255, i % 16 == 0); enc_one(d); }
    }
    // every length of every text, every code page
    for n in 0 ..= 255usize {
        let cp = PAGES[n % PAGES.len()];
        enc_one(make!(Desc40 { name: text_in(&mut rng, cp, n) }));
        if n <= 252 {
            let (a, b) = (text_in(&mut rng, cp, n), text(&mut rng, 252 - n));
            enc_one(make!(Desc48 { service_type: rng.byte(), provider: a.clone(), name: b.clone() }));
            let fits = |x: &StringDVB| x.size() <= 252 - n;
            let c = text(&mut rng, (252 - n) / 2);
            if fits(&c) { enc_one(make!(Desc48 { service_type: 1, provider: c.clone(), name: a.clone() })); }
            if n <= 250 {
                let b = text(&mut rng, 250 - n);
                enc_one(make!(Desc4D { lang: code(&mut rng), name: a.clone(), text: b.clone() }));
                enc_one(make!(Desc4D { lang: code(&mut rng), name: b, text: a.clone() }));
            }
            if n <= 249 {
                let b = text(&mut rng, (249 - n).min(100));
                enc_one(Desc4E { number: 0, last_number: 15, lang: code(&mut rng), items: vec![], text: a.clone() });
                if n + b.size() + 2 <= 249 {
                    enc_one(Desc4E { number: 15, last_number: 0, lang: code(&mut rng), items: vec![(a.clone(), b.clone())], text: text(&mut rng, 247 - n - b.size()) });
                    enc_one(Desc4E { number: 1, last_number: 2, lang: code(&mut rng), items: vec![(b.clone(), a.clone()), ], text: StringDVB::default() });
                }
            }
        }
    }
    for &cp in &PAGES {
        for n in &[1usize, 2, 3, 4, 5, 20, 120] {
            let t = text_in(&mut rng, cp, *n);
            enc_one(make!(Desc40 { name: t.clone() }));
            enc_one(make!(Desc48 { service_type: 0x19, provider: t.clone(), name: t.clone() }));
            enc_one(make!(Desc4D { lang: code(&mut rng), name: t.clone(), text: t.clone() }));
            if *n < 60 { enc_one(Desc4E { number: 0, last_number: 0, lang: code(&mut rng), items: vec![(t.clone(), t.clone())], text: t.clone() }); }
        }
    }
    // around the limit of the extended event: written up to 255 bytes, left out beyond
    for n in 236 .. 262usize {
        for k in 0 .. 4usize {
            let per = 2 * k;
            if n < per + 20 { continue; }
            let items: Vec<_> = (0 .. k).map(|j| (text_in(&mut rng, 0, j % 3), text_in(&mut rng, 5, 5))).collect();
            let used: usize = items.iter().map(|(a, b)| 2 + a.size() + b.size()).sum();
            let mut ds = Descriptors::default();
            ds.push(known(&mut rng, 0x52, 255, false));
            ds.push(Desc4E { number: 0, last_number: 0, lang: code(&mut rng), items, text: text_in(&mut rng, 0, n.saturating_sub(used)) });
            ds.push(known(&mut rng, 0x83, 255, false));
            enc_record(&ds);
        }
    }
    for n in &[300usize, 400, 512, 600, 1000] {
        enc_one(Desc4E { number: 0, last_number: 0, lang: code(&mut rng), items: vec![], text: text_in(&mut rng, 0, *n) });
        let (a, b) = (text_in(&mut rng, 0, 200), text_in(&mut rng, 0, *n - 250));
        enc_one(Desc4E { number: 0, last_number: 0, lang: code(&mut rng), items: vec![(a, b)], text: StringDVB::default() });
    }
    // the same inside of tables
    for kind in &["pmt", "sdt", "nit", "eit", "tot"] {
        for _ in 0 .. ctx.n(6, 60) {
            let n = rng.range(1, 3);
            let mut t = table(&mut rng, kind, n, 120);
            oversize(&mut rng, &mut t);
            let (mut cc, mut out) = (0, Vec::new());
            let r = call(|| t.demux(33, &mut cc, &mut out));
            emit(&J::obj(&[("k", J::str("tab")), ("st", st(&r)), ("kind", J::str(kind)), ("tb", t.json()), ("out", J::bytes(&out))]));
        }
    }
    // number of items
    for n in 0 ..= 124usize {
        let items = (0 .. n).map(|_| (StringDVB::default(), StringDVB::default())).collect();
        enc_one(Desc4E { number: 3, last_number: 4, lang: code(&mut rng), items, text: StringDVB::default() });
        if n <= 63 {
            enc_one(make!(Desc0A { items: (0 .. n).map(|_| Desc0Ai { code: code(&mut rng), audio_type: rng.byte() }).collect() }));
        }
    }
    // offsets: every minute, every day at change points
    for m in 0 .. 1440u16 {
        if !ctx.thorough && m % 7 != 0 && m < 1380 && m > 70 { continue; }
        enc_one(make!(Desc58 { items: vec![make!(Desc58i {
            country_code: code(&mut rng), region_id: (m % 64) as u8, offset_polarity: (m & 1) as u8, offset: m,
            time_of_change: second(&mut rng), next_offset: 1439 - m,
        })] }));
    }
    for n in 0 ..= 19usize {
        enc_one(make!(Desc58 { items: (0 .. n).map(|_| make!(Desc58i {
            country_code: code(&mut rng), region_id: rng.byte() & 63, offset_polarity: rng.byte() & 1, offset: rng.below(1440) as u16,
            time_of_change: second(&mut rng), next_offset: rng.below(1440) as u16,
        })).collect() }));
    }
    for r in 0 .. 64u8 {
        for p in 0 .. 2u8 {
            enc_one(make!(Desc58 { items: vec![make!(Desc58i {
                country_code: code(&mut rng), region_id: r, offset_polarity: p, offset: 120, time_of_change: 86400 * 24948 + 86399, next_offset: 60,
            })] }));
        }
    }
    lists(ctx, &mut rng, &TEXTUAL);
    altered(ctx, &mut rng, &TEXTUAL);
}

pub fn c17(ctx: &Ctx) {
    let mut rng = ctx.rng("c17");
    dec_record(&[]);
    // every tag, lengths around what known tags expect
    for t in 0 ..= 255u8 {
        for n in (0 ..= 17usize).chain([26, 254, 255].iter().cloned()) {
            if n > 8 && n < 255 && !KNOWN.contains(&t) && !ctx.thorough && rng.chance(3, 4) { continue; }
            let mut b = vec![t, n as u8];
            b.extend(match rng.below(4) { 0 => vec![0; n], 1 => vec![0xFF; n], _ => rng.bytes(n) });
            if rng.chance(1, 3) { b.push(rng.byte()); }
            dec_record(&b);
        }
    }
    // every length of known tags
    for &t in &KNOWN {
        for n in 0 ..= 255usize {
            let mut b = vec![t, n as u8];
            b.extend(if rng.chance(1, 4) { vec![b'0'; n] } else { rng.bytes(n) });
            if t == 0x48 && n >= 3 && rng.chance(1, 2) { let a = rng.below(n - 2); b[3] = a as u8; b[4 + a] = (n - 3 - a) as u8; }
            if t == 0x4D && n >= 5 && rng.chance(1, 2) { let a = rng.below(n - 4); b[5] = a as u8; b[6 + a] = (n - 5 - a) as u8; }
            dec_record(&b);
        }
    }
    // inner lengths of the texts: right, one more, one less, extreme
    for &t in &[0x48u8, 0x4D, 0x4E] {
        for _ in 0 .. ctx.n(150, 2000) {
            let d = known(&mut rng, t, 255, false);
            let b = bytes_of(d);
            if b.len() < 3 { continue; }
            let mut at = vec![1];
            match t {
                0x48 => { at.push(3); at.push(4 + b[3] as usize); },
                0x4D => { at.push(5); at.push(6 + b[5] as usize); },
                _ => {
                    at.push(6);
                    let e = 7 + b[6] as usize;
                    at.push(e);
                    let mut i = 7;
                    while i < e { at.push(i); i += 1 + b[i] as usize; }
                },
            }
            for &i in &at {
                for v in &[0u8, 1, 255, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80, b[i].wrapping_add(2)] {
                    let mut x = b.clone();
                    x[i] = *v;
                    if i == 1 && rng.chance(1, 2) { let k = rng.below(300); x.resize(2 + k, 0x20); }
                    if rng.chance(1, 3) { x.extend(&[0x52, 1, 7]); }
                    dec_record(&x);
                    if !ctx.thorough && rng.chance(1, 2) { break; }
                }
            }
        }
    }
    // events with very many items, one of the last with a wrong length
    for _ in 0 .. ctx.n(40, 400) {
        let (mut items, mut at) = (Vec::new(), Vec::new());
        let most = rng.range(20, 245);
        while items.len() + 2 < most {
            for _ in 0 .. 2 {
                let n = rng.below(3);
                if items.len() + 1 + n > most { break; }
                at.push(7 + items.len());
                items.push(n as u8);
                items.extend(vec![b'x'; n]);
            }
        }
        let mut b = vec![0x4E, 0, 0, b'e', b'n', b'g', items.len() as u8];
        b.extend(items);
        b.push(0);
        b[1] = (b.len() - 2) as u8;
        dec_record(&b);
        let k = at[at.len() - 1 - rng.below(6).min(at.len() - 1)];
        b[k] = b[k].wrapping_add(*rng.pick(&[1, 2, 3, 10, 255, 254]));
        dec_record(&b);
    }
    // loops cut off anywhere
    for _ in 0 .. ctx.n(30, 300) {
        let ds = descriptors(&mut rng, 120);
        let mut b = Vec::new();
        call(|| { ds.assemble(&mut b); });
        for n in 0 .. b.len() { if n < 8 || b.len() - n < 6 || rng.chance(1, 6) { dec_record(&b[.. n]); } }
        b.push(rng.byte());
        dec_record(&b);
    }
    // all short loops over a small alphabet
    let alphabet = [0u8, 1, 2, 3, 0x0E, 0x40, 0x52, 0xFF];
    for n in 1 ..= ctx.n(4, 5) {
        for c in 0 .. alphabet.len().pow(n as u32) {
            let mut c = c;
            let b: Vec<u8> = (0 .. n).map(|_| { let v = alphabet[c % alphabet.len()]; c /= alphabet.len(); v }).collect();
            dec_record(&b);
        }
    }
    // long loops
    for _ in 0 .. ctx.n(250, 3000) {
        let mut b = Vec::new();
        for _ in 0 .. rng.range(1, 14) {
            match rng.below(4) {
                0 => {
                    let t = *rng.pick(&KNOWN);
                    let n = rng.below(20);
                    b.push(t);
                    b.push(n as u8);
                    b.extend(rng.bytes(n));
                },
                1 => {
                    let t = unknown_tag(&mut rng);
                    let n = if rng.chance(1, 8) { 255 } else { rng.below(20) };
                    b.push(t);
                    b.push(n as u8);
                    b.extend(rng.bytes(n));
                },
                _ => { let t = *rng.pick(&KNOWN); let d = known(&mut rng, t, 255, false); b.extend(bytes_of(d)); },
            }
        }
        if rng.chance(1, 4) { let n = rng.below(b.len() + 1); b.truncate(n); }
        dec_record(&b);
    }
    // very many, and very long
    for &n in &[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1023, 2047] {
        let mut b = Vec::new();
        for _ in 0 .. n {
            let m = if n > 512 { 0 } else { rng.below(3) };
            b.push(if rng.chance(1, 3) { *rng.pick(&KNOWN) } else { unknown_tag(&mut rng) });
            b.push(m as u8);
            b.extend(rng.bytes(m));
        }
        dec_record(&b);
    }
    for &n in &[255usize, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2048, 4094, 4095] {
        let mut b = Vec::new();
        while b.len() + 2 < n {
            let left = n - b.len();
            let mut m = if rng.chance(1, 3) { rng.range(2, 40) } else { 257 }.min(left);
            if left - m == 1 { m -= 1; }
            b.push(if rng.chance(1, 3) { *rng.pick(&KNOWN) } else { unknown_tag(&mut rng) });
            b.push((m - 2) as u8);
            b.extend(rng.bytes(m - 2));
        }
        dec_record(&b);
    }
    // raw descriptors, also with known tags, and lists of anything
    for n in (0 ..= 255).chain([256, 257, 300, 512, 1000].iter().cloned()) {
        let t = rng.byte();
        enc_one(raw(&mut rng, t, n));
    }
    for t in 0 ..= 255u8 { let n = rng.below(14); enc_one(raw(&mut rng, t, n)); }
    lists(ctx, &mut rng, &KNOWN);
}
