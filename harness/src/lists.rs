//! Descriptor lists filled, copied and edited (C30)

use crate::core::*;
use crate::desc::*;
use mpegts::psi::*;
use mpegts::textcode::{StringDVB, ISO6937, UTF8};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn is_raw(d: &Descriptor) -> bool { catch_unwind(AssertUnwindSafe(|| { d.downcast_ref::<DescRaw>(); })).is_ok() }

fn is_own(d: &Descriptor) -> bool { catch_unwind(AssertUnwindSafe(|| { d.downcast_ref::<Own>(); })).is_ok() }

/// Contents of `to` become those of `from`
fn assign(to: &mut Descriptor, from: &Descriptor) {
    if is_raw(from) { *to.downcast_mut::<DescRaw>() = from.downcast_ref::<DescRaw>().clone(); return; }
    if is_own(from) { *to.downcast_mut::<Own>() = from.downcast_ref::<Own>().clone(); return; }
    macro_rules! copy { ($t:ty) => { *to.downcast_mut::<$t>() = from.downcast_ref::<$t>().clone() } }
    match from.tag() {
        0x09 => copy!(Desc09), 0x0A => copy!(Desc0A), 0x0E => copy!(Desc0E), 0x40 => copy!(Desc40), 0x41 => copy!(Desc41),
        0x43 => copy!(Desc43), 0x44 => copy!(Desc44), 0x48 => copy!(Desc48), 0x4D => copy!(Desc4D), 0x4E => copy!(Desc4E),
        0x52 => copy!(Desc52), 0x58 => copy!(Desc58), 0x5A => copy!(Desc5A), _ => copy!(Desc83),
    }
}

/// A number of a descriptor to change: its place and new value
fn choose(rng: &mut Rng, d: &Descriptor) -> Option<(usize, u32)> {
    if is_raw(d) {
        let n = d.downcast_ref::<DescRaw>().data.len();
        return if n == 0 { None } else { Some((rng.below(n), u32::from(rng.byte()))) };
    }
    if is_own(d) {
        let n = d.downcast_ref::<Own>().data.len();
        return if n == 0 { None } else { Some((rng.below(n), u32::from(rng.byte()))) };
    }
    let u = |rng: &mut Rng, m: u64| upto(rng, m) as u32;
    Some(match d.tag() {
        0x09 => match rng.below(2) { 0 => (0, u(rng, 65535)), _ => (1, u(rng, 8191)) },
        0x0A => { let n = d.downcast_ref::<Desc0A>().items.len(); if n == 0 { return None; } (rng.below(n), u(rng, 255)) },
        0x0E => (0, u(rng, 0x3F_FFFF)),
        0x41 => {
            let n = d.downcast_ref::<Desc41>().items.len();
            if n == 0 { return None; }
            let k = rng.below(2);
            (2 * rng.below(n) + k, u(rng, if k == 0 { 65535 } else { 255 }))
        },
        0x43 => match rng.below(3) { 0 => (4, u(rng, 3)), 1 => (8, u(rng, 999_999)), _ => (9, u(rng, 15)) },
        0x44 => match rng.below(3) { 0 => (2, u(rng, 15)), 1 => (3, u(rng, 255)), _ => (4, u(rng, 999_999)) },
        0x48 => (0, u(rng, 255)),
        0x4E => (rng.below(2), u(rng, 15)),
        0x52 => (0, u(rng, 255)),
        0x5A => match rng.below(3) { 0 => (2, u(rng, 7)), 1 => (7, u(rng, 7)), _ => (12, u(rng, 1)) },
        0x83 => {
            let n = d.downcast_ref::<Desc83>().items.len();
            if n == 0 { return None; }
            let k = rng.below(3);
            (3 * rng.below(n) + k, u(rng, [65535, 1, 1023][k]))
        },
        _ => return None,
    })
}

fn change(d: &mut Descriptor, j: usize, x: u32) {
    if is_raw(d) { d.downcast_mut::<DescRaw>().data[j] = x as u8; return; }
    if is_own(d) { d.downcast_mut::<Own>().data[j] = x as u8; return; }
    let b = x as u8;
    let w = x as u16;
    match d.tag() {
        0x09 => { let v = d.downcast_mut::<Desc09>(); if j == 0 { v.caid = w } else { v.pid = w } },
        0x0A => d.downcast_mut::<Desc0A>().items[j].audio_type = b,
        0x0E => d.downcast_mut::<Desc0E>().bitrate = x,
        0x41 => { let v = &mut d.downcast_mut::<Desc41>().items[j / 2]; if j % 2 == 0 { v.service_id = w } else { v.service_type = b } },
        0x43 => { let v = d.downcast_mut::<Desc43>(); match j { 4 => v.polarization = b, 8 => v.symbol_rate = x, _ => v.fec = b } },
        0x44 => { let v = d.downcast_mut::<Desc44>(); match j { 2 => v.fec_outer = b, 3 => v.modulation = b, _ => v.symbol_rate = x } },
        0x48 => d.downcast_mut::<Desc48>().service_type = b,
        0x4E => { let v = d.downcast_mut::<Desc4E>(); if j == 0 { v.number = b } else { v.last_number = b } },
        0x52 => d.downcast_mut::<Desc52>().tag = b,
        0x5A => { let v = d.downcast_mut::<Desc5A>(); match j { 2 => v.bandwidth = b, 7 => v.hierarchy = b, _ => v.other_frequency_flag = b } },
        _ => { let v = &mut d.downcast_mut::<Desc83>().items[j / 3]; match j % 3 { 0 => v.service_id = w, 1 => v.visible = b, _ => v.lcn = w } },
    }
}

fn seen(l: &mut Descriptors) -> J {
    let len = l.len();
    let mut g = Vec::new();
    let mut i = 0;
    while let Some(d) = l.get(i) {
        g.push(json(d));
        i += 1;
        if i > 1000 { break; }
    }
    let past = l.get(len).is_none() && l.get_mut(len).is_none() && l.get(len + 1).is_none() && l.get(usize::max_value()).is_none();
    let mut out = Vec::new();
    let ret = l.assemble(&mut out);
    J::obj(&[
        ("d", list_json(l)), ("g", J::list(g)), ("past", J::boolean(past)), ("len", J::num(len as i64)), ("empty", J::boolean(l.is_empty())),
        ("size", J::num(l.size() as i64)), ("ret", J::num(ret as i64)), ("out", J::bytes(&out)),
    ])
}

/// A text that is not the same once written and read back
fn odd(rng: &mut Rng) -> StringDVB {
    match rng.below(3) {
        0 => StringDVB::from_str("", 1 + rng.below(11) as u8),
        1 => StringDVB::from_str("", UTF8),
        _ => StringDVB::from_str("\u{5}abc", ISO6937),
    }
}

/// A descriptor with such texts
fn peculiar(rng: &mut Rng) -> Descriptor {
    match rng.below(4) {
        0 => make!(Desc40 { name: odd(rng) }).into(),
        1 => make!(Desc48 { service_type: rng.byte(), provider: odd(rng), name: odd(rng) }).into(),
        2 => make!(Desc4D { lang: code(rng), name: odd(rng), text: odd(rng) }).into(),
        _ => Desc4E { number: 1, last_number: 2, lang: code(rng), items: (0 .. rng.below(3)).map(|_| (odd(rng), odd(rng))).collect(), text: odd(rng) }.into(),
    }
}

fn own(rng: &mut Rng) -> Descriptor {
    let (tag, n) = (unknown_tag(rng), match rng.below(8) { 0 => 0, 1 => 255, _ => rng.below(20) });
    Own { tag, data: rng.bytes(n) }.into()
}

/// Any descriptor of modest size, raw ones also with known tags
fn any(rng: &mut Rng) -> Descriptor {
    if rng.chance(1, 5) { return peculiar(rng); }
    if rng.chance(1, 4) {
        let (t, n) = (if rng.chance(1, 2) { unknown_tag(rng) } else { *rng.pick(&KNOWN) }, rng.below(9));
        return raw(rng, t, n).into();
    }
    if rng.chance(1, 8) { return own(rng); }
    let t = *rng.pick(&KNOWN);
    let room = if rng.chance(1, 30) { 255 } else { 40 };
    known(rng, t, room, false)
}

fn loop_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    if rng.chance(1, 60) {
        // very many
        for _ in 0 .. rng.range(20, 140) { b.push(if rng.chance(1, 4) { *rng.pick(&KNOWN) } else { unknown_tag(rng) }); b.push(0); }
    }
    for _ in 0 .. rng.below(4) {
        if rng.chance(1, 3) {
            let (t, n) = (unknown_tag(rng), if rng.chance(1, 20) { rng.range(200, 255) } else { rng.below(6) });
            b.push(t);
            b.push(n as u8);
            b.extend(rng.bytes(n));
        } else {
            let mut ds = Descriptors::default();
            let t = *rng.pick(&KNOWN);
            let room = if rng.chance(1, 20) { 255 } else { 30 };
            ds.push(known(rng, t, room, false));
            call(|| { ds.assemble(&mut b); });
        }
    }
    if rng.chance(1, 5) { b.push(rng.byte()); }
    b
}

fn history(rng: &mut Rng, steps: usize, most: usize) {
    let mut ls: Vec<Descriptors> = vec![Descriptors::default(), Descriptors::default(), Descriptors::default()];
    let (mut ops, mut sts, mut all) = (Vec::new(), Vec::new(), Vec::new());
    let num = |x: usize| J::num(x as i64 + 1);
    while ops.len() < steps {
        let a = rng.below(3);
        let c = rng.below(3);
        let room = ls[a].len() < most;
        let r = match rng.below(10) {
            0 | 1 if room => {
                let d = any(rng);
                ops.push(J::obj(&[("op", J::str("push")), ("a", num(a)), ("d", json(&d))]));
                call(|| ls[a].push(d))
            },
            2 | 3 if room => {
                let b = loop_bytes(rng);
                ops.push(J::obj(&[("op", J::str("read")), ("a", num(a)), ("b", J::bytes(&b))]));
                call(|| ls[a].parse(&b))
            },
            4 if a != c => {
                ops.push(J::obj(&[("op", J::str("copy")), ("a", num(a)), ("c", num(c))]));
                call(|| ls[a] = ls[c].clone())
            },
            5 if room && !ls[c].is_empty() => {
                let i = rng.below(ls[c].len());
                ops.push(J::obj(&[("op", J::str("move")), ("a", num(a)), ("c", num(c)), ("i", num(i))]));
                call(|| { let d = ls[c].get(i).unwrap().clone(); ls[a].push(d) })
            },
            6 | 7 if !ls[a].is_empty() => {
                let i = rng.below(ls[a].len());
                let t = ls[a].get(i).map_or(0, |d| d.tag());
                let d: Descriptor = match ls[a].get(i) {
                    Some(d) if is_raw(d) => { let n = rng.below(9); let t = rng.byte(); raw(rng, t, n).into() },
                    Some(d) if is_own(d) => own(rng),
                    _ => known(rng, t, 40, false),
                };
                ops.push(J::obj(&[("op", J::str("swap")), ("a", num(a)), ("i", num(i)), ("d", json(&d))]));
                call(|| assign(ls[a].get_mut(i).unwrap(), &d))
            },
            8 | 9 if !ls[a].is_empty() => {
                let i = rng.below(ls[a].len());
                let (j, x) = match choose(rng, ls[a].get(i).unwrap()) { Some(v) => v, None => continue };
                ops.push(J::obj(&[("op", J::str("field")), ("a", num(a)), ("i", num(i)), ("j", num(j)), ("x", J::num(i64::from(x)))]));
                call(|| change(ls[a].get_mut(i).unwrap(), j, x))
            },
            _ => continue,
        };
        let s = call(|| J::list(ls.iter_mut().map(seen)));
        let ok = r.is_some() && s.is_some();
        sts.push(J::str(if ok { "ok" } else { "panic" }));
        all.push(s.unwrap_or(J::list(vec![])));
        if !ok { break; }
    }
    emit(&J::obj(&[("k", J::str("list")), ("ops", J::list(ops)), ("st", J::list(sts)), ("seen", J::list(all))]));
}

pub fn c30(ctx: &Ctx) {
    let mut rng = ctx.rng("c30");
    for _ in 0 .. ctx.n(350, 5000) {
        let n = rng.range(4, 24);
        history(&mut rng, n, 5);
    }
    for _ in 0 .. ctx.n(6, 60) { history(&mut rng, 60, 25); }
}
