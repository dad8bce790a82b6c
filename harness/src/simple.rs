//! Single calls without state: C20, C21, C22, C23, C26, C27

use crate::core::*;
use mpegts::es::{pes, StreamType};
use mpegts::psi::{BCDTime, DescRaw, Descriptors, MJDFrom, MJDTo, PmtItem, BCD};
use mpegts::textcode::lang;
use mpegts::ts;

const BATCH: usize = 400;

// ---------------------------------------------------------------------------
// C20

/// Records the conversions of all `x`, many in one record.
fn batch<X: Copy, R>(k: &str, xs: &[X], jx: impl Fn(X) -> J, f: impl Fn(X) -> R, jr: impl Fn(R) -> J) {
    for part in xs.chunks(BATCH) {
        let mut q = Vec::new();
        let mut r = Vec::new();
        let mut ok = true;
        for &x in part {
            q.push(jx(x));
            match call(|| f(x)) {
                Some(y) => r.push(jr(y)),
                None => { ok = false; break; },
            }
        }
        emit(&J::obj(&[
            ("k", J::str(k)),
            ("st", J::str(if ok { "ok" } else { "panic" })),
            ("x", J::list(q)),
            ("r", J::list(r)),
        ]));
    }
}

fn be(x: u64, n: usize) -> J { J::bytes(&x.to_be_bytes()[8 - n ..]) }

fn moment(t: u64) -> J { J::ints(vec![(t / 86400) as i64, (t % 86400) as i64]) }

fn digits(mut x: u64) -> u64 {
    let mut r = 0;
    for i in 0 .. 8 {
        r |= (x % 10) << (4 * i);
        x /= 10;
    }
    r
}

pub fn c20(ctx: &Ctx) {
    let mut rng = ctx.rng("c20");
    let num = |x: u64| J::num(x as i64);

    let v: Vec<u64> = (0 .. 100).collect();
    batch("bcd8", &v, num, |x| u8::to_bcd(x as u8), |r| be(u64::from(r), 1));
    let v: Vec<u64> = (0 .. 10000).collect();
    batch("bcd16", &v, num, |x| u16::to_bcd(x as u16), |r| be(u64::from(r), 2));

    let mut v: Vec<u64> = Vec::new();
    for p in 0 .. 9 {
        let b = 10u64.pow(p);
        for d in 0 .. 10 {
            for o in 0 .. 3 {
                let x = b * d + o;
                if x > 0 && x <= 100_000_000 { v.push(x - 1); }
            }
        }
    }
    for _ in 0 .. ctx.n(8000, 200_000) { v.push(rng.next() % 100_000_000); }
    batch("bcd32", &v, num, |x| u32::to_bcd(x as u32), |r| be(u64::from(r), 4));

    // coded forms
    let one: Vec<u64> = (0 .. 100).map(digits).collect();
    batch("unbcd", &one, |x| be(x, 1), |x| u8::from_bcd(x as u8), |r| num(u64::from(r)));
    let two: Vec<u64> = (0 .. 10000).map(digits).collect();
    batch("unbcd", &two, |x| be(x, 2), |x| u16::from_bcd(x as u16), |r| num(u64::from(r)));
    let four: Vec<u64> = v.iter().map(|&x| digits(x)).collect();
    batch("unbcd", &four, |x| be(x, 4), |x| u32::from_bcd(x as u32), |r| num(u64::from(r)));

    let v: Vec<u64> = (0 .. 1440).collect();
    batch("hm", &v, num, |x| u16::to_bcd_time(x as u16), |r| be(u64::from(r), 2));
    let v: Vec<u64> = (0 .. 6000).map(|x| digits(x / 60 * 100 + x % 60)).collect();
    batch("unhm", &v, |x| be(x, 2), |x| u16::from_bcd_time(x as u16), |r| num(u64::from(r)));

    let v: Vec<u64> = (0 .. 86400).collect();
    batch("hms", &v, num, |x| u32::to_bcd_time(x as u32), |r| be(u64::from(r), 3));
    let hms = |x: u64| digits(x / 3600 * 10000 + x / 60 % 60 * 100 + x % 60);
    let mut v: Vec<u64> = (0 .. 86400).map(hms).collect();
    for i in 0 .. ctx.n(10000, 273_600) as u64 {
        v.push(hms(86400 + i * 273_600 / ctx.n(10000, 273_600) as u64));
    }
    v.push(hms(359_999));
    batch("unhms", &v, |x| be(x, 3), |x| u32::from_bcd_time(x as u32), |r| num(u64::from(r)));

    // days; with seconds into them
    let mut v: Vec<u64> = Vec::new();
    for day in 0 ..= (65535 - 40587) {
        v.push(day * 86400);
        v.push(day * 86400 + 86399);
        v.push(day * 86400 + rng.below(86400) as u64);
    }
    batch("mjd", &v, moment, |x| x.to_mjd(), |r| num(u64::from(r)));
    let v: Vec<u64> = (0 ..= 65535).collect();
    batch("unmjd", &v, num, |x| (x as u16).from_mjd(), moment);
}

// ---------------------------------------------------------------------------
// C21

fn fields(p: &[u8]) -> Vec<i64> {
    let b = |x: bool| i64::from(x);
    vec![
        b(ts::is_sync(p)),
        b(ts::is_error(p)),
        b(ts::is_pusi(p)),
        i64::from(ts::get_pid(p)),
        b(ts::is_scrambled(p)),
        b(ts::is_adaptation(p)),
        b(ts::is_payload(p)),
        i64::from(ts::get_cc(p)),
        i64::from(ts::get_adaptation_size(p)),
        i64::from(ts::get_payload_offset(p)),
    ]
}

fn get_batch(hdrs: &[[u8; 5]], rng: &mut Rng) {
    for part in hdrs.chunks(BATCH) {
        let mut q = Vec::new();
        let mut r = Vec::new();
        let mut ok = true;
        for h in part {
            let mut p = rng.bytes(188);
            p[.. 5].copy_from_slice(h);
            q.push(J::bytes(h));
            match call(|| fields(&p)) {
                Some(x) => r.push(J::ints(x)),
                None => { ok = false; break; },
            }
        }
        emit(&J::obj(&[
            ("k", J::str("get")),
            ("st", J::str(if ok { "ok" } else { "panic" })),
            ("q", J::list(q)),
            ("r", J::list(r)),
        ]));
    }
}

fn set_history(mut p: Vec<u8>, ops: &[(i64, u16)]) {
    let before = p.clone();
    let mut out = Vec::new();
    let mut ok = true;
    for &(op, arg) in ops {
        let old = p.clone();
        let r = call(|| match op {
            1 => ts::set_pid(&mut p, arg),
            2 => ts::set_cc(&mut p, arg as u8),
            3 => if arg == 0 { ts::set_payload_0(&mut p) } else { ts::set_payload_1(&mut p) },
            _ => if arg == 0 { ts::set_pusi_0(&mut p) } else { ts::set_pusi_1(&mut p) },
        });
        if r.is_none() { ok = false; }
        let d: Vec<J> = (0 .. 188)
            .filter(|&i| old[i] != p[i])
            .map(|i| J::ints(vec![i as i64 + 1, i64::from(p[i])]))
            .collect();
        out.push(J::list(d));
    }
    emit(&J::obj(&[
        ("k", J::str("set")),
        ("st", J::str(if ok { "ok" } else { "panic" })),
        ("p", J::bytes(&before)),
        ("ops", J::list(ops.iter().map(|&(o, a)| J::ints(vec![o, i64::from(a)])))),
        ("out", J::list(out)),
        ("fin", J::bytes(&p)),
    ]));
}

pub fn c21(ctx: &Ctx) {
    let mut rng = ctx.rng("c21");
    let mut h: Vec<[u8; 5]> = Vec::new();
    for b in 0 ..= 255u8 {
        h.push([b, 0, 0, 0, 0]);
        h.push([0x47, b, 0, 0x10, 0]);
        h.push([0x47, b, 0xFF, 0x30, 1]);
        h.push([0x47, 0, b, 0x10, 0]);
        h.push([0x47, 0x1F, b, 0x10, 0]);
        h.push([0x47, 0, 0, b, 0]);
        h.push([0x47, 0, 0, b, 7]);
    }
    // control bits x adaptation length
    for hi in 0 .. 16u8 {
        for l in 0 ..= 255u8 {
            h.push([0x47, 0x40, 0x11, hi << 4 | (l & 15), l]);
        }
    }
    for _ in 0 .. ctx.n(12000, 120_000) {
        let b = rng.bytes(5);
        h.push([b[0], b[1], b[2], b[3], b[4]]);
    }
    get_batch(&h, &mut rng);

    // every single write on all-zero, all-one and random packets
    let mut single: Vec<(i64, u16)> = vec![(3, 0), (3, 1), (4, 0), (4, 1)];
    for x in 0 .. 16 { single.push((2, x)); }
    for k in 0 .. 13 { single.push((1, 1 << k)); single.push((1, 8191 ^ (1 << k))); }
    for x in &[0, 1, 255, 256, 4095, 4096, 8190, 8191] { single.push((1, *x)); }
    for &o in &single {
        for fill in &[0x00u8, 0xFF, 0x55, 0xAA] { set_history(vec![*fill; 188], &[o]); }
    }
    // every value of the four header bytes in turn
    for b in 0 ..= 255u8 {
        for i in 0 .. 4 {
            let mut p = rng.bytes(188);
            p[i] = b;
            set_history(p, &[(1, rng.below(8192) as u16), (2, rng.below(16) as u16), (3, rng.below(2) as u16), (4, rng.below(2) as u16)]);
        }
    }
    for _ in 0 .. ctx.n(2500, 25000) {
        let n = rng.range(1, 14);
        let ops: Vec<(i64, u16)> = (0 .. n)
            .map(|_| match rng.range(1, 4) {
                1 => (1, rng.below(8192) as u16),
                2 => (2, rng.below(16) as u16),
                x => (x as i64, rng.below(2) as u16),
            })
            .collect();
        set_history(rng.bytes(188), &ops);
    }
}

// ---------------------------------------------------------------------------
// C22

const PERIOD: u64 = (1 << 33) * 300;

fn readings(rng: &mut Rng, period: u64, extra: usize) -> Vec<u64> {
    let mut v = vec![];
    for b in &[0, 1, 2, 26, 27, 28, 299, 300, 301, 511, 512, 26999, 27000, 27001, 26_999_999, 27_000_000, 27_000_001] {
        v.push(*b % period);
        v.push(period - 1 - (*b % period));
    }
    for k in 0 .. 33 {
        v.push((1u64 << k) % period);
        v.push(((1u64 << k) * 300) % period);
        v.push(((1u64 << k) * 300 + 299) % period);
        v.push((((1u64 << k) - 1) * 300 + 256) % period);
    }
    v.push(period / 2);
    v.push(period / 2 - 1);
    v.push(period / 2 + 1);
    for _ in 0 .. extra { v.push(rng.next() % period); }
    v
}

/// Second reading near the first one (modulo the period) or anywhere
fn partner(rng: &mut Rng, a: u64, period: u64) -> u64 {
    let d = match rng.below(6) {
        0 => rng.below(3) as u64,
        1 => rng.below(30000) as u64,
        2 => rng.below(27_000_000) as u64,
        3 => 27_000_000 - 3 + rng.below(6) as u64,
        4 => rng.next() % period,
        _ => rng.next() % (1 << rng.range(1, 41)),
    } % period;
    if rng.chance(1, 2) { (a + d) % period } else { (a + period - d) % period }
}

fn jitter(a: u64, b: u64) {
    let r = call(|| ts::pcr_jitter_ns(a, b));
    let x = i128::from(r.unwrap_or(0));
    emit(&J::obj(&[
        ("k", J::str("jit")), ("st", st(&r)), ("a", big(u128::from(a))), ("b", big(u128::from(b))),
        ("neg", J::boolean(x < 0)), ("r", big(x.unsigned_abs())),
    ]));
}

pub fn c22(ctx: &Ctx) {
    let mut rng = ctx.rng("c22");
    let vals = readings(&mut rng, PERIOD, ctx.n(1500, 20000));

    for &v in &vals {
        let mut p = match rng.below(4) {
            0 => vec![0u8; 188],
            1 => vec![0xFF; 188],
            _ => rng.bytes(188),
        };
        let pre = p.clone();
        let r = call(|| { ts::set_pcr(&mut p, v); ts::get_pcr(&p) });
        emit(&J::obj(&[
            ("k", J::str("set")), ("st", st(&r)), ("v", big(u128::from(v))),
            ("pre", J::bytes(&pre)), ("post", J::bytes(&p)), ("get", big(u128::from(r.unwrap_or(0)))),
        ]));
    }
    let mut heads: Vec<Vec<u8>> = Vec::new();
    for af in 0 .. 4u8 {
        for l in &[0u8, 1, 5, 6, 7, 8, 183, 255] {
            for fl in 0 .. 8 {
                let mut p = rng.bytes(188);
                p[3] = (p[3] & 0xCF) | (af << 4);
                p[4] = *l;
                p[5] = 1 << fl;
                heads.push(p.clone());
                p[5] = !(1 << fl);
                heads.push(p);
            }
        }
    }
    for _ in 0 .. ctx.n(1500, 20000) { heads.push(rng.bytes(188)); }
    for p in &heads {
        let r = call(|| (ts::get_pcr(p), ts::is_pcr(p)));
        let (g, is) = r.unwrap_or((0, false));
        emit(&J::obj(&[
            ("k", J::str("get")), ("st", st(&r)), ("f", J::bytes(&p[.. 12])),
            ("r", big(u128::from(g))), ("is", J::boolean(is)),
        ]));
    }

    let mut pairs: Vec<(u64, u64)> = Vec::new();
    for &a in &vals[.. 34] {
        for &b in &vals[.. 34] { pairs.push((a, b)); }
    }
    for &a in &vals {
        pairs.push((a, partner(&mut rng, a, PERIOD)));
        pairs.push((a, partner(&mut rng, a, PERIOD)));
    }
    for &(a, b) in &pairs {
        let r = call(|| ts::pcr_delta(a, b));
        emit(&J::obj(&[
            ("k", J::str("delta")), ("st", st(&r)), ("a", big(u128::from(a))), ("b", big(u128::from(b))),
            ("r", big(u128::from(r.unwrap_or(0)))),
        ]));
        jitter(a, b);
    }

    for _ in 0 .. ctx.n(1200, 20000) {
        let last = *rng.pick(&vals);
        // any distance of readings and any numbers of bytes
        let delta = rng.next() % *rng.pick(&[30, 27_000, 2_700_000, 270_000_000, 27_000_000_000, PERIOD]);
        let bytes = rng.next() % *rng.pick(&[200, 20_000, 5_000_000, 300_000_000, 6_000_000_000]);
        let lbytes = match rng.below(6) {
            0 => 1 + rng.next() % 200,
            1 => bytes.max(1),
            2 => 188 * (1 + rng.next() % 100),
            3 => 1 + rng.next() % 6_000_000_000,
            _ => 1 + rng.next() % 2_000_000,
        };
        let r = call(|| ts::pcr_to_stc(last, bytes, delta, lbytes));
        let q = u128::from(delta) * u128::from(bytes) / u128::from(lbytes);
        let now = u128::from(last) + q;
        emit(&J::obj(&[
            ("k", J::str("stc")), ("st", st(&r)), ("last", big(u128::from(last))), ("bytes", big(u128::from(bytes))),
            ("delta", big(u128::from(delta))), ("lbytes", big(u128::from(lbytes))), ("r", big(u128::from(r.unwrap_or(0)))),
            ("q", big(q)), ("n", big(now / u128::from(PERIOD))),
        ]));
        // the clock read at this moment is a little before or after it
        if let Some(stc) = r {
            let d = rng.next() % *rng.pick(&[2, 27, 30_000, 27_000_000]);
            let late = (now % u128::from(PERIOD)) as u64 + if rng.chance(1, 2) { d } else { PERIOD - d };
            jitter(late % PERIOD, stc);
        }
        let delta = match rng.below(8) {
            0 => rng.next() % *rng.pick(&[1, 27, 27_000, 27_002]),
            _ => 27000 + rng.next() % *rng.pick(&[27000, 2_700_000, 270_000_000, 27_000_000_000, PERIOD]),
        };
        let r = call(|| ts::pcr_delta_bitrate(delta, bytes));
        emit(&J::obj(&[
            ("k", J::str("rate")), ("st", st(&r)), ("delta", big(u128::from(delta))), ("bytes", big(u128::from(bytes))),
            ("ms", big(u128::from(delta / 27000))), ("r", big(u128::from(r.unwrap_or(0)))),
        ]));
    }
    for &a in &vals {
        for (k, r) in vec![("us", call(|| ts::pcr_to_us(a))), ("ms", call(|| ts::pcr_to_ms(a)))] {
            emit(&J::obj(&[
                ("k", J::str(k)), ("st", st(&r)), ("a", big(u128::from(a))), ("r", big(u128::from(r.unwrap_or(0)))),
            ]));
        }
    }
}

// ---------------------------------------------------------------------------
// C23

fn stamp(x: u64) -> J { J::ints(vec![(x >> 30) as i64, (x >> 15 & 0x7FFF) as i64, (x & 0x7FFF) as i64]) }

fn pes_header(h: &[u8]) {
    let b = |x: bool| i64::from(x);
    let r = call(|| {
        (
            vec![
                b(pes::is_prefix(h)),
                b(pes::is_syntax_spec(h)),
                i64::from(pes::get_length(h)),
                i64::from(pes::get_payload_offset(h)),
                b(pes::is_pts(h)),
                b(pes::is_dts(h)),
            ],
            pes::get_pts(h),
            pes::get_dts(h),
        )
    });
    let s = st(&r);
    let (f, p, d) = r.unwrap_or((vec![], 0, 0));
    emit(&J::obj(&[
        ("k", J::str("hdr")), ("st", s), ("h", J::bytes(h)), ("r", J::ints(f)),
        ("pts", stamp(p)), ("dts", stamp(d)),
    ]));
}

pub fn c23(ctx: &Ctx) {
    let mut rng = ctx.rng("c23");
    for i in 0 .. 19 {
        for b in 0 ..= 255u8 {
            for back in &[0x00u8, 0xFF] {
                let mut h = vec![*back; 19];
                if i > 2 { h[0] = 0; h[1] = 0; h[2] = 1; }
                h[i] = b;
                pes_header(&h);
            }
        }
    }
    for i in 0 .. 3 {
        for b in 0 ..= 255u8 {
            let mut h = rng.bytes(19);
            h[0] = 0;
            h[1] = 0;
            h[2] = 1;
            h[i] = b;
            pes_header(&h);
        }
    }
    for id in 0 ..= 255u8 {
        for _ in 0 .. 4 {
            let mut h = rng.bytes(19);
            h[0] = 0;
            h[1] = 0;
            h[2] = 1;
            h[3] = id;
            pes_header(&h);
        }
    }
    for _ in 0 .. ctx.n(3000, 40000) { let h = rng.bytes(19 + rng.clone().below(20)); pes_header(&h); }

    let p = 1u64 << 33;
    let mut v: Vec<u64> = (0 .. 33).map(|k| 1u64 << k).collect();
    for k in &[0, 1, 89, 90, 91, 8999, 9000, 90000] { v.push(*k); v.push(p - 1 - k); }
    v.push(p / 2 - 1);
    v.push(p / 2 + 1);
    let fixed = v.len();
    for _ in 0 .. ctx.n(1000, 20000) { v.push(rng.next() % p); }
    let mut pairs = Vec::new();
    for &a in &v[.. fixed] {
        for &b in &v[.. fixed] { pairs.push((a, b)); }
    }
    for &a in &v { pairs.push((a, partner(&mut rng, a, p))); pairs.push((a, partner(&mut rng, a, p))); }
    for (a, b) in pairs {
        let r = call(|| pes::pts_delta(a, b));
        emit(&J::obj(&[
            ("k", J::str("delta")), ("st", st(&r)), ("a", big(u128::from(a))), ("b", big(u128::from(b))),
            ("r", big(u128::from(r.unwrap_or(0)))),
        ]));
    }
    for a in v {
        let r = call(|| pes::pts_to_ms(a));
        emit(&J::obj(&[
            ("k", J::str("ms")), ("st", st(&r)), ("a", big(u128::from(a))), ("r", big(u128::from(r.unwrap_or(0)))),
        ]));
    }
}

// ---------------------------------------------------------------------------
// C26

/// Raw descriptors and those the library has a type for, with legal contents
fn tagged(rng: &mut Rng, tags: &[u8]) -> Descriptors {
    let mut d = Descriptors::default();
    for &t in tags {
        let n = rng.below(6);
        d.push(make!(DescRaw { tag: t, data: rng.bytes(n) }));
    }
    d
}

/// The same list as parsed from bytes
fn parsed(rng: &mut Rng, tags: &[u8]) -> Descriptors {
    let mut b = Vec::new();
    for &t in tags {
        let body: Vec<u8> = match t {
            0x09 => vec![1, 2, 0xE1, 3],
            0x0A => vec![b'e', b'n', b'g', 0],
            0x0E => vec![0xC0, 1, 2],
            0x52 => vec![7],
            _ => { let n = rng.below(8); rng.bytes(n) },
        };
        b.push(t);
        b.push(body.len() as u8);
        b.extend_from_slice(&body);
    }
    let mut d = Descriptors::default();
    d.parse(&b);
    d
}

fn class_batch(rng: &mut Rng, q: &[(u8, Vec<u8>)]) {
    for part in q.chunks(BATCH) {
        let mut qs = Vec::new();
        let mut rs = Vec::new();
        let mut ok = true;
        for (t, tags) in part {
            let from_bytes = rng.chance(1, 2);
            let r = call(|| {
                let item = make!(PmtItem {
                    stream_type: *t,
                    pid: 256,
                    descriptors: if from_bytes { parsed(rng, tags) } else { tagged(rng, tags) },
                });
                #[allow(unreachable_patterns)]
                match item.get_stream_type() {
                    StreamType::VIDEO => "VIDEO",
                    StreamType::AUDIO => "AUDIO",
                    StreamType::AIT => "AIT",
                    StreamType::SUB => "SUB",
                    StreamType::TTX => "TTX",
                    StreamType::DATA => "DATA",
                    _ => "OTHER",
                }
            });
            let mut x = vec![*t];
            x.extend_from_slice(tags);
            qs.push(J::bytes(&x));
            match r {
                Some(c) => rs.push(J::str(c)),
                None => { ok = false; break; },
            }
        }
        emit(&J::obj(&[
            ("k", J::str("cls")),
            ("st", J::str(if ok { "ok" } else { "panic" })),
            ("q", J::list(qs)),
            ("r", J::list(rs)),
        ]));
    }
}

pub fn c26(ctx: &Ctx) {
    let mut rng = ctx.rng("c26");
    let hot = [0x56u8, 0x59, 0x6A, 0x6F, 0x7A, 0x81];
    let mut q: Vec<(u8, Vec<u8>)> = Vec::new();
    for t in 0 ..= 255u8 {
        q.push((t, vec![]));
        for &x in &hot { q.push((t, vec![x])); }
        q.push((t, vec![rng.byte(), rng.byte()]));
    }
    for t in &[5u8, 6] {
        for a in 0 ..= 255u8 {
            q.push((*t, vec![a]));
            for &b in &hot {
                q.push((*t, vec![a, b]));
                q.push((*t, vec![b, a]));
            }
        }
        for &a in &hot {
            for &b in &hot {
                for &c in &hot {
                    q.push((*t, vec![a, b, c]));
                    q.push((*t, vec![0x0A, a, 0x52, b, c]));
                }
            }
        }
    }
    for _ in 0 .. ctx.n(4000, 60000) {
        let t = match rng.below(4) { 0 => 5, 1 | 2 => 6, _ => rng.byte() };
        let n = rng.below(9);
        let heat = rng.below(4);
        let tags = (0 .. n).map(|_| if rng.below(4) < heat { *rng.pick(&hot) } else { rng.byte() }).collect();
        q.push((t, tags));
    }
    // the class named late in a long list
    for _ in 0 .. ctx.n(400, 6000) {
        let t = 5 + rng.below(2) as u8;
        let n = if rng.chance(1, 8) { rng.range(60, 505) } else { rng.range(8, 60) };
        let mut tags: Vec<u8> = Vec::new();
        while tags.len() < n { let x = rng.byte(); if !hot.contains(&x) { tags.push(x); } }
        for _ in 0 .. rng.below(4) { tags.push(*rng.pick(&hot)); }
        q.push((t, tags));
    }
    class_batch(&mut rng, &q);
}

// ---------------------------------------------------------------------------
// C27

pub fn c27(ctx: &Ctx) {
    let mut rng = ctx.rng("c27");
    let letters: Vec<char> = ('a' ..= 'z').collect();
    let mut codes: Vec<String> = Vec::new();
    for a in &letters {
        for b in &letters {
            codes.push(format!("{}{}", a, b));
            for c in &letters { codes.push(format!("{}{}{}", a, b, c)); }
        }
    }
    for part in codes.chunks(200) {
        let mut r = Vec::new();
        let mut ok = true;
        for c in part {
            match call(|| lang::convert(c)) {
                Some(x) => r.push(J::str(x.unwrap_or(""))),
                None => { ok = false; break; },
            }
        }
        emit(&J::obj(&[
            ("k", J::str("conv")), ("st", J::str(if ok { "ok" } else { "panic" })),
            ("x", J::list(part.iter().map(|c| J::str(c)))), ("r", J::list(r)),
        ]));
    }

    let mut other: Vec<String> = vec!["".into(), "\u{0}".into(), "\u{0}\u{0}".into(), "\u{0}\u{0}\u{0}".into()];
    for a in &letters { other.push(a.to_string()); }
    for c in codes.iter().filter(|c| c.len() == 2 || rng.chance(1, 12)) {
        other.push(c.to_uppercase());
        other.push(format!("{}{}", c[.. 1].to_uppercase(), &c[1 ..]));
        other.push(format!("{} ", c));
        other.push(format!(" {}", c));
        other.push(format!("{}\u{e9}", c));
        other.push(format!("{}xy", c));
    }
    let pool: Vec<char> = ('\u{0}' ..= '\u{7f}').chain("\u{e9}\u{df}\u{410}\u{4e2d}\u{1f600}".chars()).collect();
    for _ in 0 .. ctx.n(2000, 20000) {
        let n = rng.range(1, 6);
        other.push((0 .. n).map(|_| *rng.pick(&pool)).collect());
    }
    let plain = |s: &String| (s.len() == 2 || s.len() == 3) && s.bytes().all(|b| b.is_ascii_lowercase());
    other.retain(|s| !plain(s));
    for part in other.chunks(200) {
        let mut r = Vec::new();
        let mut ok = true;
        for c in part {
            match call(|| lang::convert(c)) {
                Some(x) => r.push(J::str(x.unwrap_or(""))),
                None => { ok = false; break; },
            }
        }
        emit(&J::obj(&[
            ("k", J::str("other")), ("st", J::str(if ok { "ok" } else { "panic" })),
            ("x", J::list(part.iter().map(|c| J::bytes(c.as_bytes())))), ("r", J::list(r)),
        ]));
    }
}
