//! Several workers in one program: C36
//!
//! The recorders of the other properties run as workers of one program. Every
//! worker has its own objects and its own seeded histories, so that what it
//! sees does not depend on the others, if the library keeps them apart.
//!
//! - alone: every worker's histories one after the other; some are recorded;
//! - in turns: one worker runs at a time, a seeded schedule passes the turn on
//!   between calls of the library; also with one thread making all the calls;
//! - at once: the workers run freely, all in the same recorder.
//!
//! Of histories that come out as when alone nothing is recorded again, all
//! others are. What is right is decided by the specification of each.

use crate::core::*;
use std::collections::HashSet;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

type Recorder = fn(&Ctx);

/// Recorders and the share of histories recorded when alone
const ALL: [(&str, Recorder, u64); 28] = [
    ("C01", crate::mux::c01, 60), ("C04", crate::crc::c04, 90), ("C05", crate::crc::c05, 30), ("C06", crate::tables::c06, 23),
    ("C07", crate::tables::c07, 29), ("C08", crate::tables::c08, 27), ("C09", crate::tables::c09, 29), ("C10", crate::tables::c10, 71),
    ("C12", crate::tables::c12, 800), ("C14", crate::tables::c14, 160), ("C15", crate::desc::c15, 200), ("C16", crate::desc::c16, 180),
    ("C17", crate::desc::c17, 500), ("C18", crate::text::c18, 200), ("C19", crate::text::c19, 300), ("C20", crate::simple::c20, 13),
    ("C21", crate::simple::c21, 110), ("C23", crate::simple::c23, 370), ("C24", crate::io::c24, 61), ("C25", crate::io::c25, 71),
    ("C26", crate::simple::c26, 3), ("C27", crate::simple::c27, 5), ("C28", crate::path::c28, 23), ("C31", crate::small::c31, 90),
    ("C32", crate::small::c32, 100), ("C33", crate::own::c33, 100), ("C34", crate::relay::c34, 61), ("C35", crate::carousel::c35, 41),
];

/// Recorders short enough for many turns
const SHORT: [usize; 15] = [2, 3, 4, 5, 6, 7, 14, 16, 18, 19, 22, 24, 25, 26, 27];

const EXTRA: usize = 300;

pub fn c36(ctx: &Ctx) {
    let seed = ctx.seed;
    let one = move |r: usize| { let c = Ctx { seed, thorough: false }; guarded(|| ALL[r].1(&c)); };
    let mut all = HashSet::new();
    let mut times = Vec::new();
    let least = Duration::from_millis(if ctx.thorough { 4000 } else { 800 });
    for (r, x) in ALL.iter().enumerate() {
        let from = Rng::new(seed, "c36").range(0, x.2 as usize - 1) as u64;
        sink(Some(Sink::alone(x.0, x.2, from)));
        let begin = Instant::now();
        one(r);
        times.push((least.as_micros() / begin.elapsed().as_micros().max(1) + 1).min(200));
        all.extend(sink(None).unwrap().seen);
    }
    let known = Arc::new(all);

    // in turns
    for round in 0 .. if ctx.thorough { 6 } else { 2 } {
        let mut order: Vec<usize> = SHORT.to_vec();
        let mut rng = Rng::new(seed, "c36 turns");
        for _ in 0 ..= round { for i in 0 .. order.len() { let j = rng.range(0, i); order.swap(i, j); } }
        let workers = 2 + round % 3;
        turns(workers, seed + round as u64, if round % 2 == 0 { 40 } else { 5 });
        // every second time one thread makes all the calls
        let one_thread = if round % 2 == 1 { Some(hands()) } else { None };
        let t: Vec<_> = (0 .. workers).map(|w| {
            let to = one_thread.clone();
            // the same recorder in two of them, others in the rest
            let mine: Vec<usize> = order.iter().cycle().skip(w / 2 * 5).take(order.len()).cloned().collect();
            let known = known.clone();
            std::thread::spawn(move || {
                turn_begin(w);
                lend(to);
                for r in mine { sink(Some(Sink::among(ALL[r].0, known.clone(), EXTRA))); one(r); sink(None); }
                turn_end();
            })
        }).collect();
        for x in t { x.join().unwrap(); }
    }

    // at once: all in the same recorder, the short ones again and again
    let workers = 8;
    let gate = Arc::new(Barrier::new(workers));
    let times = Arc::new(times);
    let t: Vec<_> = (0 .. workers).map(|w| {
        let (known, gate, times) = (known.clone(), gate.clone(), times.clone());
        std::thread::spawn(move || {
            free();
            for (r, &n) in times.iter().enumerate() {
                gate.wait();
                let begin = Instant::now();
                // not all doing the same at the same time
                while begin.elapsed() < Duration::from_micros(70 * w as u64) {}
                for _ in 0 .. n { sink(Some(Sink::among(ALL[r].0, known.clone(), EXTRA))); one(r); sink(None); }
            }
        })
    }).collect();
    for x in t { x.join().unwrap(); }
}
