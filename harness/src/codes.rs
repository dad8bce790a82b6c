//! Named constants (C29)

use crate::core::*;
use mpegts::constants::*;
use mpegts::es::pes;
use mpegts::psi::*;
use mpegts::ts;

type Codes = &'static [(&'static str, u8)];

const POSITION: Codes = &[("west", POSITION_WEST), ("east", POSITION_EAST)];
const POLARISATION: Codes = &[
    ("horizontal", POLARIZATION_H), ("vertical", POLARIZATION_V), ("left", POLARIZATION_L), ("right", POLARIZATION_R)];
const ROLLOFF: Codes = &[("0.35", ROF_A035), ("0.25", ROF_A025), ("0.20", ROF_A020)];
const SATELLITE: Codes = &[
    ("auto", MODULATION_DVB_S_AUTO), ("QPSK", MODULATION_DVB_S_QPSK), ("8PSK", MODULATION_DVB_S_8PSK), ("16QAM", MODULATION_DVB_S_16QAM)];
const CABLE: Codes = &[
    ("none defined", MODULATION_DVB_C_NOT_DEFINED), ("16QAM", MODULATION_DVB_C_16_QAM), ("32QAM", MODULATION_DVB_C_32_QAM),
    ("64QAM", MODULATION_DVB_C_64_QAM), ("128QAM", MODULATION_DVB_C_128_QAM), ("256QAM", MODULATION_DVB_C_256_QAM)];
const OUTER: Codes = &[("none defined", FEC_OUTER_NOT_DEFINED), ("no coding", FEC_OUTER_NO_CODING), ("RS(204/188)", FEC_OUTER_RS)];
const FEC: Codes = &[
    ("none defined", FEC_NOT_DEFINED), ("1/2", FEC_1_2), ("2/3", FEC_2_3), ("3/4", FEC_3_4), ("5/6", FEC_5_6), ("7/8", FEC_7_8),
    ("8/9", FEC_8_9), ("3/5", FEC_3_5), ("4/5", FEC_4_5), ("9/10", FEC_9_10), ("no coding", FEC_NONE)];
const BANDWIDTH: Codes = &[
    ("8 MHz", BANDWIDTH_DVB_T_8MHZ), ("7 MHz", BANDWIDTH_DVB_T_7MHZ), ("6 MHz", BANDWIDTH_DVB_T_6MHZ), ("5 MHz", BANDWIDTH_DVB_T_5MHZ)];
const TERRESTRIAL: Codes = &[("QPSK", MODULATION_DVB_T_QPSK), ("16QAM", MODULATION_DVB_T_16QAM), ("64QAM", MODULATION_DVB_T_64QAM)];
const HIERARCHY: Codes = &[
    ("none, native", HIERARCHY_DVB_T_NON_NATIVE), ("1, native", HIERARCHY_DVB_T_A1_NATIVE), ("2, native", HIERARCHY_DVB_T_A2_NATIVE),
    ("4, native", HIERARCHY_DVB_T_A4_NATIVE), ("none, in-depth", HIERARCHY_DVB_T_NON_IN_DEPTH), ("1, in-depth", HIERARCHY_DVB_T_A1_IN_DEPTH),
    ("2, in-depth", HIERARCHY_DVB_T_A2_IN_DEPTH), ("4, in-depth", HIERARCHY_DVB_T_A4_IN_DEPTH)];
const RATE: Codes = &[
    ("1/2", CODE_RATE_DVB_T_1_2), ("2/3", CODE_RATE_DVB_T_2_3), ("3/4", CODE_RATE_DVB_T_3_4), ("5/6", CODE_RATE_DVB_T_5_6),
    ("7/8", CODE_RATE_DVB_T_7_8)];
const GUARD: Codes = &[
    ("1/32", GUARD_INTERVAL_1_32), ("1/16", GUARD_INTERVAL_1_16), ("1/8", GUARD_INTERVAL_1_8), ("1/4", GUARD_INTERVAL_1_4)];
const MODE: Codes = &[("2k", TRANSMISSION_MODE_2K), ("8k", TRANSMISSION_MODE_8K), ("4k", TRANSMISSION_MODE_4K)];

fn put<T: Into<Descriptor>>(sys: &str, m: Vec<J>, d: T) {
    let r = call(|| {
        let mut ds = Descriptors::default();
        ds.push(d);
        let mut out = Vec::new();
        ds.assemble(&mut out);
        out
    });
    emit(&J::obj(&[("k", J::str("put")), ("st", st(&r)), ("sys", J::str(sys)), ("m", J::list(m)), ("out", J::bytes(&r.unwrap_or_default()))]));
}

pub fn c29(ctx: &Ctx) {
    let mut rng = ctx.rng("c29");
    for (f, codes) in &[
        ("position", POSITION), ("polarisation", POLARISATION), ("rolloff", ROLLOFF), ("satellite", SATELLITE), ("cable", CABLE),
        ("outer", OUTER), ("fec", FEC), ("bandwidth", BANDWIDTH), ("terrestrial", TERRESTRIAL), ("hierarchy", HIERARCHY), ("rate", RATE),
        ("guard", GUARD), ("mode", MODE),
    ] {
        for (x, v) in codes.iter() {
            emit(&J::obj(&[("k", J::str("code")), ("f", J::str(f)), ("x", J::str(x)), ("r", J::num(i64::from(*v)))]));
        }
    }
    let n = J::str;
    for a in POSITION { for b in POLARISATION { for c in ROLLOFF { for s2 in 0 .. 2u8 { for d in SATELLITE { for e in FEC {
        put("satellite", vec![n(a.0), n(b.0), n(c.0), J::num(i64::from(s2)), n(d.0), n(e.0)], make!(Desc43 {
            frequency: 12_380_000, orbital_position: 780, west_east_flag: a.1, polarization: b.1, rof: c.1, s2, modulation: d.1,
            symbol_rate: 27500, fec: e.1,
        }));
    } } } } } }
    for a in OUTER { for b in CABLE { for c in FEC {
        put("cable", vec![n(a.0), n(b.0), n(c.0)], make!(Desc44 {
            frequency: 346_000_000, fec_outer: a.1, modulation: b.1, symbol_rate: 6875, fec: c.1,
        }));
    } } }
    let mut terrestrial = |i: [usize; 7]| {
        let (a, b, c, d, e, f, g) = (BANDWIDTH[i[0]], TERRESTRIAL[i[1]], HIERARCHY[i[2]], RATE[i[3]], RATE[i[4]], GUARD[i[5]], MODE[i[6]]);
        put("terrestrial", vec![n(a.0), n(b.0), n(c.0), n(d.0), n(e.0), n(f.0), n(g.0)], make!(Desc5A {
            frequency: 500_000_000, bandwidth: a.1, priority: 1, time_slicing: 1, mpe_fec: 1, modulation: b.1, hierarchy: c.1,
            code_rate_hp: d.1, code_rate_lp: e.1, guard_interval: f.1, transmission: g.1, other_frequency_flag: 0,
        }));
    };
    let most = [4, 3, 8, 5, 5, 4, 3];
    for k in 0 .. 7 { for v in 0 .. most[k] { for _ in 0 .. 5 {
        let mut i = [0; 7];
        for j in 0 .. 7 { i[j] = rng.below(most[j]); }
        i[k] = v;
        terrestrial(i);
    } } }
    for _ in 0 .. ctx.n(1500, 20000) {
        let mut i = [0; 7];
        for j in 0 .. 7 { i[j] = rng.below(most[j]); }
        terrestrial(i);
    }
    for (x, v) in &[
        ("PAT", PAT_PID), ("NIT", NIT_PID), ("SDT", SDT_PID), ("EIT", EIT_PID), ("TDT", TDT_PID), ("TOT", TOT_PID),
        ("null", ts::PID_NULL), ("none", ts::PID_NONE),
    ] {
        emit(&J::obj(&[("k", J::str("pid")), ("x", J::str(x)), ("r", J::num(i64::from(*v)))]));
    }
    emit(&J::obj(&[("k", J::str("packets")), ("null", J::bytes(ts::NULL_PACKET)), ("fill", J::bytes(ts::FILL_PACKET)), ("size", J::num(ts::PACKET_SIZE as i64))]));
    for (x, v) in &[
        ("PCR per us", ts::PCR_CLOCK_US), ("PCR per ms", ts::PCR_CLOCK_MS), ("PCR per s", ts::PCR_SYSTEM_CLOCK), ("PCR none", ts::PCR_NONE),
        ("PCR max", ts::PCR_MAX), ("PTS per ms", pes::PTS_CLOCK_MS), ("PTS none", pes::PTS_NONE), ("PTS max", pes::PTS_MAX),
    ] {
        emit(&J::obj(&[("k", J::str("clock")), ("x", J::str(x)), ("r", big(u128::from(*v)))]));
    }
}
