//! C06-C07: TAI-UTC and time scales.
use super::cal::valid_date;
use crate::dd::Dd;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::calendar::GregorianDate;
use tofas::delta_at::DeltaAt;
use tofas::time::{TAI, TDB, TT, UT1, UTC};

// ------------------------------------------------------------------ C06

pub struct C06;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Dat {
    pub y: i32,
    pub m: i32,
    pub d: i32,
    pub fd: F,
}
impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "enumerated: every day of 1950-2060 at fractions 0, 0.5 and 1; generated: any accepted date (weighted to 1959-2035 and to days next to a change) with any fraction, invalid ones included. The offset is compared with the published list, exactly from 1972 on, to rounding before. Non-trivial: within one month of a change, in the drift era, or refused.";
    const ASSUME: &'static [&'static str] = &["after 2017 the last listed offset (37 s) stays in force", "on a leap-second day the offset is that of the day's start (fraction 1 included)"];
    type Case = Dat;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000_000 } else { 80_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Dat> {
        let fd = prop_oneof![
            4 => real(0.0, 1.0),
            1 => Just(0.0),
            1 => Just(1.0),
            1 => prop_oneof![
                proptest::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 2.0, -5e-324, 1.0 + f64::EPSILON, f64::MAX, f64::MIN, 86400.0]),
                (-300.0..300.0f64).prop_map(|e| -10f64.powf(e)),
                (-15.5..300.0f64).prop_map(|e| 1.0 + 10f64.powf(e)),
            ],
        ];
        let near = (0..TAI_UTC.len(), -40i64..40).prop_map(|(i, k)| {
            let n = days_from_civil(TAI_UTC[i].0, TAI_UTC[i].1, 1) + if k.abs() > 20 { (k.abs() - 30) * 3 } else { k };
            let (y, m, d) = civil_from_days(n);
            (y as i32, m as i32, d as i32)
        });
        (prop_oneof![3 => near, 3 => valid_date(1959, 2035), 2 => valid_date(-4799, i32::MAX)], fd).prop_map(|((y, m, d), fd)| Dat { y, m, d, fd: F(fd) }).boxed()
    }
    fn sweep(_: Tier) -> Box<dyn Iterator<Item = Dat>> {
        Box::new((days_from_civil(1950, 1, 1)..days_from_civil(2060, 1, 1)).flat_map(|n| {
            let (y, m, d) = civil_from_days(n);
            [0.0, 0.5, 1.0].into_iter().map(move |fd| Dat { y: y as i32, m: m as i32, d: d as i32, fd: F(fd) })
        }))
    }
    fn check(c: &Dat) -> Outcome {
        let &Dat { y, m, d, fd: F(fd) } = c;
        let g = lib("GregorianDate::new", || GregorianDate::new(y, m, d))?.map_err(|e| format!("real date refused: {e}"))?;
        let r = lib("delta_at", || g.delta_at(fd))?;
        if !(0.0..=1.0).contains(&fd) {
            ensure(r.is_err(), || format!("fraction {fd:?} accepted: {r:?}"))?;
            label("refused fraction");
            return Ok(true);
        }
        if fd == 0.0 && fd.is_sign_negative() && r.is_err() {
            return Ok(false);
        }
        let got = r.map_err(|e| format!("fraction {fd:?} refused: {e}"))?;
        match (got, tai_utc(y as i64, m as i64, d as i64, fd)) {
            (None, None) => {
                label("before 1960");
                Ok(false)
            }
            (Some(v), Some(w)) => {
                close("TAI-UTC", v, w)?;
                let n = days_from_civil(y as i64, m as i64, d as i64);
                let near = TAI_UTC.iter().any(|t| (days_from_civil(t.0, t.1, 1) - n).abs() <= 31);
                label_if(near, "next to a change");
                label(if w.tol > 0.0 { "drift era" } else { "leap-second era" });
                Ok(near || w.tol > 0.0)
            }
            (got, want) => Err(format!("got {got:?}, expected {:?}", want.map(|w| w.v.f()))),
        }
    }
}

// ------------------------------------------------------------------ C07

pub struct C07;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Scale {
    pub a: F,
    pub b: F,
    pub off: F,
}
/// `got` must be (a, b) with `off` days added to one part and the other part untouched.
fn added(name: &str, got: (f64, f64), (a, b): (f64, f64), off: Dd) -> Res<()> {
    let tol = |x: f64| U * (2.0 * x.abs() + 8.0 * off.f().abs()) + 1e-300;
    let second = got.0.to_bits() == a.to_bits() && (Dd::new(got.1) - b - off).abs().f() <= tol(b);
    let first = got.1.to_bits() == b.to_bits() && (Dd::new(got.0) - a - off).abs().f() <= tol(a);
    // The larger part is kept. With parts of unlike sign "larger" may be meant by value or by
    // magnitude; both readings are accepted there, as is either part when they are equal.
    let ok = if a == b {
        first || second
    } else if (a > b) == (a.abs() > b.abs()) && a.abs() != b.abs() {
        if a > b {
            second
        } else {
            first
        }
    } else {
        first || second
    };
    ensure(ok, || {
        format!("{name}: ({a:?}, {b:?}) gave {got:?}, expected the larger part kept and {:?} day added to the smaller (total off by {:e})", off.f(), (Dd::sum(got.0, got.1) - Dd::sum(a, b) - off).f())
    })
}
fn total(name: &'static str, got: f64, (a, b): (f64, f64)) -> Res<()> {
    close(name, got, q(Dd::sum(a, b), 2.0 * U * (a + b).abs() + 1e-300))
}
impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "generated two-part dates (14 kinds of split of instants up to a million years away, plus arbitrary pairs of either order and sign) and offsets in seconds of either sign and any magnitude; all five conversions, their reverses and totals are compared with exact double-double sums. Non-trivial: both parts non-zero and the offset non-zero.";
    const ASSUME: &'static [&'static str] = &["which part is 'larger' is judged only where value and magnitude agree"];
    type Case = Scale;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000_000 } else { 100_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Scale> {
        let off = prop_oneof![3 => real(-100.0, 100.0), 1 => real(-1e5, 1e5), 1 => Just(0.0), 1 => real(-1e10, 1e10)];
        let pair = prop_oneof![
            6 => date2(0.0, 5e6),
            2 => date2(-3e8, 3e8),
            1 => (real(-1e7, 1e7), real(-1e7, 1e7)).prop_map(|(a, b)| D2(F(a), F(b))),
            1 => (real(0.0, 3e6), real(0.0, 1.0), any::<bool>()).prop_map(|(a, b, s)| if s { D2(F(a), F(b)) } else { D2(F(b), F(a)) }),
            1 => (real(-1.0, 1.0), real(-1.0, 1.0)).prop_map(|(a, b)| D2(F(a), F(b))),
        ];
        (pair, off).prop_map(|(d, o)| Scale { a: d.0, b: d.1, off: F(o) }).boxed()
    }
    fn check(c: &Scale) -> Outcome {
        let (a, b, off) = (c.a.0, c.b.0, c.off.0);
        let p = (a, b);
        let od = Dd::new(off) / 86400.0;
        let TAI(r) = lib("TAI::from_utc_delta_at", || TAI::from_utc_delta_at(UTC(p), off))?;
        added("TAI from UTC", r, p, od)?;
        let TT(r) = lib("TT::from(TAI)", || TT::from(TAI(p)))?;
        added("TT from TAI", r, p, Dd::new(32184.0) / 86400000.0)?;
        let TDB(tdb) = lib("TDB::from_tt", || TDB::from_tt(TT(p), off))?;
        added("TDB from TT", tdb, p, od)?;
        let UT1(ut1) = lib("UT1::from_tt", || UT1::from_tt(TT(p), off))?;
        added("UT1 from TT", ut1, p, -od)?;
        let TT(tt) = lib("TT::from_ut1", || TT::from_ut1(UT1(p), off))?;
        added("TT from UT1", tt, p, od)?;
        // reverses cancel, to the rounding of the parts that changed
        for (name, back) in [
            ("TT to UT1 to TT", lib("TT::from_ut1", || TT::from_ut1(UT1(ut1), off))?.0),
            ("UT1 to TT to UT1", lib("UT1::from_tt", || UT1::from_tt(TT(tt), off))?.0),
        ] {
            let small = if (a > b) == (a.abs() > b.abs()) { a.abs().min(b.abs()) } else { a.abs().max(b.abs()) };
            let tol = U * (6.0 * small + 20.0 * od.f().abs()) + 1e-300;
            // the offset may push one part over the other, so the returned part may differ
            let tol = if od.f().abs() >= (a - b).abs() * 0.5 { tol + 8.0 * U * (a.abs() + b.abs()) } else { tol };
            close("reversed conversion", (Dd::sum(back.0, back.1) - Dd::sum(a, b)).f(), q(Dd::new(0.0), tol)).map_err(|e| format!("{name}: {e}"))?;
        }
        total("UTC total", lib("UTC::total", || UTC(p).total())?, p)?;
        total("TAI total", lib("TAI::total", || TAI(p).total())?, p)?;
        total("TT total", lib("TT::total", || TT(p).total())?, p)?;
        total("UT1 total", lib("UT1::total", || UT1(p).total())?, p)?;
        label(if a == b {
            "equal parts"
        } else if (a > b) != (a.abs() > b.abs()) {
            "unlike order by value and magnitude"
        } else if a > b {
            "larger part first"
        } else {
            "larger part last"
        });
        label_if(off < 0.0, "negative offset");
        Ok(a != 0.0 && b != 0.0 && off != 0.0)
    }
}
