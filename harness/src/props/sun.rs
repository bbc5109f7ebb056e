//! C26, C27: Sun zenith angle.
use super::cal::{hms_strategy, DateTime};
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::calendar::{GregorianDate, HMS};
use tofas::ellipsoid::Geodetic360;
use tofas::earth::EarthPosVel;
use tofas::frames::celestial_to_terrestrial;
use tofas::time::TDB;
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResult};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Site {
    pub lat: F,
    pub lon: F,
    pub height: F,
}
pub fn site() -> BoxedStrategy<Site> {
    let lat = prop_oneof![5 => real(-90.0, 90.0), 1 => proptest::sample::select(vec![90.0, -90.0, 0.0, 23.4, -23.4])];
    let lon = prop_oneof![5 => real(-180.0, 180.0), 1 => real(-720.0, 720.0), 1 => proptest::sample::select(vec![180.0, -180.0, 0.0, 90.0, -90.0])];
    (lat, lon, prop_oneof![3 => real(-500.0, 9000.0), 1 => real(-1e4, 1e6), 1 => Just(0.0)]).prop_map(|(a, o, h)| Site { lat: F(a), lon: F(o), height: F(h) }).boxed()
}
/// Dates 1900-2100, often next to the start of a month (and of a TAI-UTC value).
pub fn sun_date() -> BoxedStrategy<(i32, i32, i32)> {
    let (lo, hi) = (days_from_civil(1900, 1, 3), days_from_civil(2099, 12, 29));
    let of = |n: i64| {
        let (y, m, d) = civil_from_days(n);
        (y as i32, m as i32, d as i32)
    };
    prop_oneof![
        4 => (lo..=hi).prop_map(of),
        2 => (days_from_civil(1959, 11, 1)..=days_from_civil(2030, 1, 1)).prop_map(of),
        2 => (0..TAI_UTC.len(), -2i64..=2).prop_map(move |(i, k)| of(days_from_civil(TAI_UTC[i].0, TAI_UTC[i].1, 1) + k)),
        1 => (1900..=2099i32, 1..=12i32, -1..=1i64).prop_map(move |(y, m, k)| of((days_from_civil(y as i64, m as i64, 1) + k).clamp(lo, hi))),
        1 => super::cal::valid_date(1900, 2099).prop_map(move |(y, m, d)| of(days_from_civil(y as i64, m as i64, d as i64).clamp(lo, hi))),
    ]
    .boxed()
}
pub fn datetime() -> BoxedStrategy<DateTime> {
    let any = (sun_date(), hms_strategy()).prop_map(|((y, m, d), (h, mi, s))| DateTime { y, m, d, h, mi, s: F(s) });
    // within a leap second
    let steps = TAI_UTC.iter().filter(|e| e.4 == 0.0).skip(1).map(|e| civil_from_days(days_from_civil(e.0, e.1, 1) - 1)).collect::<Vec<_>>();
    let leap = (proptest::sample::select(steps), prop_oneof![3 => 60.0..61.0f64, 1 => Just(60.0), 1 => Just(60.5)]).prop_map(|((y, m, d), s)| DateTime { y: y as i32, m: m as i32, d: d as i32, h: 23, mi: 59, s: F(s) });
    prop_oneof![40 => any, 1 => leap].boxed()
}
pub fn offset() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.0), 3 => real(-3600.0, 3600.0), 2 => real(-86400.0, 86400.0), 1 => real(-3e7, 3e7), 1 => real(-1e9, 1e9), 1 => (-600..=600i32).prop_map(|k| k as f64), 1 => (-48..=48i32).prop_map(|k| 3600.0 * k as f64)].boxed()
}
pub fn params(dt: &DateTime, p: &Site) -> SunAngleParameters {
    SunAngleParameters {
        date: GregorianDate { year: dt.y, month: dt.m, day: dt.d },
        time: HMS { hour: dt.h, minute: dt.mi, second: dt.s.0 },
        position: Geodetic360 { lat: p.lat.0, lon: p.lon.0, height: p.height.0 },
    }
}
fn chain(dt: &DateTime, p: &Site, delta: f64, part: impl FnOnce(&T, Q) -> Sky) -> Chain {
    sun_chain(dt.y as i64, dt.m as i64, dt.d as i64, dt.h, dt.mi, dt.s.0, p.lat.0, p.lon.0, p.height.0, delta, part)
}
/// Ephemeris and matrix as the library gives them (C19, C20 decide those), at the dates of a result.
fn sky_of(r: &SunAngleResult, t: &T, era: Q) -> Res<Sky> {
    let (e, c) = lib("EarthPosVel, celestial_to_terrestrial", || (EarthPosVel::from(TDB(r.tt.0)).heliocentric.p, celestial_to_terrestrial(r.tt, r.ut1, XP_AS * as2r().hi, YP_AS * as2r().hi)))?;
    let dd = |v: [f64; 3]| v.map(Dd::new);
    Ok(Sky { earth: dd(e), earth_tol: 0.02 * (t.err + 4.0 * U * t.days.f().abs()) + 1e-13, c: c.map(dd), ctol: 2.0 * era.tol + 1e-12 })
}
/// A two-part date against a reference MJD; the total only, whatever the split.
fn mjd(name: &'static str, (a, b): (f64, f64), want: Q) -> Res<()> {
    close(name, (Dd::sum(a, b) - 2400000.5 - want.v).f(), q(ZERO, want.tol + 2.0 * U * b.abs().min(a.abs())))
}

// ------------------------------------------------------------------ C26

pub struct C26;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SunCase {
    pub dt: DateTime,
    pub site: Site,
    pub delta: F,
    #[serde(default)]
    /// ephemeris and matrix in double-double too, or those of the library
    pub full: bool,
}
impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "generated dates 1900-2100 (every era of TAI-UTC, days next to its changes, month edges), times of day (leap seconds included), places (poles, equator, date line, tropics; heights) and offsets; every field of the result is compared with the chain from the inputs in double-double - in one case of eight ephemeris and matrix included, and each step from the preceding fields, otherwise with the library's own ephemeris and matrix (which C19 and C20 decide) -, and the angle with the almanac. Non-trivial: place off the equator and a non-zero time or offset.";
    const ASSUME: &'static [&'static str] = &["dates before 1960 use TAI-UTC = 0, and the TAI-UTC of the start date is kept for the offset", "almanac agreement asked to 0.08 degree"];
    type Case = SunCase;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 8_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<SunCase> {
        (datetime(), site(), offset(), prop_oneof![7 => Just(false), 1 => Just(true)]).prop_map(|(dt, site, d, full)| SunCase { dt, site, delta: F(d), full }).boxed()
    }
    fn check(c: &SunCase) -> Outcome {
        let delta = c.delta.0;
        let pr = params(&c.dt, &c.site);
        let r = lib("SunAngleCalculator", || SunAngleCalculator::new(&pr).compute(delta))?;
        let mut part = Ok(());
        let w = chain(&c.dt, &c.site, delta, |t, era| {
            if c.full {
                return sky(t, era);
            }
            sky_of(&r, t, era).unwrap_or_else(|e| {
                part = Err(e);
                sky(t, era)
            })
        });
        part?;
        ensure(r.delta_s == delta, || format!("offset {:?}", r.delta_s))?;
        mjd("Julian date", (r.jd0, r.jd1), w.jd1)?;
        mjd("UTC", r.utc.0, w.jd1)?;
        close("TAI-UTC", r.dat, w.dat)?;
        mjd("TAI", r.tai.0, w.tai)?;
        mjd("TT", r.tt.0, w.tt)?;
        mjd("UT1", r.ut1.0, w.ut1)?;
        ensure((0.0..TWO_PI.hi).contains(&r.era), || format!("Earth rotation angle {:?}", r.era))?;
        close_angle("Earth rotation angle", r.era, w.era)?;
        close_v("site", &r.p, &w.site, w.site_tol)?;
        close_v("Earth position", &r.earth, &w.earth, w.earth_tol)?;
        close_v("Sun vector", &r.sun_e, &w.sun, w.sun_tol)?;
        ensure((0.0..=std::f64::consts::PI).contains(&r.sza), || format!("zenith angle {:?} is not in [0, pi]", r.sza))?;
        close("cosine of the zenith angle", Dd::new(r.sza).cos().f(), w.cosz)?;
        // tighter, each step from the fields before it
        let ut1 = r.ut1.0;
        close_angle("Earth rotation angle of the returned UT1", r.era, era(ut1.0, ut1.1))?;
        if c.full {
            let t = time(r.tt.0 .0, r.tt.0 .1);
            let e = epv(&t);
            close_v("Earth position at the returned TT", &r.earth, &e.ph, e.tolp)?;
            let (m, mt) = c2t(&t, ut1, XP_AS * as2r().hi, YP_AS * as2r().hi);
            let mut s = [ZERO; 3];
            for i in 0..3 {
                for j in 0..3 {
                    s[i] = s[i] - m[i][j] * r.earth[j] * AU_M;
                }
            }
            close_v("Sun vector of the returned dates", &r.sun_e, &s, AU_M * (1.8 * mt + 32.0 * U))?;
            label("full chain");
        }
        let norm = |v: &[f64; 3]| v.iter().map(|&x| Dd::new(x).sq()).fold(ZERO, |a, b| a + b).sqrt();
        let far = norm(&r.earth) * AU_M;
        close("distance of the Sun", norm(&r.sun_e).f(), q(far, 64.0 * U * far.f()))?;
        // almanac
        let days = w.ut1.v.f() - 51544.5;
        let (ra, dec) = almanac_sun(w.tt.v.f() - 51544.5);
        let ha = gmst(days) + c.site.lon.0.to_radians() - ra;
        let lat = c.site.lat.0.to_radians();
        let cz = lat.sin() * dec.sin() + lat.cos() * dec.cos() * ha.cos();
        // compare as chords so that small angles do not matter
        if days.abs() < 37000.0 {
            near("zenith angle against the almanac", r.sza, cz.clamp(-1.0, 1.0).acos(), 0.08f64.to_radians())?;
        }
        let y = c.dt.y;
        label(if y < 1960 {
            "before 1960"
        } else if y < 1972 {
            "drift era"
        } else {
            "leap-second era"
        });
        label(if r.sza < 1.57 { "day" } else { "night" });
        label(if c.site.lat.0 < 0.0 { "south" } else { "north" });
        label_if(c.site.lat.0.abs() == 90.0, "pole");
        Ok(c.site.lat.0 != 0.0 && (w.jd1.v.f().fract() != 0.0 || delta != 0.0))
    }
}

// ------------------------------------------------------------------ C27

pub struct C27;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Reuse {
    pub calcs: Vec<(DateTime, Site)>,
    /// (which calculator, offset), in order
    pub ops: Vec<(usize, F)>,
    /// seconds by which the clock and the site are moved
    pub shift: F,
}
impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "generated histories: 1-2 calculators and 1-8 (one in 25: 9-64) computations in any order with repeated, close, opposite and non-monotone offsets; each result is compared bit for bit with that of a fresh calculator, then clock shifts (up to decades) and site shifts as metamorphic relations. Non-trivial: at least two computations, or a non-zero shift.";
    const ASSUME: &'static [&'static str] = &["clock-shift relation holds to rounding of a 50000-day number (1e-9 in the cosine) plus the Sun's motion during a change of TAI-UTC; site shift to the Sun's own daily motion"];
    const REPLAYS: u32 = 200;
    type Case = Reuse;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 2_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Reuse> {
        let off = || prop_oneof![4 => offset(), 1 => proptest::sample::select(vec![0.0, -0.0, 60.0, -60.0, 86400.0, -86400.0, 1e-9]), 1 => real(-1e7, 1e7), 1 => real(-1e9, 1e9), 1 => (-1.0..10.5f64, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -10f64.powf(e) })];
        let op = (0..2usize, off(), 0..4u8, 0..64usize).boxed();
        let ops = prop_oneof![24 => proptest::collection::vec(op.clone(), 1..=8), 1 => proptest::collection::vec(op, 9..=64)].prop_map(|v| {
            let mut out: Vec<(usize, F)> = vec![];
            for (k, x, how, j) in v {
                // revisit or mirror an earlier offset from time to time
                let x = match (how, out.is_empty()) {
                    (0, false) => out[j % out.len()].1 .0,
                    (1, false) => -out[j % out.len()].1 .0,
                    _ => x,
                };
                out.push((k, F(x)));
            }
            out
        });
        (proptest::collection::vec((datetime(), site()), 1..=2), ops, prop_oneof![3 => real(-3600.0, 3600.0), 1 => real(-40000.0, 40000.0), 1 => real(-1e9, 1e9), 1 => (-24..=24i32).prop_map(|k| 3600.0 * k as f64)]).prop_map(|(calcs, ops, s)| Reuse { calcs, ops, shift: F(s) }).boxed()
    }
    fn check(c: &Reuse) -> Outcome {
        let ps: Vec<_> = c.calcs.iter().map(|(d, s)| params(d, s)).collect();
        let cs = lib("SunAngleCalculator::new", || ps.iter().map(SunAngleCalculator::new).collect::<Vec<_>>())?;
        for (i, (k, F(x))) in c.ops.iter().enumerate() {
            let k = k % cs.len();
            let got = lib("compute", || cs[k].compute(*x))?;
            let fresh = lib("compute", || SunAngleCalculator::new(&ps[k]).compute(*x))?;
            let (a, b) = (format!("{got:?}"), format!("{fresh:?}"));
            ensure(a == b, || format!("computation {i} (offset {x:?}) after {:?} gave {a}, a fresh calculator {b}", &c.ops[..i]))?;
        }
        // clock shift: whole thing in integers of a microsecond to stay on representable times
        let (dt, st) = &c.calcs[0];
        let d = c.shift.0;
        let (h, mi, s) = (dt.h as f64, dt.mi as f64, dt.s.0);
        let sod = 3600.0 * h + 60.0 * mi + s + d;
        let n = days_from_civil(dt.y as i64, dt.m as i64, dt.d as i64);
        let day = (sod / 86400.0).floor();
        let mut r = sod - 86400.0 * day;
        if r >= 86400.0 {
            r = 86399.99999999999;
        }
        let (y2, m2, d2) = civil_from_days(n + day as i64);
        let h2 = (r / 3600.0).floor();
        let mi2 = ((r - 3600.0 * h2) / 60.0).floor();
        let later = DateTime { y: y2 as i32, m: m2 as i32, d: d2 as i32, h: h2 as u8, mi: mi2 as u8, s: F(r - 3600.0 * h2 - 60.0 * mi2) };
        let a = lib("compute", || SunAngleCalculator::new(&params(dt, st)).compute(d))?;
        let b = lib("compute", || SunAngleCalculator::new(&params(&later, st)).compute(0.0))?;
        let ddat = (a.dat - b.dat).abs();
        let wd = |x: &DateTime| tai_utc(x.y as i64, x.m as i64, x.d as i64, (3600.0 * x.h as f64 + 60.0 * x.mi as f64 + x.s.0) / 86400.0).map_or(0.0, |v| v.v.f());
        near("change of TAI-UTC over the shift", ddat, (wd(dt) - wd(&later)).abs(), 1e-9)?;
        near("cosine of the zenith angle, offset against clock", a.sza.cos(), b.sza.cos(), 1e-9 + 4e-7 * ddat)?;
        // site moved west by the Earth's rotation, for shifts up to an hour
        if d.abs() <= 3600.0 {
            let turn = 360.0 * 1.00273781191135448 * d / 86400.0;
            let moved = Site { lat: st.lat, lon: F(st.lon.0 - turn), height: st.height };
            let x = lib("compute", || SunAngleCalculator::new(&params(dt, st)).compute(0.0))?;
            let z = lib("compute", || SunAngleCalculator::new(&params(dt, &moved)).compute(d))?;
            near("zenith angle, site moved west with the Earth's rotation", z.sza, x.sza, 0.0185 * d.abs() / 86400.0 + 3e-7)?;
            label("site shift");
        }
        label_if(c.ops.len() > 3, "more than 3 computations");
        label_if(c.ops.len() > 8, "long history");
        label_if(c.calcs.len() > 1, "two calculators");
        label_if(ddat > 0.5, "shift across a leap second");
        Ok(c.ops.len() > 1 || d != 0.0)
    }
}
