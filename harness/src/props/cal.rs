//! C01-C05: calendar, Julian dates, time of day, printed forms.
use crate::dd::Dd;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::calendar::{CalendarError, GregorianDate, GregorianDateHMS, HMS};
use tofas::ellipsoid::{Geodetic, Geodetic360};

pub const YMIN: i64 = -4799;

pub fn year(lo: i32, hi: i32) -> BoxedStrategy<i32> {
    let mut lm: Vec<i32> = dict().iter().filter(|x| x.fract() == 0.0 && x.abs() < 2e9).map(|x| *x as i32).collect();
    lm.extend([-4800, -4799, -4798, -400, -100, -4, -1, 0, 1, 4, 100, 400, 1582, 1583, 1600, 1700, 1752, 1800, 1858, 1900, 1999, 2000, 2001, 2100, 2400, 9999, 10000, 99999, 5874897, 5874898, 1_000_000, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, 1469902, 1469903, 2147478, 536870, 21474836]);
    lm.retain(|y| *y >= lo && *y <= hi);
    lm.sort();
    lm.dedup();
    let (l6, h6) = (lo.max(-6000), hi.min(10000));
    prop_oneof![
        4 => l6..=h6,
        4 => 1850.max(lo)..=2150.min(hi),
        2 => (proptest::sample::select(lm), -3i32..=3).prop_map(move |(y, k)| y.saturating_add(k).clamp(lo, hi)),
        1 => lo..=hi,
        1 => (0.0..9.33f64, any::<bool>()).prop_map(move |(e, s)| (10f64.powf(e) as i64 * if s { -1 } else { 1 }).clamp(lo as i64, hi as i64) as i32),
        1 => (lo.max(-4800) / 100..=hi / 100).prop_map(move |c| (c as i64 * 100).clamp(lo as i64, hi as i64) as i32),
        1 => (lo.max(-4800) / 100..=100.min(hi / 100)).prop_map(move |c| (c * 100).clamp(lo, hi)),
    ]
    .boxed()
}
pub fn valid_date(lo: i32, hi: i32) -> BoxedStrategy<(i32, i32, i32)> {
    (year(lo, hi), prop_oneof![3 => 1..=12i32, 1 => Just(2), 1 => Just(1), 1 => Just(12), 1 => Just(3)], prop_oneof![3 => 1..=31i32, 1 => Just(1), 2 => 28..=31i32])
        .prop_map(|(y, m, d)| (y, m, (d as i64).min(month_len(y as i64, m as i64)) as i32))
        .boxed()
}

// ------------------------------------------------------------------ C01

pub struct C01;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ymd(pub i32, pub i32, pub i32);

fn expect_c01(y: i64, m: i64, d: i64) -> &'static str {
    if y < YMIN {
        "year"
    } else if !(1..=12).contains(&m) {
        "month"
    } else if d < 1 || d > month_len(y, m) {
        "day"
    } else {
        "ok"
    }
}
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "enumerated: every (year, month, day) with month -1..14, day -1..33 for all years -4810..4000 (thorough: ..12000) and around landmark years; generated: years over all of i32 (landmarks, log scale, centuries), months and days valid, off by a little, or anything. Non-trivial: at most one of the three components is outside its range (so the verdict hinges on the calendar rule, not on garbage).";
    type Case = Ymd;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000_000 } else { 100_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Ymd> {
        let small = |hi: i32| {
            let mut lm: Vec<i32> = vec![i32::MIN, i32::MAX, -1, 0, 1, hi, hi + 1, 256, 257, 65536, 65537, 1 << 24, -256, -255];
            lm.extend(dict().iter().filter(|x| x.fract() == 0.0 && x.abs() < 100.0).map(|x| *x as i32));
            prop_oneof![6 => 1..=hi, 2 => -2..=hi + 3, 1 => any::<i32>(), 1 => proptest::sample::select(lm)]
        };
        (year(i32::MIN, i32::MAX), small(12), prop_oneof![4 => small(31), 3 => 27..=32i32]).prop_map(|(y, m, d)| Ymd(y, m, d)).boxed()
    }
    fn sweep(t: Tier) -> Box<dyn Iterator<Item = Ymd>> {
        let hi = if t == Tier::Quick { 4000 } else { 12000 };
        let far = [i32::MIN, -1_000_000, -65536, 32767, 65536, 1_000_000, 2_000_000_000, i32::MAX];
        Box::new(
            (-4810..=hi).chain(far.into_iter().flat_map(|c| (0..8).filter_map(move |k| c.checked_add(k - 4)))).flat_map(|y| (-1..=14).flat_map(move |m| (-1..=33).map(move |d| Ymd(y, m, d)))),
        )
    }
    fn check(c: &Ymd) -> Outcome {
        let &Ymd(y, m, d) = c;
        let want = expect_c01(y as i64, m as i64, d as i64);
        let got = lib("GregorianDate::new", || GregorianDate::new(y, m, d))?;
        match (&got, want) {
            (Ok(g), "ok") => ensure((g.year, g.month, g.day) == (y, m, d), || format!("date carries {g:?}"))?,
            (Err(CalendarError::BadYear), "year") | (Err(CalendarError::BadMonth), "month") | (Err(CalendarError::BadDay), "day") => {}
            _ => return Err(format!("new({y},{m},{d}) gave {got:?}, expected {want}")),
        }
        if let Err(e) = &got {
            names(e, want)?;
        }
        label(want);
        label_if(m == 2 && d == 29, "29 February");
        label_if(y % 100 == 0, "century year");
        label_if(y < 0, "negative year");
        let bad = (y < YMIN as i32) as i32 + !(1..=12).contains(&m) as i32 + !(1..=31).contains(&d) as i32;
        Ok(bad <= 1)
    }
}

/// The text of an error names what is wrong.
pub fn names(e: &dyn std::fmt::Display, what: &str) -> Res<()> {
    let t = e.to_string();
    ensure(t.to_lowercase().contains(what), || format!("the error says {t:?}, not that the {what} is bad"))
}

// ------------------------------------------------------------------ C02

pub struct C02;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DateTime {
    pub y: i32,
    pub m: i32,
    pub d: i32,
    pub h: u8,
    pub mi: u8,
    pub s: F,
}
pub fn hms_strategy() -> BoxedStrategy<(u8, u8, f64)> {
    let sec = prop_oneof![
        6 => real(0.0, 59.999999999),
        1 => (0..60i32).prop_map(|k| k as f64),
        1 => Just(0.0),
        1 => (0.0..59.9f64).prop_map(|x| (x * 1e6).round() / 1e6),
        1 => (-15.0..-5.0f64, 0..=60i32, any::<bool>()).prop_map(|(e, k, up)| (k as f64 + 10f64.powf(e) * if up { 1.0 } else { -1.0 }).clamp(0.0, 59.99999999999999)),
    ];
    prop_oneof![
        6 => (0..24u8, 0..60u8, sec),
        1 => Just((0u8, 0u8, 0.0)),
        1 => Just((12u8, 0u8, 0.0)),
        1 => Just((23u8, 59u8, 59.99999999999999)),
    ]
    .boxed()
}
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "enumerated: every day from -4799-01-01 to the year 5000 (thorough: 20000) plus 800 years around each of several far years; generated: dates with any year from -4799 to 2^31-1 and any time of day. Each date and its successor are compared with an independent era-based day count in 64-bit integers. Non-trivial: first or last day of a month, 29 February, a year before 1 or after 9999, a century year, or a time of day other than midnight.";
    type Case = DateTime;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 18_000_000 } else { 50_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<DateTime> {
        (valid_date(-4799, i32::MAX), hms_strategy()).prop_map(|((y, m, d), (h, mi, s))| DateTime { y, m, d, h, mi, s: F(s) }).boxed()
    }
    fn sweep(t: Tier) -> Box<dyn Iterator<Item = DateTime>> {
        let hi = if t == Tier::Quick { 5000 } else { 20000 };
        let far = [30_000i64, 32_767, 65_535, 99_999, 500_000, 1_469_902, 5_874_897, 5_879_610, 21_474_836, 1_000_000_000, i32::MAX as i64];
        let a = days_from_civil(-4799, 1, 1);
        let b = days_from_civil(hi, 12, 31);
        Box::new((a..=b).chain(far.into_iter().flat_map(|y| days_from_civil(y - 400, 1, 1)..=days_from_civil((y + 400).min(i32::MAX as i64), 12, 31))).map(|n| {
            let (y, m, d) = civil_from_days(n);
            DateTime { y: y as i32, m: m as i32, d: d as i32, h: 0, mi: 0, s: F(0.0) }
        }))
    }
    fn check(c: &DateTime) -> Outcome {
        let &DateTime { y, m, d, h, mi, s: F(s) } = c;
        let n = days_from_civil(y as i64, m as i64, d as i64);
        let gd = lib("GregorianDate::new", || GregorianDate::new(y, m, d))?.map_err(|e| format!("real date refused: {e}"))?;
        let (j1, j2) = lib("to_julian", || gd.to_julian())?;
        ensure(j1 == 2400000.5 && j2 == n as f64, || format!("to_julian gave ({j1:?}, {j2:?}), expected (2400000.5, {n})"))?;
        // the following day
        let (y2, m2, d2) = civil_from_days(n + 1);
        if y2 <= i32::MAX as i64 {
            let g2 = lib("GregorianDate::new", || GregorianDate::new(y2 as i32, m2 as i32, d2 as i32))?.map_err(|e| format!("following date refused: {e}"))?;
            let (k1, k2) = lib("to_julian", || g2.to_julian())?;
            ensure(k1 == j1 && k2 - j2 == 1.0, || format!("following day {y2}-{m2}-{d2} is ({k1:?}, {k2:?}) after ({j1:?}, {j2:?})"))?;
        }
        // with a time of day
        let g = GregorianDateHMS { date: gd, hms: HMS::new(h, mi, s) };
        let (q1, q2) = lib("GregorianDateHMS::to_julian", || g.to_julian())?;
        let frac = (Dd::new(s) + (3600.0 * h as f64 + 60.0 * mi as f64)) / 86400.0;
        let total = Dd::sum(q1, q2);
        let want = Dd::new(n as f64) + frac + 2400000.5;
        close("Julian date with time", (total - want).f(), q(Dd::new(0.0), 2.0 * U * (n as f64).abs() + 8.0 * U))?;
        ensure(q1 == 2400000.5, || format!("first part {q1:?}"))?;
        let edge = d == 1 || d as i64 == month_len(y as i64, m as i64);
        label_if(edge, "month edge");
        label_if(y < 1, "year < 1");
        label_if(y > 9999, "year > 9999");
        label_if(y > 2_000_000, "year > 2e6");
        label_if(m == 2 && d == 29, "29 February");
        Ok(edge || y < 1 || y > 9999 || y % 100 == 0 || frac.f() != 0.0)
    }
}

// ------------------------------------------------------------------ C03

pub struct C03;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Jd {
    Inside(D2),
    Outside(D2),
}
pub const DJ_LO: f64 = -32000.0;
pub const DJ_HI: f64 = 1e9;

/// Error allowed for a date split (a, b): only the smaller part may be rounded.
fn split_tol(a: f64, b: f64) -> f64 {
    let (small, large) = if a >= b { (b, a) } else { (a, b) };
    let mut t = 4.0 * U * (1.0 + a.abs().min(b.abs()));
    if small.abs() > large.abs() {
        // the numerically smaller part may change binade when half a day is taken off
        t += 2.0 * U * small.abs();
    }
    t
}
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "enumerated: every midnight and noon (and neighbours one ulp of the fraction away) of the Julian days -32000 to 4000000 in several splits (quick: a contiguous block around each of many landmarks plus every 7th day); generated: any instant in [-32000, 1e9] under 14 kinds of splitting in both orders, and dates outside, NaN and infinities. Non-trivial: an accepted date within a second of midnight or noon, or whose split is not day + fraction, or a refused one.";
    const ASSUME: &'static [&'static str] = &["within a few roundings of -32000 and of 1e9 either verdict is accepted when the sum of the parts is not exact"];
    type Case = Jd;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 28_000_000 } else { 80_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Jd> {
        let odd = prop_oneof![
            2 => (0.0..300.0f64, any::<bool>()).prop_map(|(e, s)| { let v = 10f64.powf(e); if s { -32000.0 - v } else { 1e9 + v } }),
            1 => proptest::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -32000.1, -32000.5, -32001.0, 1e9 + 1.0, 1e9 + 0.5, 2147483648.0, 4294967296.0, 1e10, 9.3e18, -9.3e18, f64::MAX, f64::MIN]),
            1 => (1e9..1e12f64).boxed(),
            1 => (-1e7..-32000.001f64).boxed(),
        ];
        let outside = (odd, prop_oneof![3 => Just(0.0), 1 => Just(2400000.5), 1 => real(-1e6, 1e6), 1 => Just(f64::NAN), 1 => Just(f64::INFINITY), 1 => Just(f64::NEG_INFINITY)], any::<bool>(), any::<bool>())
            .prop_map(|(x, y, sub, swap)| {
                let (a, b) = (if sub && y.is_finite() { x - y } else { x }, y);
                Jd::Outside(if swap { D2(F(b), F(a)) } else { D2(F(a), F(b)) })
            });
        prop_oneof![
            8 => date2(DJ_LO, 6e6).prop_map(Jd::Inside),
            3 => date2(DJ_LO, DJ_HI).prop_map(Jd::Inside),
            2 => date2(2.2e6, 2.6e6).prop_map(Jd::Inside),
            2 => outside,
            // the ends of the range
            1 => (any::<bool>(), -3i32..=3, prop_oneof![Just(0.0), Just(2400000.5), Just(DJ00), Just(0.5)], any::<bool>()).prop_map(|(hi, n, y, swap)| {
                let x = nudge(if hi { DJ_HI } else { DJ_LO }, n);
                let d = if swap { D2(F(y), F(x - y)) } else { D2(F(x - y), F(y)) };
                let v = d.dd().f();
                if v >= DJ_LO && v <= DJ_HI { Jd::Inside(d) } else { Jd::Outside(d) }
            }),
        ]
        .boxed()
    }
    fn sweep(t: Tier) -> Box<dyn Iterator<Item = Jd>> {
        let quick = t == Tier::Quick;
        Box::new((-32000i64..4_000_000).filter(move |k| !quick || k % 7 == 0 || (2_415_000..2_488_200).contains(k) || k.abs() < 200 || *k < -31_600 || (1_721_000..1_722_600).contains(k)).flat_map(
            |k| {
                let k = k as f64;
                [
                    D2(F(k), F(0.5)),
                    D2(F(0.0), F(k + 0.5)),
                    D2(F(2400000.5), F(k + 1.0 - 2400001.0)),
                    D2(F(0.5 - f64::EPSILON / 4.0), F(k)),
                ]
                .into_iter()
                .map(Jd::Inside)
            },
        ))
    }
    fn check(c: &Jd) -> Outcome {
        match c {
            Jd::Outside(dt) => {
                let (a, b) = dt.p();
                if a.is_finite() && b.is_finite() {
                    let s = Dd::sum(a, b);
                    let x = s.f();
                    if s.lo == 0.0 && !(DJ_LO..=DJ_HI).contains(&x) {
                        // the sum of the parts is exact and outside: no doubt
                    } else if x >= DJ_LO * (1.0 + 4.0 * U) && x <= DJ_HI * (1.0 + 4.0 * U) {
                        return Ok(false); // generator strayed inside by cancellation
                    }
                }
                let r = lib("GregorianDate::from_julian", || GregorianDate::from_julian(a, b))?;
                ensure(r.is_err(), || format!("date outside the range accepted: {r:?}"))?;
                let r = lib("GregorianDateHMS::from_julian", || GregorianDateHMS::from_julian(a, b))?;
                ensure(r.is_err(), || format!("date outside the range accepted: {r:?}"))?;
                label(if (a + b).is_nan() { "refused: NaN" } else { "refused: out of range" });
                Ok(true)
            }
            Jd::Inside(dt) => {
                let (a, b) = dt.p();
                let x = dt.dd();
                let xf = x.f();
                let margin_lo = 4.0 * U * 32000.0;
                let certain = xf >= DJ_LO && xf <= DJ_HI;
                let exact = x.lo == 0.0;
                let r = lib("GregorianDate::from_julian", || GregorianDate::from_julian(a, b))?;
                let (g, f) = match r {
                    Ok(v) => v,
                    Err(e) => {
                        ensure(!certain || !exact && xf < DJ_LO + margin_lo || !exact && xf > DJ_HI * (1.0 - 4.0 * U), || format!("Julian date {xf} refused: {e}"))?;
                        return Ok(false);
                    }
                };
                ensure((1..=12).contains(&g.month) && g.day >= 1 && g.day as i64 <= month_len(g.year as i64, g.month as i64), || format!("not a real date: {g:?}"))?;
                ensure((0.0..1.0).contains(&f), || format!("day fraction {f:?} is not in [0,1)"))?;
                let n = days_from_civil(g.year as i64, g.month as i64, g.day as i64);
                let back = Dd::new(n as f64) + 2400000.5 + f;
                let tol = split_tol(a, b);
                close("instant", (back - x).f(), q(Dd::new(0.0), tol)).map_err(|e| format!("{g:?} + {f:?} is not the instant {xf:?}: {e}"))?;
                // and with hours, minutes, seconds
                let r = lib("GregorianDateHMS::from_julian", || GregorianDateHMS::from_julian(a, b))?.map_err(|e| format!("Julian date {xf} refused with time of day: {e}"))?;
                ensure(r.hms.hour < 24 && r.hms.minute < 60 && r.hms.second >= 0.0 && r.hms.second < 60.0, || format!("bad time of day {r:?}"))?;
                let n2 = days_from_civil(r.date.year as i64, r.date.month as i64, r.date.day as i64);
                let sod = (Dd::new(r.hms.second) + (3600.0 * r.hms.hour as f64 + 60.0 * r.hms.minute as f64)) / 86400.0;
                let back = Dd::new(n2 as f64) + 2400000.5 + sod;
                close("instant with time", (back - x).f(), q(Dd::new(0.0), tol + 4.0 * U)).map_err(|e| format!("{r:?} is not the instant {xf:?}: {e}"))?;
                // back to Julian dates
                if r.date.year as i64 >= YMIN {
                    let (p1, p2) = lib("GregorianDateHMS::to_julian", || r.to_julian())?;
                    let e = (Dd::sum(p1, p2) - x).f();
                    close("round trip", e, q(Dd::new(0.0), tol + 4.0 * U * (1.0 + p2.abs())))?;
                }
                let nearhalf = ((x + x) - (x + x).round()).abs().f() / 2.0 < 1.0 / 86400.0;
                label_split(dt);
                label_if(nearhalf, "near midnight or noon");
                label_if(xf < 0.0, "negative Julian date");
                label_if(xf > 6e6, "far future");
                Ok(nearhalf || !(0.0..1.0).contains(&b) || a.fract() != 0.0)
            }
        }
    }
}

// ------------------------------------------------------------------ C04

pub struct C04;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Tod {
    Frac(F, F),
    Hms(u8, u8, F),
    Bad(F),
}
fn frac_strategy() -> BoxedStrategy<f64> {
    let hi = 1.0 - f64::EPSILON / 2.0;
    prop_oneof![
        4 => 0.0..1.0f64,
        2 => (0..86400i64, -3i32..=3).prop_map(move |(k, n)| nudge(k as f64 / 86400.0, n).clamp(0.0, hi)),
        1 => (0..1440i64, -3i32..=3).prop_map(move |(k, n)| nudge(k as f64 / 1440.0, n).clamp(0.0, hi)),
        1 => (0..24i64, -3i32..=3).prop_map(move |(k, n)| nudge(k as f64 / 24.0, n).clamp(0.0, hi)),
        1 => (-320.0..0.0f64).prop_map(move |e| 10f64.powf(e).min(hi)),
        1 => (-16.0..0.0f64).prop_map(move |e| (1.0 - 10f64.powf(e)).clamp(0.0, hi)),
        1 => (0..86400i64, -12.0..-4.0f64, any::<bool>()).prop_map(move |(k, e, s)| (k as f64 / 86400.0 + if s { 1.0 } else { -1.0 } * 10f64.powf(e)).clamp(0.0, hi)),
        1 => real(0.0, hi),
    ]
    .boxed()
}
fn hms_total(h: &HMS) -> Dd {
    Dd::new(h.second) + (3600.0 * h.hour as f64 + 60.0 * h.minute as f64)
}
fn hms_of(f: f64) -> Res<HMS> {
    let h = lib("from_fraction_of_day", || HMS::from_fraction_of_day(f))?.map_err(|e| format!("fraction {f:?} refused: {e}"))?;
    ensure(h.hour < 24 && h.minute < 60 && h.second >= 0.0 && h.second < 60.0, || format!("fraction {f:?} gives {h:?}"))?;
    close("seconds of day", (hms_total(&h) - Dd::new(86400.0) * f).f(), q(Dd::new(0.0), 2.0 * U * 86400.0 * f + 1e-300)).map_err(|e| format!("{h:?}: {e}"))?;
    let back = lib("to_fraction_of_day", || h.to_fraction_of_day())?;
    near("fraction round trip", back, f, 6.0 * U * f + 1e-300)?;
    Ok(h)
}
impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "enumerated: every whole second of the day and its neighbouring doubles; generated: pairs of fractions (uniform, whole seconds/minutes/hours and neighbours, near 0 and 1), arbitrary hour/minute/second triples, and invalid fractions. Non-trivial: fraction within a millisecond of a whole second, a triple, or a refused value.";
    const ASSUME: &'static [&'static str] = &["the fraction exactly 1 and -0.0 are accepted or refused by either verdict"];
    type Case = Tod;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000_000 } else { 100_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Tod> {
        let pair = prop_oneof![
            1 => (frac_strategy(), frac_strategy()),
            1 => (frac_strategy(), -40i32..40).prop_map(|(f, n)| (f, nudge(f, n).clamp(0.0, 1.0 - f64::EPSILON / 2.0))),
        ];
        prop_oneof![
            6 => pair.prop_map(|(a, b)| Tod::Frac(F(a), F(b))),
            2 => hms_strategy().prop_map(|(h, m, s)| Tod::Hms(h, m, F(s))),
            1 => (any::<u8>(), any::<u8>(), real(-1e4, 1e6)).prop_map(|(h, m, s)| Tod::Hms(h, m, F(s))),
            1 => prop_oneof![
                proptest::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 2.0, -5e-324, 1.0 + f64::EPSILON, f64::MAX, f64::MIN, 24.0, 86400.0, 100.0]),
                (-300.0..300.0f64).prop_map(|e| -10f64.powf(e)),
                (-15.5..300.0f64).prop_map(|e| 1.0 + 10f64.powf(e)),
            ].prop_map(|x| Tod::Bad(F(x))),
        ]
        .boxed()
    }
    fn sweep(_: Tier) -> Box<dyn Iterator<Item = Tod>> {
        Box::new((0..86400i64).flat_map(|k| {
            let f = k as f64 / 86400.0;
            [(f, nudge(f, 1)), (nudge(f, -1).max(0.0), f), ((k as f64 + 0.5) / 86400.0, (k as f64 + 0.999999) / 86400.0)].into_iter().map(|(a, b)| Tod::Frac(F(a), F(b)))
        }))
    }
    fn check(c: &Tod) -> Outcome {
        match c {
            &Tod::Frac(F(f), F(g)) => {
                let a = hms_of(f)?;
                let b = hms_of(g)?;
                let (lo, hi, fl, fh) = if f <= g { (&a, &b, f, g) } else { (&b, &a, g, f) };
                ensure((hms_total(lo) - hms_total(hi)).f() <= 0.0, || format!("fraction {fl:?} gives {lo:?}, later {fh:?} gives earlier {hi:?}"))?;
                let s = 86400.0 * f;
                let near_s = (s - s.round()).abs() < 1e-3;
                label(if near_s { "near a whole second" } else { "inside a second" });
                Ok(near_s)
            }
            &Tod::Hms(h, m, F(s)) => {
                let v = HMS::new(h, m, s);
                ensure(v.hour == h && v.minute == m && v.second.to_bits() == s.to_bits(), || format!("HMS::new changed its arguments: {v:?}"))?;
                let got = lib("to_fraction_of_day", || v.to_fraction_of_day())?;
                let want = hms_total(&v) / 86400.0;
                let mag = (3600.0 * h as f64 + 60.0 * m as f64 + s.abs()) / 86400.0;
                close("fraction of h:m:s", got, q(want, 4.0 * U * mag + 1e-300))?;
                label("h:m:s");
                Ok(true)
            }
            &Tod::Bad(F(x)) => {
                let r = lib("from_fraction_of_day", || HMS::from_fraction_of_day(x))?;
                ensure(r.is_err(), || format!("fraction {x:?} accepted: {r:?}"))?;
                label("refused");
                Ok(true)
            }
        }
    }
}

// ------------------------------------------------------------------ C05

pub struct C05;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Printed {
    pub dt: DateTime,
    pub lat: F,
    pub lon: F,
    pub height: F,
}
/// Value of a fixed-point field with exactly `dec` decimals, zero padded to at least `int` integer digits.
pub fn fixed(s: &str, sign: bool, int: usize, dec: usize) -> Res<f64> {
    let bad = || format!("badly formed number {s:?}");
    let body = if sign { s.strip_prefix(['+', '-']).ok_or_else(bad)? } else { s };
    let (i, f) = body.split_once('.').ok_or_else(bad)?;
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    if !digits(i) || !digits(f) || i.len() < int || f.len() != dec || (i.len() > int && i.starts_with('0')) {
        return Err(bad());
    }
    s.parse().map_err(|_| bad())
}
pub fn parse_date(s: &str) -> Res<(i64, i64, i64)> {
    let bad = || format!("badly formed date {s:?}");
    let (rest, d) = s.rsplit_once('-').ok_or_else(bad)?;
    let (y, m) = rest.rsplit_once('-').ok_or_else(bad)?;
    let two = |t: &str| t.len() == 2 && t.bytes().all(|b| b.is_ascii_digit());
    let yd = y.strip_prefix('-').unwrap_or(y);
    if !two(m) || !two(d) || y.len() < 4 || yd.is_empty() || !yd.bytes().all(|b| b.is_ascii_digit()) || (y.len() > 4 && yd.starts_with('0')) {
        return Err(bad());
    }
    Ok((y.parse().map_err(|_| bad())?, m.parse().unwrap(), d.parse().unwrap()))
}
/// Seconds of day from HH:MM:SS.ffffff.
pub fn parse_time(s: &str) -> Res<(u32, u32, f64)> {
    let bad = || format!("badly formed time {s:?}");
    let p: Vec<&str> = s.split(':').collect();
    let two = |t: &str| t.len() == 2 && t.bytes().all(|b| b.is_ascii_digit());
    if p.len() != 3 || !two(p[0]) || !two(p[1]) {
        return Err(bad());
    }
    Ok((p[0].parse().unwrap(), p[1].parse().unwrap(), fixed(p[2], false, 2, 6)?))
}
/// (lat, lon, height)
pub fn parse_position(s: &str) -> Res<(f64, f64, f64)> {
    let p: Vec<&str> = s.split(',').collect();
    if p.len() != 3 {
        return Err(format!("badly formed position {s:?}"));
    }
    Ok((fixed(p[0], true, 2, 6)?, fixed(p[1], true, 3, 6)?, fixed(p[2], true, 5, 2)?))
}
fn half_unit(name: &'static str, text: &str, got: f64, want: f64, unit: f64) -> Res<()> {
    near(name, got, want, 0.5 * unit * (1.0 + 1e-9) + 4.0 * U * want.abs()).map_err(|e| format!("{text:?}: {e}"))?;
    ensure(got == 0.0 || want == 0.0 || (got < 0.0) == (want < 0.0), || format!("{text:?}: sign of {want:?} lost"))
}
impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "generated dates (years -4799..2^31-1), times of day and positions (all signs, magnitudes, poles, date line, values that round at the last printed digit); every text is parsed by a strict parser and compared field by field. Non-trivial: distinct values with a negative or more-than-four-digit year, a non-zero time, or a position off the origin.";
    type Case = Printed;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 12_000_000 } else { 60_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Printed> {
        let grain = |lim: f64, unit: f64| {
            prop_oneof![
                5 => real(-lim, lim),
                1 => (-lim..lim).prop_map(move |x| (x / unit).round() * unit),
                1 => ((-lim..lim), -1e-3..1e-3f64).prop_map(move |(x, k)| (((x / unit).floor() + 0.5 + k) * unit).clamp(-lim, lim)),
            ]
        };
        ((valid_date(-4799, i32::MAX), hms_strategy()), grain(90.0, 1e-6), grain(180.0, 1e-6), prop_oneof![3 => grain(9000.0, 1e-2), 2 => grain(1e8, 1e-2)])
            .prop_map(|(((y, m, d), (h, mi, s)), lat, lon, hgt)| Printed { dt: DateTime { y, m, d, h, mi, s: F(s) }, lat: F(lat), lon: F(lon), height: F(hgt) })
            .boxed()
    }
    fn check(c: &Printed) -> Outcome {
        let &DateTime { y, m, d, h, mi, s: F(s) } = &c.dt;
        let date = GregorianDate { year: y, month: m, day: d };
        let hms = HMS::new(h, mi, s);
        let td = lib("Display of date", || format!("{date}"))?;
        ensure(parse_date(&td)? == (y as i64, m as i64, d as i64), || format!("{date:?} printed as {td:?}"))?;
        let tt = lib("Display of time", || format!("{hms}"))?;
        let (ph, pm, ps) = parse_time(&tt)?;
        ensure((ph, pm) == (h as u32, mi as u32), || format!("{hms:?} printed as {tt:?}"))?;
        half_unit("printed second", &tt, ps, s, 1e-6)?;
        let both = lib("Display of date and time", || format!("{}", GregorianDateHMS { date, hms }))?;
        ensure(both == format!("{td} {tt}"), || format!("date with time printed as {both:?}, its parts as {td:?} and {tt:?}"))?;
        let (lat, lon, hgt) = (c.lat.0, c.lon.0, c.height.0);
        let g = Geodetic360 { lat, lon, height: hgt };
        let t = lib("Display of position", || format!("{g}"))?;
        let (a, o, z) = parse_position(&t)?;
        half_unit("printed latitude", &t, a, lat, 1e-6)?;
        half_unit("printed longitude", &t, o, lon, 1e-6)?;
        half_unit("printed height", &t, z, hgt, 1e-2)?;
        // the same position in radians, away from the wrap at 180 degrees
        let r = Geodetic { elong: lon.to_radians(), phi: lat.to_radians(), height: hgt };
        let t = lib("Display of position in radians", || format!("{r}"))?;
        let (a, o, z) = parse_position(&t)?;
        near("printed latitude", a, lat, 0.5001e-6).map_err(|e| format!("{t:?}: {e}"))?;
        ensure((-180.0..=180.0).contains(&o), || format!("{t:?}: longitude out of range"))?;
        let dl = (o - lon).rem_euclid(360.0);
        near("printed longitude", dl.min(360.0 - dl), 0.0, 0.5001e-6).map_err(|e| format!("{t:?}: {e}"))?;
        half_unit("printed height", &t, z, hgt, 1e-2)?;
        label_if(lat < 0.0, "south");
        label_if(lon < 0.0, "west");
        label_if(hgt < 0.0, "below ellipsoid");
        label_if(hgt.abs() >= 99999.995, "height needs more digits");
        label_if(y < 0, "negative year");
        label_if(s > 59.9999995, "second rounds to 60");
        Ok(y < 0 || y > 9999 || s != 0.0 || lat != 0.0 || lon != 0.0)
    }
}
