//! C28-C30: purity, totality, command-line tools.
use super::cal::{hms_strategy, parse_date, parse_position, parse_time, valid_date, year, DateTime};
use super::geo::{lat, lon};
use super::sun::{datetime, offset, params, site, sun_date, Site};
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::calendar::{GregorianDate, GregorianDateHMS, HMS};
use tofas::common::{anp, Mat3, Matrix, Vector};
use tofas::delta_at::DeltaAt;
use tofas::earth::{EarthPosVel, polar_motion_matrix, rotation_angle};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, Geodetic, Geodetic360, WGS84};
use tofas::frames::{PrecessionNutation, bias_and_precession, celestial_to_intermediate, celestial_to_intermediate_from_xys, celestial_to_intermediate_with_bpn_and_xy, celestial_to_terrestrial, celestial_to_terrestrial_from_cio_components, frame_bias, mean_obliquity, nutation, precession_nutation, precession_rate, xy_from_bpn};
use tofas::fundargs;
use tofas::locator;
use tofas::time::{DJ00, TAI, TDB, TT, UT1, UTC};
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResultBundle};

/// One call of the public interface (or a few that belong together).
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Date(i32, i32, i32, F),
    FromJulian(D2),
    Tod(F),
    Hms(u8, u8, F),
    Anp(F),
    Vectors([F; 3], [F; 3]),
    Rotation(usize, F, [F; 3]),
    Scales(D2, F),
    Era(D2),
    Pole(F, F, F),
    Fund(F),
    Nutation(D2),
    Precession(D2),
    Pn(D2, F, F),
    Cio(D2, F, F),
    C2i(D2),
    C2iXys(F, F, F),
    C2iXy(D2, F, F),
    C2t(D2, D2, F, F),
    Assemble([F; 3], F, F, F),
    Epv(D2),
    Ellipsoid(F, F),
    Forward(u8, F, F, F),
    Backward(u8, [F; 3]),
    Degrees(F, F, F),
    /// radius, flattening, longitude, latitude, height: there and back
    Convert(F, F, F, F, F),
    Sun(DateTime, Site, F),
}
/// Objects kept between calls.
#[derive(Default)]
pub struct Ctx {
    conv: Vec<(u8, EllipsoidConverter)>,
    calc: Vec<(String, SunAngleCalculator, SunAngleParameters)>,
}
const ELS: [Ellipsoid; 4] = [WGS84, Ellipsoid { a: 6371000.0, f: 0.0 }, Ellipsoid { a: 60268000.0, f: 0.09796 }, Ellipsoid { a: 3396190.0, f: 0.00589 }];
fn u3(v: &[F; 3]) -> [f64; 3] {
    [v[0].0, v[1].0, v[2].0]
}
/// Runs one operation; its results written out exactly (Debug of f64 is exact).
pub fn exec(op: &Op, cx: &mut Ctx) -> Res<String> {
    let name = format!("{op:?}");
    lib(&name, || match op {
        &Op::Date(y, m, d, F(fd)) => match GregorianDate::new(y, m, d) {
            Ok(g) => format!("{g:?} {g} {:?} {:?}", g.to_julian(), g.delta_at(fd).map_err(|e| e.to_string())),
            Err(e) => format!("error {e}"),
        },
        Op::FromJulian(d) => match GregorianDateHMS::from_julian(d.a(), d.b()) {
            Ok(g) => format!("{g:?} {g} {:?}", GregorianDate::from_julian(d.a(), d.b()).map_err(|e| e.to_string())),
            Err(e) => format!("error {e}"),
        },
        &Op::Tod(F(f)) => match HMS::from_fraction_of_day(f) {
            Ok(h) => format!("{h:?} {h} {:?}", h.to_fraction_of_day()),
            Err(e) => format!("error {e}"),
        },
        &Op::Hms(h, m, F(s)) => format!("{:?}", HMS::new(h, m, s).to_fraction_of_day()),
        &Op::Anp(F(a)) => format!("{:?}", anp(a)),
        Op::Vectors(a, b) => {
            let (a, b) = (u3(a), u3(b));
            format!("{:?}", (a.norm(), a.add(b), a.sub(b), a.dot(b), a.neg(), a.scale(b[0]), a.normalize(), a.angle(b)))
        }
        Op::Rotation(ax, F(t), v) => {
            let r = Mat3::rotation(*ax, *t);
            format!("{:?}", (r, r.transpose(), r.compose(&r), r.apply(u3(v))))
        }
        Op::Scales(d, F(o)) => {
            let p = d.p();
            format!("{:?}", (TAI::from_utc_delta_at(UTC(p), *o), TT::from(TAI(p)), TT::from_ut1(UT1(p), *o), TDB::from_tt(TT(p), *o), UT1::from_tt(TT(p), *o), UTC(p).total(), TT(p).total()))
        }
        Op::Era(d) => format!("{:?}", rotation_angle(UT1(d.p()))),
        &Op::Pole(F(x), F(y), F(s)) => format!("{:?}", polar_motion_matrix(x, y, s)),
        &Op::Fund(F(t)) => format!("{:?}", [fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t), fundargs::om03(t), fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)]),
        Op::Nutation(d) => format!("{:?}", nutation(TT(d.p()))),
        Op::Precession(d) => format!("{:?}", (mean_obliquity(TT(d.p())), precession_rate(TT(d.p())), bias_and_precession(TT(d.p())), frame_bias())),
        Op::Pn(d, F(p), F(e)) => format!("{:?} {:?} {:?}", PrecessionNutation::from(TT(d.p())), PrecessionNutation::from_tt_with_nutation(TT(d.p()), *p, *e), precession_nutation(TT(d.p()))),
        Op::Cio(d, F(x), F(y)) => format!("{:?}", locator::cio(TT(d.p()), *x, *y)),
        Op::C2i(d) => format!("{:?}", celestial_to_intermediate(TT(d.p()))),
        &Op::C2iXys(F(x), F(y), F(s)) => format!("{:?}", celestial_to_intermediate_from_xys(x, y, s)),
        Op::C2iXy(d, F(x), F(y)) => format!("{:?}", celestial_to_intermediate_with_bpn_and_xy(TT(d.p()), *x, *y)),
        Op::C2t(d, u, F(x), F(y)) => format!("{:?}", celestial_to_terrestrial(TT(d.p()), UT1(u.p()), *x, *y)),
        Op::Assemble(v, F(a), F(b), F(e)) => {
            let (c, p) = (celestial_to_intermediate_from_xys(0.0, 0.0, *a), polar_motion_matrix(*b, *a, 0.0));
            let m = celestial_to_terrestrial_from_cio_components(&c, *e, &p);
            format!("{:?}", (m, xy_from_bpn(&m), m.apply(u3(v))))
        }
        Op::Epv(d) => format!("{:?}", EarthPosVel::from(TDB(d.p()))),
        &Op::Ellipsoid(F(a), F(f)) => match EllipsoidConverter::new(&Ellipsoid { a, f }) {
            Ok(c) => format!("{:?}", c.ellipsoid()),
            Err(e) => format!("error {e}"),
        },
        Op::Forward(k, ..) | Op::Backward(k, _) => {
            let k = k % 4;
            if !cx.conv.iter().any(|c| c.0 == k) {
                cx.conv.push((k, EllipsoidConverter::new(&ELS[k as usize]).expect("valid ellipsoid")));
            }
            let c = &cx.conv.iter().find(|c| c.0 == k).unwrap().1;
            match op {
                &Op::Forward(_, F(lon), F(lat), F(h)) => {
                    let g = Geodetic { elong: lon, phi: lat, height: h };
                    format!("{:?} {:?} {:?}", c.geodetic_to_geocentric(&g).map_err(|e| e.to_string()), g.zenith(), c.ellipsoid())
                }
                Op::Backward(_, v) => format!("{:?}", c.geocentric_to_geodetic(&u3(v))),
                _ => unreachable!(),
            }
        }
        &Op::Degrees(F(a), F(b), F(h)) => {
            let g = Geodetic { elong: a, phi: b, height: h };
            let d = Geodetic360 { lon: a, lat: b, height: h };
            format!("{:?} {g} {:?} {d}", Geodetic360::from(&g), Geodetic::from(&d))
        }
        &Op::Convert(F(a), F(f), F(lon), F(lat), F(h)) => {
            let c = EllipsoidConverter::new(&Ellipsoid { a, f }).expect("valid ellipsoid");
            let g = Geodetic { elong: lon, phi: lat, height: h };
            let v = c.geodetic_to_geocentric(&g).map_err(|e| e.to_string());
            format!("{v:?} {:?} {:?}", v.clone().map(|v| c.geocentric_to_geodetic(&v)), g.zenith())
        }
        Op::Sun(dt, st, F(x)) => {
            let key = format!("{dt:?}{st:?}");
            if !cx.calc.iter().any(|c| c.0 == key) {
                let p = params(dt, st);
                let c = SunAngleCalculator::new(&p);
                cx.calc.push((key.clone(), c, p));
            }
            let c = cx.calc.iter().find(|c| c.0 == key).unwrap();
            let r = c.1.compute(*x);
            format!("{r:?} {}", SunAngleResultBundle { parameters: &c.2, result: &r })
        }
    })
}
/// Points at least half a percent outside the deepest supported depth.
fn outside_point() -> BoxedStrategy<(u8, [F; 3])> {
    let c = || prop_oneof![4 => -1.0..1.0f64, 1 => Just(0.0), 1 => Just(-0.0), 1 => (-20.0..0.0f64).prop_map(|e| 10f64.powf(e))];
    (0..4u8, [c(), c(), c()], (-14.0..3.0f64).prop_map(|e| 10f64.powf(e)))
        .prop_map(|(k, v, h)| {
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            let v = if n < 1e-30 { [0.0, 0.0, -1.0] } else { v.map(|x| x / n) };
            let s = ELS[k as usize].a * (0.99 + h);
            (k, v.map(|x| F(x * s)))
        })
        .boxed()
}
/// Calls within the accepted domain; dates from the given strategy.
fn op_with(date: BoxedStrategy<D2>, wide: bool) -> BoxedStrategy<Op> {
    let amax = if wide { 1e15 } else { 20.0 };
    let ang = move || prop_oneof![3 => angle(7.0), 1 => real(-amax, amax), 1 => super::earth::pole_angle()].prop_map(F);
    let unit = || real(-0.7, 0.7).prop_map(F);
    let d = date.clone();
    let dd = move || d.clone();
    let finite = || any::<u64>().prop_map(|b| f64::from_bits(b)).prop_map(|x| F(if x.is_finite() { x } else { -1e-300 }));
    let nz = || f3(-1e3, 1e3).prop_map(|v| if v.iter().all(|x| x.0.abs() < 1e-100) { [F(1.0), F(0.0), F(0.0)] } else { v });
    // parallel, opposite and axis-aligned pairs, great and small; squared lengths within the range of a double
    let vecs = || {
        super::maths::C09::strategy(Tier::Quick).prop_map(|v| {
            let ok = |v: [F; 3], k: usize| {
                let m = v.iter().fold(0.0f64, |m, x| m.max(x.0.abs()));
                if m > 1e-140 && m < 1e140 {
                    return v;
                }
                let mut e = [F(0.0); 3];
                e[k] = F(if v[0].0 > 0.0 { 1.0 } else { -2.0 });
                e
            };
            (ok(v.a, 2), ok(v.b, (v.c.0.to_bits() % 3) as usize))
        })
    };
    let body = || {
        let f = prop_oneof![4 => 0.0..0.9f64, 2 => 0.0..0.01f64, 1 => proptest::sample::select(vec![0.0, 1.0 / 298.257223563, 0.09796, 0.5, 0.9])];
        let h = prop_oneof![2 => -0.005..0.005f64, 2 => (-14.0..3.0f64).prop_map(|e| 10f64.powf(e)), 1 => Just(0.0)];
        let a = prop_oneof![2 => (-3.0..12.0f64).prop_map(|e| 10f64.powf(e)), 1 => 1e6..1e8f64];
        (a, f, lon(), lat(), h).prop_map(|(a, f, o, l, h)| Op::Convert(F(a), F(f), F(o), F(l), F(h * a)))
    };
    let ymax = if wide { i32::MAX } else { 3000 };
    let models = prop_oneof![
        1 => dd().prop_map(Op::Era),
        1 => dd().prop_map(Op::Nutation),
        1 => dd().prop_map(Op::Precession),
        1 => (dd(), ang(), ang()).prop_map(|(d, x, y)| Op::Pn(d, x, y)),
        1 => (dd(), unit(), unit()).prop_map(|(d, x, y)| Op::Cio(d, x, y)),
        1 => dd().prop_map(Op::C2i),
        1 => (dd(), unit(), unit()).prop_map(|(d, x, y)| Op::C2iXy(d, x, y)),
        2 => (dd(), dd(), ang(), ang()).prop_map(|(d, u, x, y)| Op::C2t(d, u, x, y)),
        1 => dd().prop_map(Op::Epv),
        1 => (dd(), real(-1e6, 1e6)).prop_map(|(d, x)| Op::Scales(d, F(x))),
    ];
    let cheap = prop_oneof![
        2 => (valid_date(-4799, ymax), real(0.0, 1.0)).prop_map(|((y, m, d), f)| Op::Date(y, m, d, F(f))),
        1 => (year(i32::MIN, i32::MAX), any::<i32>(), any::<i32>(), real(0.0, 1.0)).prop_map(|(y, m, d, f)| Op::Date(y, m, d, F(f))),
        2 => (if wide { date2(-32000.0, 1e9) } else { dd().boxed() }).prop_map(Op::FromJulian),
        1 => real(0.0, 1.0).prop_map(|f| Op::Tod(F(f))),
        1 => (any::<u8>(), any::<u8>(), real(-100.0, 1e6)).prop_map(|(h, m, s)| Op::Hms(h, m, F(s))),
        1 => finite().prop_map(Op::Anp),
        1 => super::maths::C08::strategy(Tier::Quick).prop_map(Op::Anp),
        1 => (nz(), nz()).prop_map(|(a, b)| Op::Vectors(a, b)),
        1 => vecs().prop_map(|(a, b)| Op::Vectors(a, b)),
        1 => (0..3usize, ang(), f3(-1e3, 1e3)).prop_map(|(a, t, v)| Op::Rotation(a, t, v)),
        1 => (ang(), ang(), ang()).prop_map(|(a, b, c)| Op::Pole(a, b, c)),
        1 => real(-1e4, 1e4).prop_map(|t| Op::Fund(F(t))),
        1 => (unit(), unit(), ang()).prop_map(|(a, b, c)| Op::C2iXys(a, b, c)),
        1 => (f3(-1e3, 1e3), ang(), ang(), ang()).prop_map(|(v, a, b, c)| Op::Assemble(v, a, b, c)),
        1 => ((-3.0..12.0f64), 0.0..0.9f64).prop_map(|(e, f)| Op::Ellipsoid(F(10f64.powf(e)), F(f))),
        1 => (finite(), finite()).prop_map(|(a, f)| Op::Ellipsoid(a, f)),
        2 => (0..4u8, lon(), lat(), prop_oneof![4 => real(-1e5, 1e9), 1 => real(-7e7, 1e12)]).prop_map(|(k, o, a, h)| Op::Forward(k, F(o), F(a), F(h))),
        2 => body(),
        2 => outside_point().prop_map(|(k, v)| Op::Backward(k, v)),
        2 => (ang(), prop_oneof![lat(), angle(20.0)], real(-1e6, 1e12)).prop_map(|(a, b, h)| Op::Degrees(a, F(b), F(h))),
    ];
    let at = prop_oneof![
        3 => (prop_oneof![3 => sun_date(), 1 => valid_date(-4799, if wide { 900_000 } else { 3000 })], hms_strategy()).prop_map(|((y, m, d), (h, mi, s))| DateTime { y, m, d, h, mi, s: F(s) }),
        1 => datetime(), // leap seconds among them
    ];
    let sun = (at, site(), offset()).prop_map(|(dt, st, x)| Op::Sun(dt, st, F(x)));
    prop_oneof![5 => models, 8 => cheap, 1 => sun].boxed()
}

/// The same call with one of its arguments (not a date) changed by a small amount.
fn tweak(op: &Op, which: usize, x: f64) -> Op {
    let mut o = op.clone();
    let lim = |f: &mut F, lo: f64, hi: f64| f.0 = (f.0 + x * f.0.abs().max(1.0)).clamp(lo, hi);
    let any = |f: &mut F| {
        let y = f.0 + x * f.0.abs().max(1e-3);
        if y.is_finite() {
            f.0 = y
        }
    };
    match &mut o {
        Op::Date(_, _, _, f) | Op::Tod(f) => lim(f, 0.0, 1.0),
        Op::Hms(_, _, f) | Op::Anp(f) | Op::Rotation(_, f, _) | Op::Scales(_, f) | Op::Fund(f) => any(f),
        Op::Pn(_, a, b) | Op::C2t(_, _, a, b) => any(if which == 0 { a } else { b }),
        Op::Pole(a, b, c) => any([a, b, c][which]),
        Op::Cio(_, a, b) | Op::C2iXy(_, a, b) => lim(if which == 0 { a } else { b }, -0.7, 0.7),
        Op::C2iXys(a, b, c) => match which {
            0 => lim(a, -0.7, 0.7),
            1 => lim(b, -0.7, 0.7),
            _ => any(c),
        },
        Op::Assemble(v, a, b, e) => match which {
            0 => any(&mut v[1]),
            1 => any(a),
            _ => any(if x > 0.0 { b } else { e }),
        },
        Op::Vectors(a, b) => any(if x > 0.0 { &mut a[which] } else { &mut b[which] }),
        Op::Forward(k, lon, lat, h) => match which {
            0 => any(lon),
            1 => lim(lat, -std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2),
            _ if x == 0.0 => *k += 1,
            _ => any(h),
        },
        Op::Backward(k, v) => {
            if x == 0.0 {
                *k += 1
            } else {
                any(&mut v[which])
            }
        }
        Op::Degrees(a, b, h) => any([a, b, h][which]),
        Op::Convert(_, f, lon, lat, _) => match which {
            0 => lim(f, 0.0, 0.9),
            1 => any(lon),
            _ => lim(lat, -std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2),
        },
        Op::Sun(dt, st, d) => match which {
            0 => dt.mi = (dt.mi + 1) % 60,
            1 if x > 0.0 => any(&mut st.height),
            1 => any(&mut st.lon),
            _ => any(d),
        },
        _ => {}
    }
    o
}
/// A deterministic choice of the histories that are also run in a process of their own.
fn in_child(c: &[Op]) -> bool {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{c:?}").hash(&mut h);
    h.finish() % 48 == 0
}
fn run_child(c: &[Op]) -> Res<Vec<String>> {
    use std::io::Write;
    let mut ch = std::process::Command::new(std::env::current_exe().expect("own path"))
        .arg("ops")
        .env("TZ", "Pacific/Auckland")
        .env("LC_ALL", "de_DE.UTF-8")
        .env("RUST_BACKTRACE", "1")
        .current_dir("/")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("child process");
    ch.stdin.take().unwrap().write_all(&serde_json::to_vec(c).unwrap()).expect("write to child");
    let out = ch.wait_with_output().expect("child output");
    assert!(out.status.success(), "child failed");
    serde_json::from_slice::<Result<Vec<String>, String>>(&out.stdout).expect("child result")
}
/// The child's side: calls from stdin, run last to first, each on objects of its own.
pub fn child() -> i32 {
    let ops: Vec<Op> = serde_json::from_reader(std::io::stdin()).expect("calls");
    let r: Res<Vec<String>> = ops.iter().rev().map(|o| exec(o, &mut Ctx::default())).collect();
    let r = r.map(|mut v| {
        v.reverse();
        v
    });
    println!("{}", serde_json::to_string(&r).unwrap());
    0
}

// ------------------------------------------------------------------ C28

pub struct C28;
impl Prop for C28 {
    const ID: &'static str = "C28";
    const RULE: &'static str = "generated histories of 2-10 calls (one in 25: 11-64) drawn from the whole public interface, arguments taken from a small shared pool so that calls repeat, share one part of a date, mirror each other about 2000, or differ in one argument; converters and calculators are kept between calls. The history is run forwards, backwards with fresh objects, forwards again on two threads while a third runs it backwards; about one history in 48 is also run backwards in a fresh process with another locale, time zone and directory; every result must be the same bit for bit. Calls are also repeated with one argument changed a little. Non-trivial: at least two different calls on models with a date.";
    const REPLAYS: u32 = 2000;
    type Case = Vec<Op>;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 90_000 } else { 1_600_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<Op>> {
        // one to three dates, one in five sharing a part; or two that mirror each other about 2000 or differ by whole days
        let (lo, hi) = (DJ00 - 40000.0, DJ00 + 40000.0);
        let twin = (date2(lo, hi), 0..3u8, -40000..40000i32).prop_map(|(d, k, n)| {
            let t = (d.a() - DJ00) + d.b();
            match k {
                0 => vec![D2(F(DJ00), F(t)), D2(F(DJ00), F(-t))],
                1 => vec![d, D2(F(2.0 * DJ00 - d.a()), F(-d.b()))],
                _ if d.a().abs() > d.b().abs() => vec![d, D2(F(d.a() + n as f64), d.1)],
                _ => vec![d, D2(d.0, F(d.b() + n as f64))],
            }
        });
        let pool = prop_oneof![4 => dates(lo, hi, 3), 1 => twin];
        let change = prop_oneof![2 => Just(1e-13), 2 => -1e-9..1e-9f64, 1 => -1e-4..1e-4f64, 1 => -0.1..0.1f64, 1 => Just(0.0)];
        let step = (op_with(Just(D2(F(0.0), F(0.0))).boxed(), false), 0..3usize, 0..3usize, 0..12u8, 0..64usize, change).boxed();
        let steps = prop_oneof![24 => proptest::collection::vec(step.clone(), 2..=10), 1 => proptest::collection::vec(step, 11..=64)];
        (pool, steps)
            .prop_map(|(pool, ops)| {
                let p = |i: usize| pool[i % pool.len()];
                let mut out: Vec<Op> = vec![];
                for (op, i, j, rep, k, x) in ops {
                    let op = match rep {
                        0 if !out.is_empty() => out[k % out.len()].clone(),
                        // an earlier call with one argument changed a little
                        1..=3 if !out.is_empty() => {
                            let o = tweak(&out[k % out.len()], i, x);
                            out.push(o);
                            continue;
                        }
                        _ => op,
                    };
                    // a repeated call with the date replaced, or a new call with a date of the pool
                    let op = match op {
                        Op::Era(_) => Op::Era(p(i)),
                        Op::Nutation(_) => Op::Nutation(p(i)),
                        Op::Precession(_) => Op::Precession(p(i)),
                        Op::Pn(_, x, y) => Op::Pn(p(i), x, y),
                        Op::Cio(_, x, y) => Op::Cio(p(i), x, y),
                        Op::C2i(_) => Op::C2i(p(i)),
                        Op::C2iXy(_, x, y) => Op::C2iXy(p(i), x, y),
                        Op::C2t(_, _, x, y) => Op::C2t(p(i), p(j), x, y),
                        Op::Epv(_) => Op::Epv(p(i)),
                        Op::Scales(_, x) => Op::Scales(p(i), x),
                        Op::FromJulian(_) => Op::FromJulian(p(i)),
                        o => o,
                    };
                    out.push(op);
                }
                out
            })
            .boxed()
    }
    fn check(c: &Vec<Op>) -> Outcome {
        let fwd = |keep: bool| -> Res<Vec<String>> {
            let mut cx = Ctx::default();
            c.iter()
                .map(|o| {
                    if !keep {
                        cx = Ctx::default()
                    }
                    exec(o, &mut cx)
                })
                .collect()
        };
        let back = || -> Res<Vec<String>> {
            let mut v: Vec<String> = c.iter().rev().map(|o| exec(o, &mut Ctx::default())).collect::<Res<_>>()?;
            v.reverse();
            Ok(v)
        };
        let first = fwd(true)?;
        let same = |what: &str, v: Vec<String>| -> Res<()> {
            for (i, (a, b)) in first.iter().zip(&v).enumerate() {
                ensure(a == b, || format!("call {i} ({:?}) gave {a} at first and {b} {what}", c[i]))?;
            }
            Ok(())
        };
        same("when the calls are made in reverse order", back()?)?;
        same("when the calls are made again", fwd(false)?)?;
        let (t1, t2, t3) = std::thread::scope(|s| {
            let a = s.spawn(|| fwd(true));
            let b = s.spawn(|| fwd(false));
            let r = s.spawn(back);
            (a.join(), b.join(), r.join())
        });
        for t in [t1, t2, t3] {
            same("on another thread", t.map_err(|_| "thread failed".to_string())??)?;
        }
        if in_child(c) {
            label("also in a fresh process");
            let v = run_child(c)?;
            same("in a fresh process with another environment, in reverse order", v)?;
        }
        let has_model = |o: &Op| matches!(o, Op::Era(_) | Op::Nutation(_) | Op::Precession(_) | Op::Pn(..) | Op::Cio(..) | Op::C2i(_) | Op::C2iXy(..) | Op::C2t(..) | Op::Epv(_) | Op::Sun(..));
        for o in c {
            label(format!("{o:?}").split('(').next().unwrap());
        }
        label_if(c.len() > 10, "long history");
        Ok(c.iter().filter(|o| has_model(o)).count() >= 2)
    }
}

// ------------------------------------------------------------------ C29

pub struct C29;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Total {
    Valid(Op),
    /// must be refused
    Julian(F, F),
    Fraction(F),
    DatFraction(i32, i32, F),
    BadEllipsoid(F, F),
    BadDate(i32, i32, i32),
}
fn has_nonfinite(s: &str) -> bool {
    s.split(|c: char| !c.is_ascii_alphanumeric()).any(|t| t == "NaN" || t == "inf")
}
impl Prop for C29 {
    const ID: &'static str = "C29";
    const RULE: &'static str = "generated calls of every public function over its whole accepted domain (any accepted calendar date, Julian dates -32000..1e9, two-part dates within a million years, angles to 1e15, any finite angle for anp including multiples of a full turn and the doubles next to them, parallel, opposite and axis-aligned vectors, ellipsoids of radius 1e-3 to 1e12 m and flattening to 0.9 with points there and back, heights down to the centre in the forward direction, leap seconds), and invalid Julian dates, day fractions, dates and ellipsoids including NaN and infinities. Oracle: no panic (debug assertions and overflow checks on), only finite numbers, refusal of invalid input. Non-trivial: everything except calls that are refused for garbage in all arguments.";
    const ASSUME: &'static [&'static str] = &["ellipsoids of radius 1e-3..1e12 m and flattening up to 0.9 for conversions; |X|,|Y| <= 0.7"];
    type Case = Total;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 6_000_000 } else { 40_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Total> {
        let my = super::earth::A_MILLION_YEARS;
        let date = prop_oneof![2 => date2(DJ00 - 40000.0, DJ00 + 40000.0), 2 => date2(DJ00 - my, DJ00 + my), 1 => date2(-1e6, 6e6)].boxed();
        let bad = || {
            prop_oneof![
                3 => proptest::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, -1.0, 2.0, 1e10, -1e10, 1e300, -1e300]),
                1 => (-10.0..300.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 1.0 + 10f64.powf(e) })
            ]
            .prop_map(F)
        };
        let fin = || prop_oneof![Just(0.0), Just(2400000.5), real(-1e7, 1e7)].prop_map(F);
        prop_oneof![
            12 => op_with(date, true).prop_map(Total::Valid),
            1 => prop_oneof![(bad(), fin()), (fin(), bad()), (bad(), bad())].prop_map(|(a, b)| Total::Julian(a, b)),
            1 => bad().prop_map(Total::Fraction),
            1 => (1950..2050i32, 1..=12i32, bad()).prop_map(|(y, m, f)| Total::DatFraction(y, m, f)),
            1 => prop_oneof![(bad(), (0.0..0.9f64).prop_map(F)), ((1.0..1e8f64).prop_map(F), bad()), (bad(), bad())].prop_map(|(a, f)| Total::BadEllipsoid(a, f)),
            1 => (year(i32::MIN, i32::MAX), any::<i32>(), any::<i32>()).prop_map(|(y, m, d)| Total::BadDate(y, m, d)),
        ]
        .boxed()
    }
    fn check(c: &Total) -> Outcome {
        match c {
            Total::Valid(op) => {
                // the property is about calls on valid values; a date the constructor refuses yields an error text
                let s = exec(op, &mut Ctx::default())?;
                ensure(!has_nonfinite(&s), || format!("{op:?} returned a number that is not finite: {s}"))?;
                label(format!("{op:?}").split('(').next().unwrap());
                Ok(!s.starts_with("error"))
            }
            &Total::Julian(F(a), F(b)) => {
                let x = a + b;
                if (-32000.0..=1e9).contains(&x) || (x < -31999.0 && x > -32001.0) || (x > 0.999999e9 && x < 1.000001e9) {
                    return Ok(false);
                }
                let r = lib("from_julian", || GregorianDate::from_julian(a, b))?;
                ensure(r.is_err(), || format!("Julian date ({a:?}, {b:?}) accepted: {r:?}"))?;
                let r = lib("from_julian", || GregorianDateHMS::from_julian(a, b))?;
                ensure(r.is_err(), || format!("Julian date ({a:?}, {b:?}) accepted: {r:?}"))?;
                label("refused Julian date");
                Ok(true)
            }
            &Total::Fraction(F(x)) => {
                if (0.0..=1.0).contains(&x) {
                    return Ok(false);
                }
                let r = lib("from_fraction_of_day", || HMS::from_fraction_of_day(x))?;
                ensure(r.is_err(), || format!("fraction {x:?} accepted: {r:?}"))?;
                label("refused fraction");
                Ok(true)
            }
            &Total::DatFraction(y, m, F(x)) => {
                if (0.0..=1.0).contains(&x) {
                    return Ok(false);
                }
                let g = GregorianDate { year: y, month: m, day: 1 };
                let r = lib("delta_at", || g.delta_at(x))?;
                ensure(r.is_err(), || format!("fraction {x:?} accepted: {r:?}"))?;
                label("refused fraction for TAI-UTC");
                Ok(true)
            }
            &Total::BadEllipsoid(F(a), F(f)) => {
                if a > 0.0 && a.is_finite() && (0.0..1.0).contains(&f) {
                    return Ok(false);
                }
                let r = lib("EllipsoidConverter::new", || EllipsoidConverter::new(&Ellipsoid { a, f }))?;
                ensure(r.is_err(), || format!("ellipsoid a = {a:?}, f = {f:?} accepted"))?;
                label("refused ellipsoid");
                Ok(true)
            }
            &Total::BadDate(y, m, d) => {
                let real = y as i64 >= -4799 && (1..=12).contains(&m) && d >= 1 && d as i64 <= month_len(y as i64, m as i64);
                let r = lib("GregorianDate::new", || GregorianDate::new(y, m, d))?;
                ensure(r.is_ok() == real, || format!("new({y},{m},{d}) gave {r:?}"))?;
                label("refused date");
                Ok(true)
            }
        }
    }
}

// ------------------------------------------------------------------ C30

pub struct C30;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Cli {
    /// date, then the Julian date printed is fed back; the flags say which of hour, minute, second are given
    Gregorian(DateTime, u8),
    Julian(D2, bool),
    /// the bits of `omit` say which options are left out
    Sun { dt: DateTime, site: Site, delta0: F, step: F, count: u8, scan: bool, omit: u16 },
    /// (tool, arguments): must fail without a result
    Bad(u8, Vec<String>),
}
struct Out {
    ok: bool,
    out: String,
    err: String,
}
fn tool(name: &str, args: &[String]) -> Res<Out> {
    let exe = std::env::current_exe().expect("own path");
    let path = exe.parent().unwrap().join(name);
    let o = match std::process::Command::new(&path).args(args).env_clear().stdin(std::process::Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => panic!("cannot run {path:?}: {e}"), // an error of the check, not of the tool
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    Ok(Out { ok: o.status.success(), out, err })
}
fn good(name: &str, args: &[String]) -> Res<String> {
    let r = tool(name, args)?;
    ensure(r.ok, || format!("{name} {args:?} failed: {}{}", r.out, r.err))?;
    Ok(r.out)
}
fn field<'a>(out: &'a str, key: &str) -> Res<&'a str> {
    let mut it = out.lines().filter(|l| l.starts_with(key));
    match (it.next(), it.next()) {
        (Some(l), None) => Ok(l[key.len()..].trim()),
        _ => Err(format!("no single line {key:?} in {out:?}")),
    }
}
fn num(s: &str) -> Res<f64> {
    let x: f64 = s.trim().parse().map_err(|_| format!("not a number: {s:?}"))?;
    ensure(x.is_finite(), || format!("not a finite number: {s:?}"))?;
    Ok(x)
}
fn printed(name: &'static str, s: &str, want: Q, unit: f64) -> Res<()> {
    let s = s.trim();
    let x = num(s)?;
    let dec = s.split_once('.').map_or(0, |p| p.1.len());
    ensure(10f64.powi(-(dec as i32)) <= unit * 1.01, || format!("{name}: {s:?} has too few decimals"))?;
    close(name, x, q(want.v, want.tol + 0.5001 * unit + 2.0 * U * x.abs())).map_err(|e| format!("printed {s:?}: {e}"))
}
fn xyz(s: &str) -> Res<[String; 3]> {
    let bad = || format!("badly formed vector {s:?}");
    let t = s.strip_prefix("X=").ok_or_else(bad)?;
    let (x, t) = t.split_once("Y=").ok_or_else(bad)?;
    let (y, z) = t.split_once("Z=").ok_or_else(bad)?;
    Ok([x.trim().into(), y.trim().into(), z.trim().into()])
}
fn arg(v: &mut Vec<String>, k: &str, x: impl ToString) {
    v.push(k.into());
    v.push(x.to_string());
}
fn sun_block(b: &str, dt: &DateTime, st: &Site, delta: f64) -> Res<()> {
    let w = sun_chain(dt.y as i64, dt.m as i64, dt.d as i64, dt.h, dt.mi, dt.s.0, st.lat.0, st.lon.0, st.height.0, delta, sky);
    ensure(parse_date(field(b, "Date:")?)? == (dt.y as i64, dt.m as i64, dt.d as i64), || format!("date in {b:?}"))?;
    let t = field(b, "Time:")?;
    let (hms, dl) = t.split_once(' ').ok_or_else(|| format!("badly formed time {t:?}"))?;
    let (h, mi, s) = parse_time(hms)?;
    ensure((h, mi) == (dt.h as u32, dt.mi as u32), || format!("time {t:?}"))?;
    near("printed second", s, dt.s.0, 0.5001e-6)?;
    let dl = dl.trim().strip_suffix('s').ok_or_else(|| format!("badly formed offset {t:?}"))?;
    printed("printed offset", dl, q(Dd::new(delta), 0.0), 1e-6)?;
    let jd = field(b, "Julian date:")?;
    let (sum, parts) = jd.split_once('=').ok_or_else(|| format!("badly formed {jd:?}"))?;
    let (p1, p2) = parts.split_once('+').ok_or_else(|| format!("badly formed {jd:?}"))?;
    let ab = |x: Q| q(x.v + 2400000.5, x.tol + 8.0 * U * 2.5e6);
    printed("printed Julian date", sum, ab(w.jd1), 1e-6)?;
    near("sum of the printed parts", num(p1)? + num(p2)?, w.jd1.v.f() + 2400000.5, 1.01e-6)?;
    let (la, lo, he) = parse_position(field(b, "Position:")?)?;
    near("printed latitude", la, st.lat.0, 0.5001e-6)?;
    near("printed longitude", lo, st.lon.0, 0.5001e-6)?;
    near("printed height", he, st.height.0, 0.5001e-2)?;
    let line = |key: &str| -> Res<String> { b.lines().find(|l| l.trim_start().starts_with(key)).map(|l| l.trim().to_string()).ok_or_else(|| format!("no line {key:?} in {b:?}")) };
    let v = xyz(&line("X=")?)?;
    for k in 0..3 {
        printed("printed site", &v[k], q(w.site[k], w.site_tol), 0.1)?;
    }
    printed("printed UTC", field(b, "UTC:")?, ab(w.jd1), 1e-6)?;
    printed("printed TAI-UTC", field(b, "Delta AT:")?, w.dat, 1e-6)?;
    printed("printed TAI", field(b, "TAI:")?, ab(w.tai), 1e-6)?;
    printed("printed TT", field(b, "TT:")?, ab(w.tt), 1e-6)?;
    printed("printed UT1", field(b, "UT1:")?, ab(w.ut1), 1e-6)?;
    let era = field(b, "ERA:")?;
    let e = num(era.strip_suffix('°').ok_or_else(|| format!("badly formed {era:?}"))?)?;
    ensure((0.0..=360.0000005).contains(&e), || format!("printed Earth rotation angle {e} is not in [0, 360]"))?;
    close_angle("printed Earth rotation angle", e.to_radians(), q(w.era.v, w.era.tol + 0.5001e-6f64.to_radians()))?;
    let v = xyz(field(b, "Earth position (AU):")?)?;
    for k in 0..3 {
        printed("printed Earth position", &v[k], q(w.earth[k], w.earth_tol), 1e-13)?;
    }
    let v = xyz(field(b, "Sun position (m):")?)?;
    for k in 0..3 {
        printed("printed Sun position", &v[k], q(w.sun[k], w.sun_tol), 1.0)?;
    }
    let z = field(b, "Sun Zenith angle:")?;
    let (z, el) = z.split_once("or elevation:").ok_or_else(|| format!("badly formed {z:?}"))?;
    let deg = |s: &str| -> Res<f64> { num(s.trim().strip_suffix('°').ok_or_else(|| format!("badly formed {s:?}"))?) };
    let (z, el) = (deg(z)?, deg(el)?);
    let want = w.cosz.v.f().clamp(-1.0, 1.0).acos().to_degrees();
    near("printed zenith angle", z, want, 0.00502)?;
    near("printed elevation", el, 90.0 - want, 0.00502)
}
const JT: &str = "julian_tool";
const ST: &str = "sun_angle_tool";
impl Prop for C30 {
    const ID: &'static str = "C30";
    const RULE: &'static str = "generated command lines for both tools (built from the repository's examples): any accepted date and time, any Julian date in either or two parts, places (poles, date line and beyond), options left out, scan ranges of up to 200 offsets, fed back one into the other; and bad ones (impossible dates, unparsable or missing values, unknown words, out-of-range Julian dates). Output is parsed strictly and compared with the double-double reference, not with the library. Every case is non-trivial.";
    const ASSUME: &'static [&'static str] = &["hours 0-23, minutes 0-59, seconds in [0,60), and leap seconds where there was one (Sun-angle tool)", "the Sun-angle tool is run with an explicit --delta0 (without --scan it reports that one offset)", "an unfinished run of the tool counts as an error of the check"];
    type Case = Cli;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 600_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Cli> {
        let greg = (prop_oneof![5 => valid_date(-4799, 200_000), 1 => valid_date(-4799, 2_700_000)], hms_strategy(), 0..8u8).prop_map(|((y, m, d), (h, mi, s), fl)| Cli::Gregorian(DateTime { y, m, d, h, mi, s: F(s) }, fl));
        let jul = (prop_oneof![5 => date2(-31000.0, 5e6), 1 => date2(-31999.0, 9.99e8)], any::<bool>()).prop_map(|(d, one)| Cli::Julian(d, one));
        let lat = prop_oneof![8 => real(-90.0, 90.0), 1 => proptest::sample::select(vec![90.0, -90.0, 0.0, -0.0, 23.44])];
        let lon = prop_oneof![8 => real(-180.0, 180.0), 1 => proptest::sample::select(vec![180.0, -180.0, 0.0, -0.0, 359.5, -270.0])];
        let st = (lat, lon, prop_oneof![6 => real(-500.0, 9000.0), 1 => real(-5000.0, 9e5)]).prop_map(|(a, o, h)| Site { lat: F(a), lon: F(o), height: F(h) });
        // dyadic offsets and steps, so that the tool's stepping is exact
        let range = prop_oneof![4 => (-4000..4000i32, 1..2000i32), 1 => (-400_000..400_000i32, 1..200_000i32), 1 => (-10_000_000..10_000_000i32, 1..2000i32)];
        let count = prop_oneof![30 => 0..5u8, 1 => 5..=200u8];
        let omit = prop_oneof![3 => Just(0u16), 1 => 0..512u16, 1 => Just(511u16)];
        let sun = (datetime(), st, range, count, any::<bool>(), omit).prop_map(|(dt, site, (d0, step), count, scan, omit)| Cli::Sun {
            dt,
            site,
            delta0: F(d0 as f64 / 4.0),
            step: F(step as f64 / 8.0),
            count,
            scan,
            omit,
        });
        let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
        let word = prop_oneof![Just("x".to_string()), Just("".to_string()), Just("1e3x".to_string()), Just("--day".to_string()), Just("99999999999".to_string()), Just("1.5".to_string()), Just("Jan".to_string())];
        let bad = prop_oneof![
            // impossible dates
            2 => (0..2u8, year(-4799, 9999), 1..=12i32, prop_oneof![29..=40i32, -3..=0i32]).prop_map(|(t, y, m, d)| (t, y, m, d)).prop_map(move |(t, y, m, d)| {
                let d = if d >= 1 && d as i64 <= month_len(y as i64, m as i64) { 0 } else { d };
                let mut v = if t == 0 { vec!["gregorian".to_string()] } else { vec![] };
                arg(&mut v, "--year", y);
                arg(&mut v, "--month", m);
                arg(&mut v, "--day", d);
                Cli::Bad(t, v)
            }),
            1 => (0..2u8, prop_oneof![13..20i32, -5..=0i32]).prop_map(|(t, m)| {
                let mut v = if t == 0 { vec!["g".to_string()] } else { vec![] };
                arg(&mut v, "--year", 2000);
                arg(&mut v, "--month", m);
                arg(&mut v, "--day", 1);
                Cli::Bad(t, v)
            }),
            1 => (0..2u8, -100000..-4799i32).prop_map(|(t, y)| {
                let mut v = if t == 0 { vec!["g".to_string()] } else { vec![] };
                arg(&mut v, "--year", y);
                arg(&mut v, "--month", 5);
                arg(&mut v, "--day", 5);
                Cli::Bad(t, v)
            }),
            // unparsable values
            2 => (0..2u8, 0..5usize, word).prop_map(|(t, k, w)| {
                let mut v = if t == 0 { vec!["gregorian".to_string()] } else { vec![] };
                let keys = ["--year", "--month", "--day", "--hour", if t == 0 { "--minute" } else { "--min" }];
                for (i, key) in keys.iter().enumerate() {
                    if i == k { arg(&mut v, key, &w) } else { arg(&mut v, key, 10) }
                }
                Cli::Bad(t, v)
            }),
            1 => prop_oneof![Just("x"), Just(""), Just("12:00"), Just("--jd2")].prop_map(|w| Cli::Bad(0, vec!["julian".into(), "--jd".into(), w.into()])),
            // refused Julian dates
            1 => (-8.0..10.0f64, any::<bool>(), any::<bool>()).prop_map(|(e, s, two)| {
                let x = if s { -32001.0 - 10f64.powf(e) } else { 1.000001e9 + 10f64.powf(e) };
                let mut v = vec!["j".to_string()];
                arg(&mut v, "--jd", if two { 0.0 } else { x });
                if two { arg(&mut v, "--jd2", x) }
                Cli::Bad(0, v)
            }),
            1 => prop_oneof![Just("nan"), Just("inf"), Just("-inf"), Just("NaN")].prop_map(|w| Cli::Bad(0, vec!["julian".into(), "--jd".into(), w.into()])),
            // missing or unknown
            2 => proptest::sample::select(vec![
                Cli::Bad(0, vec![]), Cli::Bad(0, s(&["gregorian"])), Cli::Bad(0, s(&["julian"])), Cli::Bad(0, s(&["sideways", "--jd", "2451545"])),
                Cli::Bad(0, s(&["g", "--year", "2000", "--month", "1"])), Cli::Bad(0, s(&["g", "--year", "2000", "--day", "1"])), Cli::Bad(0, s(&["g", "--month", "1", "--day", "1"])),
                Cli::Bad(0, s(&["j", "--jd2", "2451545"])), Cli::Bad(0, s(&["j", "--jd"])), Cli::Bad(0, s(&["j", "--jd", "2451545", "--extra"])), Cli::Bad(0, s(&["j", "--jd", "2451545", "1"])),
                Cli::Bad(1, s(&["--what"])), Cli::Bad(1, s(&["--lat"])), Cli::Bad(1, s(&["--lat", "north"])), Cli::Bad(1, s(&["--scan", "--delta_step", "x"])), Cli::Bad(1, s(&["2007"])), Cli::Bad(1, s(&["--hour", "256"])), Cli::Bad(1, s(&["--delta0", "zero"])),
            ]),
        ];
        prop_oneof![4 => greg, 4 => jul, 3 => sun, 3 => bad].boxed()
    }
    fn check(c: &Cli) -> Outcome {
        match c {
            Cli::Gregorian(dt, fl) => {
                let mut a = vec![if fl % 2 == 0 { "gregorian" } else { "g" }.to_string()];
                arg(&mut a, "--year", dt.y);
                arg(&mut a, "--month", dt.m);
                arg(&mut a, "--day", dt.d);
                let (mut h, mut mi, mut s) = (12u8, 0u8, 0.0);
                if fl & 1 == 0 || fl & 2 != 0 {
                    h = dt.h;
                    arg(&mut a, "--hour", h);
                }
                if fl & 4 == 0 {
                    mi = dt.mi;
                    s = dt.s.0;
                    arg(&mut a, "--minute", mi);
                    arg(&mut a, "--second", format!("{s:?}"));
                }
                let o = good(JT, &a)?;
                ensure(parse_date(field(&o, "Gregorian date:")?)? == (dt.y as i64, dt.m as i64, dt.d as i64), || format!("{a:?} printed {o:?}"))?;
                let (ph, pm, ps) = parse_time(field(&o, "Time:")?)?;
                ensure((ph, pm) == (h as u32, mi as u32), || format!("{a:?} printed {o:?}"))?;
                near("printed second", ps, s, 0.5001e-6)?;
                let n = days_from_civil(dt.y as i64, dt.m as i64, dt.d as i64);
                let fd = (Dd::new(s) + (3600.0 * h as f64 + 60.0 * mi as f64)) / 86400.0;
                let jd = fd + 2400000.5 + n as f64;
                let t = field(&o, "Julian date:")?;
                printed("printed Julian date", t, q(jd, 4.0 * U * jd.f().abs()), 1e-6)?;
                printed("printed fraction of day", field(&o, "Fraction of day:")?, q(fd, 4.0 * U), 1e-6)?;
                // fed back
                let b = vec!["julian".to_string(), "--jd".into(), t.into()];
                let o2 = good(JT, &b)?;
                let (y, m, d) = parse_date(field(&o2, "Gregorian date:")?)?;
                let (ph, pm, ps) = parse_time(field(&o2, "Time:")?)?;
                let back = Dd::new(days_from_civil(y, m, d) as f64) + (Dd::new(ps) + (3600.0 * ph as f64 + 60.0 * pm as f64)) / 86400.0 + 2400000.5;
                close("round trip through both tools", (back - jd).f(), q(ZERO, 0.51e-6 + 1e-11 + 8.0 * U * jd.f().abs())).map_err(|e| format!("{a:?} then {b:?} gave {o2:?}: {e}"))?;
                label("gregorian");
                Ok(true)
            }
            Cli::Julian(d, one) => {
                let (mut x, y) = d.p();
                let mut a = vec![if *one { "j" } else { "julian" }.to_string()];
                if *one {
                    x = d.dd().f();
                }
                arg(&mut a, "--jd", format!("{x:?}"));
                if !*one {
                    arg(&mut a, "--jd2", format!("{y:?}"));
                }
                let t = if *one { Dd::new(x) } else { d.dd() };
                let o = good(JT, &a)?;
                printed("printed Julian date", field(&o, "Julian date:")?, q(t, 2.0 * U * t.f().abs()), 1e-14)?;
                let (yy, m, dd) = parse_date(field(&o, "Gregorian date:")?)?;
                let f = num(field(&o, "Fraction of day:")?)?;
                ensure((0.0..1.0).contains(&f) && (1..=12).contains(&m) && dd >= 1 && dd <= month_len(yy, m), || format!("{a:?} printed {o:?}"))?;
                let n = days_from_civil(yy, m, dd) as f64;
                let tol = 8.0 * U * (1.0 + if *one { x.abs() * 0.5 } else { x.abs().min(y.abs()) + if (x < y) == (x.abs() > y.abs()) { x.abs().max(y.abs()) } else { 0.0 } });
                close("instant printed", (Dd::new(n) + 2400000.5 + f - t).f(), q(ZERO, tol)).map_err(|e| format!("{a:?} printed {o:?}: {e}"))?;
                let (ph, pm, ps) = parse_time(field(&o, "Time:")?)?;
                near("time printed", ps + 3600.0 * ph as f64 + 60.0 * pm as f64, 86400.0 * f, 0.51e-6)?;
                // fed back
                if yy >= -4799 {
                    let mut b = vec!["g".to_string()];
                    arg(&mut b, "--year", yy);
                    arg(&mut b, "--month", m);
                    arg(&mut b, "--day", dd);
                    arg(&mut b, "--hour", ph);
                    arg(&mut b, "--minute", pm);
                    arg(&mut b, "--second", ps);
                    let o2 = good(JT, &b)?;
                    let j = num(field(&o2, "Julian date:")?)?;
                    close("round trip through both tools", j, q(t, 0.51e-6 + 1e-11 + tol + 8.0 * U * t.f().abs())).map_err(|e| format!("{a:?} then {b:?} gave {o2:?}: {e}"))?;
                }
                label("julian");
                Ok(true)
            }
            Cli::Sun { dt, site, delta0, step, count, scan, omit } => {
                let d0 = delta0.0;
                let (mut dt, mut site) = (dt.clone(), site.clone());
                // an option left out stands for the library's default parameters
                let std = lib("SunAngleParameters::default", SunAngleParameters::default)?;
                let mut a = vec![];
                let mut opt = |k: u32, name: &str, x: String| {
                    let out = omit >> k & 1 == 1;
                    if !out {
                        arg(&mut a, name, x);
                    }
                    out
                };
                if opt(0, "--year", dt.y.to_string()) {
                    dt.y = std.date.year;
                }
                if opt(1, "--month", dt.m.to_string()) {
                    dt.m = std.date.month;
                }
                // the day given with the default month or year must exist
                if omit & 7 != 0 {
                    dt.d = dt.d.min(28);
                }
                if opt(2, "--day", dt.d.to_string()) {
                    dt.d = std.date.day;
                }
                if opt(3, "--hour", dt.h.to_string()) {
                    dt.h = std.time.hour;
                }
                if opt(4, "--min", dt.mi.to_string()) {
                    dt.mi = std.time.minute;
                }
                if opt(5, "--sec", format!("{:?}", dt.s.0)) {
                    dt.s = F(std.time.second);
                }
                if opt(6, "--lat", format!("{:?}", site.lat.0)) {
                    site.lat = F(std.position.lat);
                }
                if opt(7, "--lon", format!("{:?}", site.lon.0)) {
                    site.lon = F(std.position.lon);
                }
                if opt(8, "--height", format!("{:?}", site.height.0)) {
                    site.height = F(std.position.height);
                }
                label_if(*omit != 0, "options left out");
                let (dt, site) = (&dt, &site);
                arg(&mut a, "--delta0", format!("{d0:?}"));
                let mut want = 1;
                if *scan {
                    // the end lies on a step, or halfway to the next
                    let half = if count % 2 == 1 { 0.5 } else { 0.0 };
                    arg(&mut a, "--delta1", format!("{:?}", d0 + step.0 * (*count as f64 + half)));
                    arg(&mut a, "--delta_step", format!("{:?}", step.0));
                    a.push("--scan".into());
                    want = *count as usize + 1;
                } else if d0 > 600.0 {
                    arg(&mut a, "--delta1", format!("{:?}", d0 + 1.0));
                }
                let o = good(ST, &a)?;
                let mut blocks: Vec<String> = vec![];
                for l in o.lines() {
                    if l.starts_with("Date:") {
                        blocks.push(String::new());
                    }
                    if let Some(b) = blocks.last_mut() {
                        b.push_str(l);
                        b.push('\n');
                    }
                }
                ensure(blocks.len() == want, || format!("{a:?} printed {} results, expected {want}", blocks.len()))?;
                for (i, b) in blocks.iter().enumerate() {
                    sun_block(b, dt, site, d0 + i as f64 * step.0).map_err(|e| format!("{a:?}, result {i}: {e}"))?;
                }
                label(if *scan { "sun angle, scan" } else { "sun angle" });
                Ok(true)
            }
            Cli::Bad(t, a) => {
                let name = if *t == 0 { JT } else { ST };
                let r = tool(name, a)?;
                ensure(!r.ok, || format!("{name} {a:?} succeeded: {}", r.out))?;
                for k in ["Gregorian date:", "Time:", "Fraction of day:", "Date:", "Sun Zenith"] {
                    ensure(!r.out.contains(k), || format!("{name} {a:?} failed but printed a result: {}", r.out))?;
                }
                label("bad arguments");
                Ok(true)
            }
        }
    }
}
