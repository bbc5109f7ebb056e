//! C11-C13, C20, C21: Earth rotation, polar motion, fundamental arguments, ephemeris.
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::earth::{EarthPosVel, EarthPosVelWarning, polar_motion_matrix, rotation_angle};
use tofas::time::{TDB, UT1};

pub const A_MILLION_YEARS: f64 = 365.25e6;

/// Dates for the model functions: mostly the modern era, some historical and remote.
pub fn model_dates(maxn: usize) -> BoxedStrategy<Vec<D2>> {
    let j = |y: f64| DJ00 + (y - 2000.0) * 365.25;
    prop_oneof![
        5 => dates(j(1900.0), j(2100.0), maxn),
        2 => dates(j(1500.0), j(2500.0), maxn),
        2 => dates(j(-3000.0), j(7000.0), maxn),
        1 => dates(j(-1e5), j(1e5), maxn),
    ]
    .boxed()
}
pub fn nontrivial_date(d: &D2) -> bool {
    d.b() != 0.0 && d.a() != 0.0 || d.dd().f() < DJ00
}

// ------------------------------------------------------------------ C11

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "generated UT1 dates (1900-2100 mostly, out to a million years; midnights, noons, instants where the angle is a multiple of 15 degrees, and their neighbours) in 14 kinds of split and both orders, one to three evaluated in a row; the angle is compared with a double-double evaluation of the formula, its tolerance following the parts as given. Non-trivial: both parts non-zero, or a date before 2000.";
    type Case = Vec<D2>;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 16_000_000 } else { 120_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<D2>> {
        let turn = (turn_instant(DJ00 - 36525.0, DJ00 + 36525.0), split_kind()).prop_map(|(i, s)| vec![apply_split(i, &s)]);
        prop_oneof![8 => model_dates(3), 1 => dates(DJ00 - A_MILLION_YEARS, DJ00 + A_MILLION_YEARS, 2), 1 => turn].boxed()
    }
    fn check(c: &Vec<D2>) -> Outcome {
        for d in c {
            let (a, b) = d.p();
            let got = lib("rotation_angle", || rotation_angle(UT1((a, b))))?;
            ensure((0.0..TWO_PI.hi).contains(&got), || format!("rotation angle {got:?} is not in [0, 2pi)"))?;
            close_angle("rotation angle", got, era(a, b)).map_err(|e| format!("({a:?}, {b:?}): {e}"))?;
            label_split(d);
        }
        Ok(c.iter().any(nontrivial_date))
    }
}

// ------------------------------------------------------------------ C12

pub struct C12;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pole(pub F, pub F, pub F);
pub fn pole_angle() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => real(-5e-6, 5e-6),
        2 => (-1.0..1.0f64).prop_map(|x| x * 4.848136811095359935899141e-6),
        2 => angle(10.0),
        1 => Just(0.0),
        1 => (-20.0..0.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) }),
    ]
    .boxed()
}
impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "generated pole coordinates and TIO locators (arcseconds as in practice, exact zeros, tiny, and any angle up to +-10 rad); compared entry by entry with the double-double product of the three rotations, plus orthogonality and determinant. Non-trivial: at least two of the three non-zero.";
    type Case = Pole;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 9_000_000 } else { 40_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Pole> {
        (pole_angle(), pole_angle(), pole_angle()).prop_map(|(x, y, s)| Pole(F(x), F(y), F(s))).boxed()
    }
    fn check(&Pole(F(x), F(y), F(s)): &Pole) -> Outcome {
        let m = lib("polar_motion_matrix", || polar_motion_matrix(x, y, s))?;
        close_m("polar-motion matrix", &m, &polar_motion(x, y, s), 16.0 * U)?;
        // off-diagonal entries of a small rotation are small: hold them to relative accuracy
        let big = x.abs().max(y.abs()).max(s.abs());
        if big < 0.1 {
            let w = polar_motion(x, y, s);
            for i in 0..3 {
                for j in 0..3 {
                    if i != j {
                        close("small entry", m[i][j], q(w[i][j], 16.0 * U * big))?;
                    }
                }
            }
        }
        proper_rotation("polar-motion matrix", &m, 24.0 * U)?;
        if x == 0.0 && y == 0.0 && s == 0.0 {
            ensure(m == [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], || format!("not the identity for zero arguments: {m:?}"))?;
        }
        let nz = (x != 0.0) as u8 + (y != 0.0) as u8 + (s != 0.0) as u8;
        label(["no rotation", "one rotation", "two rotations", "three rotations"][nz as usize]);
        Ok(nz >= 2)
    }
}

// ------------------------------------------------------------------ C13

pub struct C13;
impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "generated times in Julian centuries from J2000: +-1 mostly, +-10, out to +-10000, zero, whole centuries and neighbours, tiny; all eight arguments are compared modulo one turn with double-double polynomials. Non-trivial: |t| > 1e-9.";
    type Case = F;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000_000 } else { 50_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<F> {
        prop_oneof![6 => real(-1.0, 1.0), 3 => real(-10.0, 10.0), 2 => real(-100.0, 100.0), 1 => real(-1e4, 1e4), 1 => (-120i64..120, -2..=2i32).prop_map(|(k, n)| nudge(k as f64 / 10.0, n))]
            .prop_map(F)
            .boxed()
    }
    fn check(&F(t): &F) -> Outcome {
        use tofas::fundargs::*;
        let fs: [(&'static str, fn(f64) -> f64); 8] = [("l", l03), ("l'", lp03), ("F", f03), ("D", d03), ("Omega", om03), ("Venus", ve03), ("Earth", e03), ("pA", pa03)];
        for (i, (name, f)) in fs.iter().enumerate() {
            let got = lib(name, || f(t))?;
            let (w, _) = fundarg(i, Dd::new(t));
            // error: rounding of the polynomial before reduction
            let (c, asec) = FA[i];
            let (_, mag) = poly(c, Dd::new(t));
            let tol = 6.0 * U * mag * if asec { 4.8482e-6 } else { 1.0 } + 4.0 * U * 7.0 + if asec { 0.0 } else { 2.5e-16 * mag / 6.0 };
            if i == 7 {
                close(name, got, q(w, 8.0 * U * mag + 1e-300))?;
            } else {
                close_angle(name, got, q(w, tol))?;
            }
        }
        label(if t < 0.0 { "before 2000" } else { "after 2000" });
        label_if(t.abs() > 1.0, "more than a century away");
        Ok(t.abs() > 1e-9)
    }
}

// ------------------------------------------------------------------ C20

pub const ERA_LO: f64 = DJ00 - 36525.0;
pub const ERA_HI: f64 = DJ00 + 36525.0;

pub struct C20;
impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "generated TDB dates: 1900-2100 (both sides of 2000, the range ends and their neighbours), and out to +-100000 years, 14 kinds of split, one to three in a row; all twelve components are compared with a double-double evaluation of the series from the published Fortran coefficients (2100 terms), and the warning with the range. Non-trivial: both parts non-zero, or before 2000.";
    const ASSUME: &'static [&'static str] = &["exactly 100 Julian years from J2000 the warning is unspecified", "coefficients were taken from fortran/epv00.for of the repository when the harness was written and are part of the harness"];
    type Case = Vec<D2>;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 80_000 } else { 1_300_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<D2>> {
        let ends = (any::<bool>(), prop_oneof![Just(0.0), (-9.0..2.0f64).prop_map(|e| 10f64.powf(e))], any::<bool>(), split_kind()).prop_map(|(hi, e, out, s)| {
            let x = if hi { ERA_HI } else { ERA_LO } + if hi == out { e } else { -e };
            let d = x.floor();
            // keep the distance from the end exact in the fraction
            let base = if hi { ERA_HI } else { ERA_LO };
            let f = (base - d) + if hi == out { e } else { -e };
            vec![apply_split((d, f), &s)]
        });
        prop_oneof![6 => dates(ERA_LO, ERA_HI, 3), 3 => model_dates(2), 1 => ends].boxed()
    }
    fn check(c: &Vec<D2>) -> Outcome {
        for d in c {
            let (a, b) = d.p();
            let r = lib("EarthPosVel::from", || EarthPosVel::from(TDB((a, b))))?;
            let t = time(a, b);
            let w = epv(&t);
            close_v("heliocentric position", &r.heliocentric.p, &w.ph, w.tolp)?;
            close_v("heliocentric velocity", &r.heliocentric.v, &w.vh, w.tolv)?;
            close_v("barycentric position", &r.barycentric.p, &w.pb, w.tolp)?;
            close_v("barycentric velocity", &r.barycentric.v, &w.vb, w.tolv)?;
            let far = t.days.f().abs();
            let slack = 1e-9 + 4.0 * t.err;
            if far > 36525.0 + slack {
                ensure(matches!(r.warning, Some(EarthPosVelWarning::DateOutOfRange)), || format!("no warning {} days from J2000", t.days.f()))?;
                label("out of range");
            } else if far < 36525.0 - slack {
                ensure(r.warning.is_none(), || format!("warning {} days from J2000", t.days.f()))?;
                label("in range");
            }
            label_split(d);
        }
        label_if(c.len() > 1, "several dates in a row");
        Ok(c.iter().any(nontrivial_date))
    }
}

// ------------------------------------------------------------------ C21

pub struct C21;
impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "generated instants in 1900-2100; library positions at +-1/8 and +-1/4 day give the derivative (five-point formula) that the reported velocity must equal; distances and the direction of the Sun are compared with physical bounds and with the Astronomical Almanac's low-precision formula. No use of the series. Every case is non-trivial except J2000 itself.";
    const ASSUME: &'static [&'static str] = &["derivative compared to 3e-11 AU/day, direction to 0.05 degree (light time, aberration and nutation neglected)"];
    type Case = D2;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 450_000 } else { 5_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<D2> {
        instant(ERA_LO + 2.0, ERA_HI - 2.0).prop_map(|(d, f)| D2(F(d), F(f))).boxed()
    }
    fn check(c: &D2) -> Outcome {
        let (a, b) = c.p();
        let at = |dt: f64| lib("EarthPosVel::from", || EarthPosVel::from(TDB((a, b + dt))));
        let h = 0.125;
        let r = at(0.0)?;
        let (p1, m1, p2, m2) = (at(h)?, at(-h)?, at(2.0 * h)?, at(-2.0 * h)?);
        let der = |f: &dyn Fn(&EarthPosVel) -> [f64; 3]| -> [f64; 3] {
            let (a1, b1, a2, b2) = (f(&p1), f(&m1), f(&p2), f(&m2));
            std::array::from_fn(|k| (8.0 * (a1[k] - b1[k]) - (a2[k] - b2[k])) / (12.0 * h))
        };
        let dh = der(&|r| r.heliocentric.p);
        let db = der(&|r| r.barycentric.p);
        for k in 0..3 {
            near("heliocentric velocity as a derivative", r.heliocentric.v[k], dh[k], 3e-11).map_err(|e| format!("[{k}] {e}"))?;
            near("barycentric velocity as a derivative", r.barycentric.v[k], db[k], 3e-11).map_err(|e| format!("[{k}] {e}"))?;
        }
        // continuity across the neighbouring days
        for (x, y) in [(&m2, &m1), (&m1, &r), (&r, &p1), (&p1, &p2)] {
            for k in 0..3 {
                near("step in a quarter day", y.heliocentric.p[k] - x.heliocentric.p[k], 0.5 * h * (x.heliocentric.v[k] + y.heliocentric.v[k]), 1e-7)?;
                near("step in a quarter day", y.barycentric.p[k] - x.barycentric.p[k], 0.5 * h * (x.barycentric.v[k] + y.barycentric.v[k]), 1e-7)?;
            }
        }
        let n = |v: &[f64; 3]| (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        let rh = n(&r.heliocentric.p);
        ensure((0.975..=1.025).contains(&rh), || format!("distance to the Sun {rh} AU"))?;
        let sun: [f64; 3] = std::array::from_fn(|k| r.barycentric.p[k] - r.heliocentric.p[k]);
        ensure(n(&sun) < 0.012, || format!("Sun {} AU from the barycentre", n(&sun)))?;
        ensure(r.warning.is_none(), || "warning inside 1900-2100".into())?;
        // direction of the Sun, mean equator of date
        let t = time(a, b);
        let bp = bias_precession(&t);
        let v: [f64; 3] = std::array::from_fn(|i| -(0..3).map(|j| bp.rbp[i][j].f() * r.heliocentric.p[j]).sum::<f64>() / rh);
        let (ra, dec) = almanac_sun(t.days.f());
        let w = [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()];
        let chord = n(&[v[0] - w[0], v[1] - w[1], v[2] - w[2]]);
        near("direction of the Sun against the almanac", chord, 0.0, 0.05f64.to_radians())?;
        label(if t.days.f() < 0.0 { "before 2000" } else { "after 2000" });
        Ok(t.days.f() != 0.0)
    }
}
