//! C22-C25: ellipsoids and positions.
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, EllipsoidError, Geodetic, Geodetic360};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct El {
    pub a: F,
    pub f: F,
}
const EARTHS: [(f64, f64); 9] = [
    (6378137.0, 1.0 / 298.257223563), // WGS84
    (6378137.0, 1.0 / 298.257222101), // GRS80
    (6378135.0, 1.0 / 298.26),        // WGS72
    (6378249.145, 1.0 / 293.465),     // Clarke 1880
    (6377397.155, 1.0 / 299.1528128), // Bessel
    (6371000.0, 0.0),                 // sphere
    (3396190.0, 0.00589),             // Mars
    (71492000.0, 0.06487),            // Jupiter
    (60268000.0, 0.09796),            // Saturn
];
fn el(fmax: f64) -> BoxedStrategy<El> {
    let es: Vec<(f64, f64)> = EARTHS.iter().cloned().filter(|e| e.1 <= fmax).collect();
    prop_oneof![
        5 => Just((6378137.0, 1.0 / 298.257223563)),
        3 => proptest::sample::select(es),
        2 => ((0.0..9.0f64).prop_map(|e| 10f64.powf(e)), prop_oneof![3 => 0.0..fmax, 1 => (-12.0..0.0f64).prop_map(move |e| 10f64.powf(e) * fmax), 1 => Just(0.0), 1 => Just(fmax)]),
    ]
    .prop_map(|(a, f)| El { a: F(a), f: F(f) })
    .boxed()
}
fn conv(e: &El) -> Res<EllipsoidConverter> {
    lib("EllipsoidConverter::new", || EllipsoidConverter::new(&Ellipsoid { a: e.a.0, f: e.f.0 }))?.map_err(|x| format!("valid ellipsoid {e:?} refused: {x}"))
}
pub fn lat() -> BoxedStrategy<f64> {
    let h = std::f64::consts::FRAC_PI_2;
    prop_oneof![
        5 => real_with(-h, h, &[0.0, h, -h, h / 2.0, h / 3.0]),
        1 => (-17.0..0.0f64, any::<bool>()).prop_map(move |(e, s)| { let x = (h - 10f64.powf(e)).max(0.0); if s { -x } else { x } }),
        1 => (-17.0..0.0f64, any::<bool>()).prop_map(|(e, s)| { let x = 10f64.powf(e).min(1.57); if s { -x } else { x } }),
        1 => (-90..=90i32).prop_map(move |k| (k as f64).to_radians().clamp(-h, h)),
    ]
    .boxed()
}
pub fn lon() -> BoxedStrategy<f64> {
    prop_oneof![4 => angle(std::f64::consts::PI), 1 => angle(7.0), 1 => (-180..=180i32).prop_map(|k| (k as f64).to_radians())].boxed()
}
/// Height as a fraction of the radius.
fn rel_height(lo: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -0.002..0.01f64,
        1 => lo..0.0f64,
        2 => 0.0..0.2f64,
        2 => 0.0..6.0f64,
        1 => (-14.0..3.0f64).prop_map(|e| 10f64.powf(e)),
        1 => Just(0.0),
        1 => prop_oneof![Just(-1.0), Just(1.0)],
        1 => (-14.0..-2.0f64).prop_map(|e| -10f64.powf(e)),
    ]
    .prop_map(move |x: f64| x.max(lo))
    .boxed()
}
fn norm3(v: &[f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
fn label_place(lat: f64, lon: f64, h: f64, a: f64) {
    label(if lat < 0.0 { "south" } else { "north" });
    label(match (lon.cos() >= 0.0, lon.sin() >= 0.0) {
        (true, true) => "longitude 0..90",
        (false, true) => "longitude 90..180",
        (false, false) => "longitude -180..-90",
        _ => "longitude -90..0",
    });
    label_if(lat.abs() > 1.57079, "next to a pole");
    label_if(lat.abs() < 1e-6, "next to the equator");
    label(if h < 0.0 {
        "below the surface"
    } else if h < 0.01 * a {
        "near the surface"
    } else if h < a {
        "low orbit"
    } else {
        "far out"
    });
}

// ------------------------------------------------------------------ C22

pub struct C22;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Place {
    pub el: El,
    pub lon: F,
    pub lat: F,
    pub h: F,
}
impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "generated ellipsoids (WGS84 and eight others, radii 1 to 1e9 m, flattening 0 to 0.99), longitudes, latitudes (poles, equator, neighbours; also beyond a quarter turn) and heights from inside to 1e12 radii either way; compared with a double-double evaluation of the surface point plus height times outward normal, the surface point itself checked to satisfy the ellipsoid equation. Non-trivial: latitude and height non-zero.";
    type Case = Place;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 9_000_000 } else { 40_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Place> {
        let e = prop_oneof![6 => el(0.1), 1 => el(0.99)];
        (e, lon(), prop_oneof![9 => lat(), 1 => angle(7.0)], prop_oneof![12 => rel_height(-0.5), 3 => rel_height(-3.0), 1 => (3.0..12.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) })])
            .prop_map(|(e, lon, lat, h)| Place { el: e, lon: F(lon), lat: F(lat), h: F(h * e.a.0) })
            .boxed()
    }
    fn check(c: &Place) -> Outcome {
        let cv = conv(&c.el)?;
        let (a, f, lon, lat, h) = (c.el.a.0, c.el.f.0, c.lon.0, c.lat.0, c.h.0);
        let gd = Geodetic { elong: lon, phi: lat, height: h };
        let xyz = lib("geodetic_to_geocentric", || cv.geodetic_to_geocentric(&gd))?.map_err(|e| format!("position refused: {e}"))?;
        let (w, tol) = geodetic_to_xyz(a, f, Dd::new(lon), Dd::new(lat), h);
        close_v("geocentric coordinates", &xyz, &w, tol)?;
        let z = lib("zenith", || gd.zenith())?;
        let (sp, cp) = Dd::new(lat).sincos();
        let (sl, cl) = Dd::new(lon).sincos();
        close_v("zenith", &z, &[cp * cl, cp * sl, sp], 4.0 * U)?;
        // the definition itself: the foot of the height lies on the ellipsoid, whose gradient there is along the zenith
        let foot = lib("geodetic_to_geocentric", || cv.geodetic_to_geocentric(&Geodetic { height: 0.0, ..gd }))?.map_err(|e| format!("position refused: {e}"))?;
        let d = Dd::new;
        let b = d(a) * (ONE - d(f));
        let q2 = (d(foot[0]) / a).sq() + (d(foot[1]) / a).sq() + (d(foot[2]) / b).sq();
        let ill = 1.0 / (1.0 - f).powi(2);
        close("ellipsoid equation", q2.f(), q(ONE, 40.0 * U * ill))?;
        for k in 0..3 {
            near("height along the zenith", xyz[k] - foot[k], h * z[k], 24.0 * U * ill * (a + h.abs()))?;
        }
        label_place(lat, lon, h, a);
        label_if(f == 0.0, "sphere");
        label_if(f > 0.1, "strongly flattened");
        Ok(lat != 0.0 && h != 0.0)
    }
}

// ------------------------------------------------------------------ C23

pub struct C23;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pt {
    pub el: El,
    pub xyz: [F; 3],
}
pub const DEEPEST: f64 = -0.0157;
fn pt() -> BoxedStrategy<Pt> {
    let geo = (el(0.1), lon(), lat(), rel_height(DEEPEST * 0.9)).prop_map(|(e, lon, lat, h)| {
        let (v, _) = geodetic_to_xyz(e.a.0, e.f.0, Dd::new(lon), Dd::new(lat), h * e.a.0);
        Pt { el: e, xyz: v.map(|x| F(x.f())) }
    });
    // straight from Cartesian directions, at least one equatorial radius out
    let c = || prop_oneof![4 => -1.0..1.0f64, 1 => Just(0.0), 1 => Just(-0.0), 1 => (-20.0..0.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) })];
    let cart = (el(0.1), [c(), c(), c()], prop_oneof![2 => 0.0..0.2f64, 1 => (-14.0..3.0f64).prop_map(|e| 10f64.powf(e))]).prop_map(|(e, v, h)| {
        let n = norm3(&v);
        let v = if n < 1e-30 { [0.0, 0.0, 1.0] } else { v.map(|x| x / n) };
        let s = e.a.0 * (1.0 + 1e-9 + h);
        Pt { el: e, xyz: v.map(|x| F(x * s)) }
    });
    let axis = (el(0.1), any::<bool>(), rel_height(DEEPEST * 0.9), prop_oneof![3 => Just((0.0, 0.0)), 1 => Just((-0.0, -0.0)), 1 => Just((0.0, -0.0)), 2 => (-40.0..-10.0f64, angle(3.2)).prop_map(|(e, t)| (10f64.powf(e) * t.cos(), 10f64.powf(e) * t.sin()))]).prop_map(|(e, s, h, (x, y))| {
        let a = e.a.0;
        let z = a * (1.0 - e.f.0) + h * a;
        Pt { el: e, xyz: [F(x * a), F(y * a), F(if s { -z } else { z })] }
    });
    prop_oneof![5 => geo, 3 => cart, 1 => axis].boxed()
}
/// Angle (rad) by which the closed-form latitude may miss: the method's own truncation.
pub fn method_error(a: f64, f: f64, r: f64) -> f64 {
    let h = (r - a).abs().max((r - a * (1.0 - f)).abs()) / a;
    4.0 * f.powi(4) * h.powi(3).min(1.0)
}
impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "generated ellipsoids (WGS84 and eight others, radii 1 to 1e9 m, flattening 0 to 0.1) and points from 1.4 % of the radius below the surface to a thousand radii out, made from geodetic coordinates, from Cartesian directions (axes and signed zeros included) and on or next to the polar axis; the returned position is converted back by the double-double reference and by the library. Non-trivial: off the axis and the equatorial plane.";
    const ASSUME: &'static [&'static str] = &["beyond rounding the closed-form method may miss the latitude by 4 f^4 min(|h/a|^3, 1) rad (measured maximum about half that)"];
    type Case = Pt;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 10_000_000 } else { 60_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Pt> {
        pt()
    }
    fn check(c: &Pt) -> Outcome {
        let cv = conv(&c.el)?;
        let (a, f) = (c.el.a.0, c.el.f.0);
        let p = c.xyz.map(|x| x.0);
        let g = lib("geocentric_to_geodetic", || cv.geocentric_to_geodetic(&p))?;
        let pi = std::f64::consts::PI;
        ensure((-pi..=pi).contains(&g.elong), || format!("longitude {:?} out of range", g.elong))?;
        ensure((-pi / 2.0..=pi / 2.0).contains(&g.phi), || format!("latitude {:?} out of range", g.phi))?;
        ensure(g.height.is_finite(), || format!("height {:?}", g.height))?;
        let r = norm3(&p);
        if p[0] == 0.0 && p[1] == 0.0 {
            ensure(g.elong == 0.0, || format!("longitude {:?} on the polar axis", g.elong))?;
            near("latitude on the polar axis", g.phi.abs(), pi / 2.0, 0.0)?;
            label("on the polar axis");
        }
        let tol = 24.0 * U * (r + a) + method_error(a, f, r) * r;
        let (w, _) = geodetic_to_xyz(a, f, Dd::new(g.elong), Dd::new(g.phi), g.height);
        for k in 0..3 {
            close("point given back", p[k], q(w[k], tol)).map_err(|e| format!("{g:?}: [{k}] {e}"))?;
        }
        let back = lib("geodetic_to_geocentric", || cv.geodetic_to_geocentric(&g))?.map_err(|e| format!("own result refused: {e}"))?;
        for k in 0..3 {
            near("point given back by the library", back[k], p[k], tol + 24.0 * U * (r + a))?;
        }
        // the longitude of a point off the axis is its azimuth, the side of the equator is kept
        let rho = p[0].hypot(p[1]);
        if rho > 1e-12 * a {
            close_angle("longitude", g.elong, q(Dd::atan2(Dd::new(p[1]), Dd::new(p[0])), 8.0 * U * pi))?;
        }
        ensure(p[2] == 0.0 && g.phi == 0.0 || p[2].abs() < 1e-12 * r || (p[2] < 0.0) == (g.phi < 0.0), || format!("z = {:?} but latitude {:?}", p[2], g.phi))?;
        // the component along the normal is the height: exact to rounding even where the latitude is not
        let (sp, cp) = Dd::new(g.phi).sincos();
        let along = cp * rho_dd(&p) + sp * p[2];
        let foot = Dd::new(a) * (cp.sq() + (ONE - Dd::new(f)).sq() * sp.sq()).sqrt();
        close("height along the normal", g.height, q(along - foot, 24.0 * U * (r + a)))?;
        label_place(g.phi, g.elong, g.height, a);
        Ok(p[2] != 0.0 && rho != 0.0)
    }
}
fn rho_dd(p: &[f64; 3]) -> Dd {
    let m = p[0].abs().max(p[1].abs());
    if m == 0.0 {
        return ZERO;
    }
    let (x, y) = (Dd::new(p[0]) / m, Dd::new(p[1]) / m);
    (x.sq() + y.sq()).sqrt() * m
}

// ------------------------------------------------------------------ C24

pub struct C24;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Cand {
    pub el: El,
    pub lon: F,
    pub lat: F,
    /// height in radii
    pub h: F,
}
impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "generated (radius, flattening) pairs: valid, zero, negative, infinite, NaN, tiny, huge, flattening at and next to 0 and 1; the verdict is compared with the rule, and an accepted converter of ordinary size converts a generated position both ways. Non-trivial: at least one of the two is within its range.";
    const ASSUME: &'static [&'static str] = &["flattening between 1-1e-7 and 1 may be accepted or refused", "conversions are tried for radii 1e-3..1e12 m, flattening up to 0.9, heights -0.0157..1000 radii"];
    type Case = Cand;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 10_000_000 } else { 60_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Cand> {
        let odd = || proptest::sample::select(vec![0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 1.0, 5e-324, -5e-324, f64::MAX, f64::MIN, 2.0, 1e-10, -1e-10]);
        let a = prop_oneof![6 => (-3.0..12.0f64).prop_map(|e| 10f64.powf(e)), 2 => Just(6378137.0), 2 => odd(), 1 => (-320.0..308.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) }), 1 => real(-1e7, 1e8)];
        let f = prop_oneof![
            5 => 0.0..1.0f64,
            2 => 0.0..0.01f64,
            3 => odd(),
            1 => (-320.0..0.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) }),
            1 => (-16.5..0.0f64, any::<bool>()).prop_map(|(e, s)| 1.0 + if s { -10f64.powf(e) } else { 10f64.powf(e) }),
            1 => real(-10.0, 400.0),
        ];
        (a, f, lon(), lat(), rel_height(DEEPEST * 0.9)).prop_map(|(a, f, lon, lat, h)| Cand { el: El { a: F(a), f: F(f) }, lon: F(lon), lat: F(lat), h: F(h) }).boxed()
    }
    fn check(c: &Cand) -> Outcome {
        let (a, f) = (c.el.a.0, c.el.f.0);
        let r = lib("EllipsoidConverter::new", || EllipsoidConverter::new(&Ellipsoid { a, f }))?;
        let good_f = (0.0..1.0).contains(&f);
        let good_a = a > 0.0 && a.is_finite();
        let edge = good_f && 1.0 - f < 1e-7;
        match r {
            Ok(cv) => {
                ensure(good_f && good_a, || format!("a = {a:?}, f = {f:?} accepted"))?;
                let e = lib("ellipsoid", || *cv.ellipsoid())?;
                ensure(e.a == a && e.f == f, || format!("reports {e:?}"))?;
                label("accepted");
                if (1e-3..=1e12).contains(&a) && f <= 0.9 {
                    let gd = Geodetic { elong: c.lon.0, phi: c.lat.0, height: c.h.0 * a };
                    let p = lib("geodetic_to_geocentric", || cv.geodetic_to_geocentric(&gd))?.map_err(|e| format!("position refused: {e}"))?;
                    ensure(p.iter().all(|x| x.is_finite()), || format!("coordinates {p:?}"))?;
                    let (w, tol) = geodetic_to_xyz(a, f, Dd::new(gd.elong), Dd::new(gd.phi), gd.height);
                    close_v("geocentric coordinates", &p, &w, tol)?;
                    let g = lib("geocentric_to_geodetic", || cv.geocentric_to_geodetic(&p))?;
                    ensure(g.elong.is_finite() && g.phi.is_finite() && g.height.is_finite(), || format!("position {g:?}"))?;
                    label("converted both ways");
                }
            }
            Err(EllipsoidError::InvalidFlattening) => {
                ensure(!good_f || edge, || format!("valid flattening {f:?} refused"))?;
                super::cal::names(&EllipsoidError::InvalidFlattening, "flattening")?;
                label("bad flattening");
            }
            Err(EllipsoidError::InvalidRadius) => {
                ensure(good_f, || format!("f = {f:?}, a = {a:?}: the radius is blamed before the flattening"))?;
                ensure(!good_a, || format!("valid radius {a:?} refused"))?;
                super::cal::names(&EllipsoidError::InvalidRadius, "radius")?;
                label("bad radius");
            }
            Err(e) => {
                ensure(edge && good_a, || format!("a = {a:?}, f = {f:?} refused: {e}"))?;
                label("minor axis vanishes");
            }
        }
        Ok(good_a || good_f)
    }
}

// ------------------------------------------------------------------ C25

pub struct C25;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pos {
    /// radians (and metres)
    pub elong: F,
    pub phi: F,
    pub height: F,
    /// degrees
    pub lon: F,
    pub lat: F,
}
impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "generated positions in radians (any longitude up to 1e6 rad, latitude -pi/2..pi/2 with both poles and their neighbours, any height) and in degrees; conversions by value and by reference and both round trips are compared with double-double values modulo 360 degrees. Non-trivial: a southern or western position, a pole, or a longitude outside [-pi, pi).";
    type Case = Pos;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 12_000_000 } else { 100_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Pos> {
        let elong = prop_oneof![4 => lon(), 2 => angle(30.0), 1 => real(-1e6, 1e6), 2 => (-9i64..=9, -40i32..=40).prop_map(|(k, n)| nudge(k as f64 * std::f64::consts::PI, n))];
        let deg = |m: f64| prop_oneof![4 => real(-m, m), 1 => (-m..m).prop_map(|x| x.round()), 1 => Just(m), 1 => Just(-m), 1 => Just(0.0)];
        (elong, lat(), prop_oneof![3 => real(-1e4, 1e6), 1 => real(-1e12, 1e12), 1 => Just(0.0)], prop_oneof![4 => deg(180.0), 1 => deg(1000.0), 1 => (-3i64..=3, -40i32..=40).prop_map(|(k, n)| nudge(k as f64 * 180.0, n))], deg(90.0))
            .prop_map(|(e, p, h, o, a)| Pos { elong: F(e), phi: F(p), height: F(h), lon: F(o), lat: F(a) })
            .boxed()
    }
    fn check(c: &Pos) -> Outcome {
        let deg = |r: f64| Dd::new(r) * 180.0 / PI;
        let mod360 = |name: &'static str, got: f64, want: Dd, tol: f64| -> Res<()> {
            let e = Dd::new(got) - want;
            let k = (e / 360.0).round();
            close(name, (e - k * 360.0).f(), q(ZERO, tol)).map_err(|m| format!("{got:?} degrees for {:?}: {m}", want.f()))
        };
        // radians to degrees
        let (e, p, h) = (c.elong.0, c.phi.0, c.height.0);
        let g = Geodetic { elong: e, phi: p, height: h };
        let d: Geodetic360 = lib("Geodetic360::from(Geodetic)", || g.into())?;
        let d2: Geodetic360 = lib("Geodetic360::from(&Geodetic)", || (&g).into())?;
        ensure(d == d2, || format!("by value {d:?}, by reference {d2:?}"))?;
        ensure((-180.0..180.0).contains(&d.lon), || format!("longitude {:?} of {g:?} is not in [-180, 180)", d.lon))?;
        mod360("longitude in degrees", d.lon, deg(e), 8.0 * U * (deg(e).f().abs() + 360.0))?;
        close("latitude in degrees", d.lat, q(deg(p), 8.0 * U * deg(p).f().abs() + 1e-300))?;
        ensure((-90.0..=90.0).contains(&d.lat), || format!("latitude {:?}", d.lat))?;
        ensure(d.height == h, || format!("height {h:?} became {:?}", d.height))?;
        let b: Geodetic = lib("Geodetic::from(Geodetic360)", || d.into())?;
        close("latitude there and back", b.phi, q(Dd::new(p), 12.0 * U * p.abs() + 1e-300))?;
        close_angle("longitude there and back", b.elong, q(Dd::new(e), 16.0 * U * (e.abs() + 7.0)))?;
        ensure(b.height == h, || format!("height {h:?} became {:?}", b.height))?;
        // degrees to radians
        let (o, a) = (c.lon.0, c.lat.0);
        let g3 = Geodetic360 { lon: o, lat: a, height: h };
        let r: Geodetic = lib("Geodetic::from(Geodetic360)", || g3.into())?;
        let r2: Geodetic = lib("Geodetic::from(&Geodetic360)", || (&g3).into())?;
        ensure(r == r2, || format!("by value {r:?}, by reference {r2:?}"))?;
        let rad = |d: f64| Dd::new(d) * PI / 180.0;
        close("longitude in radians", r.elong, q(rad(o), 6.0 * U * rad(o).f().abs() + 1e-300))?;
        close("latitude in radians", r.phi, q(rad(a), 6.0 * U * rad(a).f().abs() + 1e-300))?;
        ensure(r.height == h, || format!("height {h:?} became {:?}", r.height))?;
        let d: Geodetic360 = lib("Geodetic360::from(Geodetic)", || r.into())?;
        mod360("longitude there and back", d.lon, Dd::new(o), 16.0 * U * (o.abs() + 360.0))?;
        ensure((-180.0..180.0).contains(&d.lon), || format!("longitude {:?} of {g3:?} is not in [-180, 180)", d.lon))?;
        close("latitude there and back", d.lat, q(Dd::new(a), 12.0 * U * a.abs() + 1e-300))?;
        let pole = p.abs() > 1.57079632679 || a.abs() == 90.0;
        label_place(p, e, h, 6378137.0);
        label_if(pole, "pole");
        label_if(!(-3.15..3.15).contains(&e), "several turns");
        Ok(pole || p < 0.0 || e < 0.0 || e >= std::f64::consts::PI)
    }
}
