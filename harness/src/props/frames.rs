//! C14-C19: nutation, precession, CIO locator, frame matrices.
use super::earth::{model_dates, nontrivial_date, pole_angle};
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::earth;
use tofas::frames::{PrecessionNutation, bias_and_precession, celestial_to_intermediate, celestial_to_intermediate_from_xys, celestial_to_intermediate_with_bpn, celestial_to_intermediate_with_bpn_and_xy, celestial_to_terrestrial, celestial_to_terrestrial_from_cio_components, frame_bias, mean_obliquity, nutation, nutation_matrix, precession_nutation, precession_rate, xy_from_bpn};
use tofas::locator;
use tofas::time::{TT, UT1};

fn tt(d: &D2) -> TT {
    TT(d.p())
}

// ------------------------------------------------------------------ C14

pub struct C14;
impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "generated TT dates (1900-2100 mostly, out to +-100000 years, 14 kinds of split), one to three in a row; both nutation angles are compared with a double-double evaluation of the 77-term series whose coefficients the harness carries. Non-trivial: both parts non-zero, or before 2000.";
    type Case = Vec<D2>;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 15_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<D2>> {
        model_dates(3)
    }
    fn check(c: &Vec<D2>) -> Outcome {
        for d in c {
            let (dpsi, deps) = lib("nutation", || nutation(tt(d)))?;
            let (wp, we) = refm_nutation(d);
            close("nutation in longitude", dpsi, wp)?;
            close("nutation in obliquity", deps, we)?;
            label_split(d);
        }
        Ok(c.iter().any(nontrivial_date))
    }
}
fn refm_nutation(d: &D2) -> (Q, Q) {
    crate::refm::nutation(&time(d.a(), d.b()))
}

// ------------------------------------------------------------------ C15

pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "generated TT dates (as C14), one to three in a row; obliquity, precession rates, bias angles and the three matrices are compared with double-double evaluations, and the matrices checked to be proper rotations with rbp = rp rb. Non-trivial: both parts non-zero, or before 2000.";
    type Case = Vec<D2>;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 4_800_000 } else { 20_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<D2>> {
        model_dates(3)
    }
    fn check(c: &Vec<D2>) -> Outcome {
        let fb = lib("frame_bias", frame_bias)?;
        let w = crate::refm::frame_bias();
        close("bias in longitude", fb.0, w[0])?;
        close("bias in obliquity", fb.1, w[1])?;
        close("bias in right ascension", fb.2, w[2])?;
        for d in c {
            let t = time(d.a(), d.b());
            close("mean obliquity", lib("mean_obliquity", || mean_obliquity(tt(d)))?, crate::refm::mean_obliquity(&t))?;
            let (p, e) = lib("precession_rate", || precession_rate(tt(d)))?;
            let (wp, we) = crate::refm::precession_rate(&t);
            close("precession-rate correction in longitude", p, wp)?;
            close("precession-rate correction in obliquity", e, we)?;
            let (rb, rp, rbp) = lib("bias_and_precession", || bias_and_precession(tt(d)))?;
            let w = bias_precession(&t);
            close_m("bias matrix", &rb, &w.rb, 16.0 * U)?;
            close_m("precession matrix", &rp, &w.rp, w.tol)?;
            close_m("bias-precession matrix", &rbp, &w.rbp, w.tol + 16.0 * U)?;
            close_m("bias-precession as product", &rbp, &mmul(&md(&rp), &md(&rb)), 12.0 * U)?;
            for (n, m) in [("bias matrix", &rb), ("precession matrix", &rp), ("bias-precession matrix", &rbp)] {
                proper_rotation(n, m, 32.0 * U)?;
            }
            label_split(d);
        }
        Ok(c.iter().any(nontrivial_date))
    }
}

// ------------------------------------------------------------------ C16

pub struct C16;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pnc {
    pub dates: Vec<D2>,
    pub epsa: F,
    pub dpsi: F,
    pub deps: F,
}
/// One field of the Debug form of PrecessionNutation.
fn dbg_numbers(s: &str, field: &str) -> Option<Vec<f64>> {
    let i = s.find(&format!(" {field}: "))? + field.len() + 3;
    let rest = &s[i..];
    let mut depth = 0;
    let mut end = rest.len();
    for (k, c) in rest.char_indices() {
        match c {
            '[' => depth += 1,
            ']' => depth -= 1,
            ',' | '}' if depth == 0 => {
                end = k;
                break;
            }
            _ => {}
        }
    }
    rest[..end].replace(['[', ']', ' '], "").split(',').filter(|t| !t.is_empty()).map(|t| t.parse().ok()).collect()
}
fn as_m(v: &[f64]) -> [[f64; 3]; 3] {
    std::array::from_fn(|i| std::array::from_fn(|j| v[3 * i + j]))
}
fn check_pn(name: &str, p: &PrecessionNutation, w: &Pn, dpsi: Q) -> Res<()> {
    close("reported nutation in longitude", p.dpsi, dpsi)?;
    // the private parts, where the Debug form shows them
    let s = format!("{p:?}");
    let all = [("rb", &w.bp.rb, 16.0 * U), ("rp", &w.bp.rp, w.bp.tol), ("rbp", &w.bp.rbp, w.bp.tol + 16.0 * U), ("rn", &w.rn, w.tol), ("rbpn", &w.rbpn, w.tol)];
    if let Some(v) = dbg_numbers(&s, "epsa") {
        if v.len() == 1 {
            close("corrected mean obliquity", v[0], w.epsa).map_err(|e| format!("{name}: {e}"))?;
        }
    }
    for (f, want, tol) in all {
        if let Some(v) = dbg_numbers(&s, f) {
            if v.len() == 9 {
                close_m("matrix held with the nutation", &as_m(&v), want, tol).map_err(|e| format!("{name}, {f}: {e}"))?;
            }
        }
    }
    Ok(())
}
impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "generated TT dates (as C14) with free obliquity and nutation angles (microarcseconds to radians); the nutation matrix, the combined matrix for the model's nutation and, through the Debug form, all parts for caller-supplied nutation are compared with double-double products. Non-trivial: non-zero supplied nutation and a date with both parts non-zero or before 2000.";
    const ASSUME: &'static [&'static str] = &["private fields of PrecessionNutation are read from its Debug form; a field it does not show is not compared"];
    type Case = Pnc;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 8_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Pnc> {
        let nut = || prop_oneof![3 => real(-1e-4, 1e-4), 1 => angle(10.0), 1 => Just(0.0), 1 => pole_angle()];
        let eps = prop_oneof![3 => 0.40..0.42f64, 2 => angle(10.0), 1 => Just(0.0)];
        (model_dates(2), eps, nut(), nut()).prop_map(|(dates, e, p, d)| Pnc { dates, epsa: F(e), dpsi: F(p), deps: F(d) }).boxed()
    }
    fn check(c: &Pnc) -> Outcome {
        let (e, p, de) = (c.epsa.0, c.dpsi.0, c.deps.0);
        let m = lib("nutation_matrix", || nutation_matrix(e, p, de))?;
        let tol = U * (16.0 + 2.0 * (e.abs() + de.abs()));
        close_m("nutation matrix", &m, &crate::refm::nutation_matrix(Dd::new(e), Dd::new(p), Dd::new(de)), tol)?;
        proper_rotation("nutation matrix", &m, 24.0 * U)?;
        for d in &c.dates {
            let t = time(d.a(), d.b());
            let (wp, we) = crate::refm::nutation(&t);
            let w = pn_with(&t, wp, we);
            let r = lib("precession_nutation", || precession_nutation(tt(d)))?;
            close_m("bias-precession-nutation matrix", &r, &w.rbpn, w.tol)?;
            proper_rotation("bias-precession-nutation matrix", &r, 48.0 * U)?;
            let pn: PrecessionNutation = lib("PrecessionNutation::from", || tt(d).into())?;
            check_pn("model nutation", &pn, &w, wp)?;
            let pn = lib("from_tt_with_nutation", || PrecessionNutation::from_tt_with_nutation(tt(d), p, de))?;
            let (qp, qe) = (q(Dd::new(p), 0.0), q(Dd::new(de), 0.0));
            let w = pn_with(&t, qp, qe);
            check_pn("supplied nutation", &pn, &w, qp)?;
            label_split(d);
        }
        Ok((p != 0.0 || de != 0.0) && c.dates.iter().any(nontrivial_date))
    }
}

// ------------------------------------------------------------------ C17

pub struct C17;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Loc(pub Vec<D2>, pub F, pub F);
fn cip() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![
        3 => (real(-0.01, 0.01), real(-0.01, 0.01)),
        2 => (real(-1.0, 1.0), real(-1.0, 1.0)),
        1 => (pole_angle(), pole_angle()),
        1 => Just((0.0, 0.0)),
        1 => (real(-0.5, 0.5), Just(0.0)),
        1 => (Just(0.0), real(-0.5, 0.5)),
    ]
    .boxed()
}
impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "generated TT dates (as C14), one to three in a row, with CIP coordinates from zero to order one; s is compared with a double-double evaluation of the 66-term series minus XY/2. Non-trivial: XY non-zero and a date with both parts non-zero or before 2000.";
    type Case = Loc;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 12_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Loc> {
        (model_dates(3), cip()).prop_map(|(d, (x, y))| Loc(d, F(x), F(y))).boxed()
    }
    fn check(&Loc(ref ds, F(x), F(y)): &Loc) -> Outcome {
        for d in ds {
            let s = lib("cio", || locator::cio(tt(d), x, y))?;
            close("CIO locator", s, cio(&time(d.a(), d.b()), q(Dd::new(x), 0.0), q(Dd::new(y), 0.0)))?;
            label_split(d);
        }
        label_if(x * y != 0.0, "XY non-zero");
        Ok(x * y != 0.0 && ds.iter().any(nontrivial_date))
    }
}

// ------------------------------------------------------------------ C18

pub struct C18;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Xys {
    pub x: F,
    pub y: F,
    pub s: F,
    pub dates: Vec<D2>,
    pub m: [[F; 3]; 3],
}
/// X, Y with X^2+Y^2 < 1, from the pole (exactly) to the rim.
fn disc() -> BoxedStrategy<(f64, f64)> {
    let ang = angle(3.2);
    let r = prop_oneof![3 => 0.0..0.01f64, 2 => 0.0..0.999f64, 1 => (-20.0..0.0f64).prop_map(|e| 10f64.powf(e) * 0.999), 1 => (-6.0..-0.5f64).prop_map(|e| 1.0 - 10f64.powf(e)), 1 => (-170.0..-20.0f64).prop_map(|e| 10f64.powf(e))];
    prop_oneof![
        6 => (r, ang).prop_map(|(r, a)| (r * a.cos(), r * a.sin())),
        1 => Just((0.0, 0.0)),
        1 => real(-0.999, 0.999).prop_map(|x| (x, 0.0)),
        1 => real(-0.999, 0.999).prop_map(|x| (0.0, x)),
        1 => Just((0.0, -0.0)),
        1 => Just((-0.0, 0.0)),
    ]
    .prop_map(|(x, y): (f64, f64)| if x * x + y * y < 0.9999999 { (x, y) } else { (x * 0.99, y * 0.99) })
    .boxed()
}
impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "generated CIP coordinates over the whole disc (pole exactly and nearly, axes, rim), any s, dates as C14 and free third rows of matrices; the matrix is compared with the closed form (no angles) in double-double, the variants with the full reference chain. Non-trivial: X, Y not both zero and s non-zero.";
    const ASSUME: &'static [&'static str] = &["X^2+Y^2 <= 0.9999999; the accuracy asked for falls as 1/sqrt(1-X^2-Y^2) towards the rim"];
    type Case = Xys;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 6_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Xys> {
        let s = prop_oneof![3 => pole_angle(), 2 => angle(7.0)];
        let m = [f3(-1.0, 1.0), f3(-1.0, 1.0), f3(-1.0, 1.0)];
        (disc(), s, model_dates(2), m).prop_map(|((x, y), s, dates, m)| Xys { x: F(x), y: F(y), s: F(s), dates, m }).boxed()
    }
    fn check(c: &Xys) -> Outcome {
        let (x, y, s) = (c.x.0, c.y.0, c.s.0);
        let ex = |v: f64| q(Dd::new(v), 0.0);
        let m = lib("celestial_to_intermediate_from_xys", || celestial_to_intermediate_from_xys(x, y, s))?;
        let (w, tol) = c2i_xys(ex(x), ex(y), ex(s));
        close_m("celestial-to-intermediate matrix", &m, &w, tol)?;
        proper_rotation("celestial-to-intermediate matrix", &m, 48.0 * U)?;
        if x == 0.0 && y == 0.0 {
            close_m("matrix at the pole", &m, &rz(Dd::new(-s)), 12.0 * U)?;
            label("pole");
        }
        // third row
        for (k, v) in [(0, x), (1, y)] {
            close("third row", m[2][k], q(Dd::new(v), 16.0 * U * (x.hypot(y)) * (1.0 + 1.0 / (1.0 - x * x - y * y).sqrt()) + 1e-150))?;
        }
        let rows: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| c.m[i][j].0));
        let (a, b) = lib("xy_from_bpn", || xy_from_bpn(&rows))?;
        ensure(a == rows[2][0] && b == rows[2][1], || format!("xy_from_bpn gave ({a:?}, {b:?}) for {rows:?}"))?;
        for d in &c.dates {
            let t = time(d.a(), d.b());
            let r = lib("celestial_to_intermediate_with_bpn_and_xy", || celestial_to_intermediate_with_bpn_and_xy(tt(d), x, y))?;
            let s2 = cio(&t, ex(x), ex(y));
            let (w, tol) = c2i_xys(ex(x), ex(y), s2);
            close_m("matrix from date, X, Y", &r, &w, tol)?;
            let mut bpn = rows;
            bpn[2] = [x, y, rows[2][2]];
            let r2 = lib("celestial_to_intermediate_with_bpn", || celestial_to_intermediate_with_bpn(tt(d), &bpn))?;
            close_m("matrix from date and BPN matrix", &r2, &w, tol)?;
            let full = lib("celestial_to_intermediate", || celestial_to_intermediate(tt(d)))?;
            let (w, tol) = c2i(&t);
            close_m("celestial-to-intermediate matrix of date", &full, &w, tol)?;
            proper_rotation("celestial-to-intermediate matrix of date", &full, 48.0 * U)?;
            label_split(d);
        }
        label_if(x * x + y * y > 0.9, "near the rim");
        Ok((x != 0.0 || y != 0.0) && s != 0.0)
    }
}

// ------------------------------------------------------------------ C19

pub struct C19;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C2t {
    /// (TT, UT1), evaluated in sequence
    pub dates: Vec<(D2, D2)>,
    pub xp: F,
    pub yp: F,
    pub rc2i: [[F; 3]; 3],
    pub era: F,
    pub rpom: [[F; 3]; 3],
}
impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "generated TT dates (as C14) with UT1 equal, a little off, or independent (some where the rotation angle is a multiple of 15 degrees), each split its own way, non-zero pole coordinates, one to three in a row, and free matrices for the assembling variant; compared with the full double-double chain. Non-trivial: non-zero xp and yp.";
    type Case = C2t;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 300_000 } else { 5_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C2t> {
        let pair = (instant(DJ00 - 1.2e6, DJ00 + 1.8e6), instant(ERA19.0, ERA19.1), any::<bool>(), split_kind(), split_kind(), prop_oneof![3 => -2e-3..2e-3f64, 1 => Just(0.0), 1 => -1.0..1.0f64], 0..10u8, prop_oneof![1 => instant(ERA19.0, ERA19.1), 1 => turn_instant(ERA19.0, ERA19.1)]).prop_map(
            |(far, near, is_far, s1, s2, off, indep, other)| {
                let i = if is_far && indep % 3 == 0 { far } else { near };
                let u = if indep >= 8 { other } else { (i.0, i.1 + off) };
                let i = if indep == 8 { u } else { i };
                (apply_split(i, &s1), apply_split(u, &s2))
            },
        );
        let seq = prop_oneof![
            3 => pair.clone().prop_map(|p| vec![p]),
            1 => proptest::collection::vec(pair.clone(), 2..=3),
            // same TT with other UT1, and the other way round
            1 => (pair.clone(), pair.clone()).prop_map(|(p, r)| vec![p, (p.0, r.1), (r.0, r.1)]),
        ];
        let m = || [f3(-1.0, 1.0), f3(-1.0, 1.0), f3(-1.0, 1.0)];
        (seq, pole_angle(), pole_angle(), m(), angle(7.0), m()).prop_map(|(dates, xp, yp, rc2i, era, rpom)| C2t { dates, xp: F(xp), yp: F(yp), rc2i, era: F(era), rpom }).boxed()
    }
    fn check(c: &C2t) -> Outcome {
        let (xp, yp) = (c.xp.0, c.yp.0);
        for (t, u) in &c.dates {
            let m = lib("celestial_to_terrestrial", || celestial_to_terrestrial(tt(t), UT1(u.p()), xp, yp))?;
            let (w, tol) = c2t(&time(t.a(), t.b()), u.p(), xp, yp);
            close_m("celestial-to-terrestrial matrix", &m, &w, tol).map_err(|e| format!("TT {t:?} UT1 {u:?}: {e}"))?;
            proper_rotation("celestial-to-terrestrial matrix", &m, 64.0 * U)?;
            label_split(t);
        }
        let g = |m: &[[F; 3]; 3]| -> [[f64; 3]; 3] { std::array::from_fn(|i| std::array::from_fn(|j| m[i][j].0)) };
        let (ci, po, e) = (g(&c.rc2i), g(&c.rpom), c.era.0);
        let m = lib("celestial_to_terrestrial_from_cio_components", || celestial_to_terrestrial_from_cio_components(&ci, e, &po))?;
        close_m("assembled matrix", &m, &mmul(&md(&po), &mmul(&rz(Dd::new(e)), &md(&ci))), 100.0 * U)?;
        // the parts a caller would supply give the combined function's result
        if let Some((t, u)) = c.dates.first() {
            let m = lib("assembling from parts", || {
                let ci = celestial_to_intermediate(tt(t));
                let e = earth::rotation_angle(UT1(u.p()));
                let po = earth::polar_motion_matrix(xp, yp, 0.0);
                celestial_to_terrestrial_from_cio_components(&ci, e, &po)
            })?;
            let (w, tol) = c2t(&time(t.a(), t.b()), u.p(), xp, yp);
            close_m("matrix assembled from the library's parts", &m, &w, tol)?;
        }
        label_if(c.dates.len() > 1, "several dates in a row");
        Ok(xp != 0.0 && yp != 0.0)
    }
}
const ERA19: (f64, f64) = (DJ00 - 36525.0, DJ00 + 36525.0);
