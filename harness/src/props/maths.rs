//! C08-C10: angles, vectors, matrices.
use crate::dd::*;
use crate::fw::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tofas::common::{anp, Mat3, Matrix, Vec3, Vector};

// ------------------------------------------------------------------ C08

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "generated finite angles: within a few turns, multiples of pi/12 and of 2pi and their neighbouring doubles, every magnitude from 5e-324 to 1.8e308, both signs. Compared with double-double reduction. Non-trivial: outside [0, 2pi) or within 1e-9 of an end.";
    type Case = F;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000_000 } else { 200_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<F> {
        prop_oneof![
            4 => angle(30.0),
            3 => (-1_000_000i64..1_000_000, -4i32..=4).prop_map(|(k, n)| nudge((Dd::new(k as f64) * TWO_PI).f(), n)),
            2 => (-60i64..60, -4i32..=4).prop_map(|(k, n)| nudge((Dd::new(k as f64) * TWO_PI / 8.0).f(), n)),
            2 => (-323.0..308.0f64, any::<bool>(), 1.0..9.9f64).prop_map(|(e, s, m)| { let v = m * 10f64.powf(e.floor()); if !v.is_finite() { 1e308 } else if s { -v } else { v } }),
            2 => angle(1e6),
            1 => (-20.0..0.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) }),
            1 => any::<u64>().prop_map(|b| { let x = f64::from_bits(b); if x.is_finite() { x } else { 0.0 } }),
            1 => proptest::sample::select(vec![0.0, -0.0, f64::MAX, f64::MIN, 5e-324, -5e-324, f64::MIN_POSITIVE, -f64::MIN_POSITIVE]),
        ]
        .prop_map(F)
        .boxed()
    }
    fn check(&F(a): &F) -> Outcome {
        let w = lib("anp", || anp(a))?;
        ensure(w >= 0.0 && w < TWO_PI.hi, || format!("anp({a:?}) = {w:?} is not in [0, 2pi)"))?;
        if a >= 0.0 && a < TWO_PI.hi {
            ensure(w == a, || format!("anp({a:?}) = {w:?}, expected it unchanged"))?;
        } else if a.abs() < 1e15 {
            close_angle("normalised angle", w, q(Dd::new(a), 2.0 * U * a.abs() + 16.0 * U))?;
        }
        label(if a.abs() >= 1e15 {
            "huge"
        } else if a < 0.0 {
            "negative"
        } else if a < TWO_PI.hi {
            "in range"
        } else {
            "above"
        });
        let end = w < 1e-9 || w > TWO_PI.hi - 1e-9;
        label_if(end, "next to an end");
        Ok(!(a >= 0.0 && a < TWO_PI.hi) || end)
    }
}

// ------------------------------------------------------------------ C09

pub struct C09;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Vecs {
    pub a: [F; 3],
    pub b: [F; 3],
    pub c: F,
}
fn un(v: &[F; 3]) -> Vec3 {
    [v[0].0, v[1].0, v[2].0]
}
fn comp(lim_exp: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        4 => real(-10.0, 10.0),
        2 => real(-1e12, 1e12),
        1 => Just(0.0),
        1 => proptest::sample::select(vec![1.0, -1.0]),
        1 => (-lim_exp..lim_exp, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) }),
    ]
    .boxed()
}
fn vec3(lim: f64) -> BoxedStrategy<Vec3> {
    let c = || comp(lim);
    prop_oneof![6 => [c(), c(), c()], 1 => (0..3usize, c()).prop_map(|(k, x)| { let mut v = [0.0; 3]; v[k] = x; v })].boxed()
}
fn dotd(a: &Vec3, b: &Vec3) -> (Dd, f64) {
    let mut s = ZERO;
    let mut m = 0.0;
    for k in 0..3 {
        s = s + Dd::new(a[k]) * b[k];
        m += (a[k] * b[k]).abs();
    }
    (s, m)
}
fn normd(a: &Vec3) -> Dd {
    // scaled against overflow
    let m = a.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    if m == 0.0 {
        return ZERO;
    }
    let e = 2f64.powi(-(m.log2().floor() as i32));
    let v = [a[0] * e, a[1] * e, a[2] * e];
    dotd(&v, &v).0.sqrt().scale2(1.0 / e)
}
/// Cosine of the true angle between two vectors.
fn cosd(a: &Vec3, b: &Vec3) -> Dd {
    let sc = |v: &Vec3| {
        let m = v.iter().fold(0.0f64, |x, y| x.max(y.abs()));
        let e = 2f64.powi(-(m.log2().floor() as i32));
        [v[0] * e, v[1] * e, v[2] * e]
    };
    let (a, b) = (sc(a), sc(b));
    dotd(&a, &b).0 / (dotd(&a, &a).0 * dotd(&b, &b).0).sqrt()
}
fn check_angle(name: &'static str, got: f64, c: Dd) -> Res<()> {
    ensure((0.0..=std::f64::consts::PI).contains(&got), || format!("{name}: {got:?} is not in [0, pi]"))?;
    close(name, Dd::new(got).cos().f(), q(c, 24.0 * U))
}
impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "generated pairs of vectors (components of any sign, zero, magnitudes 1e-100 to 1e100; parallel, opposite, nearly parallel, perpendicular and axis-aligned pairs built on purpose) and scale factors; every operation is compared with double-double component formulas, angles through their cosine. Non-trivial: both vectors non-zero and not equal.";
    const ASSUME: &'static [&'static str] = &["norms between 1e-140 and 1e140, so that squared lengths neither overflow nor underflow"];
    type Case = Vecs;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 6_000_000 } else { 60_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vecs> {
        let f = |v: Vec3| [F(v[0]), F(v[1]), F(v[2])];
        let c = || prop_oneof![3 => real(-1e3, 1e3), 1 => Just(1.0), 1 => (-30.0..30.0f64, any::<bool>()).prop_map(|(e, s)| if s { -10f64.powf(e) } else { 10f64.powf(e) })];
        let rel = (vec3(90.0), c(), c(), 0..6u8, vec3(1.0), -20.0..-1.0f64).prop_map(move |(a, k, c, kind, w, e)| {
            let m = 10f64.powf(e) * (a[0].abs() + a[1].abs() + a[2].abs());
            let b = match kind {
                0 => [a[0] * k, a[1] * k, a[2] * k],
                1 => a,
                2 => [-a[0], -a[1], -a[2]],
                3 => [a[0] + w[0] * m, a[1] + w[1] * m, a[2] + w[2] * m],
                4 => [-a[0] + w[0] * m, -a[1] + w[1] * m, -a[2] + w[2] * m],
                _ => [a[1], -a[0], 0.0],
            };
            (a, b, c)
        });
        let free = (0..2u8, vec3(100.0), vec3(100.0), vec3(30.0), vec3(30.0), c()).prop_map(|(w, a, b, p, q, c)| if w == 0 { (a, b, c) } else { (p, q, c) });
        prop_oneof![free, rel].prop_map(move |(a, b, c)| Vecs { a: f(a), b: f(b), c: F(c) }).boxed()
    }
    fn check(v: &Vecs) -> Outcome {
        let (a, b, c) = (un(&v.a), un(&v.b), v.c.0);
        let d = Dd::new;
        for k in 0..3 {
            close("sum", lib("add", || a.add(b))?[k], q(d(a[k]) + b[k], 2.0 * U * (a[k] + b[k]).abs()))?;
            close("difference", lib("sub", || a.sub(b))?[k], q(d(a[k]) - b[k], 2.0 * U * (a[k] - b[k]).abs()))?;
            close("negation", lib("neg", || a.neg())?[k], q(d(-a[k]), 0.0))?;
            close("scaling", lib("scale", || a.scale(c))?[k], q(d(a[k]) * c, 2.0 * U * (a[k] * c).abs() + 1e-300))?;
        }
        let (s, m) = dotd(&a, &b);
        close("dot product", lib("dot", || a.dot(b))?, q(s, 8.0 * U * m + 1e-300))?;
        let (na, nb) = (normd(&a), normd(&b));
        let big = |n: f64| n < 1e140 && n > 1e-140;
        if na.f() == 0.0 || big(na.f()) {
            close("norm", lib("norm", || a.norm())?, q(na, 8.0 * U * na.f()))?;
        }
        if big(na.f()) {
            let u = lib("normalize", || a.normalize())?;
            for k in 0..3 {
                close("unit vector", u[k], q(d(a[k]) / na, 12.0 * U * (a[k] / na.f()).abs() + 1e-300))?;
            }
            close("length of unit vector", normd(&u).f(), q(ONE, 12.0 * U))?;
        }
        if !(big(na.f()) && big(nb.f())) {
            return Ok(false);
        }
        let ct = cosd(&a, &b);
        check_angle("angle", lib("angle", || a.angle(b))?, ct)?;
        check_angle("angle (swapped)", lib("angle", || b.angle(a))?, ct)?;
        let ac = [a[0] * c, a[1] * c, a[2] * c];
        if c > 0.0 && big(normd(&ac).f()) {
            check_angle("angle (scaled)", lib("angle", || ac.angle(b))?, ct)?;
        }
        check_angle("angle to itself", lib("angle", || a.angle(a))?, ONE)?;
        check_angle("angle to opposite", lib("angle", || a.angle([-a[0], -a[1], -a[2]]))?, -ONE)?;
        let cf = ct.f();
        label(if cf > 1.0 - 1e-9 {
            "parallel"
        } else if cf < -1.0 + 1e-9 {
            "opposite"
        } else if cf.abs() < 1e-9 {
            "perpendicular"
        } else {
            "oblique"
        });
        Ok(a != b)
    }
}

// ------------------------------------------------------------------ C10

pub struct C10;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mats {
    pub a: [[F; 3]; 3],
    pub b: [[F; 3]; 3],
    pub x: [F; 3],
    pub axis: usize,
    pub t: F,
    pub t2: F,
}
fn unm(m: &[[F; 3]; 3]) -> Mat3 {
    [un(&m[0]), un(&m[1]), un(&m[2])]
}
pub fn rot(axis: usize, t: Dd) -> MD {
    [rx(t), ry(t), rz(t)][axis]
}
impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "generated pairs of 3x3 matrices (free entries, rotations, elementary matrices with single entries), vectors, axes and angles; composition, application, transposition and elementary rotations are compared with double-double formulas. Non-trivial: the two matrices do not commute, and the angle is not a multiple of a quarter turn.";
    type Case = Mats;
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 3_000_000 } else { 40_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Mats> {
        let mat = || {
            prop_oneof![
                4 => [[real(-10.0, 10.0), real(-10.0, 10.0), real(-10.0, 10.0)], [real(-10.0, 10.0), real(-10.0, 10.0), real(-10.0, 10.0)], [real(-10.0, 10.0), real(-10.0, 10.0), real(-10.0, 10.0)]],
                2 => (0..3usize, angle(10.0), 0..3usize, angle(10.0)).prop_map(|(i, t, j, u)| { let m = mmul(&rot(i, Dd::new(t)), &rot(j, Dd::new(u))); m.map(|r| r.map(|x| x.f())) }),
                1 => (0..3usize, 0..3usize, real(-10.0, 10.0)).prop_map(|(i, j, x)| { let mut m = [[0.0; 3]; 3]; m[i][j] = x; m }),
                1 => Just([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
                1 => [vec3(45.0), vec3(45.0), vec3(45.0)],
            ]
            .prop_map(|m: Mat3| m.map(|r| r.map(F)))
        };
        (mat(), mat(), vec3(45.0), 0..3usize, prop_oneof![8 => angle(10.0), 2 => angle(1e5), 1 => angle(1e15), 2 => angle(1e-6)], prop_oneof![4 => angle(10.0), 1 => angle(1e12)])
            .prop_map(|(a, b, x, axis, t, t2)| Mats { a, b, x: x.map(F), axis, t: F(t), t2: F(t2) })
            .boxed()
    }
    fn check(c: &Mats) -> Outcome {
        let (a, b, x) = (unm(&c.a), unm(&c.b), un(&c.x));
        let d = Dd::new;
        let mag = |m: &Mat3, n: &Mat3, i: usize, j: usize| (0..3).map(|k| (m[i][k] * n[k][j]).abs()).sum::<f64>();
        let ab = lib("compose", || a.compose(&b))?;
        let want = mmul(&md(&a), &md(&b));
        for i in 0..3 {
            for j in 0..3 {
                close("matrix product", ab[i][j], q(want[i][j], 8.0 * U * mag(&a, &b, i, j) + 1e-300)).map_err(|e| format!("[{i}][{j}] {e}"))?;
            }
        }
        let at = lib("transpose", || a.transpose())?;
        let id = lib("identity", || Mat3::identity())?;
        let zero = lib("zero", || Mat3::zero())?;
        for i in 0..3 {
            for j in 0..3 {
                ensure(at[i][j] == a[j][i], || format!("transpose of {a:?} is {at:?}"))?;
                ensure(id[i][j] == (i == j) as u8 as f64 && zero[i][j] == 0.0, || format!("identity {id:?}, zero {zero:?}"))?;
            }
        }
        let y = lib("apply", || a.apply(x))?;
        for j in 0..3 {
            let mut s = ZERO;
            let mut m = 0.0;
            for i in 0..3 {
                s = s + d(a[i][j]) * x[i];
                m += (a[i][j] * x[i]).abs();
            }
            close("application", y[j], q(s, 8.0 * U * m + 1e-300)).map_err(|e| format!("[{j}] {e}"))?;
        }
        // applying a composition = applying left then right
        let l = lib("apply", || ab.apply(x))?;
        let r = lib("apply", || b.apply(y))?;
        // a first product below the normal range loses its digits, and the second factor magnifies that
        let under = 1e-320 * b.iter().flatten().chain(&x).fold(0.0f64, |m, v| m.max(v.abs()));
        for j in 0..3 {
            let m: f64 = (0..3).map(|k| (0..3).map(|i| (a[i][k] * x[i] * b[k][j]).abs()).sum::<f64>()).sum();
            near("composition applied", l[j], r[j], 24.0 * U * m + under + 1e-290)?;
        }
        // elementary rotations
        let (t, t2, ax) = (c.t.0, c.t2.0, c.axis);
        let rt = lib("rotation", || Mat3::rotation(ax, t))?;
        close_m("rotation", &rt, &rot(ax, d(t)), 4.0 * U)?;
        proper_rotation("rotation", &rt, 12.0 * U)?;
        let mut e = [0.0; 3];
        e[ax] = 1.0;
        ensure(rt[ax] == e && lib("apply", || rt.apply(e))? == e, || format!("axis {ax} moved by {rt:?}"))?;
        let r2 = lib("rotation", || Mat3::rotation(ax, t2))?;
        close_m("sum of angles", &lib("compose", || rt.compose(&r2))?, &rot(ax, d(t) + t2), 12.0 * U)?;
        let rm = lib("rotation", || Mat3::rotation(ax, -t))?;
        close_m("rotation by the opposite angle", &lib("transpose", || rt.transpose())?, &md(&rm), 4.0 * U)?;
        label(["axis x", "axis y", "axis z"][ax]);
        let ba = mmul(&md(&b), &md(&a));
        let comm = (0..3).all(|i| (0..3).all(|j| (ba[i][j] - want[i][j]).abs().f() <= 1e-9 * (1.0 + want[i][j].f().abs())));
        label_if(comm, "commuting matrices");
        let quarter = ((t / std::f64::consts::FRAC_PI_2) - (t / std::f64::consts::FRAC_PI_2).round()).abs() < 1e-12;
        Ok(!comm && !quarter)
    }
}
