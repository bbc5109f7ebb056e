//! Reference models, written independently of the library in double-double
//! arithmetic, each value with the absolute error a correct double-precision
//! evaluation may show (forward error bound with a generous constant).
use crate::dd::*;
use crate::fw::{q, MD, Q, U};
mod epv {
    include!("epv_tab.rs");
}
mod ser {
    include!("series_tab.rs");
}

/// Safety factor over the first-order error bounds.
pub const K: f64 = 16.0;
pub const DJ00: f64 = 2451545.0;

pub fn d(x: f64) -> Dd {
    Dd::new(x)
}
pub fn as2r() -> Dd {
    TWO_PI / 1296000.0
}

// ---------------------------------------------------------------- calendar

/// Modified Julian Date of a proleptic Gregorian date (era based, floor division).
pub fn days_from_civil(y: i64, m: i64, dd: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468 + 40587
}
pub fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + is_leap(y) as i64,
        _ => 31,
    }
}
/// Inverse of days_from_civil.
pub fn civil_from_days(mjd: i64) -> (i64, i64, i64) {
    let z = mjd - 40587 + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let dd = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, dd)
}

// ---------------------------------------------------------------- TAI-UTC

/// (first MJD in force, offset, drift reference MJD, drift rate s/day)
pub const TAI_UTC: &[(i64, i64, f64, f64, f64)] = &[
    (1960, 1, 1.417818, 37300.0, 0.001296),
    (1961, 1, 1.422818, 37300.0, 0.001296),
    (1961, 8, 1.372818, 37300.0, 0.001296),
    (1962, 1, 1.845858, 37665.0, 0.0011232),
    (1963, 11, 1.945858, 37665.0, 0.0011232),
    (1964, 1, 3.240130, 38761.0, 0.001296),
    (1964, 4, 3.340130, 38761.0, 0.001296),
    (1964, 9, 3.440130, 38761.0, 0.001296),
    (1965, 1, 3.540130, 38761.0, 0.001296),
    (1965, 3, 3.640130, 38761.0, 0.001296),
    (1965, 7, 3.740130, 38761.0, 0.001296),
    (1965, 9, 3.840130, 38761.0, 0.001296),
    (1966, 1, 4.313170, 39126.0, 0.002592),
    (1968, 2, 4.213170, 39126.0, 0.002592),
    (1972, 1, 10.0, 0.0, 0.0),
    (1972, 7, 11.0, 0.0, 0.0),
    (1973, 1, 12.0, 0.0, 0.0),
    (1974, 1, 13.0, 0.0, 0.0),
    (1975, 1, 14.0, 0.0, 0.0),
    (1976, 1, 15.0, 0.0, 0.0),
    (1977, 1, 16.0, 0.0, 0.0),
    (1978, 1, 17.0, 0.0, 0.0),
    (1979, 1, 18.0, 0.0, 0.0),
    (1980, 1, 19.0, 0.0, 0.0),
    (1981, 7, 20.0, 0.0, 0.0),
    (1982, 7, 21.0, 0.0, 0.0),
    (1983, 7, 22.0, 0.0, 0.0),
    (1985, 7, 23.0, 0.0, 0.0),
    (1988, 1, 24.0, 0.0, 0.0),
    (1990, 1, 25.0, 0.0, 0.0),
    (1991, 1, 26.0, 0.0, 0.0),
    (1992, 7, 27.0, 0.0, 0.0),
    (1993, 7, 28.0, 0.0, 0.0),
    (1994, 7, 29.0, 0.0, 0.0),
    (1996, 1, 30.0, 0.0, 0.0),
    (1997, 7, 31.0, 0.0, 0.0),
    (1999, 1, 32.0, 0.0, 0.0),
    (2006, 1, 33.0, 0.0, 0.0),
    (2009, 1, 34.0, 0.0, 0.0),
    (2012, 7, 35.0, 0.0, 0.0),
    (2015, 7, 36.0, 0.0, 0.0),
    (2017, 1, 37.0, 0.0, 0.0),
];

/// TAI-UTC of a date and day fraction; None before 1960.
pub fn tai_utc(y: i64, m: i64, day: i64, fd: f64) -> Option<Q> {
    let mjd = days_from_civil(y, m, day);
    let mut r = None;
    for &(ty, tm, off, ref0, rate) in TAI_UTC {
        if mjd >= days_from_civil(ty, tm, 1) {
            r = Some((off, ref0, rate));
        }
    }
    let (off, ref0, rate) = r?;
    if rate == 0.0 {
        return Some(q(d(off), 0.0));
    }
    let n = d(mjd as f64 - ref0) + fd;
    let v = d(off) + n * rate;
    let tol = K * U * (off.abs() + (n * rate).f().abs() + (mjd as f64) * rate);
    Some(q(v, tol))
}

// ---------------------------------------------------------------- time

#[derive(Clone, Copy, Debug)]
pub struct T {
    /// days from J2000.0
    pub days: Dd,
    /// allowed error of the elapsed days
    pub err: f64,
}
pub fn time(a: f64, b: f64) -> T {
    let days = Dd::sum(a, b) - DJ00;
    let err = 4.0 * U * ((a - DJ00).abs() + days.f().abs());
    T { days, err }
}
impl T {
    pub fn cent(&self) -> Dd {
        self.days / 36525.0
    }
    pub fn cerr(&self) -> f64 {
        self.err / 36525.0 + 2.0 * U * self.cent().f().abs()
    }
    pub fn years(&self) -> Dd {
        self.days / 365.25
    }
}
/// Sum c_i t^i, and the same with absolute values (for error bounds).
pub fn poly(c: &[f64], t: Dd) -> (Dd, f64) {
    let mut r = ZERO;
    let mut a = 0.0;
    let ta = t.f().abs();
    for &x in c.iter().rev() {
        r = r * t + x;
        a = a * ta + x.abs();
    }
    (r, a)
}
/// |d/dt| bound of a polynomial.
pub fn dpoly(c: &[f64], t: f64) -> f64 {
    let mut a = 0.0;
    for (i, &x) in c.iter().enumerate().skip(1).rev() {
        a = a * t.abs() + (i as f64) * x.abs();
    }
    a
}

// fundamental arguments, IERS Conventions (2003); arcseconds, or radians
pub const FA: [(&[f64], bool); 8] = [
    (&[485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470], true),
    (&[1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149], true),
    (&[335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417], true),
    (&[1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169], true),
    (&[450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939], true),
    (&[3.176146697, 1021.3285546211], false),
    (&[1.753470314, 628.3075849991], false),
    (&[0.0, 0.024381750, 0.00000538691], false),
];
/// (angle in radians unreduced, error bound)
pub fn fundarg(i: usize, t: Dd) -> (Dd, f64) {
    let (c, asec) = FA[i];
    let (v, a) = poly(c, t);
    if asec {
        (v * as2r(), K * U * a * 4.85e-6)
    } else {
        (v, K * U * a)
    }
}

// ---------------------------------------------------------------- matrices

pub fn mmul(a: &MD, b: &MD) -> MD {
    let mut c = [[ZERO; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                c[i][j] = c[i][j] + a[i][k] * b[k][j];
            }
        }
    }
    c
}
pub fn md(a: &[[f64; 3]; 3]) -> MD {
    let mut c = [[ZERO; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] = d(a[i][j])
        }
    }
    c
}
pub fn rx(t: Dd) -> MD {
    let (s, c) = t.sincos();
    [[ONE, ZERO, ZERO], [ZERO, c, s], [ZERO, -s, c]]
}
pub fn ry(t: Dd) -> MD {
    let (s, c) = t.sincos();
    [[c, ZERO, -s], [ZERO, ONE, ZERO], [s, ZERO, c]]
}
pub fn rz(t: Dd) -> MD {
    let (s, c) = t.sincos();
    [[c, s, ZERO], [-s, c, ZERO], [ZERO, ZERO, ONE]]
}

// ---------------------------------------------------------------- Earth rotation

pub fn era(a: f64, b: f64) -> Q {
    let days = Dd::sum(a, b) - DJ00;
    // turns = frac(JD) + c + k * days  (whole days drop out)
    let s = Dd::sum(a, b);
    let frac = s - s.floor();
    let turns = frac + 0.7790572732640 + days * 0.00273781191135448;
    let off = (a - DJ00).abs().min((b - DJ00).abs());
    let tol = TWO_PI.hi * 8.0 * U * (3.0 + 0.0028 * (days.f().abs() + off));
    q((turns - turns.floor()) * TWO_PI, tol)
}

pub fn polar_motion(xp: f64, yp: f64, sp: f64) -> MD {
    mmul(&rx(d(-yp)), &mmul(&ry(d(-xp)), &rz(d(sp))))
}

// ---------------------------------------------------------------- nutation

/// (dpsi, deps)
pub fn nutation(t: &T) -> (Q, Q) {
    let tc = t.cent();
    const A: [[f64; 2]; 5] = [
        [485868.249036, 1717915923.2178],
        [1287104.79305, 129596581.0481],
        [335779.526232, 1739527262.8478],
        [1072260.70369, 1602961601.2090],
        [450160.398036, -6962890.5431],
    ];
    let mut f = [ZERO; 5];
    let mut fa = [0.0; 5];
    let mut rate = [0.0; 5];
    for i in 0..5 {
        let (v, a) = poly(&A[i], tc);
        f[i] = v * as2r();
        fa[i] = a * 4.8482e-6;
        rate[i] = A[i][1].abs() * 4.8482e-6;
    }
    let (mut dp, mut de) = (ZERO, ZERO);
    let (mut ep, mut ee) = (0.0, 0.0);
    let ta = tc.f().abs();
    for i in 0..ser::NALS.len() {
        let n = &ser::NALS[i];
        let c = &ser::CLS[i];
        let mut arg = ZERO;
        let (mut aa, mut ar) = (0.0, 0.0);
        for j in 0..5 {
            arg = arg + f[j] * n[j] as f64;
            aa += (n[j] as f64).abs() * fa[j];
            ar += (n[j] as f64).abs() * rate[j];
        }
        let (s, co) = arg.sincos();
        dp = dp + (d(c[0]) + tc * c[1]) * s + co * c[2];
        de = de + (d(c[3]) + tc * c[4]) * co + s * c[5];
        let per = K * U * (1.0 + aa) + ar * t.cerr();
        ep += (c[0].abs() + c[1].abs() * ta + c[2].abs()) * per + c[1].abs() * t.cerr();
        ee += (c[3].abs() + c[4].abs() * ta + c[5].abs()) * per + c[4].abs() * t.cerr();
    }
    let u2r = as2r() / 1e7;
    let mas = as2r() / 1e3;
    (
        q(dp * u2r + mas * -0.135, ep * u2r.hi + K * U * 1e-9),
        q(de * u2r + mas * 0.388, ee * u2r.hi + K * U * 1e-9),
    )
}

pub const OBL: [f64; 4] = [84381.448, -46.8150, -0.00059, 0.001813];
pub fn mean_obliquity(t: &T) -> Q {
    let tc = t.cent();
    let (v, a) = poly(&OBL, tc);
    q(v * as2r(), 4.8482e-6 * (K * U * a + dpoly(&OBL, tc.f()) * t.cerr()))
}
/// (dpsipr, depspr)
pub fn precession_rate(t: &T) -> (Q, Q) {
    let tc = t.cent();
    let f = |c: f64| {
        let v = tc * as2r() * c;
        q(v, K * U * v.f().abs() + c.abs() * 4.85e-6 * t.cerr())
    };
    (f(-0.29965), f(-0.02524))
}
pub fn frame_bias() -> [Q; 3] {
    let f = |c: f64| {
        let v = as2r() * c;
        q(v, K * U * v.f().abs())
    };
    [f(-0.041775), f(-0.0068192), f(-0.0146)]
}
pub struct Bp {
    pub rb: MD,
    pub rp: MD,
    pub rbp: MD,
    pub tol: f64,
}
pub fn bias_precession(t: &T) -> Bp {
    let tc = t.cent();
    let eps0 = as2r() * 84381.448;
    let cps = [0.0, 5038.7784, -1.07259, -0.001147];
    let com = [0.0, 0.0, 0.05127, -0.007726];
    let cch = [0.0, 10.5526, -2.38064, -0.001125];
    let (psi, a1) = poly(&cps, tc);
    let (om, a2) = poly(&com, tc);
    let (chi, a3) = poly(&cch, tc);
    let (dps, dep) = precession_rate(t);
    let psia = psi * as2r() + dps.v;
    let oma = eps0 + om * as2r() + dep.v;
    let chia = chi * as2r();
    let b = frame_bias();
    let rb = mmul(&rx(-b[1].v), &mmul(&ry(b[0].v * eps0.sin()), &rz(b[2].v)));
    let rp = mmul(&rz(chia), &mmul(&rx(-oma), &mmul(&rz(-psia), &rx(eps0))));
    let rbp = mmul(&rp, &rb);
    let tf = tc.f();
    let ang = (a1 + a2 + a3 + 84381.448) * 4.85e-6;
    let rate = (dpoly(&cps, tf) + dpoly(&com, tf) + dpoly(&cch, tf)) * 4.85e-6;
    Bp { rb, rp, rbp, tol: K * U * (2.0 + ang) + rate * t.cerr() }
}
pub fn nutation_matrix(epsa: Dd, dpsi: Dd, deps: Dd) -> MD {
    mmul(&rx(-(epsa + deps)), &mmul(&rz(-dpsi), &rx(epsa)))
}
pub struct Pn {
    pub epsa: Q,
    pub rn: MD,
    pub rbpn: MD,
    pub bp: Bp,
    pub tol: f64,
}
/// Bias-precession-nutation with the given nutation.
pub fn pn_with(t: &T, dpsi: Q, deps: Q) -> Pn {
    let e0 = mean_obliquity(t);
    let (_, dep) = precession_rate(t);
    let epsa = q(e0.v + dep.v, e0.tol + dep.tol + 4.0 * U);
    let rn = nutation_matrix(epsa.v, dpsi.v, deps.v);
    let bp = bias_precession(t);
    let rbpn = mmul(&rn, &bp.rbp);
    // the obliquity error enters both first and last rotation and nearly cancels, bound it fully anyway
    let tol_rn = K * U * (2.0 + dpsi.v.f().abs() + deps.v.f().abs()) + dpsi.tol + deps.tol + 2.0 * epsa.tol;
    let tol = tol_rn * 2.0 + bp.tol * 2.0;
    Pn { epsa, rn, rbpn, bp, tol }
}
pub fn pn(t: &T) -> Pn {
    let (p, e) = nutation(t);
    pn_with(t, p, e)
}

// ---------------------------------------------------------------- CIO locator

const SP: [f64; 6] = [94e-6, 3808.35e-6, -119.94e-6, -72574.09e-6, 27.70e-6, 15.61e-6];
/// s + XY/2 (radians)
pub fn s_plus(t: &T) -> Q {
    let tc = t.cent();
    let ta = tc.f().abs();
    let mut f = [ZERO; 8];
    let mut fe = [0.0; 8];
    let mut fr = [0.0; 8];
    for i in 0..8 {
        let (v, e) = fundarg(i, tc);
        f[i] = v;
        let (c, asec) = FA[i];
        fe[i] = e + K * U * 14.0;
        fr[i] = dpoly(c, ta) * if asec { 4.85e-6 } else { 1.0 };
    }
    let ks: [&[[i32; 8]]; 5] = [ser::KS0, ser::KS1, ser::KS2, ser::KS3, ser::KS4];
    let ss: [&[[f64; 2]]; 5] = [ser::SS0, ser::SS1, ser::SS2, ser::SS3, ser::SS4];
    let mut w = [ZERO; 6];
    let mut we = [0.0f64; 6];
    for k in 0..6 {
        w[k] = d(SP[k]);
        let mut mag = SP[k].abs();
        if k < 5 {
            for i in 0..ks[k].len() {
                let mut a = ZERO;
                let (mut ae, mut ar) = (0.0, 0.0);
                for j in 0..8 {
                    let n = ks[k][i][j] as f64;
                    a = a + f[j] * n;
                    ae += n.abs() * fe[j];
                    ar += n.abs() * fr[j];
                }
                let (s, c) = a.sincos();
                w[k] = w[k] + s * ss[k][i][0] + c * ss[k][i][1];
                let m = ss[k][i][0].abs() + ss[k][i][1].abs();
                mag += m;
                we[k] += m * (ae + ar * t.cerr());
            }
        }
        we[k] += K * U * mag;
    }
    let mut r = ZERO;
    let mut e = 0.0;
    let mut mags = 0.0;
    for k in (0..6).rev() {
        r = r * tc + w[k];
        e = e * ta + we[k];
        mags = mags * ta + w[k].f().abs() * (1.0 + k as f64);
    }
    // derivative bound times time error, plus Horner rounding
    let tol = 4.8482e-6 * (e + K * U * mags + 8.0 * mags.max(SP[3].abs()) * t.cerr() / ta.max(1.0));
    q(r * as2r(), tol)
}
pub fn cio(t: &T, x: Q, y: Q) -> Q {
    let s = s_plus(t);
    let xy = x.v * y.v * 0.5;
    let tol = s.tol + K * U * xy.f().abs() + 0.5 * (x.tol * y.v.f().abs() + y.tol * x.v.f().abs());
    q(s.v - xy, tol)
}

/// Matrix from X, Y, s with an entry-wise tolerance.
pub fn c2i_xys(x: Q, y: Q, s: Q) -> (MD, f64) {
    let r2 = x.v * x.v + y.v * y.v;
    let z2 = ONE - r2;
    let z = z2.sqrt();
    // closed form avoids the angles: with a = 1/(1+z)
    //   M0 = [1-aX2, -aXY, -X; -aXY, 1-aY2, -Y; X, Y, z], result = Rz(-s) M0
    let a = ONE / (ONE + z);
    let m0 = [
        [ONE - a * x.v * x.v, -(a * x.v * y.v), -x.v],
        [-(a * x.v * y.v), ONE - a * y.v * y.v, -y.v],
        [x.v, y.v, z],
    ];
    let m = mmul(&rz(-s.v), &m0);
    let zf = z.f().max(1e-12);
    let sf = s.v.f().abs();
    let tol = K * U * (4.0 + sf + 1.0 / zf) + s.tol + (x.tol + y.tol) * (1.0 + 1.0 / zf);
    (m, tol)
}
pub fn c2i(t: &T) -> (MD, f64) {
    let p = pn(t);
    let x = q(p.rbpn[2][0], p.tol);
    let y = q(p.rbpn[2][1], p.tol);
    let s = cio(t, x, y);
    c2i_xys(x, y, s)
}
pub fn c2t(tt: &T, ut1: (f64, f64), xp: f64, yp: f64) -> (MD, f64) {
    let (ci, tol1) = c2i(tt);
    let e = era(ut1.0, ut1.1);
    let rpom = polar_motion(xp, yp, 0.0);
    let m = mmul(&rpom, &mmul(&rz(e.v), &ci));
    (m, 2.0 * tol1 + e.tol + K * U * 6.0)
}

// ---------------------------------------------------------------- Earth ephemeris

pub struct Epv {
    pub ph: [Dd; 3],
    pub vh: [Dd; 3],
    pub pb: [Dd; 3],
    pub vb: [Dd; 3],
    pub tolp: f64,
    pub tolv: f64,
}
pub fn epv(t: &T) -> Epv {
    use epv::*;
    let ty = t.years();
    let terr = t.err / 365.25 + 2.0 * U * ty.f().abs();
    let tables: [[[&[[f64; 3]]; 3]; 3]; 2] = [
        [[&E0_1, &E0_2, &E0_3], [&E1_1, &E1_2, &E1_3], [&E2_1, &E2_2, &E2_3]],
        [[&S0_1, &S0_2, &S0_3], [&S1_1, &S1_2, &S1_3], [&S2_1, &S2_2, &S2_3]],
    ];
    let ta = ty.f().abs();
    let mut out = [[[ZERO; 3]; 2]; 2]; // [helio part / sun part][pos / vel][axis]
    let (mut ep, mut ev) = (0.0, 0.0);
    let tp = [ONE, ty, ty * ty];
    let tpa = [1.0, ta, ta * ta];
    for w in 0..2 {
        for n in 0..3 {
            for k in 0..3 {
                let (mut x, mut v) = (ZERO, ZERO);
                let (mut xe, mut ve) = (0.0, 0.0);
                for &[a, b, c] in tables[w][n][k] {
                    let p = ty * c + b;
                    let (s, co) = p.sincos();
                    x = x + co * a;
                    // d/dt [a t^n cos(b+ct)]
                    let nn = n as f64;
                    if n > 0 {
                        v = v + co * a * tp[n - 1] * nn;
                    }
                    v = v - s * (d(a) * c) * tp[n];
                    let perr = K * U * (1.0 + b.abs() + (c * ta).abs());
                    xe += a.abs() * tpa[n] * (perr + c.abs() * terr);
                    let dv = a.abs() * (c.abs() * tpa[n] + if n > 0 { nn * tpa[n - 1] } else { 0.0 });
                    ve += dv * (perr + c.abs() * terr);
                    if n > 0 {
                        xe += a.abs() * nn * tpa[n - 1] * terr;
                        ve += a.abs() * nn * c.abs() * tpa[n - 1] * terr;
                    }
                }
                out[w][0][k] = out[w][0][k] + x * tp[n];
                out[w][1][k] = out[w][1][k] + v;
                ep += xe;
                ev += ve;
            }
        }
    }
    let rot = |v: [Dd; 3]| -> [Dd; 3] {
        [
            v[0] + v[1] * 0.000000211284 + v[2] * -0.000000091603,
            v[0] * -0.000000230286 + v[1] * 0.917482137087 + v[2] * -0.397776982902,
            v[1] * 0.397776982902 + v[2] * 0.917482137087,
        ]
    };
    let add = |a: [Dd; 3], b: [Dd; 3]| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
    let day = |a: [Dd; 3]| [a[0] / 365.25, a[1] / 365.25, a[2] / 365.25];
    Epv {
        ph: rot(out[0][0]),
        vh: rot(day(out[0][1])),
        pb: rot(add(out[0][0], out[1][0])),
        vb: rot(day(add(out[0][1], out[1][1]))),
        tolp: ep + K * U,
        tolv: ev / 365.25 + K * U * 0.02,
    }
}

// ---------------------------------------------------------------- ellipsoid

pub fn geodetic_to_xyz(a: f64, f: f64, lon: Dd, lat: Dd, h: f64) -> ([Dd; 3], f64) {
    let (sp, cp) = lat.sincos();
    let (sl, cl) = lon.sincos();
    let w = (ONE - d(f)).sq();
    let dd = cp * cp + w * sp * sp;
    let n = d(a) / dd.sqrt();
    let r = (n + h) * cp;
    let v = [r * cl, r * sl, (w * n + h) * sp];
    // 1-f may be formed through e^2 = f(2-f), which costs accuracy when f is near 1
    let wf = w.f();
    let tol = K * U * (n.f().abs() * (1.0 + 0.5 / (dd.f().max(1e-300)) * (1.0 - wf).max(0.0) * sp.f().powi(2) + 1.0) + h.abs());
    (v, tol)
}

// ---------------------------------------------------------------- almanac Sun

/// Low-precision apparent direction to the Sun (Astronomical Almanac), GCRS-ish
/// mean equinox of date, good to about 0.01 degree 1950-2050, 0.03 over 1900-2100.
/// Returns (right ascension, declination) of date, radians.
pub fn almanac_sun(days: f64) -> (f64, f64) {
    let deg = std::f64::consts::PI / 180.0;
    let l = 280.460 + 0.9856474 * days;
    let g = (357.528 + 0.9856003 * days) * deg;
    let lam = (l + 1.915 * g.sin() + 0.020 * (2.0 * g).sin()) * deg;
    let eps = (23.439 - 0.0000004 * days) * deg;
    let ra = (eps.cos() * lam.sin()).atan2(lam.cos());
    let dec = (eps.sin() * lam.sin()).asin();
    (ra, dec)
}
/// Greenwich mean sidereal time (radians) from UT1 days since J2000.
pub fn gmst(days: f64) -> f64 {
    let deg = std::f64::consts::PI / 180.0;
    let t = days / 36525.0;
    (280.46061837 + 360.98564736629 * days + 0.000387933 * t * t - t * t * t / 38710000.0) * deg
}

// ---------------------------------------------------------------- the Sun-angle chain

/// Earth rotation angle for elapsed UT1 days since J2000 known to `err` days.
pub fn era_days(days: Dd, err: f64) -> Q {
    let frac = days - days.floor();
    let turns = frac + 0.7790572732640 + days * 0.00273781191135448;
    q((turns - turns.floor()) * TWO_PI, TWO_PI.hi * (err * 1.01 + 16.0 * U * (3.0 + 0.0028 * days.f().abs())))
}
pub struct Chain {
    /// day part of the UTC date (MJD with fraction)
    pub jd1: Q,
    pub dat: Q,
    /// same for TAI, TT, UT1 (MJD with fraction)
    pub tai: Q,
    pub tt: Q,
    pub ut1: Q,
    pub era: Q,
    pub site: [Dd; 3],
    pub site_tol: f64,
    pub earth: [Dd; 3],
    pub earth_tol: f64,
    pub sun: [Dd; 3],
    pub sun_tol: f64,
    /// cosine of the zenith angle
    pub cosz: Q,
}
pub const AU_M: f64 = 149597870700.0;
pub const XP_AS: f64 = 0.0349282;
pub const YP_AS: f64 = 0.4833163;
pub const DUT1: f64 = -0.072073685;

/// The parts of the sky that the chain needs at one instant: heliocentric Earth, celestial-to-terrestrial matrix.
pub struct Sky {
    pub earth: [Dd; 3],
    pub earth_tol: f64,
    pub c: MD,
    pub ctol: f64,
}
/// All of it in double-double.
pub fn sky(t: &T, era: Q) -> Sky {
    let ep = epv(t);
    let (ci, tol1) = c2i(t);
    let rp = polar_motion(XP_AS * as2r().hi, YP_AS * as2r().hi, 0.0);
    Sky { earth: ep.ph, earth_tol: ep.tolp, c: mmul(&rp, &mmul(&rz(era.v), &ci)), ctol: 2.0 * tol1 + era.tol + K * U * 6.0 }
}
#[allow(clippy::too_many_arguments)]
pub fn sun_chain(y: i64, m: i64, day: i64, h: u8, mi: u8, s: f64, lat: f64, lon: f64, height: f64, delta: f64, part: impl FnOnce(&T, Q) -> Sky) -> Chain {
    let n = days_from_civil(y, m, day);
    let fr = (d(s) + (3600.0 * h as f64 + 60.0 * mi as f64)) / 86400.0;
    let jd1 = fr + d(delta) / 86400.0 + n as f64;
    let mag = (n as f64).abs() + jd1.f().abs() + (delta / 86400.0).abs() + 1.0;
    let e = 4.0 * U * mag;
    let dat = tai_utc(y, m, day, fr.f()).unwrap_or(q(ZERO, 0.0));
    let step = 3.0 * U * mag;
    let tai = q(jd1 + dat.v / 86400.0, e + step + dat.tol / 86400.0);
    let tt = q(tai.v + d(32.184) / 86400.0, tai.tol + step);
    let ut1 = q(jd1 + d(DUT1) / 86400.0, e + step);
    let rel = |x: Q| T { days: x.v + 2400000.5 - DJ00, err: x.tol + 4.0 * U * (x.v.f() - 51544.5).abs() };
    let era = {
        let u = rel(ut1);
        era_days(u.days, u.err)
    };
    let Sky { earth, earth_tol, c, ctol } = part(&rel(tt), era);
    let mut sun = [ZERO; 3];
    for i in 0..3 {
        for j in 0..3 {
            sun[i] = sun[i] - c[i][j] * earth[j];
        }
        sun[i] = sun[i] * AU_M;
    }
    let sun_tol = AU_M * (ctol * 1.8 + earth_tol * 1.8 + K * U * 2.0);
    let deg = PI / 180.0;
    let (phi, lam) = (deg * lat, deg * lon);
    let (site, st) = geodetic_to_xyz(6378137.0, 1.0 / 298.257223563, lam, phi, height);
    let site_tol = st + 4.0 * U * (6378137.0 + height.abs()) * (2.0 + lon.abs() / 57.0);
    let (sp, cp) = phi.sincos();
    let (sl, cl) = lam.sincos();
    let r = (sun[0].sq() + sun[1].sq() + sun[2].sq()).sqrt();
    let cosz = (cp * cl * sun[0] + cp * sl * sun[1] + sp * sun[2]) / r;
    let cz_tol = 2.0 * sun_tol / r.f() + K * U * (3.0 + lon.abs() / 57.0);
    Chain { jd1: q(jd1, e), dat, tai, tt, ut1, era, site, site_tol, earth, earth_tol, sun, sun_tol, cosz: q(cosz, cz_tol) }
}
