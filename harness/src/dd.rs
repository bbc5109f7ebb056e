//! Double-double arithmetic (about 31 significant digits), used only by the
//! reference models, so that their own rounding is negligible next to that of
//! the code under test.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
pub const PI: Dd = Dd { hi: 3.141592653589793, lo: 1.2246467991473532e-16 };
pub const TWO_PI: Dd = Dd { hi: 6.283185307179586, lo: 2.4492935982947064e-16 };
pub const HALF_PI: Dd = Dd { hi: 1.5707963267948966, lo: 6.123233995736766e-17 };
/// third part of pi/2, for reducing large arguments
const HALF_PI_3: f64 = -1.4973849048591698e-33;

impl Dd {
    #[inline]
    pub fn new(x: f64) -> Dd {
        Dd { hi: x, lo: 0.0 }
    }
    /// Exact sum of two doubles.
    #[inline]
    pub fn sum(a: f64, b: f64) -> Dd {
        let (hi, lo) = two_sum(a, b);
        Dd { hi, lo }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn abs(self) -> Dd {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) {
            -self
        } else {
            self
        }
    }
    #[inline]
    pub fn sq(self) -> Dd {
        self * self
    }
    pub fn floor(self) -> Dd {
        let h = self.hi.floor();
        if h == self.hi {
            let l = self.lo.floor();
            let (hi, lo) = quick_two_sum(h, l);
            Dd { hi, lo }
        } else {
            Dd { hi: h, lo: 0.0 }
        }
    }
    pub fn round(self) -> Dd {
        (self + Dd::new(0.5)).floor()
    }
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return ZERO;
        }
        // scale against overflow/underflow is not needed in the ranges used
        let x = 1.0 / self.hi.sqrt();
        let ax = Dd::new(self.hi * x);
        let e = (self - ax * ax).hi * x * 0.5;
        ax + Dd::new(e)
    }
    /// (sin, cos)
    pub fn sincos(self) -> (Dd, Dd) {
        let k = (self.hi / HALF_PI.hi).round();
        let r = self - Dd::new(k) * HALF_PI - Dd::new(k * HALF_PI_3);
        // one correction step in case k was off by rounding is unnecessary:
        // |r| <= pi/4 + tiny
        let r2 = r * r;
        let mut s = ZERO;
        let mut c = ZERO;
        for i in (1..=14).rev() {
            // sin: r (1 - r2/(2*3) (1 - r2/(4*5) ...))
            let fs = INV[2 * i] * INV[2 * i + 1];
            s = (ONE - s) * r2 * fs;
            let fc = INV[2 * i - 1] * INV[2 * i];
            c = (ONE - c) * r2 * fc;
        }
        let s = r * (ONE - s);
        let c = ONE - c;
        match (k.rem_euclid(4.0)) as i32 {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    pub fn sin(self) -> Dd {
        self.sincos().0
    }
    pub fn cos(self) -> Dd {
        self.sincos().1
    }
    pub fn atan2(y: Dd, x: Dd) -> Dd {
        if x.hi == 0.0 && y.hi == 0.0 {
            return ZERO;
        }
        // scale to avoid overflow/underflow
        let m = x.hi.abs().max(y.hi.abs());
        let e = 2f64.powi(-(m.log2().floor() as i32));
        let x = x.scale2(e);
        let y = y.scale2(e);
        let a0 = y.hi.atan2(x.hi);
        let (s, c) = Dd::new(a0).sincos();
        let r = (x * x + y * y).sqrt();
        let d = (y * c - x * s) / r; // sin(a - a0)
        Dd::new(a0) + d
    }
    #[inline]
    pub fn scale2(self, p: f64) -> Dd {
        Dd { hi: self.hi * p, lo: self.lo * p }
    }
    /// self modulo one turn, in (-pi, pi]
    pub fn wrap_pi(self) -> Dd {
        self - (self / TWO_PI).round() * TWO_PI
    }
}

impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, b: Dd) -> Dd {
        let (s, e) = two_sum(self.hi, b.hi);
        let (t, f) = two_sum(self.lo, b.lo);
        let (s, e) = quick_two_sum(s, e + t);
        let (hi, lo) = quick_two_sum(s, e + f);
        Dd { hi, lo }
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, b: Dd) -> Dd {
        self + (-b)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, b: Dd) -> Dd {
        let (p, e) = two_prod(self.hi, b.hi);
        let (hi, lo) = quick_two_sum(p, e + (self.hi * b.lo + self.lo * b.hi));
        Dd { hi, lo }
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, b: Dd) -> Dd {
        let q1 = self.hi / b.hi;
        let r = self - b * Dd::new(q1);
        let q2 = r.hi / b.hi;
        let r = r - b * Dd::new(q2);
        let q3 = r.hi / b.hi;
        let (hi, lo) = quick_two_sum(q1, q2);
        Dd { hi, lo } + Dd::new(q3)
    }
}
impl Add<f64> for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, b: f64) -> Dd {
        self + Dd::new(b)
    }
}
impl Sub<f64> for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, b: f64) -> Dd {
        self - Dd::new(b)
    }
}
impl Mul<f64> for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, b: f64) -> Dd {
        self * Dd::new(b)
    }
}
impl Div<f64> for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, b: f64) -> Dd {
        self / Dd::new(b)
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd::new(x)
    }
}

include!("dd_inv.rs");
