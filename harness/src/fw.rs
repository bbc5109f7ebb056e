//! Small framework: exact float wrapper, calling the code under test,
//! outcome bookkeeping, and comparison helpers.
use crate::dd::Dd;
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Unit roundoff of f64.
pub const U: f64 = 1.1102230246251565e-16;

/// f64 that survives JSON exactly (NaN, infinities, every bit).
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?} bits={:016x}", self.0, self.0.to_bits()))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.split("bits=").nth(1).ok_or_else(|| D::Error::custom("no bits="))?;
        Ok(F(f64::from_bits(u64::from_str_radix(b.trim(), 16).map_err(D::Error::custom)?)))
    }
}
impl From<f64> for F {
    fn from(x: f64) -> F {
        F(x)
    }
}

/// A two-part date.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct D2(pub F, pub F);
impl D2 {
    pub fn a(&self) -> f64 {
        self.0 .0
    }
    pub fn b(&self) -> f64 {
        self.1 .0
    }
    pub fn dd(&self) -> Dd {
        Dd::sum(self.a(), self.b())
    }
    pub fn p(&self) -> (f64, f64) {
        (self.a(), self.b())
    }
}

pub type Res<T> = Result<T, String>;

#[derive(Default, Clone)]
pub struct Log {
    pub labels: BTreeMap<String, u64>,
    /// largest observed |error|/tolerance, by quantity
    pub margin: BTreeMap<&'static str, f64>,
    pub comparisons: u64,
}
impl Log {
    pub fn absorb(&mut self, o: &Log) {
        self.comparisons += o.comparisons;
        for (k, v) in &o.labels {
            match self.labels.get_mut(k) {
                Some(c) => *c += v,
                None => {
                    self.labels.insert(k.clone(), *v);
                }
            }
        }
        for (k, v) in &o.margin {
            let e = self.margin.entry(k).or_insert(0.0);
            if *v > *e {
                *e = *v
            }
        }
    }
}

thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
    /// set while code under test is running (its panics are findings, others are harness errors)
    pub static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn label(s: &str) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(c) = l.labels.get_mut(s) {
            *c += 1
        } else {
            l.labels.insert(s.to_string(), 1);
        }
    })
}
pub fn label_if(c: bool, s: &str) {
    if c {
        label(s)
    }
}
fn margin(name: &'static str, r: f64) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.comparisons += 1;
        let e = l.margin.entry(name).or_insert(0.0);
        if r > *e {
            *e = r
        }
    })
}

/// Runs code under test; a panic becomes a failure of the property.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    IN_LIB.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(false));
    r.map_err(|_| format!("{what}: panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|x| x.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{info}").replace('\n', " "));
        } else {
            def(info)
        }
    }));
}

/// A reference value with the absolute error allowed.
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub v: Dd,
    pub tol: f64,
}
pub fn q(v: Dd, tol: f64) -> Q {
    Q { v, tol }
}

pub fn close(name: &'static str, got: f64, want: Q) -> Res<()> {
    let e = (Dd::new(got) - want.v).abs().f();
    if got.is_finite() && e <= want.tol {
        if want.tol > 0.0 {
            margin(name, e / want.tol);
        }
        Ok(())
    } else if got == want.v.f() {
        Ok(())
    } else {
        Err(format!("{name}: got {got:?}, expected {:?} within {:e} (off by {e:e})", want.v.f(), want.tol))
    }
}
/// Same modulo one turn.
pub fn close_angle(name: &'static str, got: f64, want: Q) -> Res<()> {
    if !got.is_finite() {
        return Err(format!("{name}: got {got:?}, expected {:?} modulo 2pi", want.v.f()));
    }
    let e = (Dd::new(got) - want.v).wrap_pi().abs().f();
    if e <= want.tol {
        margin(name, e / want.tol);
        Ok(())
    } else {
        Err(format!("{name}: got {got:?}, expected {:?} modulo 2pi within {:e} (off by {e:e})", want.v.f(), want.tol))
    }
}
pub fn near(name: &'static str, got: f64, want: f64, tol: f64) -> Res<()> {
    close(name, got, q(Dd::new(want), tol))
}
pub fn close_v(name: &'static str, got: &[f64; 3], want: &[Dd; 3], tol: f64) -> Res<()> {
    for i in 0..3 {
        close(name, got[i], q(want[i], tol)).map_err(|e| format!("[{i}] {e}"))?;
    }
    Ok(())
}
pub type MD = [[Dd; 3]; 3];
pub fn close_m(name: &'static str, got: &[[f64; 3]; 3], want: &MD, tol: f64) -> Res<()> {
    for i in 0..3 {
        for j in 0..3 {
            close(name, got[i][j], q(want[i][j], tol)).map_err(|e| format!("[{i}][{j}] {e}"))?;
        }
    }
    Ok(())
}
/// Proper rotation to within tol (orthogonality and determinant in f64 double-double).
pub fn proper_rotation(name: &'static str, m: &[[f64; 3]; 3], tol: f64) -> Res<()> {
    let d = |x: f64| Dd::new(x);
    for i in 0..3 {
        for j in 0..3 {
            let s = d(m[i][0]) * d(m[j][0]) + d(m[i][1]) * d(m[j][1]) + d(m[i][2]) * d(m[j][2]);
            let want = if i == j { 1.0 } else { 0.0 };
            let e = (s - want).abs().f();
            if !(e <= tol) {
                return Err(format!("{name}: rows {i},{j} not orthonormal (off by {e:e}, allowed {tol:e}): {m:?}"));
            }
        }
    }
    let det = d(m[0][0]) * (d(m[1][1]) * d(m[2][2]) - d(m[1][2]) * d(m[2][1]))
        - d(m[0][1]) * (d(m[1][0]) * d(m[2][2]) - d(m[1][2]) * d(m[2][0]))
        + d(m[0][2]) * (d(m[1][0]) * d(m[2][1]) - d(m[1][1]) * d(m[2][0]));
    let e = (det - 1.0).abs().f();
    if !(e <= 3.0 * tol) {
        return Err(format!("{name}: determinant {} is not +1: {m:?}", det.f()));
    }
    Ok(())
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Res<()> {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}
