//! Input generators. Every random choice is made through proptest strategies.
use crate::fw::{D2, F};
use crate::refm;
use proptest::prelude::*;
use std::sync::OnceLock;

use crate::refm::DJ00;

/// Fuzzing dictionary: numeric literals of the current library sources (tables
/// and tests excluded) plus standard landmarks. Only steers generation.
pub fn dict() -> &'static Vec<f64> {
    static D: OnceLock<Vec<f64>> = OnceLock::new();
    D.get_or_init(|| {
        let repo = std::env::var("TOFAS_REPO").unwrap_or_else(|_| "/repo".into());
        let mut v: Vec<f64> = vec![];
        for dir in ["crates/tofas/src", "crates/tofas_extras/src"] {
            let mut names: Vec<_> = match std::fs::read_dir(format!("{repo}/{dir}")) {
                Ok(rd) => rd.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
                Err(_) => vec![],
            };
            names.sort();
            for p in names {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                if !n.ends_with(".rs") || n.contains("test") || n.contains("epv00") {
                    continue;
                }
                if let Ok(s) = std::fs::read_to_string(&p) {
                    // rows of coefficient tables would only dilute the dictionary
                    let s: Vec<&str> = s.lines().filter(|l| !l.trim_start().starts_with('[')).collect();
                    literals(&s.join("\n"), &mut v);
                }
            }
        }
        let mut extra = vec![
            0.0, 0.5, 1.0, 2.0, 1e-9, 1e-6, 1e-3, 10.0, 30.0, 45.0, 60.0, 90.0, 120.0, 180.0, 270.0, 360.0, 365.25, 36525.0,
            2451545.0, 2400000.5, 2440587.5, 2415020.0, 2488070.0, 2415020.5, 2488069.5, 2444239.5, 51544.5, 1721425.5,
            std::f64::consts::PI, std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_4, std::f64::consts::TAU,
            6378137.0, 6356752.314245179, 1.0 / 298.257223563, 86400.0, 3600.0, 86399.0, 1900.0, 2000.0, 2100.0,
            1582.0, 1970.0, 1972.0, 1960.0, 2017.0, 2038.0, 400.0, 100.0, 4.0,
        ];
        v.append(&mut extra);
        let neg: Vec<f64> = v.iter().map(|x| -x).collect();
        v.extend(neg);
        v.retain(|x| x.is_finite());
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    })
}

fn literals(s: &str, out: &mut Vec<f64>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1
            }
            continue;
        }
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_ident {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                i += 1
            }
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                i += 1;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                    i += 1
                }
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'-' || b[j] == b'+') {
                    j += 1
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1
                    }
                    i = j;
                }
            }
            let t: String = s[st..i].replace('_', "");
            if let Ok(x) = t.parse::<f64>() {
                out.push(x);
            }
        } else {
            i += 1
        }
    }
}

pub fn nudge(x: f64, k: i32) -> f64 {
    // k-th neighbouring double
    let mut y = x;
    for _ in 0..k.abs() {
        y = if k > 0 { next_up(y) } else { -next_up(-y) };
    }
    y
}
fn next_up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    let b = x.to_bits();
    if x == 0.0 {
        return f64::from_bits(1);
    }
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

/// A finite double in [lo, hi]: uniform, landmark values and their neighbours,
/// magnitudes on a log scale, integers.
pub fn real(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    real_with(lo, hi, &[])
}
pub fn real_with(lo: f64, hi: f64, extra: &[f64]) -> BoxedStrategy<f64> {
    let mut cand: Vec<f64> = dict().iter().cloned().filter(|x| *x >= lo && *x <= hi).collect();
    cand.extend(extra.iter().cloned().filter(|x| *x >= lo && *x <= hi));
    cand.push(lo);
    cand.push(hi);
    let c2 = cand.clone();
    let ex: Vec<f64> = extra.iter().cloned().filter(|x| *x >= lo && *x <= hi).collect();
    let maxmag = lo.abs().max(hi.abs()).max(1e-300).log10();
    let clampf = move |x: f64| if x < lo { lo } else if x > hi { hi } else { x };
    let mut alts: Vec<(u32, BoxedStrategy<f64>)> = vec![
        (8, (lo..=hi).boxed()),
        (2, (proptest::sample::select(cand), -2i32..=2).prop_map(move |(x, k)| clampf(nudge(x, k))).boxed()),
        (2, (proptest::sample::select(c2), -1.0..1.0f64, -14.0..0.0f64)
            .prop_map(move |(x, s, e)| clampf(x + s * 10f64.powf(e) * x.abs().max(1.0)))
            .boxed()),
        (2, (any::<bool>(), -18.0f64.max(maxmag - 40.0)..=maxmag)
            .prop_map(move |(s, e)| clampf(if s { -10f64.powf(e) } else { 10f64.powf(e) }))
            .boxed()),
        (1, (lo..=hi).prop_map(move |x| clampf(x.round())).boxed()),
        (1, (lo..=hi).prop_map(move |x| clampf((2.0 * x).round() / 2.0)).boxed()),
    ];
    if !ex.is_empty() {
        let ex2 = ex.clone();
        alts.push((3, (proptest::sample::select(ex), -3i32..=3).prop_map(move |(x, k)| clampf(nudge(x, k))).boxed()));
        alts.push((2, (proptest::sample::select(ex2), -1.0..1.0f64, -15.0..-1.0f64)
            .prop_map(move |(x, s, e)| clampf(x + s * 10f64.powf(e)))
            .boxed()));
    }
    proptest::strategy::Union::new_weighted(alts).boxed()
}

/// Angle in radians, |x| <= max.
pub fn angle(max: f64) -> BoxedStrategy<f64> {
    let mut ex = vec![];
    for k in -16..=16 {
        ex.push(k as f64 * std::f64::consts::FRAC_PI_4);
        ex.push(k as f64 * std::f64::consts::PI / 12.0);
    }
    ex.extend(dict().iter().map(|x| x.to_radians()));
    real_with(-max, max, &ex)
}

/// An instant: (day, fraction) with day a multiple of one half and 0 <= fraction < 1,
/// the total being (close to) within [lo, hi].
pub fn instant(lo: f64, hi: f64) -> BoxedStrategy<(f64, f64)> {
    let norm = move |x: f64, extra: f64| {
        let x = x.clamp(lo, hi);
        let d = x.floor();
        let mut f = (x - d) + extra;
        if !(0.0..1.0).contains(&f) {
            f = x - d;
        }
        (d, f)
    };
    // landmark Julian dates
    let mut lm: Vec<f64> = vec![];
    for &v in dict() {
        for c in [v, v + 2400000.5, v + DJ00, DJ00 + v * 365.25, DJ00 + v * 36525.0, refm::days_from_civil(v.clamp(-9e6, 9e6) as i64, 1, 1) as f64 + 2400000.5] {
            if c >= lo && c <= hi {
                lm.push(c)
            }
        }
    }
    for y in 1955..2030 {
        for m in 1..=12 {
            let c = refm::days_from_civil(y, m, 1) as f64 + 2400000.5;
            if c >= lo && c <= hi {
                lm.push(c)
            }
        }
    }
    lm.push(lo);
    lm.push(hi);
    lm.sort_by(|a, b| a.partial_cmp(b).unwrap());
    lm.dedup();
    let lm2 = lm.clone();
    let tiny = prop_oneof![
        3 => Just(0.0),
        2 => (any::<bool>(), -17.0..-0.5f64).prop_map(|(s, e)| if s { -10f64.powf(e) } else { 10f64.powf(e) }),
        1 => proptest::sample::select(vec![1.0 / 86400.0, -1.0 / 86400.0, 0.5, -0.5, 0.5 / 86400.0, 43199.5 / 86400.0]),
    ];
    let tiny2 = tiny.clone();
    prop_oneof![
        6 => (lo..=hi, 0.0..1.0f64).prop_map(move |(x, f)| (x.floor(), f)),
        2 => (-4.0..4.5f64, any::<bool>(), 0.0..1.0f64).prop_map(move |(e, s, f)| {
            let d = 10f64.powf(e);
            let (d, _) = norm(DJ00 + if s { -d } else { d }, 0.0);
            (d, f)
        }),
        2 => (proptest::sample::select(lm), tiny).prop_map(move |(x, t)| norm(x, t)),
        1 => (proptest::sample::select(lm2), -40.0..40.0f64, 0.0..1.0f64).prop_map(move |(x, k, f)| { let (d, _) = norm(x + k, 0.0); (d, f) }),
        2 => ((lo * 2.0).ceil() as i64..=(hi * 2.0).floor() as i64, tiny2).prop_map(move |(k, t)| norm(k as f64 / 2.0, t)),
    ]
    .boxed()
}

/// Instants at which the Earth rotation angle is a multiple of 15 degrees, or very near one.
pub fn turn_instant(lo: f64, hi: f64) -> BoxedStrategy<(f64, f64)> {
    let off = prop_oneof![
        2 => Just(0.0),
        1 => (-8i32..=8).prop_map(|k| k as f64 * 1e-16),
        2 => (-16.0..-4.0f64, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -10f64.powf(e) }),
    ];
    (lo.floor() as i64..hi.floor() as i64, prop_oneof![1 => Just(0i64), 2 => 0..24i64], off)
        .prop_map(|(n, k, e)| {
            let t = (crate::dd::Dd::new((n - DJ00 as i64) as f64) + k as f64 / 24.0 - 0.7790572732640) / (crate::dd::Dd::new(0.00273781191135448) + 1.0);
            let d = t.floor();
            let f = ((t - d).f() + e).clamp(0.0, 0.9999999999999999);
            (DJ00 + d.f(), f)
        })
        .boxed()
}

#[derive(Clone, Debug)]
pub enum Split {
    DayFrac,
    FracDay,
    OneFirst,
    OneLast,
    Mjd,
    MjdRev,
    J2000,
    J2000Rev,
    Shift(i64),
    Rand(f64),
    Half,
    NegFrac,
    Noon,
}
pub fn split_kind() -> BoxedStrategy<Split> {
    prop_oneof![
        5 => Just(Split::DayFrac),
        2 => Just(Split::FracDay),
        1 => Just(Split::OneFirst),
        1 => Just(Split::OneLast),
        3 => Just(Split::Mjd),
        1 => Just(Split::MjdRev),
        3 => Just(Split::J2000),
        1 => Just(Split::J2000Rev),
        1 => (-3_000_000i64..3_000_000).prop_map(Split::Shift),
        1 => (-3e6..3e6f64).prop_map(Split::Rand),
        // parts far beyond the date, opposite in sign; one in a while not even exact to a day
        1 => (6.5..13.0f64, any::<bool>(), 0..8u8).prop_map(|(e, s, k)| {
            let x = 10f64.powf(if k == 0 { e + 5.0 } else { e }).round() + if k % 2 == 0 { 0.5 } else { 0.0 };
            Split::Rand(if s { -x } else { x })
        }),
        1 => Just(Split::Half),
        1 => Just(Split::NegFrac),
        1 => Just(Split::Noon),
    ]
    .boxed()
}
pub fn apply_split((d, f): (f64, f64), s: &Split) -> D2 {
    let (a, b) = match *s {
        Split::DayFrac => (d, f),
        Split::FracDay => (f, d),
        Split::OneFirst => (d + f, 0.0),
        Split::OneLast => (0.0, d + f),
        Split::Mjd => (2400000.5, (d - 2400000.5) + f),
        Split::MjdRev => ((d - 2400000.5) + f, 2400000.5),
        Split::J2000 => (DJ00, (d - DJ00) + f),
        Split::J2000Rev => ((d - DJ00) + f, DJ00),
        Split::Shift(k) => (d - k as f64, k as f64 + f),
        Split::Rand(x) => (x, (d - x) + f),
        Split::Half => ((d + f) / 2.0, (d + f) / 2.0),
        Split::NegFrac => (d + 1.0, f - 1.0),
        Split::Noon => (d + 0.5, f - 0.5),
    };
    D2(F(a), F(b))
}
/// Two-part date with total in [lo, hi] (approximately).
pub fn date2(lo: f64, hi: f64) -> BoxedStrategy<D2> {
    (instant(lo, hi), split_kind()).prop_map(|(i, s)| apply_split(i, &s)).boxed()
}
/// One to three dates evaluated in sequence; later ones often share a part with the first.
pub fn dates(lo: f64, hi: f64, maxn: usize) -> BoxedStrategy<Vec<D2>> {
    let one = date2(lo, hi).prop_map(|d| vec![d]);
    if maxn <= 1 {
        return one.boxed();
    }
    let near = (date2(lo, hi), proptest::collection::vec((0..3u8, -1.0..1.0f64), 1..maxn)).prop_map(|(d, ms)| {
        let mut v = vec![d];
        for (k, x) in ms {
            v.push(match k {
                0 => D2(d.0, F(d.b() + x)),
                1 => D2(F(d.a() + x), d.1),
                _ => D2(d.1, d.0),
            })
        }
        v
    });
    prop_oneof![4 => one, 1 => near].boxed()
}
pub fn label_split(d: &D2) {
    use crate::fw::label;
    label(if d.a() == d.b() {
        "split:equal"
    } else if d.b() == 0.0 || d.a() == 0.0 {
        "split:single"
    } else if d.a().abs() > d.b().abs() {
        "split:big-first"
    } else {
        "split:small-first"
    });
    let days = (d.a() - DJ00) + d.b();
    label(if days < -36525.0 {
        "epoch:<1900"
    } else if days < 0.0 {
        "epoch:1900-2000"
    } else if days < 36525.0 {
        "epoch:2000-2100"
    } else {
        "epoch:>2100"
    });
}
pub fn f3(lo: f64, hi: f64) -> BoxedStrategy<[F; 3]> {
    [real(lo, hi), real(lo, hi), real(lo, hi)].prop_map(|v| [F(v[0]), F(v[1]), F(v[2])]).boxed()
}
