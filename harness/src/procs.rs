//! Uniform handling of every processor the library offers.

use crate::gen::*;
use proptest::prelude::*;
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::delay::{Delay, LinearDelay};
use rasp::filter::rbj::*;
use rasp::filter::{Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::{Processor, TappableDelayLine};
use serde::{Deserialize, Serialize};

/// Parameters of an RBJ filter. `k`: 0 low-pass, 1 high-pass, 2 band-pass 1,
/// 3 band-pass 2, 4 band-stop, 5 all-pass, 6 peak, 7 low-shelf, 8 high-shelf.
/// `q` is the shelf slope for kinds 7 and 8; `g` (dB) is used by 6, 7, 8.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rbj {
    pub k: u8,
    pub fs: Fl,
    pub f: Fl,
    pub g: Fl,
    pub q: Fl,
}

pub const RBJ_NAMES: [&str; 9] = [
    "LowPass", "HighPass", "BandPass1", "BandPass2", "BandStop", "AllPass", "Peak", "LowShelf",
    "HighShelf",
];

/// A processor and its settings.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cfg {
    Delay { d: u32, max: u32 },
    Linear { d: Fl, max: u32 },
    OnePole(Fl, Fl),
    OneZero(Fl, Fl),
    TwoPole(Fl, Fl, Fl),
    TwoZero(Fl, Fl, Fl),
    /// b0 b1 b2 a1 a2
    Biquad1(Fl, Fl, Fl, Fl, Fl),
    Biquad2(Fl, Fl, Fl, Fl, Fl),
    Rbj(Rbj),
    Leaky(Fl),
    Peak(Fl, Fl),
    Rms(Fl, Fl),
}

pub enum Any<T: Smp> {
    Delay(Delay<T>),
    Linear(LinearDelay<T>),
    OnePole(OnePole<T>),
    OneZero(OneZero<T>),
    TwoPole(TwoPole<T>),
    TwoZero(TwoZero<T>),
    Biquad1(Biquad1<T>),
    Biquad2(Biquad2<T>),
    LowPass(LowPass<T>),
    HighPass(HighPass<T>),
    BandPass1(BandPass1<T>),
    BandPass2(BandPass2<T>),
    BandStop(BandStop<T>),
    AllPass(AllPass<T>),
    PeakF(Peak<T>),
    LowShelf(LowShelf<T>),
    HighShelf(HighShelf<T>),
    Leaky(LeakyIntegrator<T>),
    Peak(PeakEnvDetector<T>),
    Rms(RmsEnvDetector<T>),
}

macro_rules! each {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            Any::Delay($p) => $e,
            Any::Linear($p) => $e,
            Any::OnePole($p) => $e,
            Any::OneZero($p) => $e,
            Any::TwoPole($p) => $e,
            Any::TwoZero($p) => $e,
            Any::Biquad1($p) => $e,
            Any::Biquad2($p) => $e,
            Any::LowPass($p) => $e,
            Any::HighPass($p) => $e,
            Any::BandPass1($p) => $e,
            Any::BandPass2($p) => $e,
            Any::BandStop($p) => $e,
            Any::AllPass($p) => $e,
            Any::PeakF($p) => $e,
            Any::LowShelf($p) => $e,
            Any::HighShelf($p) => $e,
            Any::Leaky($p) => $e,
            Any::Peak($p) => $e,
            Any::Rms($p) => $e,
        }
    };
}

impl<T: Smp> Any<T> {
    pub fn process(&mut self, x: T) -> T {
        each!(self, p => p.process(x))
    }
    pub fn process_block(&mut self, x: &mut [T]) -> T {
        each!(self, p => p.process_block(x))
    }
    pub fn clear(&mut self) {
        each!(self, p => p.clear())
    }
    pub fn last_out(&self) -> T {
        each!(self, p => p.last_out())
    }

    /// A new, unconfigured processor of `c`'s kind (delays take their sizes
    /// at creation).
    pub fn bare(c: &Cfg) -> Any<T> {
        match c {
            Cfg::Delay { d, max } => Any::Delay(Delay::new(*d as usize, *max as usize)),
            Cfg::Linear { d, max } => Any::Linear(LinearDelay::new(d.0 as f32, *max as usize)),
            Cfg::OnePole(..) => Any::OnePole(OnePole::new()),
            Cfg::OneZero(..) => Any::OneZero(OneZero::new()),
            Cfg::TwoPole(..) => Any::TwoPole(TwoPole::new()),
            Cfg::TwoZero(..) => Any::TwoZero(TwoZero::new()),
            Cfg::Biquad1(..) => Any::Biquad1(Biquad1::new()),
            Cfg::Biquad2(..) => Any::Biquad2(Biquad2::new()),
            Cfg::Rbj(r) => match r.k {
                0 => Any::LowPass(LowPass::new()),
                1 => Any::HighPass(HighPass::new()),
                2 => Any::BandPass1(BandPass1::new()),
                3 => Any::BandPass2(BandPass2::new()),
                4 => Any::BandStop(BandStop::new()),
                5 => Any::AllPass(AllPass::new()),
                6 => Any::PeakF(Peak::new()),
                7 => Any::LowShelf(LowShelf::new()),
                _ => Any::HighShelf(HighShelf::new()),
            },
            Cfg::Leaky(..) => Any::Leaky(LeakyIntegrator::new()),
            Cfg::Peak(..) => Any::Peak(PeakEnvDetector::new()),
            Cfg::Rms(..) => Any::Rms(RmsEnvDetector::new()),
        }
    }

    pub fn new(c: &Cfg) -> Any<T> {
        let mut a = Any::bare(c);
        // delay lines take theirs at creation
        if !matches!(c, Cfg::Delay { .. } | Cfg::Linear { .. }) {
            a.set(c);
        }
        a
    }

    /// Applies settings of the same kind.
    pub fn set(&mut self, c: &Cfg) {
        let t = |x: &Fl| T::of(x.0);
        match (self, c) {
            (Any::Delay(p), Cfg::Delay { d, max }) => {
                p.set_max_delay(*max as usize);
                p.set_delay(*d as usize)
            }
            (Any::Linear(p), Cfg::Linear { d, max }) => {
                p.set_max_delay(*max as usize);
                p.set_delay(d.0 as f32)
            }
            (Any::OnePole(p), Cfg::OnePole(a, b)) => p.set_coefficients(t(a), t(b)),
            (Any::OneZero(p), Cfg::OneZero(a, b)) => p.set_coefficients(t(a), t(b)),
            (Any::TwoPole(p), Cfg::TwoPole(a, b, c)) => p.set_coefficients(t(a), t(b), t(c)),
            (Any::TwoZero(p), Cfg::TwoZero(a, b, c)) => p.set_coefficients(t(a), t(b), t(c)),
            (Any::Biquad1(p), Cfg::Biquad1(a, b, c, d, e)) => {
                p.set_coefficients(t(a), t(b), t(c), t(d), t(e))
            }
            (Any::Biquad2(p), Cfg::Biquad2(a, b, c, d, e)) => {
                p.set_coefficients(t(a), t(b), t(c), t(d), t(e))
            }
            (Any::Leaky(p), Cfg::Leaky(a)) => p.set_alpha(t(a)),
            (Any::Peak(p), Cfg::Peak(a, r)) => {
                p.set_attack(t(a));
                p.set_release(t(r))
            }
            (Any::Rms(p), Cfg::Rms(a, r)) => {
                p.set_attack(t(a));
                p.set_release(t(r))
            }
            (s, Cfg::Rbj(r)) => {
                let (fs, f, g, q) = (t(&r.fs), t(&r.f), t(&r.g), t(&r.q));
                match s {
                    Any::LowPass(p) => p.set_coefficients(fs, f, q),
                    Any::HighPass(p) => p.set_coefficients(fs, f, q),
                    Any::BandPass1(p) => p.set_coefficients(fs, f, q),
                    Any::BandPass2(p) => p.set_coefficients(fs, f, q),
                    Any::BandStop(p) => p.set_coefficients(fs, f, q),
                    Any::AllPass(p) => p.set_coefficients(fs, f, q),
                    Any::PeakF(p) => p.set_coefficients(fs, f, g, q),
                    Any::LowShelf(p) => p.set_coefficients(fs, f, g, q),
                    Any::HighShelf(p) => p.set_coefficients(fs, f, g, q),
                    _ => {}
                }
            }
            _ => {}
        }
    }

    /// Settings that can be read back.
    pub fn read(&self) -> Vec<f64> {
        match self {
            Any::Delay(p) => vec![p.get_delay() as f64, p.get_max_delay() as f64],
            Any::Linear(p) => vec![p.get_delay() as f64, p.get_max_delay() as f64],
            Any::OnePole(p) => vec![p.b0.f(), p.a1.f()],
            Any::OneZero(p) => vec![p.b0.f(), p.b1.f()],
            Any::TwoPole(p) => vec![p.b0.f(), p.a1.f(), p.a2.f()],
            Any::TwoZero(p) => vec![p.b0.f(), p.b1.f(), p.b2.f()],
            Any::Biquad1(p) => vec![p.b0.f(), p.b1.f(), p.b2.f(), p.a1.f(), p.a2.f()],
            Any::Biquad2(p) => vec![p.b0.f(), p.b1.f(), p.b2.f(), p.a1.f(), p.a2.f()],
            Any::Leaky(p) => vec![p.get_alpha().f()],
            Any::Peak(p) => vec![p.get_attack_gain().f(), p.get_release_gain().f()],
            Any::Rms(p) => vec![p.get_attack_gain().f(), p.get_release_gain().f()],
            _ => vec![],
        }
    }

    /// All taps, for delay lines.
    pub fn taps(&self) -> Vec<T> {
        match self {
            Any::Delay(p) => (0..=p.get_max_delay()).map(|k| p.tap_out(k)).collect(),
            Any::Linear(p) => (0..=p.get_max_delay()).map(|k| p.tap_out(k)).collect(),
            _ => vec![],
        }
    }

    /// Writes a tap (index taken modulo the number of taps), for delay lines.
    pub fn poke(&mut self, k: u32, v: T) {
        match self {
            Any::Delay(p) => {
                let n = p.get_max_delay() + 1;
                p.tap_in(v, k as usize % n)
            }
            Any::Linear(p) => {
                let n = p.get_max_delay() + 1;
                p.tap_in(v, k as usize % n)
            }
            _ => {}
        }
    }
}

impl<T: Smp> Any<T> {
    /// Peeks at the next output, for delay lines.
    pub fn peek(&mut self) {
        match self {
            Any::Delay(p) => {
                p.next_out();
            }
            Any::Linear(p) => {
                p.next_out();
            }
            _ => {}
        }
    }
}

impl Cfg {
    pub fn name(&self) -> &'static str {
        match self {
            Cfg::Delay { .. } => "Delay",
            Cfg::Linear { .. } => "LinearDelay",
            Cfg::OnePole(..) => "OnePole",
            Cfg::OneZero(..) => "OneZero",
            Cfg::TwoPole(..) => "TwoPole",
            Cfg::TwoZero(..) => "TwoZero",
            Cfg::Biquad1(..) => "Biquad1",
            Cfg::Biquad2(..) => "Biquad2",
            Cfg::Rbj(r) => RBJ_NAMES[r.k as usize],
            Cfg::Leaky(..) => "LeakyIntegrator",
            Cfg::Peak(..) => "PeakEnvDetector",
            Cfg::Rms(..) => "RmsEnvDetector",
        }
    }
    pub fn is_rbj(&self) -> bool {
        matches!(self, Cfg::Rbj(_))
    }
}

// ------------------------------------------------------------ strategies

/// Filter coefficients: moderate, exact specials, zeros, wide magnitudes.
pub fn coef() -> BoxedStrategy<Fl> {
    prop_oneof![
        3 => prop_oneof![
            Just(0.0f64), Just(1.0), Just(-1.0), Just(0.5), Just(-0.5), Just(2.0), Just(-2.0),
            Just(0.99), Just(-1.9), Just(1e-3)
        ],
        6 => -2.0f64..2.0,
        1 => (-9f64..3.0, any::<bool>()).prop_map(|(e, s)| {
            let v = 10f64.powf(e);
            if s { -v } else { v }
        }),
    ]
    .prop_map(Fl)
    .boxed()
}

/// Stable feedback pair (a1, a2) built from pole radii and angle.
pub fn stable_pair() -> BoxedStrategy<(Fl, Fl)> {
    prop_oneof![
        (0.0f64..0.999, 0.0f64..std::f64::consts::PI)
            .prop_map(|(r, th)| (Fl(-2.0 * r * th.cos()), Fl(r * r))),
        (-0.999f64..0.999, -0.999f64..0.999).prop_map(|(p, q)| (Fl(-(p + q)), Fl(p * q))),
    ]
    .boxed()
}

pub fn rbj_kind(k: impl Strategy<Value = u8> + 'static, lo: f64, qlo: f64, qhi: f64, gmax: f64) -> BoxedStrategy<Rbj> {
    let fs = prop_oneof![
        3 => proptest::sample::select(vec![
            44100.0f64, 48000.0, 96000.0, 192000.0, 8000.0, 22050.0, 1.0, 2.0, 32000.0, 1000.0
        ]),
        1 => log_uniform(1e-2, 1e7),
    ];
    let ratio = prop_oneof![
        3 => 0.001f64..0.499,
        2 => log_uniform(lo, 0.4999),
        1 => proptest::sample::select(vec![
            0.25f64, 0.125, 1.0 / 6.0, 1.0 / 3.0, 0.1, 0.01, 0.2, 0.05, 0.45, 0.49, 0.4999, 0.02, 0.4
        ]),
        1 => (0.0f64..0.1).prop_map(|x| 0.4999 - x * x),
        1 => log_uniform(1e-6, 0.1).prop_map(|x| 0.5 - x),
    ];
    let q = prop_oneof![
        2 => proptest::sample::select(vec![
            0.7071f64, std::f64::consts::FRAC_1_SQRT_2, 1.0, 0.5, 2.0, 0.71, 10.0, 0.1, 0.25, 4.0
        ]),
        3 => log_uniform(qlo, qhi),
        2 => 0.3f64..3.0,
    ];
    let slope = prop_oneof![
        1 => proptest::sample::select(vec![1.0f64, 0.5, 0.7071, 0.9, 0.1, 0.25]),
        2 => 0.05f64..1.0,
        1 => log_uniform(0.01, 1.0),
    ];
    let g = prop_oneof![
        1 => proptest::sample::select(vec![0.0f64, 3.0, -3.0, 6.0, -6.0, 12.0, -12.0, 20.0, -20.0, 40.0, -40.0, 1.0, -1.0, 24.0, -24.0]),
        2 => -gmax..gmax,
        1 => -3.0f64..3.0,
        1 => -0.05f64..0.05,
    ];
    (k, fs, ratio, q, slope, g)
        .prop_map(move |(k, fs, r, q, s, g)| Rbj {
            k,
            fs: Fl(fs),
            f: Fl(fs * r.max(lo)),
            g: Fl(g.max(-gmax).min(gmax)),
            q: Fl(if k >= 7 { s } else { q.max(qlo).min(qhi) }),
        })
        .boxed()
}

pub fn rbj() -> BoxedStrategy<Rbj> {
    rbj_kind(0u8..9, 1e-4, 0.02, 200.0, 60.0)
}

/// Positive envelope lengths in samples.
pub fn env_len() -> BoxedStrategy<Fl> {
    prop_oneof![
        2 => proptest::sample::select(vec![1.0f64, 2.0, 10.0, 100.0, 882.0, 8820.0, 0.5, 44100.0, 64.0, 1000.0]),
        2 => log_uniform(0.01, 2e5),
        2 => 1.0f64..200.0,
    ]
    .prop_map(Fl)
    .boxed()
}

/// A delay value for an interpolating line with the given maximum.
pub fn frac_delay(max: u32) -> BoxedStrategy<Fl> {
    let m = max as f64;
    prop_oneof![
        3 => (0.0f64..=1.0).prop_map(move |u| Fl((u * m) as f32 as f64)),
        2 => (0..=max).prop_map(|k| Fl(k as f64)),
        2 => (0..=max, -20i32..0, any::<bool>()).prop_map(move |(k, e, s)| {
            let t = 2f64.powi(e);
            let v = if s { k as f64 + t } else { k as f64 - t };
            Fl(v.max(0.0).min(m) as f32 as f64)
        }),
        1 => (-45i32..0).prop_map(move |e| Fl((10f64.powi(e) as f32 as f64).min(m))),
        1 => Just(Fl(m)),
        1 => (0..=max).prop_map(move |k| Fl((k as f64 + 0.5).min(m))),
    ]
    .boxed()
}

pub fn delay_cfg(max: u32) -> BoxedStrategy<Cfg> {
    size(max)
        .prop_flat_map(|m| (prop_oneof![2 => 0..=m, 1 => Just(m), 1 => Just(0u32.min(m))], Just(m)))
        .prop_map(|(d, max)| Cfg::Delay { d, max })
        .boxed()
}

pub fn linear_cfg(max: u32) -> BoxedStrategy<Cfg> {
    size(max)
        .prop_flat_map(|m| (frac_delay(m), Just(m)))
        .prop_map(|(d, max)| Cfg::Linear { d, max })
        .boxed()
}

/// Basic filters; `stable` restricts feedback to stable pole positions.
pub fn basic_filter(stable: bool) -> BoxedStrategy<Cfg> {
    let c = coef;
    let pair = if stable {
        stable_pair()
    } else {
        prop_oneof![2 => stable_pair(), 3 => (coef(), coef())].boxed()
    };
    let single = if stable {
        (-0.999f64..0.999).prop_map(Fl).boxed()
    } else {
        coef()
    };
    prop_oneof![
        (c(), single).prop_map(|(b, a)| Cfg::OnePole(b, a)),
        (c(), c()).prop_map(|(a, b)| Cfg::OneZero(a, b)),
        (c(), pair.clone()).prop_map(|(b, (p, q))| Cfg::TwoPole(b, p, q)),
        (c(), c(), c()).prop_map(|(a, b, d)| Cfg::TwoZero(a, b, d)),
        (c(), c(), c(), pair.clone()).prop_map(|(a, b, d, (p, q))| Cfg::Biquad1(a, b, d, p, q)),
        (c(), c(), c(), pair).prop_map(|(a, b, d, (p, q))| Cfg::Biquad2(a, b, d, p, q)),
    ]
    .boxed()
}

pub fn analysis_cfg() -> BoxedStrategy<Cfg> {
    prop_oneof![
        prop_oneof![
            3 => (0.0f64..1.0).boxed(),
            1 => log_uniform(1e-6, 1.0).prop_map(|x| (1.0 - x).max(0.0)).boxed(),
            1 => Just(0.0f64).boxed()
        ]
        .prop_map(|a| Cfg::Leaky(Fl(a as f32 as f64).min1())),
        (env_len(), env_len()).prop_map(|(a, r)| Cfg::Peak(a, r)),
        (env_len(), env_len()).prop_map(|(a, r)| Cfg::Rms(a, r)),
    ]
    .boxed()
}

impl Fl {
    /// Keeps a gain below one after rounding to single precision.
    pub fn min1(self) -> Fl {
        Fl(self.0.min(1.0 - 1e-7))
    }
}

/// Any processor; delay sizes up to `max`.
pub fn any_cfg(max: u32, stable: bool) -> BoxedStrategy<Cfg> {
    prop_oneof![
        2 => delay_cfg(max),
        3 => linear_cfg(max),
        6 => basic_filter(stable),
        6 => rbj().prop_map(Cfg::Rbj),
        3 => analysis_cfg(),
    ]
    .boxed()
}

/// `cur` with a single parameter taken from `other` (4: the same filter at
/// another sample rate).
pub fn tweak(cur: &Rbj, other: &Rbj, which: u8) -> Rbj {
    let mut r = *cur;
    let ratio = other.f.0 / other.fs.0;
    match which % 5 {
        0 => r.f = Fl(cur.fs.0 * ratio),
        1 => r.fs = Fl(cur.f.0 / ratio),
        2 => r.g = other.g,
        3 => r.q = other.q,
        _ => {
            r.fs = Fl(cur.fs.0 * 2.0);
            r.f = Fl(cur.f.0 * 2.0);
        }
    }
    r
}

/// Settings of the same kind as `c` (for delays the maximum may grow).
pub fn retune(c: &Cfg) -> BoxedStrategy<Cfg> {
    let same = Just(c.clone());
    let other: BoxedStrategy<Cfg> = match c {
        Cfg::Delay { max, .. } => {
            let m = *max;
            (0..=m, prop_oneof![3 => Just(m), 1 => m..m + 40])
                .prop_map(|(d, max)| Cfg::Delay { d, max })
                .boxed()
        }
        Cfg::Linear { max, .. } => {
            let m = *max;
            (frac_delay(m), prop_oneof![3 => Just(m), 1 => m..m + 40])
                .prop_map(|(d, max)| Cfg::Linear { d, max })
                .boxed()
        }
        Cfg::OnePole(..) => (coef(), (-0.999f64..0.999).prop_map(Fl))
            .prop_map(|(a, b)| Cfg::OnePole(a, b))
            .boxed(),
        Cfg::OneZero(..) => (coef(), coef()).prop_map(|(a, b)| Cfg::OneZero(a, b)).boxed(),
        Cfg::TwoPole(..) => (coef(), stable_pair())
            .prop_map(|(a, (p, q))| Cfg::TwoPole(a, p, q))
            .boxed(),
        Cfg::TwoZero(..) => (coef(), coef(), coef())
            .prop_map(|(a, b, c)| Cfg::TwoZero(a, b, c))
            .boxed(),
        Cfg::Biquad1(..) => (coef(), coef(), coef(), stable_pair())
            .prop_map(|(a, b, c, (p, q))| Cfg::Biquad1(a, b, c, p, q))
            .boxed(),
        Cfg::Biquad2(..) => (coef(), coef(), coef(), stable_pair())
            .prop_map(|(a, b, c, (p, q))| Cfg::Biquad2(a, b, c, p, q))
            .boxed(),
        Cfg::Rbj(r) => {
            let cur = *r;
            (rbj_kind(Just(r.k), 1e-4, 0.02, 200.0, 60.0), 0u8..10)
                .prop_map(move |(o, w)| Cfg::Rbj(if w < 5 { tweak(&cur, &o, w) } else { o }))
                .boxed()
        }
        Cfg::Leaky(..) => (0.0f64..1.0).prop_map(|a| Cfg::Leaky(Fl(a).min1())).boxed(),
        Cfg::Peak(..) => (env_len(), env_len()).prop_map(|(a, r)| Cfg::Peak(a, r)).boxed(),
        Cfg::Rms(..) => (env_len(), env_len()).prop_map(|(a, r)| Cfg::Rms(a, r)).boxed(),
    };
    prop_oneof![1 => same, 4 => other].boxed()
}

/// A sample that makes the output of the processor `make` returns exactly
/// zero, or nearly so if none of the candidates does. `make` must return the
/// same state each time.
pub fn nulling<T: Smp>(make: &dyn Fn() -> Any<T>) -> Option<T> {
    let z = make().process(T::zero()).f();
    let g = make().process(T::one()).f() - z;
    if z == 0.0 {
        return Some(T::zero());
    }
    if !z.is_finite() || !g.is_finite() || g == 0.0 {
        return None;
    }
    let mut x = -z / g;
    for _ in 0..3 {
        let y = make().process(T::of(x)).f();
        if y == 0.0 || !y.is_finite() {
            break;
        }
        x -= y / g;
    }
    let mut best = T::of(x);
    for k in [0i32, 1, -1, 2, -2, 3, -3] {
        let c = T::of(x * (1.0 + k as f64 * 0.75 * T::EPS));
        if make().process(c) == T::zero() {
            best = c;
            break;
        }
    }
    if best.is_finite() {
        Some(best)
    } else {
        None
    }
}
