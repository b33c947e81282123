//! Value types and generators shared by all checks.

use crate::engine::mix;
use num::traits::Float;
use proptest::prelude::*;
use rasp::traits::FloatConst;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt::Debug;

/// An f64 that survives JSON (NaN, infinities, exact bits) in replay files.
#[derive(Clone, Copy, PartialEq)]
pub struct Fl(pub f64);

impl Debug for Fl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

impl Serialize for Fl {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_nan() {
            s.serialize_str(&format!("nan:{:x}", self.0.to_bits()))
        } else {
            s.serialize_str(&format!("{:?}", self.0))
        }
    }
}

impl<'de> Deserialize<'de> for Fl {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Fl, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("nan:") {
            return u64::from_str_radix(h, 16)
                .map(|b| Fl(f64::from_bits(b)))
                .map_err(serde::de::Error::custom);
        }
        s.parse::<f64>().map(Fl).map_err(serde::de::Error::custom)
    }
}

/// The two sample types.
pub trait Smp: Float + FloatConst + Debug + Send + Sync + 'static {
    const EPS: f64;
    /// Absolute slack for results that leave the normal range.
    const TINY: f64;
    /// Absolute slack for a handful of roundings among subnormals.
    const SUB: f64;
    const IS32: bool;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}

impl Smp for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-36;
    const SUB: f64 = 3e-44;
    const IS32: bool = true;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

impl Smp for f64 {
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-300;
    const SUB: f64 = 1e-322;
    const IS32: bool = false;
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

/// Equality of outputs: same number (0 and -0 alike), or both NaN.
pub fn same<T: Smp>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// |a-b| <= tol, false for any NaN.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) { return Err(format!($($arg)*)); }
    };
}

// ---------------------------------------------------------------- sizes

pub const SPECIAL_SIZES: &[u32] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 17, 31, 32, 33, 48, 50, 63, 64, 65, 96, 99, 100, 101, 127,
    128, 129, 200, 255, 256, 257, 300, 320, 400, 480, 499, 500, 511, 512, 513, 576, 600, 640, 700,
    720, 750, 800, 900, 960, 999, 1000, 1001, 1023, 1024, 1025, 1152, 1200, 1440, 1500, 1536, 1600,
    1920, 1999, 2000, 2001, 2047, 2048, 2049, 2205, 2400, 2500, 3000, 3072, 4000, 4095, 4096, 4097,
    4410, 4800, 5000, 6000, 6144, 8000, 8191, 8192, 8193, 9600, 10000, 11025, 12000, 12288, 16000,
    16383, 16384, 16385, 20000, 22050, 24000, 24576, 32000, 32767, 32768, 32769, 44100, 48000,
    49152, 50000, 64000, 65535, 65536, 65537, 88200, 96000, 100000, 131071, 131072, 131073, 176400,
    192000, 220500, 262143, 262144, 262145, 441000, 480000, 524287, 524288, 524289, 1000000,
    1048575, 1048576, 1048577,
];

/// Sizes 0..=max: mostly small, with powers of two and round numbers (+-1),
/// and a uniform part.
pub fn size(max: u32) -> BoxedStrategy<u32> {
    let sp: Vec<u32> = SPECIAL_SIZES.iter().cloned().filter(|s| *s <= max).collect();
    prop_oneof![
        4 => 0..=max.min(8),
        3 => 0..=max.min(64),
        2 => proptest::sample::select(sp),
        2 => 0..=max.min(600),
        1 => 0..=max,
    ]
    .boxed()
}

// ---------------------------------------------------------------- floats

/// Finite values over many orders of magnitude, with exact specials.
/// `lo..hi` are the decimal exponents of the magnitude.
pub fn fin(lo: i32, hi: i32) -> BoxedStrategy<Fl> {
    prop_oneof![
        2 => prop_oneof![
            Just(0.0f64), Just(1.0), Just(-1.0), Just(0.5), Just(-0.5), Just(-0.0), Just(2.0),
            Just(-2.0), Just(0.25), Just(0.1), Just(0.9999), Just(1.0001)
        ],
        6 => -1.0f64..1.0,
        2 => (lo as f64..hi as f64, any::<bool>()).prop_map(|(e, s)| {
            let v = 10f64.powf(e);
            if s { -v } else { v }
        }),
        1 => (-100i32..100).prop_map(|v| v as f64),
    ]
    .prop_map(Fl)
    .boxed()
}

/// Audio-range samples plus a spread of magnitudes safe for f32 squares,
/// sums and products with moderate coefficients.
pub fn sample() -> BoxedStrategy<Fl> {
    fin(-15, 8)
}

/// As `sample`, plus values down to the smallest of either type.
pub fn quiet() -> BoxedStrategy<Fl> {
    prop_oneof![
        10 => sample(),
        2 => fin(-44, -8),
        1 => proptest::sample::select(vec![
            1e-38f64, -1e-38, 1.1754944e-38, 1e-40, -1e-42, 1.5e-45, 2.3e-308, 1e-307, -1e-310, 5e-324, 1e-200, -1e-250, 1e-100
        ]).prop_map(Fl),
    ]
    .boxed()
}

/// Any float value at all, including non-finite ones.
pub fn wild() -> BoxedStrategy<Fl> {
    prop_oneof![
        24 => sample(),
        4 => prop_oneof![
            Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(f64::NAN), Just(-f64::NAN),
            Just(f32::MAX as f64), Just(f32::MIN_POSITIVE as f64), Just(1e-42), Just(-1e-45f64),
            Just(1e38), Just(-1e-38), Just(f32::MIN as f64)
        ].prop_map(Fl),
        4 => any::<u32>().prop_map(|b| Fl(f32::from_bits(b) as f64)),
        1 => (0u32..1 << 22, any::<bool>()).prop_map(|(p, s)| Fl(f32::from_bits(0x7fc0_0000 | p | (s as u32) << 31) as f64)),
        4 => huge(),
    ]
    .boxed()
}

/// Finite values up to the largest of either type (those above the range of
/// f32 become infinite there).
pub fn huge() -> BoxedStrategy<Fl> {
    prop_oneof![
        2 => (0.0f64..1.0, any::<bool>(), any::<bool>()).prop_map(|(u, s, wide)| {
            let v = u * if wide { f64::MAX } else { f32::MAX as f64 };
            if s { -v } else { v }
        }),
        1 => any::<u64>().prop_map(f64::from_bits).prop_filter("finite", |v| v.is_finite()),
        1 => proptest::sample::select(vec![
            f64::MAX, f64::MIN, f64::MAX / 2.0, f64::MIN_POSITIVE, f32::MAX as f64, f32::MIN as f64,
            f32::MAX as f64 / 2.0, 1e38, -1e38, 1e300, -1e308
        ]),
    ]
    .prop_map(Fl)
    .boxed()
}

pub fn log_uniform(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo.ln()..hi.ln()).prop_map(|x| x.exp()).boxed()
}

// ---------------------------------------------------------------- signals

/// A finite test signal. Short ones are explicit (they shrink sample by
/// sample), long ones are described by a few generated numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sig {
    Explicit(Vec<Fl>),
    /// Uniform noise of amplitude 10^exp.
    Noise { seed: u32, n: u32, exp: i8 },
    /// Noise whose magnitude wanders over decades; some samples exactly 0.
    Decades { seed: u32, n: u32 },
    Impulse { at: u32, n: u32, amp: Fl },
    Const { n: u32, v: Fl },
    /// Bursts of noise separated by silence.
    Bursts { seed: u32, n: u32, len: u32 },
    Sine { n: u32, cycles: Fl, amp: Fl },
    /// +v, -v, +v ...
    Alternate { n: u32, v: Fl },
    Ramp { n: u32, step: Fl },
    /// Few distinct levels k/levels, each held for a random while.
    Steps { seed: u32, n: u32, levels: u8 },
}

pub fn unit(seed: u64, i: u64) -> f64 {
    (mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ mix(i)) >> 11) as f64 / (1u64 << 53) as f64
}

impl Sig {
    pub fn get(&self) -> Vec<f64> {
        match self {
            Sig::Explicit(v) => v.iter().map(|x| x.0).collect(),
            Sig::Noise { seed, n, exp } => (0..*n)
                .map(|i| (unit(*seed as u64, i as u64) * 2.0 - 1.0) * 10f64.powi(*exp as i32))
                .collect(),
            Sig::Decades { seed, n } => (0..*n)
                .map(|i| {
                    let u = unit(*seed as u64, 3 * i as u64);
                    let s = if unit(*seed as u64, 3 * i as u64 + 1) < 0.5 { -1.0 } else { 1.0 };
                    if unit(*seed as u64, 3 * i as u64 + 2) < 0.15 {
                        0.0
                    } else {
                        s * 10f64.powf(u * 16.0 - 10.0)
                    }
                })
                .collect(),
            Sig::Steps { seed, n, levels } => {
                let l = (*levels).max(1) as f64;
                let mut v = 0.0;
                (0..*n)
                    .map(|i| {
                        if unit(*seed as u64, 2 * i as u64) < 0.6 {
                            v = ((unit(*seed as u64, 2 * i as u64 + 1) * 2.0 - 1.0) * l).round() / l;
                        }
                        v
                    })
                    .collect()
            }
            Sig::Impulse { at, n, amp } => (0..*n)
                .map(|i| if i == *at { amp.0 } else { 0.0 })
                .collect(),
            Sig::Const { n, v } => (0..*n).map(|_| v.0).collect(),
            Sig::Bursts { seed, n, len } => (0..*n)
                .map(|i| {
                    if (i / (len + 1)) % 2 == 0 {
                        unit(*seed as u64, i as u64) * 2.0 - 1.0
                    } else {
                        0.0
                    }
                })
                .collect(),
            Sig::Sine { n, cycles, amp } => (0..*n)
                .map(|i| amp.0 * (2.0 * std::f64::consts::PI * cycles.0 * i as f64).sin())
                .collect(),
            Sig::Alternate { n, v } => (0..*n)
                .map(|i| if i % 2 == 0 { v.0 } else { -v.0 })
                .collect(),
            Sig::Ramp { n, step } => (0..*n).map(|i| i as f64 * step.0).collect(),
        }
    }
    pub fn t<T: Smp>(&self) -> Vec<T> {
        self.get().into_iter().map(T::of).collect()
    }
}

/// Signals of at most about `max` samples, from finite sample strategy `s`.
pub fn sig_of(max: u32, s: BoxedStrategy<Fl>) -> BoxedStrategy<Sig> {
    let n = prop_oneof![3 => 1..=max, 1 => size(max).prop_map(|n| n.max(1))].boxed();
    prop_oneof![
        1 => (any::<u32>(), n.clone(), proptest::sample::select(vec![1u8, 2, 3, 4, 8, 10, 127])).prop_map(|(seed, n, levels)| Sig::Steps { seed, n, levels }),
        5 => proptest::collection::vec(s.clone(), 0..=(max.min(24) as usize)).prop_map(Sig::Explicit),
        3 => (any::<u32>(), n.clone(), -6i8..5).prop_map(|(seed, n, exp)| Sig::Noise { seed, n, exp }),
        2 => (any::<u32>(), n.clone()).prop_map(|(seed, n)| Sig::Decades { seed, n }),
        1 => (0..max, n.clone(), s.clone()).prop_map(|(at, n, amp)| Sig::Impulse { at: at % n, n, amp }),
        1 => (n.clone(), s.clone()).prop_map(|(n, v)| Sig::Const { n, v }),
        1 => (any::<u32>(), n.clone(), 1u32..60).prop_map(|(seed, n, len)| Sig::Bursts { seed, n, len }),
        1 => (n.clone(), 0.0f64..0.5, s.clone())
            .prop_map(|(n, c, amp)| Sig::Sine { n, cycles: Fl(c), amp }),
        1 => (n.clone(), s.clone()).prop_map(|(n, v)| Sig::Alternate { n, v }),
        1 => (n, -0.01f64..0.01).prop_map(|(n, v)| Sig::Ramp { n, step: Fl(v) }),
    ]
    .boxed()
}

pub fn sig(max: u32) -> BoxedStrategy<Sig> {
    sig_of(max, sample())
}

/// As `sig`, plus very quiet signals.
pub fn sig_quiet(max: u32) -> BoxedStrategy<Sig> {
    prop_oneof![
        8 => sig_of(max, quiet()),
        1 => (any::<u32>(), 1..=max, -44i8..-6).prop_map(|(seed, n, exp)| Sig::Noise { seed, n, exp }),
    ]
    .boxed()
}

/// Signals of many thousand samples.
pub fn sig_long(lo: u32, hi: u32) -> BoxedStrategy<Sig> {
    let n = lo..=hi;
    prop_oneof![
        1 => (any::<u32>(), n.clone(), 1u8..20).prop_map(|(seed, n, levels)| Sig::Steps { seed, n, levels }),
        3 => (any::<u32>(), n.clone(), -6i8..5).prop_map(|(seed, n, exp)| Sig::Noise { seed, n, exp }),
        2 => (any::<u32>(), n.clone(), -30i8..-6).prop_map(|(seed, n, exp)| Sig::Noise { seed, n, exp }),
        2 => (any::<u32>(), n.clone()).prop_map(|(seed, n)| Sig::Decades { seed, n }),
        2 => (n.clone(), sample()).prop_map(|(n, v)| Sig::Const { n, v }),
        1 => (0..lo, n.clone(), sample()).prop_map(|(at, n, amp)| Sig::Impulse { at, n, amp }),
        2 => (any::<u32>(), n.clone(), 1u32..6000).prop_map(|(seed, n, len)| Sig::Bursts { seed, n, len }),
        1 => (n.clone(), 0.0f64..0.5, sample()).prop_map(|(n, c, amp)| Sig::Sine { n, cycles: Fl(c), amp }),
        1 => (n, sample()).prop_map(|(n, v)| Sig::Alternate { n, v }),
    ]
    .boxed()
}
