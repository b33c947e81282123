//! C01-C05: the two delay lines against a queue model.

use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// What both delay lines offer; delays are passed as f64.
trait Line<T: Smp> {
    const LINEAR: bool;
    fn make(d: f64, max: usize) -> Self;
    fn process(&mut self, x: T) -> T;
    fn block(&mut self, x: &mut [T]) -> T;
    fn last(&self) -> T;
    fn clear(&mut self);
    fn set(&mut self, d: f64);
    fn get(&self) -> f64;
    fn grow(&mut self, m: usize);
    fn max(&self) -> usize;
    fn peek(&mut self) -> T;
    fn tap(&self, k: usize) -> T;
    fn tap_in(&mut self, v: T, k: usize);
    fn add_to(&mut self, v: T, k: usize) -> T;
}

macro_rules! line {
    ($t:ident, $lin:expr, $d:ty) => {
        impl<T: Smp> Line<T> for $t<T> {
            const LINEAR: bool = $lin;
            fn make(d: f64, max: usize) -> Self {
                $t::new(d as $d, max)
            }
            fn process(&mut self, x: T) -> T {
                Processor::process(self, x)
            }
            fn block(&mut self, x: &mut [T]) -> T {
                self.process_block(x)
            }
            fn last(&self) -> T {
                self.last_out()
            }
            fn clear(&mut self) {
                Processor::clear(self)
            }
            fn set(&mut self, d: f64) {
                self.set_delay(d as $d)
            }
            fn get(&self) -> f64 {
                self.get_delay() as f64
            }
            fn grow(&mut self, m: usize) {
                self.set_max_delay(m)
            }
            fn max(&self) -> usize {
                self.get_max_delay()
            }
            fn peek(&mut self) -> T {
                self.next_out()
            }
            fn tap(&self, k: usize) -> T {
                self.tap_out(k)
            }
            fn tap_in(&mut self, v: T, k: usize) {
                TappableDelayLine::tap_in(self, v, k)
            }
            fn add_to(&mut self, v: T, k: usize) -> T {
                TappableDelayLine::add_to(self, v, k)
            }
        }
    };
}
line!(Delay, false, usize);
line!(LinearDelay, true, f32);

/// A delay to request, resolved against the line's present state so that
/// histories stay meaningful while they shrink.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Base {
    Abs(u32),
    /// maximum * n / 65535
    OfMax(u16),
    FromMax(u32),
    /// relative to the present delay
    Rel(i32),
    AboveMax(u32),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Want {
    base: Base,
    /// fractional offset, interpolating line only
    off: Fl,
    /// used verbatim instead, interpolating line only
    raw: Option<Fl>,
}

impl Want {
    fn resolve(&self, linear: bool, cur: f64, max: usize) -> f64 {
        if linear {
            if let Some(r) = self.raw {
                return r.0 as f32 as f64;
            }
        }
        let b = match self.base {
            Base::Abs(n) => n as f64,
            Base::OfMax(n) => (max as f64 * n as f64 / 65535.0).floor(),
            Base::FromMax(n) => max as f64 - n as f64,
            Base::Rel(n) => cur + n as f64,
            Base::AboveMax(n) => max as f64 + 1.0 + n as f64,
        };
        if linear {
            (b + self.off.0) as f32 as f64
        } else {
            b.max(0.0).floor()
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Tap {
    Abs(u32),
    FromMax(u32),
    /// near the present delay
    AtDelay(i8),
    OfMax(u16),
}

impl Tap {
    fn resolve(&self, cur: f64, max: usize) -> usize {
        let n = max as i64 + 1;
        let k = match *self {
            Tap::Abs(k) => k as i64,
            Tap::FromMax(k) => max as i64 - (k as i64 % n),
            Tap::AtDelay(o) => cur as i64 + o as i64,
            Tap::OfMax(u) => (max as f64 * u as f64 / 65535.0) as i64,
        };
        k.rem_euclid(n) as usize
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    P(Fl),
    Block(Vec<Fl>),
    /// n samples of noise
    Run { seed: u32, n: u32 },
    /// process until the storage has wrapped to `at` samples past a multiple
    /// of its length
    Align { seed: u32, at: u32 },
    Set(Want),
    Clear,
    TapOut(Tap),
    TapIn(Tap, Fl),
    AddTo(Tap, Fl),
    /// add_to of minus the stored sample, moved by some units in the last place
    Cancel(Tap, i8),
    /// n equal samples
    Same { x: Fl, n: u32 },
    /// a sample made from what the line holds or returned: feedback
    Echo(u8),
    /// set_max_delay(max + n)
    Grow(u32),
    /// set_max_delay(max - n)
    NoGrow(u32),
    Peek(u8),
    /// read every tap
    AllTaps,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    f64s: bool,
    linear: bool,
    max: u32,
    init: Want,
    ops: Vec<Op>,
}

#[derive(Clone, Copy)]
struct Menu {
    linear: bool,
    taps: bool,
    grow: bool,
    peek: bool,
    wild: bool,
}

fn want(linear: bool) -> BoxedStrategy<Want> {
    let base = prop_oneof![
        2 => size(600).prop_map(Base::Abs),
        3 => any::<u16>().prop_map(Base::OfMax),
        2 => prop_oneof![Just(0u32), Just(1), 0u32..20].prop_map(Base::FromMax),
        2 => (-3i32..=3).prop_map(Base::Rel),
        1 => prop_oneof![Just(0u32), 0u32..5, Just(100000)].prop_map(Base::AboveMax),
    ];
    if linear {
        let off = prop_oneof![
            2 => Just(0.0f64),
            2 => Just(0.5),
            4 => 0.0f64..1.0,
            1 => Just(-0.25),
            1 => (-24i32..0).prop_map(|e| 2f64.powi(e)),
            1 => (-24i32..0).prop_map(|e| -2f64.powi(e)),
            1 => (-45i32..-3).prop_map(|e| 10f64.powi(e)),
            1 => -0.01f64..0.01,
        ];
        let raw = prop_oneof![
            14 => Just(None),
            1 => proptest::sample::select(vec![
                0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, -1.0, -1e-9, 1e-45, 1e-20,
                f32::MAX as f64, -0.5, f32::MIN_POSITIVE as f64, 1e-9, -1e30
            ]).prop_map(|v| Some(Fl(v))),
        ];
        (base, off, raw)
            .prop_map(|(base, o, raw)| Want { base, off: Fl(o), raw })
            .boxed()
    } else {
        base.prop_map(|base| Want { base, off: Fl(0.0), raw: None }).boxed()
    }
}

fn tap() -> BoxedStrategy<Tap> {
    prop_oneof![
        3 => size(300).prop_map(Tap::Abs),
        2 => (0u32..12).prop_map(Tap::FromMax),
        3 => (-2i8..=2).prop_map(Tap::AtDelay),
        2 => any::<u16>().prop_map(Tap::OfMax),
    ]
    .boxed()
}

fn op(m: Menu) -> BoxedStrategy<Op> {
    let s = if m.wild { wild() } else { prop_oneof![4 => fin(-12, 9), 1 => quiet()].boxed() };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, s.clone().prop_map(Op::P).boxed()),
        (2, proptest::collection::vec(s.clone(), 0..12).prop_map(Op::Block).boxed()),
        (3, (any::<u32>(), size(700)).prop_map(|(seed, n)| Op::Run { seed, n }).boxed()),
        (2, (any::<u32>(), size(70)).prop_map(|(seed, at)| Op::Align { seed, at }).boxed()),
        (4, want(m.linear).prop_map(Op::Set).boxed()),
        (1, Just(Op::Clear).boxed()),
        (1, (s.clone(), size(60)).prop_map(|(x, n)| Op::Same { x, n }).boxed()),
        (2, (0u8..6).prop_map(Op::Echo).boxed()),
    ];
    if m.taps {
        v.push((1, (tap(), -3i8..4).prop_map(|(t, k)| Op::Cancel(t, k)).boxed()));
        v.push((4, tap().prop_map(Op::TapOut).boxed()));
        v.push((3, (tap(), s.clone()).prop_map(|(t, x)| Op::TapIn(t, x)).boxed()));
        v.push((3, (tap(), s.clone()).prop_map(|(t, x)| Op::AddTo(t, x)).boxed()));
        v.push((1, Just(Op::AllTaps).boxed()));
    }
    if m.grow {
        v.push((4, prop_oneof![4 => 1u32..6, 3 => size(200), 1 => size(3000)].prop_map(Op::Grow).boxed()));
        v.push((1, (0u32..700).prop_map(Op::NoGrow).boxed()));
        if !m.taps {
            v.push((1, Just(Op::AllTaps).boxed()));
        }
    }
    if m.peek {
        v.push((8, (1u8..4).prop_map(Op::Peek).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn hist(m: Menu, maxlen: u32, nops: usize) -> BoxedStrategy<Hist> {
    (
        any::<bool>(),
        size(maxlen),
        want(m.linear),
        proptest::collection::vec(op(m), 0..nops),
    )
        .prop_map(move |(f64s, max, init, ops)| Hist { f64s, linear: m.linear, max, init, ops })
        .boxed()
}

/// Few operations on lines that hold up to 150000 samples and more.
fn hist_large(m: Menu) -> BoxedStrategy<Hist> {
    let s = fin(-6, 4);
    let big = || prop_oneof![3 => size(150_000), 1 => size(5_000), 1 => (10u32..18, -2i32..3).prop_map(|(e, d)| ((1i32 << e) + d) as u32)].boxed();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (4, (any::<u32>(), big()).prop_map(|(seed, n)| Op::Run { seed, n }).boxed()),
        (2, s.clone().prop_map(Op::P).boxed()),
        (3, want(m.linear).prop_map(Op::Set).boxed()),
    ];
    if m.taps {
        let t = prop_oneof![3 => big().prop_map(Tap::Abs), 2 => tap()].boxed();
        v.push((2, t.clone().prop_map(Op::TapOut).boxed()));
        v.push((2, (t.clone(), s.clone()).prop_map(|(t, x)| Op::TapIn(t, x)).boxed()));
        v.push((2, (t, s).prop_map(|(t, x)| Op::AddTo(t, x)).boxed()));
    }
    if m.grow {
        v.push((4, big().prop_map(|n| Op::Grow(n.max(1))).boxed()));
        v.push((1, big().prop_map(Op::NoGrow).boxed()));
    }
    if m.peek {
        v.push((4, (1u8..4).prop_map(Op::Peek).boxed()));
    }
    v.push((1, Just(Op::AllTaps).boxed()));
    (any::<bool>(), big(), want(m.linear), proptest::collection::vec(proptest::strategy::Union::new_weighted(v), 1..9))
        .prop_map(move |(f64s, max, init, ops)| Hist { f64s, linear: m.linear, max, init, ops })
        .boxed()
}

/// `-v` moved by `k` units in the last place.
fn cancel<T: Smp>(v: T, k: i8) -> T {
    let u = v.f().abs() * T::EPS / 2.0 * k as f64;
    T::of(-v.f() + u)
}

/// A sample derived from the last output, the newest sample and the one at
/// the delay.
fn echo<T: Smp>(kind: u8, last: T, newest: T, at: T) -> T {
    let half = T::of(0.5);
    match kind {
        0 => last,
        1 => newest,
        2 => at,
        3 => T::zero() - last,
        4 => half * last + half * newest,
        _ => T::zero() - at,
    }
}

/// The model: the last max+1 samples, newest first.
struct Model<T> {
    h: VecDeque<T>,
    d: f64,
    last: T,
    total: u64,
    /// samples are only moved, never computed with: NaNs keep their bits
    moved: bool,
}

impl<T: Smp> Model<T> {
    fn new(d: f64, max: usize) -> Self {
        Model {
            h: std::iter::repeat(T::zero()).take(max + 1).collect(),
            d: Self::clip(d, max),
            last: T::zero(),
            total: 0,
            moved: false,
        }
    }
    fn clip(d: f64, max: usize) -> f64 {
        let m = max as f64;
        if d > m {
            m
        } else if d < 0.0 {
            0.0
        } else {
            d
        }
    }
    fn max(&self) -> usize {
        self.h.len() - 1
    }
    fn push(&mut self, x: T) {
        self.h.pop_back();
        self.h.push_front(x);
        self.total += 1;
    }
    /// Expected output and tolerance at the present delay.
    fn out(&self) -> (f64, f64) {
        let i = self.d.floor();
        let f = self.d - i;
        let i = i as usize;
        let a = self.h[i].f();
        if f == 0.0 {
            (a, 2.0 * T::EPS * a.abs() + T::SUB)
        } else {
            let b = self.h[i + 1].f();
            let v = (1.0 - f) * a + f * b;
            let tol = 2.0 * f32::EPSILON as f64 * (a.abs() + b.abs()) + T::SUB;
            (v, tol)
        }
    }
}

fn gen_noise<T: Smp>(seed: u32, n: u32) -> Vec<T> {
    (0..n)
        .map(|i| T::of(unit(seed as u64, i as u64) * 2.0 - 1.0))
        .collect()
}

fn check_out<T: Smp, L: Line<T>>(m: &Model<T>, got: T, at: &str) -> Res {
    if L::LINEAR {
        let (v, tol) = m.out();
        ensure!(
            close(got.f(), v, tol),
            "{}: output {:?}, expected {:?} (delay {}, tolerance {:e}) after {} samples",
            at, got, v, m.d, tol, m.total
        );
    } else {
        let e = m.h[m.d as usize];
        ensure!(
            got.bits() == e.bits() || (!m.moved && got.is_nan() && e.is_nan()),
            "{}: output {:?} ({:x}), expected {:?} ({:x}) (delay {}) after {} samples",
            at, got, got.bits(), e, e.bits(), m.d, m.total
        );
    }
    Ok(())
}

fn check_tap<T: Smp>(m: &Model<T>, k: usize, got: T, at: &str) -> Res {
    let e = m.h[k];
    ensure!(same(got, e), "{}: tap {} reads {:?}, expected {:?}", at, k, got, e);
    Ok(())
}

/// Runs a history against the model.
fn run<T: Smp, L: Line<T>>(c: &Hist, obs: &mut Obs, peeks: bool) -> Res {
    let max = c.max as usize;
    let want0 = c.init.resolve(L::LINEAR, 0.0, max);
    let mut l = L::make(want0, max);
    let mut m = Model::<T>::new(want0, max);
    m.moved = !c.ops.iter().any(|o| matches!(o, Op::AddTo(..) | Op::Cancel(..)));
    ensure!(l.max() == max, "new: maximum delay {} instead of {}", l.max(), max);
    ensure!(
        l.get() == m.d,
        "new: delay {} instead of {} (asked {}, maximum {})",
        l.get(), m.d, want0, max
    );
    let mut wrapped_ops = 0;
    let mut heard = false;
    let mut after_change = false;
    for (i, o) in c.ops.iter().enumerate() {
        let at = format!("op {} {:?}", i, short(o));
        match o {
            Op::P(x) => {
                let x = T::of(x.0);
                m.push(x);
                let y = l.process(x);
                check_out::<T, L>(&m, y, &at)?;
                m.last = y;
            }
            Op::Same { x, n } => {
                let x = T::of(x.0);
                for _ in 0..*n {
                    m.push(x);
                    let y = l.process(x);
                    check_out::<T, L>(&m, y, &at)?;
                    m.last = y;
                }
            }
            Op::Echo(k) => {
                let x = echo(*k, m.last, m.h[0], m.h[(m.d as usize).min(m.max())]);
                m.push(x);
                let y = l.process(x);
                check_out::<T, L>(&m, y, &at)?;
                m.last = y;
            }
            Op::Cancel(t, k) => {
                let tap = t.resolve(m.d, m.max());
                let v = cancel(m.h[tap], *k);
                let r = l.add_to(v, tap);
                m.h[tap] = m.h[tap] + v;
                ensure!(same(r, m.h[tap]), "{}: add_to returned {:?}, expected {:?}", at, r, m.h[tap]);
                check_tap(&m, tap, l.tap(tap), &at)?;
            }
            Op::Block(xs) => {
                if xs.is_empty() {
                    continue;
                }
                let mut b: Vec<T> = xs.iter().map(|x| T::of(x.0)).collect();
                l.block(&mut b);
                for (x, y) in xs.iter().zip(b.iter()) {
                    m.push(T::of(x.0));
                    check_out::<T, L>(&m, *y, &at)?;
                    m.last = *y;
                }
            }
            Op::Run { .. } | Op::Align { .. } => {
                let (seed, n) = match o {
                    Op::Run { seed, n } => (*seed, *n),
                    Op::Align { seed, at } => {
                        let len = m.h.len() as u64;
                        let target = *at as u64 % len;
                        let n = (target + len - m.total % len) % len;
                        (*seed, n.min(5000) as u32)
                    }
                    _ => unreachable!(),
                };
                for x in gen_noise::<T>(seed, n) {
                    m.push(x);
                    let y = l.process(x);
                    check_out::<T, L>(&m, y, &at)?;
                    m.last = y;
                }
            }
            Op::Set(w) => {
                let d = w.resolve(L::LINEAR, m.d, m.max());
                l.set(d);
                m.d = Model::<T>::clip(d, m.max());
                if m.total > 0 {
                    after_change = true;
                }
            }
            Op::Clear => {
                l.clear();
                for v in m.h.iter_mut() {
                    *v = T::zero();
                }
                m.last = T::zero();
                if m.total > 0 {
                    after_change = true;
                }
            }
            Op::TapOut(t) => {
                let k = t.resolve(m.d, m.max());
                check_tap(&m, k, l.tap(k), &at)?;
                if m.total as usize > m.max() {
                    wrapped_ops += 1;
                }
            }
            Op::TapIn(t, v) => {
                let k = t.resolve(m.d, m.max());
                l.tap_in(T::of(v.0), k);
                m.h[k] = T::of(v.0);
                check_tap(&m, k, l.tap(k), &at)?;
                if m.total as usize > m.max() {
                    wrapped_ops += 1;
                }
            }
            Op::AddTo(t, v) => {
                let k = t.resolve(m.d, m.max());
                let r = l.add_to(T::of(v.0), k);
                m.h[k] = m.h[k] + T::of(v.0);
                ensure!(same(r, m.h[k]), "{}: add_to returned {:?}, expected {:?}", at, r, m.h[k]);
                check_tap(&m, k, l.tap(k), &at)?;
                if m.total as usize > m.max() {
                    wrapped_ops += 1;
                }
            }
            Op::Grow(n) => {
                let new = m.max() + *n as usize;
                l.grow(new);
                while m.h.len() < new + 1 {
                    m.h.push_back(T::zero());
                }
                if *n > 0 && m.total > 0 {
                    obs.label("grown with history");
                    wrapped_ops += 1;
                }
            }
            Op::NoGrow(n) => {
                l.grow(m.max().saturating_sub(*n as usize));
            }
            Op::Peek(_) => {
                if peeks {
                    l.peek();
                }
            }
            Op::AllTaps => {
                for k in 0..=m.max() {
                    check_tap(&m, k, l.tap(k), &at)?;
                }
            }
        }
        ensure!(l.max() == m.max(), "{}: maximum delay {} instead of {}", at, l.max(), m.max());
        ensure!(l.get() == m.d, "{}: delay {} instead of {}", at, l.get(), m.d);
        ensure!(
            same(l.last(), m.last),
            "{}: last output {:?} instead of {:?}",
            at, l.last(), m.last
        );
        if m.d > 0.0 && m.last != T::zero() {
            heard = true;
        }
    }
    let wrapped = m.total as usize > m.max();
    if wrapped {
        obs.label("storage wrapped");
    }
    if after_change {
        obs.label("retuned or cleared with history");
    }
    if wrapped_ops > 0 {
        obs.label("tap or growth with history");
    }
    if m.d.fract() != 0.0 {
        obs.label("ends with fractional delay");
    }
    obs.label(if c.f64s { "f64" } else { "f32" });
    obs.label(if c.linear { "interpolating" } else { "integer" });
    let uses_taps = c.ops.iter().any(|o| {
        matches!(o, Op::TapIn(..) | Op::AddTo(..) | Op::TapOut(..) | Op::Grow(..) | Op::NoGrow(..))
    });
    obs.nontrivial_if(wrapped && heard && (after_change || wrapped_ops > 0) && (!uses_taps || wrapped_ops > 0));
    Ok(())
}

fn short(o: &Op) -> String {
    let s = format!("{:?}", o);
    s.chars().take(60).collect()
}

fn dispatch(c: &Hist, obs: &mut Obs) -> Res {
    match (c.linear, c.f64s) {
        (false, false) => run::<f32, Delay<f32>>(c, obs, true),
        (false, true) => run::<f64, Delay<f64>>(c, obs, true),
        (true, false) => run::<f32, LinearDelay<f32>>(c, obs, true),
        (true, true) => run::<f64, LinearDelay<f64>>(c, obs, true),
    }
}

// ------------------------------------------------- bounded-exhaustive part

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    linear: bool,
    max: u32,
    d: Fl,
    /// samples before the retune
    pre: u32,
    d2: Fl,
    grow: u32,
}

fn grid_case<T: Smp, L: Line<T>>(g: &Grid, obs: &mut Obs) -> Res {
    let abs = |d: Fl| Want { base: Base::Abs(d.0 as u32), off: Fl(d.0.fract()), raw: None };
    let mut ops = vec![
        Op::Run { seed: 7, n: g.pre },
        Op::Set(abs(g.d2)),
    ];
    if g.grow > 0 {
        ops.push(Op::Grow(g.grow));
        ops.push(Op::AllTaps);
    }
    ops.push(Op::Run { seed: 8, n: 2 * (g.max + g.grow) + 3 });
    let h = Hist { f64s: !T::IS32, linear: g.linear, max: g.max, init: abs(g.d), ops };
    run::<T, L>(&h, obs, false)?;
    obs.nontrivial = g.pre > 0;
    Ok(())
}

fn grid_dispatch(g: &Grid, obs: &mut Obs) -> Res {
    if g.linear {
        grid_case::<f32, LinearDelay<f32>>(g, obs)?;
        grid_case::<f64, LinearDelay<f64>>(g, obs)
    } else {
        grid_case::<f32, Delay<f32>>(g, obs)?;
        grid_case::<f64, Delay<f64>>(g, obs)
    }
}

fn grid(linear: bool, top: u32, grow: bool) -> Vec<Grid> {
    let mut v = vec![];
    let fr: &[f64] = if linear { &[0.0, 0.25, 0.5, 0.9] } else { &[0.0] };
    for max in 0..=top {
        for pre in 0..=(2 * max + 3) {
            for d in 0..=max {
                for d2 in 0..=max {
                    for f in fr {
                        if grow {
                            for g in [1u32, 2, 5] {
                                if d2 as f64 + f <= max as f64 {
                                    v.push(Grid { linear, max, d: Fl(d as f64), pre, d2: Fl(d2 as f64 + f), grow: g });
                                }
                            }
                        } else if d2 as f64 + f <= max as f64 {
                            v.push(Grid { linear, max, d: Fl(d as f64), pre, d2: Fl(d2 as f64 + f), grow: 0 });
                        }
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------- long lines

/// One constant-delay run through a line of any length, checked only where it
/// matters: cheap enough for lines of 10^5..10^6 samples.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    f64s: bool,
    linear: bool,
    max: u32,
    init: Want,
    /// samples to push before retuning
    pre: u32,
    then: Want,
    post: u32,
    seed: u32,
}

fn long_strategy(linear: bool, top: u32) -> BoxedStrategy<Long> {
    (any::<bool>(), size(top), want(linear), 0u32..=(top + top / 4), want(linear), 1u32..4000, any::<u32>())
        .prop_map(move |(f64s, max, init, pre, then, post, seed)| Long {
            f64s, linear, max, init, pre: pre % (2 * max + 50), then, post, seed,
        })
        .boxed()
}

/// A short line, run for millions of samples.
fn marathon(linear: bool) -> BoxedStrategy<Long> {
    (any::<bool>(), size(5_000), want(linear), 1_000_000u32..6_000_000, want(linear), 1u32..20_000, any::<u32>())
        .prop_map(move |(f64s, max, init, pre, then, post, seed)| Long { f64s, linear, max, init, pre, then, post, seed })
        .boxed()
}

fn long_case<T: Smp, L: Line<T>>(c: &Long, obs: &mut Obs) -> Res {
    let ops = vec![
        Op::Run { seed: c.seed, n: c.pre },
        Op::Set(c.then),
        Op::Run { seed: c.seed ^ 1, n: c.post },
    ];
    let h = Hist { f64s: c.f64s, linear: c.linear, max: c.max, init: c.init, ops };
    run::<T, L>(&h, obs, false)?;
    obs.nontrivial = c.pre > 600;
    Ok(())
}

fn long_dispatch(c: &Long, obs: &mut Obs) -> Res {
    match (c.linear, c.f64s) {
        (false, false) => long_case::<f32, Delay<f32>>(c, obs),
        (false, true) => long_case::<f64, Delay<f64>>(c, obs),
        (true, false) => long_case::<f32, LinearDelay<f32>>(c, obs),
        (true, true) => long_case::<f64, LinearDelay<f64>>(c, obs),
    }
}

const INT: Menu = Menu { linear: false, taps: false, grow: false, peek: false, wild: true };

pub fn c01(cx: &mut Ctx) {
    cx.rule("C01 histories: generated sequences of process / process_block / long runs / set_delay / clear on an integer delay line; oracle: queue of the last max+1 samples, compared bit for bit after every operation. Non-trivial: the storage wrapped at least once, a delayed non-zero sample was heard, and a retune or clear happened with history present. Grid: all (max, delay, samples before retune, new delay) for small lines, enumerated. Long: lines up to 300000 samples.");
    cx.search("history", 24_000, 30, || hist(INT, 600, 40), dispatch);
    cx.sweep("grid", grid(false, 7, false), grid_dispatch);
    cx.search("long", 600, 15, || long_strategy(false, 300_000), long_dispatch);
    cx.search("marathon", 2, 25, || marathon(false), long_dispatch);
}

pub fn c02(cx: &mut Ctx) {
    cx.rule("C02 histories as for C01 plus tap_out / tap_in / add_to at generated taps 0..=max, on both delay lines; oracle: queue model, every tap and output compared. Non-trivial: storage wrapped, a delayed non-zero sample heard and a tap used after the wrap.");
    let mi = Menu { taps: true, wild: false, ..INT };
    let ml = Menu { linear: true, ..mi };
    cx.search("integer", 16_000, 30, || hist(mi, 600, 40), dispatch);
    cx.search("interpolating", 16_000, 30, || hist(ml, 600, 40), dispatch);
    cx.search("large integer", 150, 20, || hist_large(mi), dispatch);
    cx.search("large interpolating", 150, 20, || hist_large(ml), dispatch);
}

pub fn c03(cx: &mut Ctx) {
    cx.rule("C03 histories as for C02 plus set_max_delay with larger, equal and smaller values; oracle: queue model extended by zeros at the old end. Non-trivial: storage wrapped, a delayed non-zero sample heard and a growth or tap with history present. Grid: all small (max, delay, samples before, new delay, growth), enumerated.");
    let mi = Menu { taps: true, grow: true, wild: false, ..INT };
    let ml = Menu { linear: true, ..mi };
    cx.search("integer", 16_000, 30, || hist(mi, 300, 40), dispatch);
    cx.search("interpolating", 16_000, 30, || hist(ml, 300, 40), dispatch);
    cx.sweep("grid", grid(false, 5, true), grid_dispatch);
    cx.sweep("grid interpolating", grid(true, 4, true), grid_dispatch);
    cx.search("large integer", 150, 20, || hist_large(mi), dispatch);
    cx.search("large interpolating", 150, 20, || hist_large(ml), dispatch);
}

pub fn c04(cx: &mut Ctx) {
    cx.rule("C04 histories: process / process_block / long runs / set_delay (fractional, integral, tiny, near-integral, out of range, infinite) / clear on an interpolating delay line; oracle: two-point interpolation over the queue model in double precision, tolerance 2 single-precision epsilons of the two samples. Non-trivial as for C01. Grid: small lines enumerated. Long: lines up to 300000 samples.");
    let m = Menu { linear: true, wild: false, ..INT };
    cx.search("history", 24_000, 30, || hist(m, 600, 40), dispatch);
    cx.sweep("grid", grid(true, 5, false), grid_dispatch);
    cx.search("long", 600, 15, || long_strategy(true, 300_000), long_dispatch);
    cx.search("marathon", 2, 25, || marathon(true), long_dispatch);
}

// ------------------------------------------------- C05

/// Twin run: `l` is peeked, `q` is not; both get everything else.
fn twins<T: Smp, L: Line<T>>(c: &Hist, obs: &mut Obs) -> Res {
    let max = c.max as usize;
    let want0 = c.init.resolve(L::LINEAR, 0.0, max);
    let mut l = L::make(want0, max);
    let mut q = L::make(want0, max);
    let mut peeked: Option<T> = None;
    let mut predicted = 0;
    let mut disturbed = 0;
    let mut pending = false;
    for (i, o) in c.ops.iter().enumerate() {
        let at = format!("op {} {:?}", i, short(o));
        let both = |l: &mut L, q: &mut L, x: T, peeked: &mut Option<T>, predicted: &mut u32| -> Res {
            let (y, z) = (l.process(x), q.process(x));
            ensure!(same(y, z), "{}: output {:?} after peeking, {:?} without", at, y, z);
            if let Some(p) = peeked.take() {
                ensure!(
                    same(p, y) || close(p.f(), y.f(), 8.0 * T::EPS * p.f().abs().max(y.f().abs()) + T::TINY),
                    "{}: peeked {:?} but next output was {:?} (delay {})",
                    at, p, y, l.get()
                );
                if y != T::zero() {
                    *predicted += 1;
                }
            }
            Ok(())
        };
        match o {
            Op::P(x) => {
                pending = false;
                both(&mut l, &mut q, T::of(x.0), &mut peeked, &mut predicted)?
            }
            Op::Block(xs) => {
                if xs.is_empty() {
                    continue;
                }
                pending = false;
                let mut b: Vec<T> = xs.iter().map(|x| T::of(x.0)).collect();
                l.block(&mut b);
                for (j, x) in xs.iter().enumerate() {
                    let z = q.process(T::of(x.0));
                    ensure!(same(b[j], z), "{}: output {:?} after peeking, {:?} without", at, b[j], z);
                    if let Some(p) = peeked.take() {
                        ensure!(
                            close(p.f(), z.f(), 8.0 * T::EPS * p.f().abs() + T::TINY),
                            "{}: peeked {:?} but next output was {:?}", at, p, z
                        );
                    }
                }
            }
            Op::Same { x, n } => {
                pending = false;
                for _ in 0..*n {
                    both(&mut l, &mut q, T::of(x.0), &mut peeked, &mut predicted)?
                }
            }
            Op::Echo(k) => {
                pending = false;
                let at = (q.get() as usize).min(q.max());
                let x = echo(*k, q.last(), q.tap(0), q.tap(at));
                both(&mut l, &mut q, x, &mut peeked, &mut predicted)?
            }
            Op::Cancel(t, k) => {
                let tap = t.resolve(q.get(), q.max());
                let v = cancel(q.tap(tap), *k);
                let (a, b) = (l.add_to(v, tap), q.add_to(v, tap));
                ensure!(same(a, b), "{}: add_to differs after peeking", at);
                peeked = None;
                disturbed += pending as u32;
            }
            Op::Run { seed, n } => {
                pending = false;
                for x in gen_noise::<T>(*seed, *n) {
                    both(&mut l, &mut q, x, &mut peeked, &mut predicted)?
                }
            }
            Op::Align { seed, at: n } => {
                pending = false;
                // peek before every sample
                for x in gen_noise::<T>(*seed, *n) {
                    let p = l.peek();
                    if l.get() >= 1.0 {
                        peeked = Some(p);
                    }
                    both(&mut l, &mut q, x, &mut peeked, &mut predicted)?
                }
            }
            Op::Set(w) => {
                let d = w.resolve(L::LINEAR, l.get(), l.max());
                l.set(d);
                q.set(d);
                peeked = None;
                disturbed += pending as u32;
            }
            Op::Clear => {
                l.clear();
                q.clear();
                peeked = None;
                disturbed += pending as u32;
            }
            Op::TapOut(t) => {
                let k = t.resolve(l.get(), l.max());
                ensure!(same(l.tap(k), q.tap(k)), "{}: tap differs after peeking", at);
            }
            Op::TapIn(t, v) => {
                let k = t.resolve(l.get(), l.max());
                l.tap_in(T::of(v.0), k);
                q.tap_in(T::of(v.0), k);
                peeked = None;
                disturbed += pending as u32;
            }
            Op::AddTo(t, v) => {
                let k = t.resolve(l.get(), l.max());
                let (a, b) = (l.add_to(T::of(v.0), k), q.add_to(T::of(v.0), k));
                ensure!(same(a, b), "{}: add_to differs after peeking", at);
                peeked = None;
                disturbed += pending as u32;
            }
            Op::Grow(n) => {
                let new = l.max() + *n as usize;
                l.grow(new);
                q.grow(new);
                disturbed += pending as u32;
            }
            Op::NoGrow(n) => {
                let new = l.max().saturating_sub(*n as usize);
                l.grow(new);
                q.grow(new);
            }
            Op::Peek(n) => {
                let mut p = l.peek();
                for _ in 1..*n {
                    let p2 = l.peek();
                    ensure!(same(p, p2), "{}: two peeks in a row differ: {:?} {:?}", at, p, p2);
                    p = p2;
                }
                pending = true;
                if l.get() >= 1.0 {
                    peeked = Some(p);
                }
            }
            Op::AllTaps => {
                for k in 0..=l.max() {
                    ensure!(same(l.tap(k), q.tap(k)), "{}: tap {} differs after peeking", at, k);
                }
            }
        }
        ensure!(l.get() == q.get(), "{}: delay differs after peeking", at);
        ensure!(l.max() == q.max(), "{}: maximum differs after peeking", at);
        ensure!(same(l.last(), q.last()), "{}: last output differs after peeking", at);
    }
    // flush: everything still stored must come out alike, and a fresh peek
    // must still be right
    for x in gen_noise::<T>(99, 12) {
        let p = l.peek();
        let (y, z) = (l.process(x), q.process(x));
        ensure!(same(y, z), "flush: output {:?} after peeking, {:?} without", y, z);
        if l.get() >= 1.0 {
            ensure!(
                close(p.f(), y.f(), 8.0 * T::EPS * p.f().abs().max(y.f().abs()) + T::TINY),
                "flush: peeked {:?} but next output was {:?} (delay {})", p, y, l.get()
            );
        }
    }
    if predicted > 0 {
        obs.label("non-zero output predicted");
    }
    if disturbed > 0 {
        obs.label("state changed between peek and process");
    }
    obs.nontrivial_if(predicted > 0 || disturbed > 0);
    Ok(())
}

pub fn c05(cx: &mut Ctx) {
    cx.rule("C05 histories over process / blocks / runs / set_delay / set_max_delay / taps / clear with peeks inserted anywhere; oracle: a twin line given the same calls without the peeks must return identical outputs, and with delay >= 1 the peeked value must equal the next output. Non-trivial: a non-zero next output was predicted, or the line's state was changed between a peek and the next sample.");
    let mi = Menu { taps: true, grow: true, peek: true, wild: false, ..INT };
    let ml = Menu { linear: true, ..mi };
    let f = |c: &Hist, o: &mut Obs| match (c.linear, c.f64s) {
        (false, false) => twins::<f32, Delay<f32>>(c, o),
        (false, true) => twins::<f64, Delay<f64>>(c, o),
        (true, false) => twins::<f32, LinearDelay<f32>>(c, o),
        (true, true) => twins::<f64, LinearDelay<f64>>(c, o),
    };
    cx.search("integer", 16_000, 30, || hist(mi, 120, 30), f);
    cx.search("interpolating", 16_000, 30, || hist(ml, 120, 30), f);
    cx.search("large integer", 100, 20, || hist_large(mi), f);
    cx.search("large interpolating", 100, 20, || hist_large(ml), f);
}
