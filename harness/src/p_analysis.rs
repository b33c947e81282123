//! C14-C17: leaky integrator and envelope detectors.

use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::traits::Processor;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Alpha(Fl),
    X(Fl),
    Sig(Sig),
    Block(Sig),
    Hold { n: u32, v: Fl },
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LCase {
    f64s: bool,
    ops: Vec<LOp>,
}

fn alpha() -> BoxedStrategy<Fl> {
    prop_oneof![
        4 => (0.0f64..1.0).prop_map(Fl),
        2 => log_uniform(1e-6, 1.0).prop_map(|x| Fl(1.0 - x)),
        1 => log_uniform(1e-30, 1.0).prop_map(Fl),
        3 => proptest::sample::select(vec![
            0.0f64, -0.0, 1.0, 0.5, 0.99, 0.999, 1.0 - 1e-7, 1.0 - 5.9604645e-8, 1.0 - 1.1102230246251565e-16,
            1.0 + 1e-7, -1e-9, -0.01, -0.5, -1.0, 1.5, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
            -1e-30, 1e-30, 1e30, 1e-45, -f64::NAN
        ]).prop_map(Fl),
        1 => (-3.0f64..3.0).prop_map(Fl),
    ]
    .boxed()
}

fn c14_case<T: Smp>(c: &LCase, obs: &mut Obs) -> Res {
    let mut p = LeakyIntegrator::<T>::new();
    ensure!(p.get_alpha() == T::zero(), "new: gain {:?}", p.get_alpha());
    let mut a = T::zero();
    let mut y = T::zero();
    let mut averaged = false;
    let mut refused = false;
    fn step<T: Smp>(a: T, y: T, x: T, out: T, i: usize) -> Res {
        let (af, yf, xf) = (a.f(), y.f(), x.f());
        let want = (1.0 - af) * xf + af * yf;
        let mag = xf.abs() + yf.abs();
        let tol = 4.0 * T::EPS * mag + T::SUB;
        ensure!(
            close(out.f(), want, tol),
            "op {}: output {:?}, expected {:?} (gain {:?}, input {:?}, previous {:?})",
            i, out, want, a, x, y
        );
        ensure!(
            out.f() >= xf.min(yf) - tol && out.f() <= xf.max(yf) + tol,
            "op {}: output {:?} not between previous {:?} and input {:?}",
            i, out, y, x
        );
        Ok(())
    }
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            LOp::Alpha(v) => {
                let v = T::of(v.0);
                p.set_alpha(v);
                if v >= T::zero() && v < T::one() {
                    a = v;
                } else {
                    refused = true;
                }
            }
            LOp::X(x) => {
                let x = T::of(x.0);
                let out = p.process(x);
                step(a, y, x, out, i)?;
                averaged |= a > T::zero() && y != T::zero();
                y = out;
            }
            LOp::Sig(s) => {
                for x in s.t::<T>() {
                    let out = p.process(x);
                    step(a, y, x, out, i)?;
                    averaged |= a > T::zero() && y != T::zero();
                    y = out;
                }
            }
            LOp::Block(s) => {
                let xs = s.t::<T>();
                if xs.is_empty() {
                    continue;
                }
                let mut b = xs.clone();
                p.process_block(&mut b);
                for (x, out) in xs.iter().zip(b) {
                    step(a, y, *x, out, i)?;
                    y = out;
                }
            }
            LOp::Hold { n, v } => {
                // convergence: distance to a held input shrinks by the gain
                let v = T::of(v.0);
                let d0 = (y.f() - v.f()).abs();
                for _ in 0..*n {
                    let out = p.process(v);
                    step(a, y, v, out, i)?;
                    y = out;
                }
                let scale = v.f().abs() + d0;
                let noise = 4.0 * T::EPS * scale / (1.0 - a.f()).max(T::EPS) + T::TINY;
                ensure!(
                    (y.f() - v.f()).abs() <= d0 * a.f().powi(*n as i32) * (1.0 + 1e-3) + noise,
                    "op {}: after {} samples of {:?} still at {:?} (started {:e} away, gain {:?})",
                    i, n, v, y, d0, a
                );
            }
            LOp::Clear => {
                p.clear();
                y = T::zero();
            }
        }
        ensure!(
            p.get_alpha().bits() == a.bits() || p.get_alpha() == a,
            "op {}: gain reads {:?}, expected {:?}", i, p.get_alpha(), a
        );
        ensure!(same(p.last_out(), y), "op {}: last output {:?}, expected {:?}", i, p.last_out(), y);
    }
    if averaged {
        obs.label("averaged over a non-zero past");
    }
    if refused {
        obs.label("an invalid gain was offered");
    }
    obs.nontrivial_if(averaged);
    Ok(())
}

pub fn c14(cx: &mut Ctx) {
    cx.rule("C14: generated sequences of set_alpha (valid, boundary, invalid, non-finite), samples, signals, held inputs and clear; oracle: weighted-average recurrence on the actual previous output, betweenness, geometric convergence, and exact gain read-back. Non-trivial: an output averaged a non-zero past with a non-zero gain.");
    let strat = || {
        let op = prop_oneof![
            4 => alpha().prop_map(LOp::Alpha),
            4 => quiet().prop_map(LOp::X),
            2 => sig_quiet(200).prop_map(LOp::Sig),
            1 => sig_quiet(60).prop_map(LOp::Block),
            1 => (1u32..400, sample()).prop_map(|(n, v)| LOp::Hold { n, v }),
            1 => Just(LOp::Clear),
        ];
        (any::<bool>(), proptest::collection::vec(op, 1..16)).prop_map(|(f64s, ops)| LCase { f64s, ops }).boxed()
    };
    cx.search("average", 40_000, 25, strat, |c: &LCase, o| {
        if c.f64s { c14_case::<f64>(c, o) } else { c14_case::<f32>(c, o) }
    });
    let long = |lo: u32, hi: u32| {
        move || {
            (any::<bool>(), alpha(), proptest::collection::vec(sig_long(lo, hi), 1..3), any::<bool>())
                .prop_map(|(f64s, a, s, block)| {
                    let mut ops = vec![LOp::Alpha(a)];
                    ops.extend(s.into_iter().map(|s| if block { LOp::Block(s) } else { LOp::Sig(s) }));
                    LCase { f64s, ops }
                })
                .boxed()
        }
    };
    let f = |c: &LCase, o: &mut Obs| if c.f64s { c14_case::<f64>(c, o) } else { c14_case::<f32>(c, o) };
    cx.search("long", 1_000, 25, long(500, 12_000), f);
    cx.search("very long", 30, 25, long(40_000, 150_000), f);
    cx.search("marathon", 2, 25, long(1_000_000, 6_000_000), f);
}

// ------------------------------------------------------------------ C15-C17

trait Det<T: Smp> {
    const RMS: bool;
    fn make() -> Self;
    fn process(&mut self, x: T) -> T;
    fn block(&mut self, x: &mut [T]) -> T;
    fn attack(&mut self, l: T);
    fn release(&mut self, l: T);
    fn ga(&self) -> T;
    fn gr(&self) -> T;
    fn clear(&mut self);
    fn last(&self) -> T;
}

macro_rules! det {
    ($t:ident, $rms:expr) => {
        impl<T: Smp> Det<T> for $t<T> {
            const RMS: bool = $rms;
            fn make() -> Self {
                $t::new()
            }
            fn process(&mut self, x: T) -> T {
                Processor::process(self, x)
            }
            fn block(&mut self, x: &mut [T]) -> T {
                self.process_block(x)
            }
            fn attack(&mut self, l: T) {
                self.set_attack(l)
            }
            fn release(&mut self, l: T) {
                self.set_release(l)
            }
            fn ga(&self) -> T {
                self.get_attack_gain()
            }
            fn gr(&self) -> T {
                self.get_release_gain()
            }
            fn clear(&mut self) {
                Processor::clear(self)
            }
            fn last(&self) -> T {
                self.last_out()
            }
        }
    };
}
det!(PeakEnvDetector, false);
det!(RmsEnvDetector, true);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    Attack(Fl),
    Release(Fl),
    X(Fl),
    Sig(Sig),
    Block(Sig),
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    f64s: bool,
    rms: bool,
    ops: Vec<DOp>,
    /// 2^k scaling for the homogeneity twin
    k: i8,
}

fn length() -> BoxedStrategy<Fl> {
    prop_oneof![
        5 => crate::procs::env_len(),
        2 => log_uniform(1e-3, 1e7).prop_map(Fl),
        2 => proptest::sample::select(vec![
            0.0f64, -0.0, -1.0, -100.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-9, 1e-9, 1e-40,
            1e12, f32::MAX as f64, -0.5, -44100.0, -f64::NAN, f32::MIN_POSITIVE as f64
        ]).prop_map(Fl),
    ]
    .boxed()
}

/// Magnitudes whose squares stay well inside the f32 range.
fn audible() -> BoxedStrategy<Fl> {
    fin(-12, 8)
}

fn gain_of<T: Smp>(l: T) -> Option<(f64, f64)> {
    if l > T::zero() && l.is_finite() {
        let g = (-1.0 / l.f()).exp();
        Some((g, 4.0 * T::EPS * (1.0 + 1.0 / l.f()) * g + T::TINY))
    } else {
        None
    }
}

/// One step of the recurrence on the actual previous output.
fn det_step<T: Smp, D: Det<T>>(d: &D, prev: T, x: T, out: T, i: usize) -> Res {
    let (p, m, o) = if D::RMS {
        (prev.f() * prev.f(), x.f() * x.f(), out.f() * out.f())
    } else {
        (prev.f(), x.f().abs(), out.f())
    };
    let big = p.max(m);
    let tol = if D::RMS { 16.0 } else { 4.0 } * T::EPS * big + if D::RMS { T::TINY } else { T::SUB };
    let (ga, gr) = (d.ga().f(), d.gr().f());
    let g = if p < m { ga } else { gr };
    let want = m + g * (p - m);
    ensure!(
        close(o, want, tol),
        "op {}: output {:?}, expected {}{:?} (input {:?}, previous {:?}, attack gain {}, release gain {})",
        i, out, if D::RMS { "square " } else { "" }, want, x, prev, ga, gr
    );
    ensure!(out >= T::zero(), "op {}: negative envelope {:?}", i, out);
    let (lo, hi) = (p.min(m), p.max(m));
    ensure!(
        o >= lo - tol && o <= hi + tol,
        "op {}: envelope {:?} not between previous {:?} and |input| {:?}", i, out, prev, x
    );
    Ok(())
}

fn det_case<T: Smp, D: Det<T>>(c: &DCase, obs: &mut Obs) -> Res {
    let mut d = D::make();
    // twins: negated input, scaled input
    let mut neg = D::make();
    let mut scl = D::make();
    let s = T::of(2f64.powi(c.k as i32));
    let mut prev = T::zero();
    let mut largest = 0f64;
    let (mut rose, mut fell) = (false, false);
    for (i, o) in c.ops.iter().enumerate() {
        let mut feed = |d: &mut D, neg: &mut D, scl: &mut D, x: T, out: T| -> Res {
            det_step::<T, D>(d, prev, x, out, i)?;
            let yn = neg.process(-x);
            ensure!(same(yn, out), "op {}: {:?} for {:?} but {:?} for its negative", i, out, x, yn);
            let ys = scl.process(x * s).f();
            let t = 8.0 * T::EPS * out.f() * s.f() + if D::RMS { T::TINY.sqrt() } else { T::TINY };
            ensure!(
                close(ys, out.f() * s.f(), t),
                "op {}: input scaled by {} gives {:?}, expected {:?}", i, s.f(), ys, out.f() * s.f()
            );
            largest = largest.max(x.f().abs());
            ensure!(
                out.f() <= largest * (1.0 + 64.0 * T::EPS) + T::TINY.sqrt(),
                "op {}: envelope {:?} above the largest magnitude {:?}", i, out, largest
            );
            rose |= out > prev && d.ga() > T::zero();
            fell |= out < prev && d.gr() > T::zero();
            prev = out;
            Ok(())
        };
        match o {
            DOp::Attack(l) => {
                d.attack(T::of(l.0));
                neg.attack(T::of(l.0));
                scl.attack(T::of(l.0));
            }
            DOp::Release(l) => {
                d.release(T::of(l.0));
                neg.release(T::of(l.0));
                scl.release(T::of(l.0));
            }
            DOp::X(x) => {
                let x = T::of(x.0);
                let out = d.process(x);
                feed(&mut d, &mut neg, &mut scl, x, out)?;
            }
            DOp::Sig(sg) => {
                for x in sg.t::<T>() {
                    let out = d.process(x);
                    feed(&mut d, &mut neg, &mut scl, x, out)?;
                }
            }
            DOp::Block(sg) => {
                let xs = sg.t::<T>();
                if xs.is_empty() {
                    continue;
                }
                let mut b = xs.clone();
                d.block(&mut b);
                for (x, out) in xs.iter().zip(b) {
                    feed(&mut d, &mut neg, &mut scl, *x, out)?;
                }
            }
            DOp::Clear => {
                d.clear();
                neg.clear();
                scl.clear();
                prev = T::zero();
            }
        }
        ensure!(same(d.last(), prev), "op {}: last output {:?}, expected {:?}", i, d.last(), prev);
    }
    if rose {
        obs.label("rising with attack");
    }
    if fell {
        obs.label("falling with release");
    }
    obs.nontrivial_if(rose || fell);
    Ok(())
}

fn d_strategy(rms: bool) -> BoxedStrategy<DCase> {
    let s = if rms { prop_oneof![3 => audible(), 1 => fin(-17, 8)].boxed() } else { prop_oneof![2 => audible(), 1 => quiet()].boxed() };
    let op = prop_oneof![
        3 => length().prop_map(DOp::Attack),
        3 => length().prop_map(DOp::Release),
        4 => s.clone().prop_map(DOp::X),
        4 => sig_of(200, s.clone()).prop_map(DOp::Sig),
        1 => sig_of(60, s).prop_map(DOp::Block),
        1 => Just(DOp::Clear),
    ];
    (any::<bool>(), proptest::collection::vec(op, 1..14), -10i8..10)
        .prop_map(move |(f64s, ops, k)| DCase { f64s, rms, ops, k })
        .boxed()
}

/// A few long signals at settings that may be long as well.
fn d_long(rms: bool, lo: u32, hi: u32) -> BoxedStrategy<DCase> {
    (any::<bool>(), length(), length(), proptest::collection::vec(sig_long(lo, hi), 1..3), any::<bool>(), -10i8..10)
        .prop_map(move |(f64s, a, r, s, block, k)| {
            let mut ops = vec![DOp::Attack(a), DOp::Release(r)];
            ops.extend(s.into_iter().map(|s| if block { DOp::Block(s) } else { DOp::Sig(s) }));
            DCase { f64s, rms, ops, k }
        })
        .boxed()
}

fn det_dispatch(c: &DCase, o: &mut Obs) -> Res {
    match (c.rms, c.f64s) {
        (false, false) => det_case::<f32, PeakEnvDetector<f32>>(c, o),
        (false, true) => det_case::<f64, PeakEnvDetector<f64>>(c, o),
        (true, false) => det_case::<f32, RmsEnvDetector<f32>>(c, o),
        (true, true) => det_case::<f64, RmsEnvDetector<f64>>(c, o),
    }
}

/// Step response: the time constants.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    f64s: bool,
    rms: bool,
    attack: u32,
    release: u32,
    height: Fl,
}

fn step_case<T: Smp, D: Det<T>>(c: &Step, obs: &mut Obs) -> Res {
    let mut d = D::make();
    d.attack(T::of(c.attack as f64));
    d.release(T::of(c.release as f64));
    let h = T::of(c.height.0);
    let hf = h.f().abs();
    let e1 = (-1f64).exp();
    let sq = |v: f64| if D::RMS { v * v } else { v };
    for _ in 0..c.attack {
        d.process(h);
    }
    let got = sq(d.last().f()) / sq(hf);
    let t = 1e-6 + 8.0 * T::EPS * c.attack as f64;
    ensure!(
        close(got, 1.0 - e1, t),
        "after the attack length ({} samples) of {:?} the envelope is at {} of its height, expected {}",
        c.attack, h, got, 1.0 - e1
    );
    // settle, then release
    for _ in 0..(40 * c.attack) {
        d.process(h);
    }
    let full = sq(d.last().f());
    for _ in 0..c.release {
        d.process(T::zero());
    }
    let got = sq(d.last().f()) / full;
    let t = 1e-6 + 8.0 * T::EPS * c.release as f64;
    ensure!(
        close(got, e1, t),
        "after the release length ({} samples) the envelope is at {} of its height, expected {}",
        c.release, got, e1
    );
    obs.nontrivial = true;
    Ok(())
}

fn step_strategy(rms: bool) -> BoxedStrategy<Step> {
    (
        any::<bool>(),
        prop_oneof![1u32..50, size(3000).prop_map(|n| n.max(1))],
        prop_oneof![1u32..50, size(3000).prop_map(|n| n.max(1))],
        prop_oneof![Just(1.0f64), Just(-1.0), log_uniform(1e-5, 1e5)].prop_map(Fl),
    )
        .prop_map(move |(f64s, attack, release, height)| Step { f64s, rms, attack, release, height })
        .boxed()
}

pub fn c15(cx: &mut Ctx) {
    cx.rule("C15: generated sequences of set_attack / set_release (valid and invalid), samples, signals over many decades, blocks, clear; oracle: the attack/release recurrence on the actual previous output with the gains read back, plus betweenness, non-negativity, running-maximum bound, sign twin and power-of-two scaling twin. Non-trivial: the envelope rose under a non-zero attack gain or fell under a non-zero release gain. Step: generated attack/release lengths and heights; oracle: 1-1/e after the attack length, 1/e after the release length.");
    cx.search("recurrence", 60_000, 25, || d_strategy(false), det_dispatch);
    cx.search("long", 1_000, 25, || d_long(false, 500, 12_000), det_dispatch);
    cx.search("very long", 30, 25, || d_long(false, 40_000, 150_000), det_dispatch);
    cx.search("marathon", 2, 25, || d_long(false, 1_000_000, 6_000_000), det_dispatch);
    cx.search("step", 1_500, 15, || step_strategy(false), |c: &Step, o| {
        if c.f64s { step_case::<f64, PeakEnvDetector<f64>>(c, o) } else { step_case::<f32, PeakEnvDetector<f32>>(c, o) }
    });
}

pub fn c16(cx: &mut Ctx) {
    cx.rule("C16: as C15 on the squared envelope of the RMS detector.");
    cx.search("recurrence", 60_000, 25, || d_strategy(true), det_dispatch);
    cx.search("long", 1_000, 25, || d_long(true, 500, 12_000), det_dispatch);
    cx.search("very long", 30, 25, || d_long(true, 40_000, 150_000), det_dispatch);
    cx.search("marathon", 2, 25, || d_long(true, 1_000_000, 6_000_000), det_dispatch);
    cx.search("step", 1_500, 15, || step_strategy(true), |c: &Step, o| {
        if c.f64s { step_case::<f64, RmsEnvDetector<f64>>(c, o) } else { step_case::<f32, RmsEnvDetector<f32>>(c, o) }
    });
}

fn set_case<T: Smp, D: Det<T>>(c: &DCase, obs: &mut Obs) -> Res {
    let mut d = D::make();
    ensure!(d.ga() == T::zero() && d.gr() == T::zero(), "new detector has non-zero gains");
    // latest valid length per gain
    let mut la: Option<T> = None;
    let mut lr: Option<T> = None;
    let (mut valid, mut invalid) = (0, 0);
    for (i, o) in c.ops.iter().enumerate() {
        let before = (d.ga(), d.gr(), d.last());
        match o {
            DOp::Attack(l) => {
                let l = T::of(l.0);
                d.attack(l);
                if gain_of(l).is_some() {
                    if let Some(old) = la {
                        let t = 8.0 * T::EPS;
                        ensure!(
                            if l >= old { d.ga().f() >= before.0.f() - t } else { d.ga().f() <= before.0.f() + t },
                            "op {}: attack gain not increasing with the length", i
                        );
                    }
                    la = Some(l);
                    valid += 1;
                } else {
                    invalid += 1;
                    ensure!(same(d.ga(), before.0), "op {}: invalid attack length {:?} changed the gain to {:?}", i, l, d.ga());
                }
                ensure!(same(d.gr(), before.1), "op {}: setting the attack changed the release gain", i);
                ensure!(same(d.last(), before.2), "op {}: setting the attack changed the envelope", i);
            }
            DOp::Release(l) => {
                let l = T::of(l.0);
                d.release(l);
                if gain_of(l).is_some() {
                    lr = Some(l);
                    valid += 1;
                } else {
                    invalid += 1;
                    ensure!(same(d.gr(), before.1), "op {}: invalid release length {:?} changed the gain to {:?}", i, l, d.gr());
                }
                ensure!(same(d.ga(), before.0), "op {}: setting the release changed the attack gain", i);
                ensure!(same(d.last(), before.2), "op {}: setting the release changed the envelope", i);
            }
            DOp::X(x) => {
                d.process(T::of(x.0));
            }
            DOp::Sig(s) | DOp::Block(s) => {
                for x in s.t::<T>() {
                    d.process(x);
                }
            }
            DOp::Clear => d.clear(),
        }
        for (what, l, g) in [("attack", la, d.ga()), ("release", lr, d.gr())] {
            match l {
                None => ensure!(g == T::zero(), "op {}: {} gain {:?} before any valid length", i, what, g),
                Some(l) => {
                    let (want, tol) = gain_of(l).unwrap();
                    ensure!(
                        close(g.f(), want, tol) && g.f() >= 0.0 && g.f() <= 1.0,
                        "op {}: {} gain {:?} for length {:?}, expected {}", i, what, g, l, want
                    );
                    // a fresh detector given only the latest length agrees
                    let mut fresh = D::make();
                    if what == "attack" { fresh.attack(l) } else { fresh.release(l) }
                    let fg = if what == "attack" { fresh.ga() } else { fresh.gr() };
                    ensure!(same(fg, g), "op {}: {} gain {:?} depends on earlier settings ({:?} from scratch)", i, what, g, fg);
                }
            }
        }
    }
    if invalid > 0 {
        obs.label("an invalid length was offered");
    }
    obs.nontrivial_if(valid > 0 && (valid + invalid) > 1);
    // the gains in force are the ones used: rise and fall once
    let before = d.last();
    let x = T::of(before.f() * 2.0 + 1.0);
    let out = d.process(x);
    det_step::<T, D>(&d, before, x, out, usize::MAX)?;
    let before = d.last();
    let x = T::of(before.f() * 0.25);
    let out = d.process(x);
    det_step::<T, D>(&d, before, x, out, usize::MAX)
}

pub fn c17(cx: &mut Ctx) {
    cx.rule("C17: generated sequences of valid, boundary and invalid attack/release lengths interleaved with processing and clear, on both detectors; oracle: exp(-1/length) of the latest valid length, independence of the two gains and of the envelope, and use of the gains in the next rise and fall. Non-trivial: at least two settings of which one valid.");
    let strat = || {
        let op = prop_oneof![
            4 => length().prop_map(DOp::Attack),
            4 => length().prop_map(DOp::Release),
            1 => audible().prop_map(DOp::X),
            1 => sig_of(20, audible()).prop_map(DOp::Sig),
            1 => Just(DOp::Clear),
        ];
        (any::<bool>(), any::<bool>(), proptest::collection::vec(op, 1..14))
            .prop_map(move |(f64s, rms, ops)| DCase { f64s, rms, ops, k: 0 })
            .boxed()
    };
    cx.search("settings", 100_000, 25, strat, |c: &DCase, o| match (c.rms, c.f64s) {
        (false, false) => set_case::<f32, PeakEnvDetector<f32>>(c, o),
        (false, true) => set_case::<f64, PeakEnvDetector<f64>>(c, o),
        (true, false) => set_case::<f32, RmsEnvDetector<f32>>(c, o),
        (true, true) => set_case::<f64, RmsEnvDetector<f64>>(c, o),
    });
}
