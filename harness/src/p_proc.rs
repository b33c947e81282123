//! C06-C08, C23-C25: what every processor promises.

use crate::engine::*;
use crate::gen::*;
use crate::p_filter::round;
use crate::p_window::{values, WINDOWS};
use crate::procs::*;
use crate::refs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    P(Fl),
    /// sample by sample
    Run(Sig),
    Block(Sig),
    /// a block of no samples
    Empty,
    Set(Cfg),
    Clear,
    Poke(u32, Fl),
    Peek,
}

/// The settings in force after applying `new` on top of `cur` (a delay
/// line's maximum never shrinks).
fn effective(cur: &Cfg, new: &Cfg) -> Cfg {
    match (cur, new) {
        (Cfg::Delay { max: m, .. }, Cfg::Delay { d, max }) => {
            let max = *max.max(m);
            Cfg::Delay { d: (*d).min(max), max }
        }
        (Cfg::Linear { max: m, .. }, Cfg::Linear { d, max }) => {
            let max = *max.max(m);
            Cfg::Linear { d: Fl(d.0.min(max as f64).max(0.0)), max }
        }
        _ => new.clone(),
    }
}

fn line_max(c: &Cfg) -> u32 {
    match c {
        Cfg::Delay { max, .. } | Cfg::Linear { max, .. } => *max,
        _ => 0,
    }
}

fn ops(c: &Cfg, s: BoxedStrategy<Fl>, max_sig: u32, n: std::ops::Range<usize>, clears: bool) -> BoxedStrategy<Vec<Op>> {
    let delay = matches!(c, Cfg::Delay { .. } | Cfg::Linear { .. });
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (3, s.clone().prop_map(Op::P).boxed()),
        (3, sig_of(max_sig, s.clone()).prop_map(Op::Run).boxed()),
        (3, sig_of(max_sig, s.clone()).prop_map(Op::Block).boxed()),
        (2, retune(c).prop_map(Op::Set).boxed()),
    ];
    if clears {
        v.push((1, Just(Op::Clear).boxed()));
    }
    if delay {
        v.push((2, (any::<u32>(), s).prop_map(|(k, x)| Op::Poke(k, x)).boxed()));
        v.push((1, Just(Op::Peek).boxed()));
    }
    proptest::collection::vec(proptest::strategy::Union::new_weighted(v), n).boxed()
}

/// Applies one operation; outputs go to `out`.
fn apply<T: Smp>(p: &mut Any<T>, o: &Op, out: &mut Vec<T>) {
    match o {
        Op::P(x) => out.push(p.process(T::of(x.0))),
        Op::Run(s) => {
            for x in s.t::<T>() {
                out.push(p.process(x))
            }
        }
        Op::Block(s) => {
            let mut b = s.t::<T>();
            if !b.is_empty() {
                p.process_block(&mut b);
                out.extend_from_slice(&b);
            }
        }
        Op::Empty => {
            p.process_block(&mut []);
        }
        Op::Set(c) => p.set(c),
        Op::Clear => p.clear(),
        Op::Poke(k, v) => p.poke(*k, T::of(v.0)),
        Op::Peek => p.peek(),
    }
}

/// Largest magnitude an operation feeds in.
fn loudest<T: Smp>(o: &Op) -> f64 {
    match o {
        Op::P(x) | Op::Poke(_, x) => T::of(x.0).f().abs(),
        Op::Run(s) | Op::Block(s) => s.t::<T>().iter().fold(0.0, |m, v| m.max(v.f().abs())),
        _ => 0.0,
    }
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clr {
    f64s: bool,
    cfg: Cfg,
    pre: Vec<Op>,
    twice: bool,
    post: Vec<Op>,
    seed: u32,
    /// bring the output to zero before clearing
    #[serde(default)]
    null: bool,
}

fn c06_case<T: Smp>(c: &Clr, obs: &mut Obs) -> Res {
    let name = c.cfg.name();
    let mut p = Any::<T>::new(&c.cfg);
    let mut eff = effective(&c.cfg, &c.cfg);
    let mut sink = vec![];
    for o in &c.pre {
        apply(&mut p, o, &mut sink);
        if let Op::Set(n) = o {
            eff = effective(&eff, n);
        }
    }
    if c.null {
        let make = || {
            let mut q = Any::<T>::new(&c.cfg);
            for o in &c.pre {
                apply(&mut q, o, &mut vec![]);
            }
            q
        };
        if let Some(x) = nulling::<T>(&make) {
            p.process(x);
            if p.last_out() == T::zero() {
                obs.label("output zero before clear");
            }
        }
    }
    let stained = sink.iter().any(|v| !v.is_finite());
    let live = p.last_out().f() != 0.0 || p.taps().iter().any(|v| v.f() != 0.0) || sink.iter().any(|v| v.f() != 0.0);
    let before = p.read();
    p.clear();
    if c.twice {
        p.clear();
    }
    let check = |p: &Any<T>, when: &str| -> Res {
        ensure!(p.last_out() == T::zero(), "{} {}: last output is {:?}, not 0", name, when, p.last_out());
        for (k, v) in p.taps().iter().enumerate() {
            ensure!(*v == T::zero(), "{} {}: tap {} reads {:?}, not 0", name, when, k, v);
        }
        Ok(())
    };
    check(&p, "after clear")?;
    let after = p.read();
    ensure!(before == after, "{}: clear changed the settings from {:?} to {:?}", name, before, after);
    let mut q = Any::<T>::new(&eff);
    ensure!(q.read() == after, "{}: settings {:?} after clear, {:?} in a new processor set alike", name, after, q.read());
    let linear = matches!(c.cfg, Cfg::Linear { .. });
    let mut loud = 0f64;
    let flush = Op::Run(Sig::Noise { seed: c.seed, n: line_max(&eff) + 20, exp: 0 });
    for (i, o) in c.post.iter().chain(std::iter::once(&flush)).enumerate() {
        let (mut a, mut b) = (vec![], vec![]);
        apply(&mut p, o, &mut a);
        apply(&mut q, o, &mut b);
        loud = loud.max(loudest::<T>(o));
        let tol = if linear { 4.0 * f32::EPSILON as f64 * loud + T::TINY } else { 0.0 };
        for (j, (u, v)) in a.iter().zip(b.iter()).enumerate() {
            ensure!(
                same(*u, *v) || close(u.f(), v.f(), tol),
                "{}: step {} sample {} after clear gives {:?}, a new processor gives {:?}", name, i, j, u, v
            );
        }
        let (u, v) = (p.last_out(), q.last_out());
        ensure!(same(u, v) || close(u.f(), v.f(), tol), "{}: step {} after clear: last output {:?} vs {:?}", name, i, u, v);
        let (s, t) = (p.read(), q.read());
        ensure!(s == t, "{}: step {} after clear: settings {:?} vs {:?}", name, i, s, t);
    }
    obs.label(name);
    if stained {
        obs.label("history with infinite or NaN output");
    }
    obs.nontrivial_if(live);
    Ok(())
}

pub fn c06(cx: &mut Ctx) {
    cx.rule("C06: any processor, any history (samples including infinities and NaN, blocks, retunes, tap writes, peeks, clears), then clear, then further operations and a flush longer than the line; oracle: zero last output and taps, settings unchanged, and outputs equal to those of a newly created processor with the same settings. Non-trivial: the history left a non-zero output or stored sample to clear.");
    let strat = || {
        any_cfg(200, false)
            .prop_flat_map(|c| {
                (
                    any::<bool>(),
                    Just(c.clone()),
                    ops(&c, wild(), 150, 0..8, true),
                    proptest::bool::weighted(0.1),
                    ops(&c, sample(), 60, 0..5, true),
                    any::<u32>(),
                    proptest::bool::weighted(0.2),
                )
            })
            .prop_map(|(f64s, cfg, pre, twice, post, seed, null)| Clr { f64s, cfg, pre, twice, post, seed, null })
            .boxed()
    };
    cx.search("clear", 60_000, 25, strat, |c: &Clr, o| {
        if c.f64s { c06_case::<f64>(c, o) } else { c06_case::<f32>(c, o) }
    });
    let long = || {
        prop_oneof![delay_cfg(20_000), linear_cfg(20_000)]
            .prop_flat_map(|c| {
                (
                    any::<bool>(),
                    Just(c.clone()),
                    ops(&c, sample(), 40_000, 1..4, false),
                    Just(false),
                    ops(&c, sample(), 500, 0..3, false),
                    any::<u32>(),
                )
            })
            .prop_map(|(f64s, cfg, pre, twice, post, seed)| Clr { f64s, cfg, pre, twice, post, seed, null: false })
            .boxed()
    };
    cx.search("clear long lines", 1_200, 25, long, |c: &Clr, o| {
        if c.f64s { c06_case::<f64>(c, o) } else { c06_case::<f32>(c, o) }
    });
    let many = |lo: u32, hi: u32| move || {
        any_cfg(300, false)
            .prop_flat_map(move |c| {
                (
                    any::<bool>(),
                    Just(c.clone()),
                    proptest::collection::vec((sig_long(lo, hi), any::<bool>()).prop_map(|(s, b)| if b { Op::Block(s) } else { Op::Run(s) }), 1..3),
                    sig_long(1_000, 10_000).prop_map(|s| vec![Op::Run(s)]),
                    any::<u32>(),
                )
            })
            .prop_map(|(f64s, cfg, pre, post, seed)| Clr { f64s, cfg, pre, twice: false, post, seed, null: false })
            .boxed()
    };
    let f = |c: &Clr, o: &mut Obs| if c.f64s { c06_case::<f64>(c, o) } else { c06_case::<f32>(c, o) };
    cx.search("clear after many samples", 800, 25, many(1_000, 30_000), f);
    cx.search("marathon", 5, 25, many(1_000_000, 3_000_000), f);
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunks {
    f64s: bool,
    cfg: Cfg,
    ops: Vec<Op>,
}

fn c07_case<T: Smp>(c: &Chunks, obs: &mut Obs) -> Res {
    let name = c.cfg.name();
    let mut p = Any::<T>::new(&c.cfg);
    let mut q = Any::<T>::new(&c.cfg);
    let mut blocks = 0;
    let mut heard = false;
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            Op::Block(s) => {
                let xs = s.t::<T>();
                if xs.is_empty() {
                    continue;
                }
                let want: Vec<T> = xs.iter().map(|x| q.process(*x)).collect();
                let mut b = xs.clone();
                let r = p.process_block(&mut b);
                for j in 0..b.len() {
                    ensure!(
                        same(b[j], want[j]),
                        "{}: step {} block of {}: sample {} is {:?}, sample-by-sample gives {:?}",
                        name, i, b.len(), j, b[j], want[j]
                    );
                }
                let l = want[want.len() - 1];
                ensure!(same(r, l), "{}: step {} block of {} returned {:?}, its last output is {:?}", name, i, b.len(), r, l);
                ensure!(same(p.last_out(), l), "{}: step {} block of {}: last output reads {:?}, it was {:?}", name, i, b.len(), p.last_out(), l);
                if xs.len() > 1 {
                    blocks += 1;
                }
                heard |= want.iter().any(|v| v.f() != 0.0);
            }
            Op::Empty => {
                let before = q.last_out();
                let r = p.process_block(&mut []);
                ensure!(same(r, before), "{}: step {}: empty block returned {:?}, last output is {:?}", name, i, r, before);
                obs.label("empty block");
            }
            Op::P(_) | Op::Run(_) => {
                let (mut a, mut b) = (vec![], vec![]);
                apply(&mut p, o, &mut a);
                apply(&mut q, o, &mut b);
                for (u, v) in a.iter().zip(b.iter()) {
                    ensure!(same(*u, *v), "{}: step {}: output {:?} after blocks, {:?} after single samples", name, i, u, v);
                }
                if let Some(l) = a.last() {
                    ensure!(same(p.last_out(), *l), "{}: step {}: last output reads {:?}, it was {:?}", name, i, p.last_out(), l);
                }
                heard |= a.iter().any(|v| v.f() != 0.0);
            }
            _ => {
                let before = q.last_out();
                let mut v = vec![];
                apply(&mut p, o, &mut v);
                apply(&mut q, o, &mut v);
                // nothing was computed; a clear, and retuning an RBJ filter, restart from silence
                if !matches!(o, Op::Clear) && !(matches!(o, Op::Set(_)) && c.cfg.is_rbj()) {
                    ensure!(
                        same(q.last_out(), before),
                        "{}: step {} {:?}: last output changed from {:?} to {:?} without a sample", name, i, o, before, q.last_out()
                    );
                }
            }
        }
        let (u, v) = (p.last_out(), q.last_out());
        ensure!(same(u, v), "{}: step {}: last output {:?} after blocks, {:?} after single samples", name, i, u, v);
        let (s, t) = (p.read(), q.read());
        ensure!(s == t, "{}: step {}: settings {:?} after blocks, {:?} after single samples", name, i, s, t);
    }
    for (k, (u, v)) in p.taps().iter().zip(q.taps().iter()).enumerate() {
        ensure!(same(*u, *v), "{}: tap {} {:?} after blocks, {:?} after single samples", name, k, u, v);
    }
    obs.label(name);
    obs.nontrivial_if(blocks > 0 && heard);
    Ok(())
}

pub fn c07(cx: &mut Ctx) {
    cx.rule("C07: any processor; generated sequences of blocks (sizes 0, 1, small, powers of two +-1 and up to 20000), single samples, retunes, clears, tap writes, any float samples; oracle: a twin given the same samples one at a time must produce identical outputs, returns, last outputs, taps and settings, and calls that compute nothing leave the last output alone. Non-trivial: a block of at least two samples and a non-zero output.");
    fn block_ops(c: &Cfg, big: u32, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Op>> {
        let noise = (any::<u32>(), size(big), -6i8..5).prop_map(|(seed, n, exp)| Op::Block(Sig::Noise { seed, n, exp }));
        let d = matches!(c, Cfg::Delay { .. } | Cfg::Linear { .. });
        let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
            (4, sig_of(100, wild()).prop_map(Op::Block).boxed()),
            (5, noise.boxed()),
            (1, (size(big), wild()).prop_map(|(n, v)| Op::Block(Sig::Const { n, v })).boxed()),
            (1, (any::<u32>(), size(big), 1u8..5).prop_map(|(seed, n, levels)| Op::Block(Sig::Steps { seed, n, levels })).boxed()),
            (2, wild().prop_map(Op::P).boxed()),
            (1, sig_of(40, wild()).prop_map(Op::Run).boxed()),
            (1, Just(Op::Empty).boxed()),
            (1, Just(Op::Clear).boxed()),
            (1, retune(c).prop_map(Op::Set).boxed()),
        ];
        if d {
            v.push((1, (any::<u32>(), wild()).prop_map(|(k, x)| Op::Poke(k, x)).boxed()));
            v.push((1, Just(Op::Peek).boxed()));
        }
        proptest::collection::vec(proptest::strategy::Union::new_weighted(v), n).boxed()
    }
    let f = |c: &Chunks, o: &mut Obs| if c.f64s { c07_case::<f64>(c, o) } else { c07_case::<f32>(c, o) };
    cx.search(
        "chunking",
        60_000,
        25,
        || {
            any_cfg(150, false)
                .prop_flat_map(|c| (any::<bool>(), Just(c.clone()), block_ops(&c, 600, 1..10)))
                .prop_map(|(f64s, cfg, ops)| Chunks { f64s, cfg, ops })
                .boxed()
        },
        f,
    );
    cx.search(
        "large blocks",
        3_000,
        25,
        || {
            any_cfg(3_000, true)
                .prop_flat_map(|c| (any::<bool>(), Just(c.clone()), block_ops(&c, 20_000, 1..4)))
                .prop_map(|(f64s, cfg, ops)| Chunks { f64s, cfg, ops })
                .boxed()
        },
        f,
    );
    cx.search(
        "marathon",
        5,
        25,
        || {
            let long = prop_oneof![3 => sig_long(1_000_000, 4_000_000).prop_map(Op::Block), 1 => sig_long(1_000_000, 4_000_000).prop_map(Op::Run)];
            any_cfg(3_000, true)
                .prop_flat_map(move |c| (any::<bool>(), Just(c.clone()), long.clone(), block_ops(&c, 600, 1..4)))
                .prop_map(|(f64s, cfg, first, mut ops)| {
                    ops.insert(0, first);
                    Chunks { f64s, cfg, ops }
                })
                .boxed()
        },
        f,
    );
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum NOp {
    P(Vec<Fl>),
    Block(Vec<Fl>),
    Long(Sig),
    LongBlock(Sig),
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct New {
    f64s: bool,
    cfg: Cfg,
    ops: Vec<NOp>,
}

fn c08_case<T: Smp>(c: &New, obs: &mut Obs) -> Res {
    let name = c.cfg.name();
    let mut p = Any::<T>::bare(&c.cfg);
    let half = T::max_value().f() / 2.0;
    let tame = |x: T| -> T {
        if x.f().abs() <= half { x } else if x.is_nan() { T::zero() } else { T::of(half) * x.signum() }
    };
    let (lo, hi) = if T::IS32 { (1e-18, 1e18) } else { (1e-150, 1e150) };
    let rms_tame = |x: T| -> T {
        let a = x.f().abs();
        if a == 0.0 || (a >= lo && a <= hi) { x } else { T::of(0.5) }
    };
    let mut n = 0;
    for (i, o) in c.ops.iter().enumerate() {
        let (xs, block): (Vec<T>, bool) = match o {
            NOp::P(v) => (v.iter().map(|x| T::of(x.0)).collect(), false),
            NOp::Block(v) => (v.iter().map(|x| T::of(x.0)).collect(), true),
            NOp::Long(s) => (s.t::<T>(), false),
            NOp::LongBlock(s) => (s.t::<T>(), true),
            NOp::Clear => {
                p.clear();
                continue;
            }
        };
        let rms = matches!(c.cfg, Cfg::Rms(..));
        let peak = matches!(c.cfg, Cfg::Peak(..));
        let xs: Vec<T> = xs.into_iter().map(|x| if rms { rms_tame(tame(x)) } else { tame(x) }).collect();
        if xs.is_empty() {
            continue;
        }
        let mut ys = xs.clone();
        if block {
            p.process_block(&mut ys);
        } else {
            for y in ys.iter_mut() {
                *y = p.process(*y);
            }
        }
        for (j, (x, y)) in xs.iter().zip(ys.iter()).enumerate() {
            let ok = if rms {
                close(y.f(), x.f().abs(), 4.0 * T::EPS * x.f().abs())
            } else if peak {
                *y == x.abs()
            } else {
                *y == *x
            };
            ensure!(ok, "new {}: op {} sample {}: input {:?} came out as {:?}", name, i, j, x, y);
            if x.f() != 0.0 {
                n += 1;
            }
        }
        ensure!(
            same(p.last_out(), ys[ys.len() - 1]),
            "new {}: op {}: last output reads {:?}, it was {:?}", name, i, p.last_out(), ys[ys.len() - 1]
        );
    }
    obs.label(name);
    obs.nontrivial_if(n >= 3);
    Ok(())
}

/// Any kind of filter, integrator or detector; the settings are not used.
fn any_new() -> BoxedStrategy<Cfg> {
    prop_oneof![
        6 => basic_filter(true),
        9 => (0u8..9).prop_map(|k| Cfg::Rbj(Rbj { k, fs: Fl(48000.0), f: Fl(1000.0), g: Fl(3.0), q: Fl(1.0) })),
        1 => Just(Cfg::Leaky(Fl(0.5))),
        2 => Just(Cfg::Peak(Fl(10.0), Fl(10.0))),
        2 => Just(Cfg::Rms(Fl(10.0), Fl(10.0))),
    ]
    .boxed()
}

pub fn c08(cx: &mut Ctx) {
    cx.rule("C08: each unconfigured filter, integrator and detector; generated finite samples over the whole exponent range (up to half the largest value), long signals, blocks and clears; oracle: output equals input (detectors: magnitude). Non-trivial: at least three non-zero samples.");
    let smp = || {
        prop_oneof![
            3 => sample(),
            2 => any::<u32>().prop_map(|b| Fl(f32::from_bits(b) as f64)),
            2 => any::<u64>().prop_map(|b| Fl(f64::from_bits(b))),
            1 => proptest::sample::select(vec![
                f32::MAX as f64 / 2.0, f64::MAX / 2.0, -f64::MAX / 2.0, f32::MIN_POSITIVE as f64,
                f64::MIN_POSITIVE, 5e-324, 1e-45, -1e-45, 0.0, -0.0, 1.0, -1.0, 1e-30, 1e30
            ]).prop_map(Fl),
        ]
        .boxed()
    };
    let strat = move || {
        let op = prop_oneof![
            3 => proptest::collection::vec(smp(), 1..12).prop_map(NOp::P),
            2 => proptest::collection::vec(smp(), 1..12).prop_map(NOp::Block),
            1 => sig(600).prop_map(NOp::Long),
            1 => sig(600).prop_map(NOp::LongBlock),
            1 => Just(NOp::Clear),
        ];
        (any::<bool>(), any_new(), proptest::collection::vec(op, 1..8))
            .prop_map(|(f64s, cfg, ops)| New { f64s, cfg, ops })
            .boxed()
    };
    cx.search("transparent", 60_000, 25, strat, |c: &New, o| {
        if c.f64s { c08_case::<f64>(c, o) } else { c08_case::<f32>(c, o) }
    });
    let long = || {
        let op = prop_oneof![
            3 => sig_long(1_000, 12_000).prop_map(NOp::Long),
            2 => sig_long(1_000, 12_000).prop_map(NOp::LongBlock),
            1 => sig_long(50_000, 120_000).prop_map(NOp::Long),
            1 => Just(NOp::Clear),
        ];
        (any::<bool>(), any_new(), proptest::collection::vec(op, 1..4))
            .prop_map(|(f64s, cfg, ops)| New { f64s, cfg, ops })
            .boxed()
    };
    let f = |c: &New, o: &mut Obs| if c.f64s { c08_case::<f64>(c, o) } else { c08_case::<f32>(c, o) };
    cx.search("long", 800, 25, long, f);
    let marathon = || {
        let op = prop_oneof![
            3 => sig_long(1_000_000, 4_000_000).prop_map(NOp::Long),
            2 => sig_long(1_000_000, 4_000_000).prop_map(NOp::LongBlock),
        ];
        (any::<bool>(), any_new(), op, proptest::collection::vec(sig(600).prop_map(NOp::Long), 0..2))
            .prop_map(|(f64s, cfg, op, mut ops)| {
                ops.insert(0, op);
                New { f64s, cfg, ops }
            })
            .boxed()
    };
    cx.search("marathon", 5, 25, marathon, f);
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lti {
    f64s: bool,
    cfg: Cfg,
    x: Sig,
    y: Sig,
    a: Fl,
    b: Fl,
    shift: u32,
    pow: i8,
}

/// Sum of |b| coefficients, and (a1, a2), in double precision.
fn gains<T: Smp>(c: &Cfg) -> (f64, f64, f64) {
    let t = |x: &Fl| T::of(x.0).f();
    match c {
        Cfg::OnePole(b, a) => (t(b).abs(), t(a), 0.0),
        Cfg::OneZero(a, b) => (t(a).abs() + t(b).abs(), 0.0, 0.0),
        Cfg::TwoPole(b, p, q) => (t(b).abs(), t(p), t(q)),
        Cfg::TwoZero(a, b, d) => (t(a).abs() + t(b).abs() + t(d).abs(), 0.0, 0.0),
        Cfg::Biquad1(a, b, d, p, q) | Cfg::Biquad2(a, b, d, p, q) => {
            (t(a).abs() + t(b).abs() + t(d).abs(), t(p), t(q))
        }
        Cfg::Rbj(r) => {
            let k = cookbook(&round::<T>(r));
            (k.b0.abs() + k.b1.abs() + k.b2.abs(), k.a1, k.a2)
        }
        Cfg::Leaky(a) => (2.0, -t(a), 0.0),
        _ => (1.0, 0.0, 0.0),
    }
}

fn amax<T: Smp>(v: &[T]) -> f64 {
    v.iter().fold(0.0, |m, x| if x.f().abs() > m || x.is_nan() { x.f().abs() } else { m })
}

fn respond<T: Smp>(c: &Cfg, x: &[T]) -> Vec<T> {
    let mut p = Any::<T>::new(c);
    x.iter().map(|v| p.process(*v)).collect()
}

fn c23_case<T: Smp>(c: &Lti, obs: &mut Obs) -> Res {
    let name = c.cfg.name();
    let (mut x, mut y) = (c.x.t::<T>(), c.y.t::<T>());
    let n = x.len().max(y.len());
    x.resize(n, T::zero());
    y.resize(n, T::zero());
    if n == 0 {
        return Ok(());
    }
    let (a, b) = (T::of(c.a.0), T::of(c.b.0));
    let z: Vec<T> = (0..n).map(|i| a * x[i] + b * y[i]).collect();
    let (rx, ry, rz) = (respond(&c.cfg, &x), respond(&c.cfg, &y), respond(&c.cfg, &z));
    let (bs, a1, a2) = gains::<T>(&c.cfg);
    let acc = accum(a1, a2, n);
    let lim = if T::IS32 { 1e25 } else { 1e200 };
    let m = a.f().abs() * amax(&x) + b.f().abs() * amax(&y);
    let ym = a.f().abs() * amax(&rx) + b.f().abs() * amax(&ry) + amax(&rz);
    if !(m < lim && ym < lim && amax(&rx) < lim && amax(&ry) < lim) {
        return Ok(());
    }
    let linear = matches!(c.cfg, Cfg::Linear { .. });
    let eps = T::EPS;
    let tiny = if T::IS32 { 1.5e-45 } else { 5e-324 };
    let tol = eps * 24.0 * acc * (bs * m + (1.0 + a1.abs() + a2.abs()) * ym) + 64.0 * acc * (1.0 + bs) * (1.0 + c.a.0.abs() + c.b.0.abs()) * tiny;
    for i in 0..n {
        let want = a.f() * rx[i].f() + b.f() * ry[i].f();
        ensure!(
            close(rz[i].f(), want, tol),
            "{}: response to {:?}*x + {:?}*y is {:?} at sample {}, {:?} by superposition (tolerance {:e})",
            name, a, b, rz[i], i, want, tol
        );
    }
    // zero samples in front
    let mut p = Any::<T>::new(&c.cfg);
    for i in 0..c.shift {
        let v = p.process(T::zero());
        ensure!(v == T::zero(), "{}: output {:?} for zero sample {} of the prefix", name, v, i);
    }
    let ltol = 4.0 * f32::EPSILON as f64 * amax(&x) + T::TINY;
    for i in 0..n {
        let v = p.process(x[i]);
        ensure!(
            same(v, rx[i]) || (linear && close(v.f(), rx[i].f(), ltol)),
            "{}: after {} zero samples, sample {} gives {:?} instead of {:?}", name, c.shift, i, v, rx[i]
        );
    }
    // scaling by a power of two
    let s = 2f64.powi(c.pow as i32);
    let sx: Vec<T> = x.iter().map(|v| T::of(v.f() * s)).collect();
    if amax(&sx) < lim && amax(&rx) * s < lim {
        let rs = respond(&c.cfg, &sx);
        let t = acc * (2.0 + bs) * 64.0 * tiny * s.max(1.0) * n as f64;
        for i in 0..n {
            ensure!(
                close(rs[i].f(), rx[i].f() * s, t),
                "{}: input scaled by 2^{}: sample {} is {:?}, expected {:?}", name, c.pow, i, rs[i], rx[i].f() * s
            );
        }
    }
    obs.label(name);
    let informative = tol < 1e-2 * amax(&rz);
    if informative {
        obs.label("superposition checked to better than 1%");
    }
    obs.nontrivial_if(informative && amax(&rx) > 0.0 && amax(&ry) > 0.0);
    Ok(())
}

fn linear_kinds(max: u32) -> BoxedStrategy<Cfg> {
    prop_oneof![
        2 => delay_cfg(max),
        3 => linear_cfg(max),
        6 => basic_filter(true),
        8 => rbj_kind(0u8..9, 1e-3, 0.05, 50.0, 40.0).prop_map(Cfg::Rbj),
        1 => (0.0f64..0.999).prop_map(|a| Cfg::Leaky(Fl(a as f32 as f64))),
    ]
    .boxed()
}

pub fn c23(cx: &mut Ctx) {
    cx.rule("C23: any filter, delay line or leaky integrator with stable settings; generated signals, factors, numbers of leading zeros (up to 70000) and powers of two; metamorphic oracle: superposition within accumulated rounding, exact time invariance, exact scaling by powers of two. Non-trivial: both responses non-zero and superposition checked to better than 1%.");
    let strat = || {
        let f = prop_oneof![
            2 => -4.0f64..4.0,
            1 => proptest::sample::select(vec![1.0f64, -1.0, 2.0, 0.5, 0.0, 1e-3, 1e3]),
        ];
        (
            any::<bool>(),
            linear_kinds(120),
            sig_of(150, fin(-10, 6)),
            sig_of(150, fin(-10, 6)),
            f.clone(),
            f,
            prop_oneof![8 => size(600), 1 => size(5_000)],
            -30i8..=30,
        )
            .prop_map(|(f64s, cfg, x, y, a, b, shift, pow)| Lti { f64s, cfg, x, y, a: Fl(a), b: Fl(b), shift, pow })
            .boxed()
    };
    let f = |c: &Lti, o: &mut Obs| if c.f64s { c23_case::<f64>(c, o) } else { c23_case::<f32>(c, o) };
    cx.search("linearity", 50_000, 25, strat, f);
    let long = || {
        (any::<bool>(), linear_kinds(3_000), sig_of(5_000, fin(-6, 4)), sig_of(5_000, fin(-6, 4)), size(70_000), -20i8..=20)
            .prop_map(|(f64s, cfg, x, y, shift, pow)| Lti { f64s, cfg, x, y, a: Fl(1.5), b: Fl(-0.75), shift, pow })
            .boxed()
    };
    cx.search("long", 1_500, 25, long, f);
    let marathon = || {
        (any::<bool>(), linear_kinds(300), sig_of(5_000, fin(-6, 4)), sig_of(5_000, fin(-6, 4)), 1_000_000u32..4_000_000, -20i8..=20)
            .prop_map(|(f64s, cfg, x, y, shift, pow)| Lti { f64s, cfg, x, y, a: Fl(1.5), b: Fl(-0.75), shift, pow })
            .boxed()
    };
    cx.search("marathon", 5, 25, marathon, f);
}

// ------------------------------------------------------------------ C24

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    On(u8, Op),
    /// create, drive and drop an unrelated processor
    Other(Cfg, Sig),
    Window { k: u8, n: u32, f64s: bool },
    Db(Fl),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Iso {
    f64s: bool,
    cfgs: Vec<Cfg>,
    ops: Vec<Do>,
    threads: bool,
}

fn trace<T: Smp>(p: &mut Any<T>, o: &Op, out: &mut Vec<u64>) {
    let bits = |v: T| if v.is_nan() { 0x7ff8_0000_0000_0001 } else { v.bits() };
    let mut v = vec![];
    apply(p, o, &mut v);
    out.extend(v.into_iter().map(bits));
    out.push(bits(p.last_out()));
    for r in p.read() {
        out.push(r.to_bits());
    }
    if !matches!(o, Op::P(_)) {
        for t in p.taps() {
            out.push(bits(t));
        }
    }
}

fn others(d: &Do) -> Vec<u64> {
    match d {
        Do::On(..) => vec![],
        Do::Other(c, s) => {
            let mut p = Any::<f32>::new(c);
            let mut q = Any::<f64>::new(c);
            let mut v = vec![];
            for x in s.get() {
                v.push(p.process(x as f32).f().to_bits());
                v.push(q.process(x).to_bits());
            }
            v
        }
        Do::Window { k, n, f64s } => {
            if *f64s {
                values::<f64>(*k, *n as usize).iter().map(|v| v.to_bits()).collect()
            } else {
                values::<f32>(*k, *n as usize).iter().map(|v| v.bits()).collect()
            }
        }
        Do::Db(x) => {
            let a = x.0.abs();
            vec![
                rasp::util::to_db(a).to_bits(),
                rasp::util::to_db(a as f32).bits(),
                rasp::util::to_sample(x.0).to_bits(),
                rasp::util::to_sample(x.0 as f32).bits(),
            ]
        }
    }
}

fn c24_case<T: Smp>(c: &Iso, obs: &mut Obs) -> Res {
    let k = c.cfgs.len();
    // each alone
    let alone = |i: usize| -> Vec<u64> {
        let mut p = Any::<T>::new(&c.cfgs[i]);
        let mut t = vec![];
        for o in &c.ops {
            if let Do::On(j, o) = o {
                if *j as usize % k == i {
                    trace(&mut p, o, &mut t);
                }
            }
        }
        t
    };
    let solo: Vec<Vec<u64>> = if c.threads {
        std::thread::scope(|s| {
            let h: Vec<_> = (0..k).map(|i| { let alone = &alone; s.spawn(move || alone(i)) }).collect();
            h.into_iter().map(|h| h.join().expect("thread")).collect()
        })
    } else {
        // last one first: the opposite of the order in which they are created together
        let mut v: Vec<_> = (0..k).rev().map(alone).collect();
        v.reverse();
        v
    };
    let solo_others: Vec<Vec<u64>> = c.ops.iter().rev().map(others).collect();
    // together
    let mut ps: Vec<Option<Any<T>>> = c.cfgs.iter().map(|x| Some(Any::<T>::new(x))).collect();
    let mut ts: Vec<Vec<u64>> = vec![vec![]; k];
    let mut used = vec![0u32; k];
    let half = c.ops.len() / 2;
    for (n, d) in c.ops.iter().enumerate() {
        if let Do::On(j, o) = d {
            let j = *j as usize % k;
            used[j] += 1;
            let mut p = ps[j].take().unwrap();
            if c.threads && n >= half {
                let mut t = std::mem::take(&mut ts[j]);
                let (p2, t2) = std::thread::scope(|s| {
                    s.spawn(move || {
                        trace(&mut p, o, &mut t);
                        (p, t)
                    })
                    .join()
                    .map_err(|_| "panicked in another thread".to_string())
                })?;
                ps[j] = Some(p2);
                ts[j] = t2;
            } else {
                trace(&mut p, o, &mut ts[j]);
                ps[j] = Some(p);
            }
        } else {
            let v = others(d);
            ensure!(
                v == solo_others[c.ops.len() - 1 - n],
                "step {} {:?}: results differ from those when run before", n, d
            );
        }
    }
    for i in 0..k {
        ensure!(
            ts[i] == solo[i],
            "instance {} ({}) behaves differently among {} instances than alone, from result {} on",
            i, c.cfgs[i].name(), k,
            ts[i].iter().zip(solo[i].iter()).position(|(a, b)| a != b).unwrap_or(0)
        );
    }
    if c.threads {
        obs.label("moved between threads");
    }
    obs.nontrivial_if(used.iter().filter(|u| **u > 0).count() >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum WinOp {
    Next,
    Nth(u8),
    Len,
    Apply(u8, Sig),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wins {
    /// kind, size, double precision
    its: Vec<(u8, u32, bool)>,
    steps: Vec<(u8, WinOp)>,
}

fn boxed(w: &(u8, u32, bool)) -> Box<dyn ExactSizeIterator<Item = u64>> {
    let n = w.1 as usize;
    if w.2 {
        crate::win!(w.0, f64, n, it => Box::new(it.map(|v| v.to_bits())))
    } else {
        crate::win!(w.0, f32, n, it => Box::new(it.map(|v| v.bits())))
    }
}

fn win_step(it: &mut Box<dyn ExactSizeIterator<Item = u64>>, f64s: bool, o: &WinOp, t: &mut Vec<u64>) {
    let opt = |v: Option<u64>, t: &mut Vec<u64>| match v {
        Some(v) => { t.push(1); t.push(v) }
        None => t.push(0),
    };
    match o {
        WinOp::Next => opt(it.next(), t),
        WinOp::Nth(n) => opt(it.nth(*n as usize), t),
        WinOp::Len => t.push(it.len() as u64),
        WinOp::Apply(k, s) => {
            if f64s {
                let mut b = s.t::<f64>();
                crate::p_window::apply(*k, &mut b);
                t.extend(b.iter().map(|v| if v.is_nan() { u64::MAX } else { v.bits() }));
            } else {
                let mut b = s.t::<f32>();
                crate::p_window::apply(*k, &mut b);
                t.extend(b.iter().map(|v| if v.is_nan() { u64::MAX } else { v.bits() }));
            }
        }
    }
}

fn c24_windows(c: &Wins, obs: &mut Obs) -> Res {
    let k = c.its.len();
    let solo: Vec<Vec<u64>> = (0..k)
        .map(|i| {
            let mut it = boxed(&c.its[i]);
            let mut t = vec![];
            for (j, o) in &c.steps {
                if *j as usize % k == i {
                    win_step(&mut it, c.its[i].2, o, &mut t);
                }
            }
            t
        })
        .collect();
    let mut its: Vec<_> = c.its.iter().map(boxed).collect();
    let mut ts = vec![vec![]; k];
    let mut used = vec![false; k];
    for (j, o) in &c.steps {
        let j = *j as usize % k;
        used[j] = true;
        win_step(&mut its[j], c.its[j].2, o, &mut ts[j]);
    }
    for i in 0..k {
        ensure!(
            ts[i] == solo[i],
            "iterator {} ({} of size {}) behaves differently when {} iterators are drawn from in turn than alone, from result {} on",
            i, WINDOWS[c.its[i].0 as usize], c.its[i].1, k,
            ts[i].iter().zip(solo[i].iter()).position(|(a, b)| a != b).unwrap_or(0)
        );
    }
    obs.nontrivial_if(used.iter().filter(|u| **u).count() >= 2);
    Ok(())
}

/// A configuration near `c`: one parameter changed.
fn sibling(c: &Cfg) -> BoxedStrategy<Cfg> {
    match c {
        Cfg::Rbj(r) => {
            let r = *r;
            let by = prop_oneof![
                2 => 0.5f64..1.5,
                1 => (-10f64..-2.0, any::<bool>()).prop_map(|(e, up)| 1.0 + if up { 10f64.powf(e) } else { -10f64.powf(e) }),
            ];
            (0u8..5, by, 0u8..9)
                .prop_map(move |(w, s, k)| {
                    let mut n = r;
                    match w {
                        0 => n.f = Fl(r.f.0 * s.min(1.0)),
                        1 => n.q = Fl(if r.k >= 7 { r.q.0 * s.min(1.0) } else { r.q.0 * s }),
                        2 => n.g = Fl(r.g.0 * s),
                        3 => n.fs = Fl(r.fs.0 * s.max(1.0)),
                        _ => {
                            n.k = k;
                            n.q = Fl(r.q.0.min(1.0));
                        }
                    }
                    Cfg::Rbj(n)
                })
                .boxed()
        }
        _ => retune(c),
    }
}

fn fresh(f: impl FnOnce() -> Res + Send) -> Res {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|e| std::panic::resume_unwind(e))
}

pub fn c24(cx: &mut Ctx) {
    cx.rule("C24: two to five instances of generated kinds (often the same kind with one setting changed, by much or by as little as 1e-10), a generated interleaving of operations on them, with windows, conversions and short-lived other processors in between, optionally with every later call on another thread; also two to four window iterators drawn from in a generated order with apply_window calls in between; instances with equal settings driven by the same few values with frequent clears, so that their states coincide; oracle: bit-identical results to each instance driven alone (compared as bits, NaN as one value). Non-trivial: at least two instances were driven.");
    let strat = |threads: bool| {
        move || {
            (any_cfg(60, true), proptest::collection::vec(any_cfg(60, true), 0..3))
                .prop_flat_map(|(c, more)| (Just(c.clone()), Just(more), proptest::collection::vec(sibling(&c), 1..3)))
                .prop_flat_map(move |(c, more, sibs)| {
                    let near = prop_oneof![1 => any_cfg(20, true), 1 => Just(c.clone()).boxed(), 1 => sibling(&c)];
                    let mut cfgs = vec![c];
                    cfgs.extend(sibs);
                    cfgs.extend(more);
                    let mut v: Vec<(u32, BoxedStrategy<Do>)> = vec![];
                    for (i, c) in cfgs.iter().enumerate() {
                        let o = ops(c, wild(), 40, 1..2, true).prop_map(|mut v| v.pop().unwrap());
                        v.push((3, o.prop_map(move |o| Do::On(i as u8, o)).boxed()));
                    }
                    v.push((1, (near, sig(20)).prop_map(|(c, s)| Do::Other(c, s)).boxed()));
                    v.push((1, (0u8..6, size(70), any::<bool>()).prop_map(|(k, n, f64s)| Do::Window { k, n, f64s }).boxed()));
                    v.push((1, fin(-6, 2).prop_map(Do::Db).boxed()));
                    let n = if threads { 2..14 } else { 2..24 };
                    (
                        any::<bool>(),
                        Just(cfgs),
                        proptest::collection::vec(proptest::strategy::Union::new_weighted(v), n),
                    )
                })
                .prop_map(move |(f64s, cfgs, ops)| Iso { f64s, cfgs, ops, threads })
                .boxed()
        }
    };
    // each case in a thread of its own, so that thread-local leftovers of
    // earlier cases neither hide nor cause a difference
    let f = |c: &Iso, o: &mut Obs| fresh(|| if c.f64s { c24_case::<f64>(c, o) } else { c24_case::<f32>(c, o) });
    cx.search("interleaved", 20_000, 25, strat(false), f);
    cx.search("threads", 1_500, 25, strat(true), f);
    // instances with the same settings, driven with a handful of values and
    // cleared often, so that their states meet (or mirror each other)
    let twins = || {
        any_cfg(12, true)
            .prop_flat_map(|c| (Just(c.clone()), prop_oneof![2 => Just(c.clone()).boxed(), 1 => sibling(&c)], 2usize..5))
            .prop_flat_map(|(c, s, n)| {
                let mut cfgs = vec![c.clone(); n];
                let last = n - 1;
                cfgs[last] = s.clone();
                let val = prop_oneof![
                    4 => prop_oneof![Just(1.0), Just(-1.0)],
                    2 => prop_oneof![Just(0.5), Just(-0.5), Just(2.0)],
                    1 => prop_oneof![Just(0.0), Just(-0.0)],
                ]
                .prop_map(Fl)
                .boxed();
                let op = prop_oneof![
                    12 => val.clone().prop_map(Op::P),
                    1 => proptest::collection::vec(val, 1..6).prop_map(|v| Op::Block(Sig::Explicit(v))),
                    1 => Just(Op::Clear),
                    1 => prop_oneof![Just(c), Just(s)].prop_map(Op::Set),
                    1 => Just(Op::Peek),
                ];
                // a step, and how many of the following instances repeat it
                let step = (0..n, op, prop_oneof![2 => Just(0usize), 1 => 1..n]);
                (any::<bool>(), Just(cfgs), proptest::collection::vec(step, 2..40))
            })
            .prop_map(|(f64s, cfgs, steps)| {
                let n = cfgs.len();
                let mut ops = vec![];
                for (i, o, more) in steps {
                    for j in i..=i + more {
                        ops.push(Do::On((j % n) as u8, o.clone()));
                    }
                }
                Iso { f64s, cfgs, ops, threads: false }
            })
            .boxed()
    };
    cx.search("twins", 30_000, 25, twins, f);
    let wins = || {
        (0u8..6, size(60), any::<bool>())
            .prop_flat_map(|(k, n, f64s)| {
                // mostly the same kind, so that a shared table would show
                let one = (prop_oneof![3 => Just(k), 2 => 0u8..6], prop_oneof![2 => size(60), 1 => Just(n)], prop_oneof![3 => Just(f64s), 1 => any::<bool>()]);
                (
                    Just((k, n, f64s)),
                    proptest::collection::vec(one, 1..4),
                    proptest::collection::vec((any::<u8>(), prop_oneof![4 => Just(WinOp::Next), 1 => (0u8..9).prop_map(WinOp::Nth), 1 => Just(WinOp::Len), 1 => (0u8..7, sig(40)).prop_map(|(k, s)| WinOp::Apply(k, s))]), 1..60),
                )
            })
            .prop_map(|(a, more, steps)| {
                let mut its = vec![a];
                its.extend(more);
                Wins { its, steps }
            })
            .boxed()
    };
    cx.search("window iterators", 15_000, 25, wins, |c: &Wins, o: &mut Obs| fresh(|| c24_windows(c, o)));
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Both {
    cfg: Cfg,
    retune: Option<Cfg>,
    x: Sig,
    y: Sig,
    block: bool,
}

/// Settings rounded so that both sample types are given the same numbers.
fn single(c: &Cfg) -> Cfg {
    let t = |x: &Fl| Fl(x.0 as f32 as f64);
    match c {
        Cfg::Delay { .. } => c.clone(),
        Cfg::Linear { d, max } => Cfg::Linear { d: t(d), max: *max },
        Cfg::OnePole(a, b) => Cfg::OnePole(t(a), t(b)),
        Cfg::OneZero(a, b) => Cfg::OneZero(t(a), t(b)),
        Cfg::TwoPole(a, b, c) => Cfg::TwoPole(t(a), t(b), t(c)),
        Cfg::TwoZero(a, b, c) => Cfg::TwoZero(t(a), t(b), t(c)),
        Cfg::Biquad1(a, b, c, d, e) => Cfg::Biquad1(t(a), t(b), t(c), t(d), t(e)),
        Cfg::Biquad2(a, b, c, d, e) => Cfg::Biquad2(t(a), t(b), t(c), t(d), t(e)),
        Cfg::Rbj(r) => Cfg::Rbj(round::<f32>(r)),
        Cfg::Leaky(a) => Cfg::Leaky(t(a)),
        Cfg::Peak(a, b) => Cfg::Peak(t(a), t(b)),
        Cfg::Rms(a, b) => Cfg::Rms(t(a), t(b)),
    }
}

fn feed<T: Smp>(p: &mut Any<T>, x: &[f32], block: bool) -> Vec<f64> {
    let mut v: Vec<T> = x.iter().map(|s| T::of(*s as f64)).collect();
    if block && !v.is_empty() {
        p.process_block(&mut v);
    } else {
        for s in v.iter_mut() {
            *s = p.process(*s);
        }
    }
    v.into_iter().map(|s| s.f()).collect()
}

fn c25_case(c: &Both, obs: &mut Obs) -> Res {
    let name = c.cfg.name();
    let cfg = single(&c.cfg);
    let eps = f32::EPSILON as f64;
    let mut p = Any::<f32>::new(&cfg);
    let mut q = Any::<f64>::new(&cfg);
    let mut stages = vec![(cfg.clone(), c.x.t::<f32>())];
    if let Some(r) = &c.retune {
        stages.push((single(r), c.y.t::<f32>()));
    }
    let (mut a, mut b): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    let mut all: Vec<f32> = vec![];
    for (i, (cf, x)) in stages.iter().enumerate() {
        if i > 0 {
            p.set(cf);
            q.set(cf);
        }
        let (s, t) = (p.read(), q.read());
        for (u, v) in s.iter().zip(t.iter()) {
            ensure!(close(*u, *v, eps * v.abs() * (8.0 + 4.0 * v.abs().max(1e-37).ln().abs()) + 1e-37), "{}: settings read {:?} for f32, {:?} for f64", name, s, t);
        }
        all.extend_from_slice(x);
        a.extend(feed(&mut p, x, c.block));
        b.extend(feed(&mut q, x, c.block));
    }
    let n = all.len();
    let xm = amax(&all);
    let (am, bm) = (a.iter().fold(0.0, |m: f64, v| m.max(v.abs())), b.iter().fold(0.0, |m: f64, v| m.max(v.abs())));
    if n == 0 || !(xm < 1e15 && am < 1e25 && bm < 1e25) {
        return Ok(());
    }
    let ym = am.max(bm);
    let mut tol = 0f64;
    let mut squared = false;
    let filter = |cf: &Cfg| -> f64 {
        let (bs, a1, a2) = gains::<f32>(cf);
        let acc = accum(a1, a2, n);
        let base = 8.0 * eps * acc * (bs * xm + (1.0 + a1.abs() + a2.abs()) * ym);
        match cf {
            Cfg::Rbj(r) => {
                let k = cookbook(r);
                if eps * acc * k.na * 32.0 > 0.05 {
                    return f64::INFINITY;
                }
                base + eps * acc * (24.0 * (k.nb + 1.0) * xm + 16.0 * (k.na + 1.0) * ym)
            }
            _ => base,
        }
    };
    match &cfg {
        Cfg::Delay { .. } => {}
        Cfg::Linear { .. } => tol = 4.0 * eps * xm,
        Cfg::Peak(..) => tol = 8.0 * eps * (n as f64 + 2.0) * xm,
        Cfg::Rms(..) => {
            tol = 8.0 * eps * (n as f64 + 2.0) * xm * xm;
            squared = true;
        }
        _ => {
            // with a retune the later filter sees the earlier one's error as
            // a disturbance of its state
            for (i, (cf, _)) in stages.iter().enumerate() {
                let f = filter(cf);
                let (_, a1, a2) = gains::<f32>(cf);
                let carry = if i == 0 || cf.is_rbj() { 0.0 } else { tol * accum(a1, a2, n) * (2.0 + a1.abs() + a2.abs()) };
                tol = f + carry.max(tol);
            }
        }
    }
    if !(tol.is_finite()) {
        return Ok(());
    }
    for (k, (u, v)) in p.taps().iter().zip(q.taps().iter()).enumerate() {
        ensure!(u.f() == v.f(), "{}: tap {} is {:?} for f32, {:?} for f64", name, k, u, v);
    }
    let (u, v) = (p.last_out().f(), q.last_out().f());
    ensure!(
        if squared { close(u * u, v * v, tol + 1e-36) } else { close(u, v, tol + 1e-36) },
        "{}: last output reads {:?} for f32, {:?} for f64 (tolerance {:e})", name, u, v, tol
    );
    tol += 1e-36;
    for i in 0..n {
        let ok = if squared {
            close(a[i] * a[i], b[i] * b[i], tol)
        } else {
            close(a[i], b[i], tol)
        };
        ensure!(
            ok,
            "{}: output {} is {:?} for f32, {:?} for f64 (tolerance {:e}{})",
            name, i, a[i], b[i], tol, if squared { " on squares" } else { "" }
        );
    }
    obs.label(name);
    obs.nontrivial_if(tol < 2e-2 * if squared { ym * ym } else { ym });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plain {
    Window { k: u8, n: u32 },
    Db(Fl),
    Sample(Fl),
    Gain(Fl, Fl),
    Apply { k: u8, x: Sig },
}

fn c25_plain(c: &Plain, obs: &mut Obs) -> Res {
    let eps = f32::EPSILON as f64;
    match c {
        Plain::Window { k, n } => {
            let (a, b) = (values::<f32>(*k, *n as usize), values::<f64>(*k, *n as usize));
            ensure!(a.len() == b.len(), "{}({}): {} values for f32, {} for f64", WINDOWS[*k as usize], n, a.len(), b.len());
            for i in 0..a.len() {
                ensure!(
                    close(a[i] as f64, b[i], 32.0 * eps),
                    "{}({}): value {} is {:?} for f32, {:?} for f64", WINDOWS[*k as usize], n, i, a[i], b[i]
                );
            }
            obs.nontrivial_if(*n >= 2);
        }
        Plain::Apply { k, x } => {
            let x = x.t::<f32>();
            let mut a = x.clone();
            let mut b: Vec<f64> = x.iter().map(|v| *v as f64).collect();
            rasp::window::apply_window(&mut a, crate::p_window::kind(*k));
            rasp::window::apply_window(&mut b, crate::p_window::kind(*k));
            for i in 0..x.len() {
                let t = 34.0 * eps * (x[i] as f64).abs() + 1e-44;
                ensure!(close(a[i] as f64, b[i], t), "window {} applied to {} samples: sample {} is {:?} for f32, {:?} for f64", k, x.len(), i, a[i], b[i]);
            }
            obs.nontrivial_if(x.len() >= 2);
        }
        Plain::Db(x) => {
            let x = (x.0 as f32).abs();
            let (a, b) = (rasp::util::to_db(x) as f64, rasp::util::to_db(x as f64));
            let t = eps * (8.0 * b.abs() + 16.0);
            // the floor's edge itself is rounded differently in the two types
            ensure!(close(a, b, t), "to_db({:?}) is {:?} for f32, {:?} for f64", x, a, b);
            obs.nontrivial_if(b > -120.0);
        }
        Plain::Sample(d) => {
            let d = d.0 as f32;
            let (a, b) = (rasp::util::to_sample(d) as f64, rasp::util::to_sample(d as f64));
            if b > 1e37 {
                return Ok(());
            }
            let t = eps * (8.0 + d.abs() as f64) * b.abs();
            ensure!(close(a, b, t), "to_sample({:?}) is {:?} for f32, {:?} for f64", d, a, b);
            obs.nontrivial_if(b > 0.0);
        }
        Plain::Gain(x, g) => {
            let (x, g) = (x.0 as f32, (g.0 as f32).abs());
            let (a, b) = (rasp::util::apply_gain(x, g) as f64, rasp::util::apply_gain(x as f64, g as f64));
            ensure!(close(a, b, eps * b.abs() + 1e-37), "apply_gain({:?}, {:?}) is {:?} for f32, {:?} for f64", x, g, a, b);
            obs.nontrivial_if(b != 0.0);
        }
    }
    Ok(())
}

pub fn c25(cx: &mut Ctx) {
    cx.rule("C25: any processor, window or conversion, given the same single-precision-representable settings and samples in both sample types (with an optional retune); oracle: results agree within single-precision rounding accumulated over the signal; settings read back agree. Non-trivial: agreement checked to better than 2% of the signal.");
    let strat = || {
        prop_oneof![
            2 => delay_cfg(120),
            3 => linear_cfg(120),
            1 => delay_cfg(3_000),
            1 => linear_cfg(3_000),
            6 => basic_filter(true),
            8 => rbj_kind(0u8..9, 3e-3, 0.1, 20.0, 30.0).prop_map(Cfg::Rbj),
            3 => rbj_kind(0u8..9, 3e-4, 0.02, 100.0, 70.0).prop_map(Cfg::Rbj),
            4 => analysis_cfg(),
        ]
        .prop_flat_map(|c| {
            let again: BoxedStrategy<Cfg> = match &c {
                Cfg::Rbj(r) => rbj_kind(Just(r.k), 3e-3, 0.1, 20.0, 30.0).prop_map(Cfg::Rbj).boxed(),
                c => retune(c),
            };
            let again = again.boxed();
            (
                Just(c),
                proptest::option::weighted(0.3, again),
                prop_oneof![8 => sig_of(150, fin(-8, 4)), 3 => sig_of(150, fin(-25, 12)), 1 => sig_of(4_000, fin(-8, 4))],
                prop_oneof![3 => sig_of(100, fin(-8, 4)), 1 => sig_of(100, fin(-25, 12))],
                any::<bool>(),
            )
        })
        .prop_map(|(cfg, retune, x, y, block)| Both { cfg, retune, x, y, block })
        .boxed()
    };
    cx.search("processors", 60_000, 25, strat, c25_case);
    let plain = || {
        prop_oneof![
            1 => (0u8..6, size(3_000)).prop_map(|(k, n)| Plain::Window { k, n }),
            3 => prop_oneof![
                (-8f64..3.0).prop_map(|e| Fl(10f64.powf(e))),
                (-45f64..38.5).prop_map(|e| Fl(10f64.powf(e))),
                fin(-6, 6),
                wild(),
            ].prop_map(Plain::Db),
            3 => prop_oneof![(-130f64..60.0).prop_map(Fl), (-800f64..800.0).prop_map(Fl), wild(), (-121i32..40).prop_map(|v| Fl(v as f64))].prop_map(Plain::Sample),
            1 => (fin(-6, 6), fin(-6, 6)).prop_map(|(a, b)| Plain::Gain(a, b)),
            1 => (fin(-18, 18), fin(-18, 18)).prop_map(|(a, b)| Plain::Gain(a, b)),
            1 => (0u8..7, sig_of(200, fin(-18, 18))).prop_map(|(k, x)| Plain::Apply { k, x }),
        ]
        .boxed()
    };
    cx.search("plain", 60_000, 25, plain, c25_plain);
    let large = || (0u8..6, prop_oneof![3_000u32..140_000, (12u32..18, -2i32..3).prop_map(|(p, d)| ((1i32 << p) + d) as u32)]).prop_map(|(k, n)| Plain::Window { k, n }).boxed();
    cx.search("large windows", 400, 25, large, c25_plain);
}
