//! C09-C13: basic filters against their difference equations, RBJ filters
//! against the cookbook.

use crate::engine::*;
use crate::gen::*;
use crate::procs::*;
use crate::refs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    X(Fl),
    Sig(Sig),
    Block(Sig),
    /// by set_coefficients
    Set(Cfg),
    /// by assigning public fields; bit i of the mask selects field i
    Fields(Cfg, u8),
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    f64s: bool,
    cfg: Cfg,
    configured: bool,
    ops: Vec<FOp>,
}

/// (b0, b1, b2, a1, a2) rounded to the sample type.
type Co = [f64; 5];

fn coeffs<T: Smp>(c: &Cfg) -> Co {
    let t = |x: &Fl| T::of(x.0).f();
    match c {
        Cfg::OnePole(b, a) => [t(b), 0.0, 0.0, t(a), 0.0],
        Cfg::OneZero(b, d) => [t(b), t(d), 0.0, 0.0, 0.0],
        Cfg::TwoPole(b, a, d) => [t(b), 0.0, 0.0, t(a), t(d)],
        Cfg::TwoZero(b, d, e) => [t(b), t(d), t(e), 0.0, 0.0],
        Cfg::Biquad1(a, b, c, d, e) | Cfg::Biquad2(a, b, c, d, e) => [t(a), t(b), t(c), t(d), t(e)],
        _ => unreachable!(),
    }
}

/// Assigns the fields selected by `mask`; returns the resulting coefficients.
fn assign<T: Smp>(p: &mut Any<T>, c: &Cfg, mask: u8, now: Co) -> Co {
    let n = coeffs::<T>(c);
    let mut r = now;
    macro_rules! put {
        ($p:ident, $( $f:ident $i:expr, $bit:expr );*) => { { $(
            if mask & (1 << $bit) != 0 { $p.$f = T::of(n[$i]); r[$i] = n[$i]; }
        )* } };
    }
    match p {
        Any::OnePole(p) => put!(p, b0 0, 0; a1 3, 1),
        Any::OneZero(p) => put!(p, b0 0, 0; b1 1, 1),
        Any::TwoPole(p) => put!(p, b0 0, 0; a1 3, 1; a2 4, 2),
        Any::TwoZero(p) => put!(p, b0 0, 0; b1 1, 1; b2 2, 2),
        Any::Biquad1(p) => put!(p, b0 0, 0; b1 1, 1; b2 2, 2; a1 3, 3; a2 4, 4),
        Any::Biquad2(p) => put!(p, b0 0, 0; b1 1, 1; b2 2, 2; a1 3, 3; a2 4, 4),
        _ => {}
    }
    r
}

/// Local residual oracle: each output must satisfy the difference equation
/// in terms of the actual earlier outputs, so no error accumulates.
struct Eq {
    /// transposed direct form II: delayed terms carry the coefficients that
    /// were in force when they entered the state
    tdf2: bool,
    co: Co,
    c1: Co,
    c2: Co,
    x1: f64,
    x2: f64,
    y1: f64,
    y2: f64,
}

impl Eq {
    fn clear(&mut self) {
        self.x1 = 0.0;
        self.x2 = 0.0;
        self.y1 = 0.0;
        self.y2 = 0.0;
    }
    fn terms(&self, x: f64) -> [f64; 5] {
        let (k1, k2) = if self.tdf2 { (self.c1, self.c2) } else { (self.co, self.co) };
        [
            self.co[0] * x,
            k1[1] * self.x1,
            k2[2] * self.x2,
            -k1[3] * self.y1,
            -k2[4] * self.y2,
        ]
    }
    fn step(&mut self, x: f64, y: f64) {
        self.x2 = self.x1;
        self.x1 = x;
        self.y2 = self.y1;
        self.y1 = y;
        self.c2 = self.c1;
        self.c1 = self.co;
    }
}

fn c09_case<T: Smp>(c: &FCase, obs: &mut Obs) -> Res {
    let mut p = if c.configured { Any::<T>::new(&c.cfg) } else { Any::bare(&c.cfg) };
    let id: Co = [1.0, 0.0, 0.0, 0.0, 0.0];
    let co = if c.configured { coeffs::<T>(&c.cfg) } else { id };
    let mut e = Eq {
        tdf2: matches!(c.cfg, Cfg::Biquad2(..)),
        co, c1: co, c2: co, x1: 0.0, x2: 0.0, y1: 0.0, y2: 0.0,
    };
    let limit = if T::IS32 { 1e30 } else { 1e200 };
    let mut n = 0u64;
    let mut recursive = false;
    let mut changed_live = false;
    let mut blown = false;
    let mut check = |e: &mut Eq, x: T, y: T, i: usize, blown: &mut bool| -> Res {
        let t = e.terms(x.f());
        let want: f64 = t.iter().sum();
        let mag: f64 = t.iter().map(|v| v.abs()).sum();
        if !(mag < limit) {
            *blown = true;
            return Ok(());
        }
        ensure!(
            close(y.f(), want, 8.0 * T::EPS * mag + T::SUB),
            "op {}: {} output {:?}, equation gives {:?} (terms {:?}, sample {})",
            i, c.cfg.name(), y, want, t, n
        );
        if t[1..].iter().any(|v| *v != 0.0) {
            recursive = true;
        }
        e.step(x.f(), y.f());
        n += 1;
        Ok(())
    };
    'ops: for (i, o) in c.ops.iter().enumerate() {
        match o {
            FOp::X(x) => {
                let x = T::of(x.0);
                let y = p.process(x);
                check(&mut e, x, y, i, &mut blown)?;
            }
            FOp::Sig(s) => {
                for x in s.t::<T>() {
                    let y = p.process(x);
                    check(&mut e, x, y, i, &mut blown)?;
                    if blown {
                        break;
                    }
                }
            }
            FOp::Block(s) => {
                let xs = s.t::<T>();
                if xs.is_empty() {
                    continue;
                }
                let mut b = xs.clone();
                p.process_block(&mut b);
                for (x, y) in xs.iter().zip(b) {
                    check(&mut e, *x, y, i, &mut blown)?;
                    if blown {
                        break;
                    }
                }
            }
            FOp::Set(k) => {
                p.set(k);
                e.co = coeffs::<T>(k);
                if e.x1 != 0.0 || e.y1 != 0.0 {
                    changed_live = true;
                }
            }
            FOp::Fields(k, mask) => {
                e.co = assign(&mut p, k, *mask, e.co);
                if e.x1 != 0.0 || e.y1 != 0.0 {
                    changed_live = true;
                }
            }
            FOp::Clear => {
                p.clear();
                e.clear();
            }
        }
        if blown {
            obs.label("stopped: unstable output left the range");
            break 'ops;
        }
        // the public coefficients always show what was set
        let r = p.read();
        let shown: Vec<f64> = match c.cfg {
            Cfg::OnePole(..) => vec![e.co[0], e.co[3]],
            Cfg::OneZero(..) => vec![e.co[0], e.co[1]],
            Cfg::TwoPole(..) => vec![e.co[0], e.co[3], e.co[4]],
            Cfg::TwoZero(..) => vec![e.co[0], e.co[1], e.co[2]],
            _ => e.co.to_vec(),
        };
        ensure!(r == shown, "op {}: coefficients read {:?}, set {:?}", i, r, shown);
    }
    obs.label(c.cfg.name());
    if changed_live {
        obs.label("coefficients changed in mid-stream");
    }
    obs.nontrivial_if(recursive);
    Ok(())
}

fn f_strategy() -> BoxedStrategy<FCase> {
    (any::<bool>(), basic_filter(false), proptest::bool::weighted(0.9))
        .prop_flat_map(|(f64s, cfg, configured)| {
            let re = prop_oneof![2 => retune(&cfg), 1 => retune_wide(&cfg)];
            let op = prop_oneof![
                4 => quiet().prop_map(FOp::X),
                3 => sig_quiet(300).prop_map(FOp::Sig),
                1 => sig_quiet(120).prop_map(FOp::Block),
                2 => re.clone().prop_map(FOp::Set),
                2 => (re, 0u8..32).prop_map(|(c, m)| FOp::Fields(c, m)),
                1 => Just(FOp::Clear),
            ];
            (Just(f64s), Just(cfg), Just(configured), proptest::collection::vec(op, 1..12))
        })
        .prop_map(|(f64s, cfg, configured, ops)| FCase { f64s, cfg, configured, ops })
        .boxed()
}

/// Same kind with unrestricted coefficients.
fn retune_wide(c: &Cfg) -> BoxedStrategy<Cfg> {
    let k = std::mem::discriminant(c);
    let c = c.clone();
    (coef(), coef(), coef(), coef(), coef())
        .prop_map(move |(a, b, d, e, f)| {
            let n = match c {
                Cfg::OnePole(..) => Cfg::OnePole(a, b),
                Cfg::OneZero(..) => Cfg::OneZero(a, b),
                Cfg::TwoPole(..) => Cfg::TwoPole(a, b, d),
                Cfg::TwoZero(..) => Cfg::TwoZero(a, b, d),
                Cfg::Biquad1(..) => Cfg::Biquad1(a, b, d, e, f),
                _ => Cfg::Biquad2(a, b, d, e, f),
            };
            debug_assert!(std::mem::discriminant(&n) == k);
            n
        })
        .boxed()
}

pub fn c09(cx: &mut Ctx) {
    cx.rule("C09: generated coefficients, signals over many decades, and coefficient changes in mid-stream (setter or public fields); oracle: every output must satisfy the documented difference equation in terms of the actual earlier inputs and outputs within 8 epsilons of the terms. Non-trivial: at least one delayed term was non-zero.");
    cx.search("equation", 40_000, 25, f_strategy, |c: &FCase, o| {
        if c.f64s { c09_case::<f64>(c, o) } else { c09_case::<f32>(c, o) }
    });
    let long = |lo: u32, hi: u32| {
        move || {
            (any::<bool>(), basic_filter(true), proptest::collection::vec(sig_long(lo, hi), 1..3), any::<bool>())
                .prop_map(|(f64s, cfg, s, block)| FCase {
                    f64s,
                    cfg,
                    configured: true,
                    ops: s.into_iter().map(|s| if block { FOp::Block(s) } else { FOp::Sig(s) }).collect(),
                })
                .boxed()
        }
    };
    let f = |c: &FCase, o: &mut Obs| if c.f64s { c09_case::<f64>(c, o) } else { c09_case::<f32>(c, o) };
    cx.search("long", 1_000, 25, long(500, 12_000), f);
    cx.search("very long", 30, 25, long(40_000, 150_000), f);
    cx.search("marathon", 4, 25, long(1_000_000, 6_000_000), f);
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    Set(Rbj),
    Sig(Sig),
    Block(Sig),
    Clear,
    /// change one parameter
    Tweak(u8, Rbj),
    /// set the present parameters again
    Again,
    /// a sample that brings the output to zero, whatever is stored
    Null,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    f64s: bool,
    p: Rbj,
    ops: Vec<ROp>,
}

pub fn round<T: Smp>(r: &Rbj) -> Rbj {
    let t = |x: Fl| Fl(T::of(x.0).f());
    Rbj { k: r.k, fs: t(r.fs), f: t(r.f), g: t(r.g), q: t(r.q) }
}

fn c10_case<T: Smp>(c: &RCase, obs: &mut Obs) -> Res {
    let mut p = Any::<T>::new(&Cfg::Rbj(c.p));
    let mut cur = c.p;
    let mut k = cookbook(&round::<T>(&cur));
    let (mut x1, mut x2, mut y1, mut y2) = (0f64, 0f64, 0f64, 0f64);
    let limit = if T::IS32 { 1e25 } else { 1e200 };
    let mut heard = 0;
    let mut n = 0u64;
    let mut retuned_live = false;
    // inputs since the filter was last silent
    let mut fed: Vec<T> = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        if matches!(o, ROp::Set(_) | ROp::Tweak(..) | ROp::Again | ROp::Clear) {
            fed.clear();
        }
        let mut nulled = None;
        if let ROp::Null = o {
            let make = || {
                let mut q = Any::<T>::new(&Cfg::Rbj(cur));
                for x in &fed {
                    q.process(*x);
                }
                q
            };
            nulled = nulling::<T>(&make).map(|x| Sig::Explicit(vec![Fl(x.f())]));
        }
        match o {
            ROp::Null if nulled.is_none() => {}
            ROp::Set(_) | ROp::Tweak(..) => {
                cur = match o {
                    ROp::Set(r) => *r,
                    ROp::Tweak(w, r) => tweak(&cur, r, *w),
                    _ => unreachable!(),
                };
                p.set(&Cfg::Rbj(cur));
                k = cookbook(&round::<T>(&cur));
                retuned_live |= y1 != 0.0;
                x1 = 0.0; x2 = 0.0; y1 = 0.0; y2 = 0.0;
            }
            ROp::Again => {
                p.set(&Cfg::Rbj(cur));
                retuned_live |= y1 != 0.0;
                x1 = 0.0; x2 = 0.0; y1 = 0.0; y2 = 0.0;
            }
            ROp::Clear => {
                p.clear();
                x1 = 0.0; x2 = 0.0; y1 = 0.0; y2 = 0.0;
            }
            ROp::Sig(_) | ROp::Block(_) | ROp::Null => {
                let xs = match o {
                    ROp::Sig(s) | ROp::Block(s) => s.t::<T>(),
                    _ => nulled.unwrap().t::<T>(),
                };
                if xs.is_empty() {
                    continue;
                }
                if fed.len() < 100_000 {
                    fed.extend_from_slice(&xs);
                }
                let mut ys = xs.clone();
                if matches!(o, ROp::Block(_)) {
                    p.process_block(&mut ys);
                } else {
                    for y in ys.iter_mut() {
                        *y = p.process(*y);
                    }
                }
                for (x, y) in xs.iter().zip(ys.iter()) {
                    let (x, y) = (x.f(), y.f());
                    let t = [k.b0 * x, k.b1 * x1, k.b2 * x2, -k.a1 * y1, -k.a2 * y2];
                    let want: f64 = t.iter().sum();
                    let mag: f64 = t.iter().map(|v| v.abs()).sum();
                    if !(mag < limit) {
                        return Ok(());
                    }
                    let xs = x.abs() + x1.abs() + x2.abs();
                    let ys = y1.abs() + y2.abs();
                    let tol = T::EPS * (8.0 * mag + 8.0 * k.nb * xs + 8.0 * k.na * ys) + T::SUB;
                    ensure!(
                        close(y, want, tol),
                        "op {}: {} output {:?}, cookbook gives {:?} (tolerance {:e}) with {:?}",
                        i, RBJ_NAMES[cur.k as usize], y, want, tol, cur
                    );
                    if want.abs() > 1e3 * tol {
                        heard += 1;
                    }
                    x2 = x1; x1 = x; y2 = y1; y1 = y;
                    n += 1;
                }
                if matches!(o, ROp::Null) && y1 == 0.0 && n > 1 {
                    obs.label("output brought to zero");
                }
            }
        }
    }
    let _ = n;
    obs.label(RBJ_NAMES[c.p.k as usize]);
    if retuned_live {
        obs.label("retuned with live state");
    }
    obs.nontrivial_if(heard >= 3);
    Ok(())
}

fn r_strategy() -> BoxedStrategy<RCase> {
    (any::<bool>(), 0u8..9)
        .prop_flat_map(|(f64s, k)| {
            let r = rbj_kind(Just(k), if f64s { 1e-7 } else { 1e-5 }, 0.001, 20_000.0, 120.0);
            let op = prop_oneof![
                5 => sig_quiet(200).prop_map(ROp::Sig),
                1 => sig_quiet(100).prop_map(ROp::Block),
                2 => r.clone().prop_map(ROp::Set),
                2 => (0u8..5, r.clone()).prop_map(|(w, r)| ROp::Tweak(w, r)),
                1 => Just(ROp::Again),
                1 => Just(ROp::Clear),
                1 => Just(ROp::Null),
            ];
            (Just(f64s), r, proptest::collection::vec(op, 1..7))
        })
        .prop_map(|(f64s, p, ops)| RCase { f64s, p, ops })
        .boxed()
}

pub fn c10(cx: &mut Ctx) {
    cx.rule("C10: generated filter kind, parameters, signals and retunes (also to the same parameters, also in mid-stream); oracle: every output must satisfy the second-order difference equation with independently computed double-precision cookbook coefficients, in terms of the actual earlier inputs and outputs since the last retune, within rounding bounds. Non-trivial: at least three outputs exceeded the tolerance 1000-fold.");
    cx.search("cookbook", 40_000, 25, r_strategy, |c: &RCase, o| {
        if c.f64s { c10_case::<f64>(c, o) } else { c10_case::<f32>(c, o) }
    });
    let long = |lo: u32, hi: u32| {
        move || {
            (any::<bool>(), 0u8..9)
                .prop_flat_map(move |(f64s, k)| {
                    let r = rbj_kind(Just(k), if f64s { 1e-6 } else { 1e-5 }, 0.002, 5_000.0, 90.0);
                    (Just(f64s), r, proptest::collection::vec(sig_long(lo, hi), 1..3), any::<bool>())
                })
                .prop_map(|(f64s, p, s, block)| RCase {
                    f64s,
                    p,
                    ops: s.into_iter().map(|s| if block { ROp::Block(s) } else { ROp::Sig(s) }).collect(),
                })
                .boxed()
        }
    };
    let f = |c: &RCase, o: &mut Obs| if c.f64s { c10_case::<f64>(c, o) } else { c10_case::<f32>(c, o) };
    cx.search("long", 1_000, 25, long(500, 12_000), f);
    cx.search("very long", 30, 25, long(40_000, 150_000), f);
    cx.search("marathon", 4, 25, long(1_000_000, 6_000_000), f);
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Resp {
    f64s: bool,
    p: Rbj,
    probes: Vec<Fl>,
    amp: Fl,
}

/// Number of samples for the impulse response to fall below `eps`.
fn decay_len(k: &Bq, eps: f64) -> f64 {
    let r = k.radius();
    if r >= 1.0 {
        return f64::INFINITY;
    }
    if r < 1e-6 {
        return 16.0;
    }
    // repeated poles decay as n r^n
    let n = eps.ln() / r.ln();
    (n + 3.0 * n.ln().max(1.0) / -r.ln().max(-1.0)).ceil() + 16.0
}

fn dft(h: &[f64], w: f64) -> (f64, f64) {
    let (mut re, mut im) = (0.0, 0.0);
    // complex rotation with periodic re-seeding
    let (c, s) = (w.cos(), w.sin());
    let (mut cr, mut ci) = (1.0f64, 0.0f64);
    for (n, v) in h.iter().enumerate() {
        if n % 256 == 0 {
            let a = w * n as f64;
            cr = a.cos();
            ci = -a.sin();
        }
        re += v * cr;
        im += v * ci;
        let t = cr * c + ci * s;
        ci = ci * c - cr * s;
        cr = t;
    }
    (re, im)
}

fn c11_case<T: Smp>(c: &Resp, obs: &mut Obs, longest: f64) -> Res {
    let p = round::<T>(&c.p);
    let k = cookbook(&p);
    let n = decay_len(&k, 1e-12);
    if n > longest {
        obs.label("skipped: decay too long to measure");
        return Ok(());
    }
    let mut f = Any::<T>::new(&Cfg::Rbj(c.p));
    let amp = T::of(c.amp.0);
    let mut h = Vec::with_capacity(n as usize);
    for i in 0..n as usize {
        let y = f.process(if i == 0 { amp } else { T::zero() });
        h.push(y.f() / amp.f());
    }
    ensure!(h.iter().all(|v| v.is_finite()), "impulse response not finite with {:?}", p);
    let l1: f64 = h.iter().map(|v| v.abs()).sum();
    let w0 = 2.0 * PI * (p.f.0 / p.fs.0);
    let q = p.q.0;
    let gain = 10f64.powf(p.g.0 / 20.0);
    let half = 10f64.powf(p.g.0 / 40.0);
    let mag = |w: f64| {
        let (re, im) = dft(&h, w);
        (re * re + im * im).sqrt()
    };
    // rounding: coefficient errors and accumulated noise seen through 1/A
    let tol = |w: f64| {
        24.0 * T::EPS * ((k.nb + 1.0) * 4.0 + (k.na + 1.0) * 4.0 * l1) / k.den_mag(w) + 1e-9 * (1.0 + l1)
    };
    let mut tight = true;
    let mut is = |what: &str, w: f64, want: f64| -> Res {
        let t = tol(w) + tol_w(T::EPS, &k, w, w0, want, q, half);
        if t > 0.05 * (1.0 + want) {
            tight = false;
        }
        let got = mag(w);
        ensure!(
            close(got, want, t),
            "{}: gain at {} is {}, expected {} (tolerance {:e}) with {:?}",
            RBJ_NAMES[p.k as usize], what, got, want, t, p
        );
        Ok(())
    };
    match p.k {
        0 => {
            is("DC", 0.0, 1.0)?;
            is("Nyquist", PI, 0.0)?;
            is("cutoff", w0, q)?;
        }
        1 => {
            is("DC", 0.0, 0.0)?;
            is("Nyquist", PI, 1.0)?;
            is("cutoff", w0, q)?;
        }
        2 => {
            is("DC", 0.0, 0.0)?;
            is("Nyquist", PI, 0.0)?;
            is("centre", w0, q)?;
        }
        3 => {
            is("DC", 0.0, 0.0)?;
            is("Nyquist", PI, 0.0)?;
            is("centre", w0, 1.0)?;
        }
        4 => {
            is("DC", 0.0, 1.0)?;
            is("Nyquist", PI, 1.0)?;
            is("centre", w0, 0.0)?;
        }
        5 => {
            is("DC", 0.0, 1.0)?;
            is("Nyquist", PI, 1.0)?;
            is("phase frequency", w0, 1.0)?;
            let (re, im) = dft(&h, w0);
            let t = 2.0 * (tol(w0) + tol_w(T::EPS, &k, w0, w0, 1.0, q, 1.0));
            ensure!(
                close(re, -1.0, t) && close(im, 0.0, t),
                "AllPass: response at its frequency is {} + {}i, expected -1 (tolerance {:e}) with {:?}",
                re, im, t, p
            );
            for u in &c.probes {
                is("probe", u.0 * PI, 1.0)?;
            }
        }
        6 => {
            is("DC", 0.0, 1.0)?;
            is("Nyquist", PI, 1.0)?;
            is("centre", w0, gain)?;
        }
        7 => {
            is("DC", 0.0, gain)?;
            is("Nyquist", PI, 1.0)?;
            is("cutoff", w0, half)?;
        }
        _ => {
            is("DC", 0.0, 1.0)?;
            is("Nyquist", PI, gain)?;
            is("cutoff", w0, half)?;
        }
    }
    if p.k < 4 {
        // largest gain anywhere
        let top = match p.k {
            0 | 1 => {
                if q > std::f64::consts::FRAC_1_SQRT_2 {
                    q * q / (q * q - 0.25).sqrt()
                } else {
                    1.0
                }
            }
            2 => q,
            _ => 1.0,
        };
        for u in &c.probes {
            let w = u.0 * PI;
            let g = mag(w);
            ensure!(
                g <= top + tol(w) + tol_w(T::EPS, &k, w, w, top, q, 1.0),
                "{}: gain {} at {} of Nyquist exceeds {} with {:?}",
                RBJ_NAMES[p.k as usize], g, u.0, top, p
            );
        }
    }
    obs.label(RBJ_NAMES[p.k as usize]);
    obs.label(if T::IS32 { "f32" } else { "f64" });
    obs.nontrivial_if(tight);
    Ok(())
}

/// Slack for the filter's own frequency being rounded (w0 carries a few
/// epsilons of relative error): slope of the response times that error.
fn tol_w(eps: f64, k: &Bq, w: f64, w0: f64, want: f64, q: f64, a: f64) -> f64 {
    let _ = (w0, a);
    let steep = 4.0 / k.den_mag(w).max(1e-12);
    16.0 * eps * (1.0 + want) * (steep + 4.0 * q.max(1.0 / q))
}

fn resp_strategy() -> BoxedStrategy<Resp> {
    (
        proptest::bool::weighted(0.8),
        rbj_kind(0u8..9, 5e-4, 0.01, 200.0, 80.0),
        proptest::collection::vec((0.0f64..=1.0).prop_map(Fl), 4),
        prop_oneof![Just(1.0f64), Just(0.5), Just(-1.0), log_uniform(1e-6, 1e6)].prop_map(Fl),
    )
        .prop_map(|(f64s, mut p, probes, amp)| {
            // bring slow decays into the measurable range instead of
            // rejecting them
            for _ in 0..12 {
                if decay_len(&cookbook(&p), 1e-12) <= 20_000.0 {
                    break;
                }
                if p.k < 7 {
                    p.q = Fl((p.q.0 + 0.7) / 2.0);
                } else {
                    p.q = Fl((p.q.0 + 1.0) / 2.0);
                }
                p.f = Fl(p.f.0 + 0.1 * (p.fs.0 / 4.0 - p.f.0));
                p.g = Fl(p.g.0 * 0.8);
            }
            Resp { f64s, p, probes, amp }
        })
        .boxed()
}

pub fn c11(cx: &mut Ctx) {
    cx.rule("C11: generated kind and parameters; the impulse response is measured to its end and transformed; oracle: the gains (and all-pass phase) the filter type promises at DC, Nyquist, its own frequency and random probe frequencies. Non-trivial: rounding bounds were below 5% at every probed frequency.");
    cx.search("response", 40_000, 25, resp_strategy, |c: &Resp, o| {
        if c.f64s { c11_case::<f64>(c, o, 60_000.0) } else { c11_case::<f32>(c, o, 60_000.0) }
    });
    // cutoffs so low that the response takes up to two million samples
    let slow = || {
        (rbj_kind(0u8..9, 1e-5, 0.3, 3.0, 40.0), log_uniform(1e-5, 1e-3), proptest::collection::vec((0.0f64..1.0).prop_map(Fl), 0..2))
            .prop_map(|(mut p, r, probes)| {
                p.f = Fl(p.fs.0 * r);
                if p.k >= 7 {
                    p.q = Fl(p.q.0.max(0.4));
                }
                Resp { f64s: true, p, probes, amp: Fl(1.0) }
            })
            .boxed()
    };
    cx.search("slow response", 30, 25, slow, |c: &Resp, o| c11_case::<f64>(c, o, 2_000_000.0));
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stab {
    f64s: bool,
    p: Rbj,
    m: Fl,
    /// 0 worst case for the filter, 1 noise, 2 sine at its frequency,
    /// 3 square at its frequency, 4 constant, 5 alternating
    drive: u8,
    seed: u32,
}

fn c12_case<T: Smp>(c: &Stab, obs: &mut Obs) -> Res {
    let p = round::<T>(&c.p);
    let k = cookbook(&p);
    let n0 = decay_len(&k, 1e-10);
    let n = n0.min(30_000.0) as usize;
    let rest = 2 * n;
    let mut imp = vec![0.0; n + rest];
    imp[0] = 1.0;
    let h = k.filter(&imp);
    // nothing beyond these samples of the response can matter here
    let l1: f64 = h.iter().map(|v| v.abs()).sum();
    let acc = accum(k.a1, k.a2, n + rest);
    let slack = 16.0 * T::EPS * (k.na + k.nb + 1.0) * acc;
    let m = T::of(c.m.0).f();
    let w0 = 2.0 * PI * (p.f.0 / p.fs.0);
    let drive = |i: usize| -> f64 {
        match c.drive {
            0 => {
                if h[n - 1 - i] < 0.0 { -m } else { m }
            }
            1 => (unit(c.seed as u64, i as u64) * 2.0 - 1.0) * m,
            2 => (w0 * i as f64).sin() * m,
            3 => {
                if (w0 * i as f64).sin() < 0.0 { -m } else { m }
            }
            4 => m,
            _ => {
                if i % 2 == 0 { m } else { -m }
            }
        }
    };
    let mut f = Any::<T>::new(&Cfg::Rbj(c.p));
    let complete = n0 <= 30_000.0;
    let err = 4.0 * slack * m * (1.0 + l1) + T::TINY;
    let bound = m * l1 * (1.0 + 1e-9) + err;
    let judged = slack < 0.02;
    let mut xs: Vec<f64> = (0..n).map(|i| T::of(drive(i)).f()).collect();
    xs.resize(n + rest, 0.0);
    let want = k.filter(&xs);
    let mut peak = 0.0f64;
    for i in 0..n {
        let y = f.process(T::of(drive(i))).f();
        ensure!(y.is_finite(), "{}: output {} at sample {} with {:?}", RBJ_NAMES[p.k as usize], y, i, p);
        peak = peak.max(y.abs());
        if judged {
            ensure!(
                y.abs() <= bound,
                "{}: |output| {} exceeds {} for inputs within {} with {:?}",
                RBJ_NAMES[p.k as usize], y.abs(), bound, m, p
            );
            ensure!(
                close(y, want[i], err),
                "{}: output {} at sample {}, the stable filter gives {} (tolerance {:e}) with {:?}",
                RBJ_NAMES[p.k as usize], y, i, want[i], err, p
            );
        }
    }
    let mut end = 0.0f64;
    for i in 0..rest {
        let y = f.process(T::zero()).f();
        ensure!(y.is_finite(), "{}: output {} while silent with {:?}", RBJ_NAMES[p.k as usize], y, p);
        if judged {
            ensure!(y.abs() <= bound, "{}: |output| {} exceeds {} while silent", RBJ_NAMES[p.k as usize], y.abs(), bound);
            ensure!(
                close(y, want[n + i], err),
                "{}: output {} after {} silent samples, decayed to {} in the stable filter (tolerance {:e}) with {:?}",
                RBJ_NAMES[p.k as usize], y, i, want[n + i], err, p
            );
        }
        if i + 16 >= rest {
            end = end.max(y.abs());
        }
    }
    if judged && complete {
        ensure!(
            end <= 1e-6 * m * l1 + T::TINY,
            "{}: still {} after {} silent samples (input within {}) with {:?}",
            RBJ_NAMES[p.k as usize], end, rest, m, p
        );
    }
    obs.label(RBJ_NAMES[p.k as usize]);
    if !judged {
        obs.label("only finiteness judged (ill-conditioned)");
    }
    if peak > 0.99 * m * l1 {
        obs.label("worst case reached 99% of the bound");
    }
    obs.nontrivial_if(judged && n >= 20);
    Ok(())
}

pub fn c12(cx: &mut Ctx) {
    cx.rule("C12: generated kind, parameters, amplitude and driving signal (including the worst-case sign-matched input), followed by silence; oracle: finite, bounded by amplitude times the absolute sum of the reference impulse response, within accumulated rounding of the reference output while driven and while decaying, and decayed to 1e-6 of the bound after the reference decay time (up to 30000 samples). Non-trivial: rounding slack below 2%.");
    let strat = || {
        (
            proptest::bool::weighted(0.7),
            rbj_kind(0u8..9, 1e-6, 0.0005, 5_000.0, 90.0),
            prop_oneof![Just(1.0f64), log_uniform(1e-4, 1e4)].prop_map(Fl),
            prop_oneof![3 => Just(0u8), 4 => 1u8..6],
            any::<u32>(),
        )
            .prop_map(|(f64s, p, m, drive, seed)| Stab { f64s, p, m, drive, seed })
            .boxed()
    };
    cx.search("stability", 12_000, 25, strat, |c: &Stab, o| {
        if c.f64s { c12_case::<f64>(c, o) } else { c12_case::<f32>(c, o) }
    });
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ident {
    f64s: bool,
    p: Rbj,
    x: Sig,
    scale: Fl,
}

fn outs<T: Smp>(p: &Rbj, k: u8, x: &[T]) -> Vec<f64> {
    let mut f = Any::<T>::new(&Cfg::Rbj(Rbj { k, ..*p }));
    x.iter().map(|v| f.process(*v).f()).collect()
}

fn amax(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m, x| m.max(x.abs()))
}

fn c13_case<T: Smp>(c: &Ident, obs: &mut Obs) -> Res {
    let x = c.x.t::<T>();
    if x.is_empty() {
        return Ok(());
    }
    let xf: Vec<f64> = x.iter().map(|v| v.f()).collect();
    let p = round::<T>(&c.p);
    let xm = amax(&xf);
    let n = x.len();
    // rounding bound for the output of filter kind k
    let err = |k: u8, r: &Rbj, xm: f64, ym: f64| -> f64 {
        let b = cookbook(&Rbj { k, ..*r });
        T::EPS * accum(b.a1, b.a2, n) * (24.0 * (b.nb + 1.0) * xm + 16.0 * (b.na + 1.0) * ym) + T::TINY
    };
    let limit = if T::IS32 { 1e25 } else { 1e200 };
    let mut informative = false;
    let mut same_as = |what: &str, a: &[f64], b: &[f64], tol: f64| -> Res {
        if !(amax(a) < limit && amax(b) < limit) || !tol.is_finite() {
            return Ok(());
        }
        for i in 0..a.len() {
            ensure!(
                close(a[i], b[i], tol),
                "{}: {} vs {} at sample {} (tolerance {:e}) with {:?}",
                what, a[i], b[i], i, tol, p
            );
        }
        if tol < 1e-2 * amax(a).max(amax(b)) {
            informative = true;
        }
        Ok(())
    };
    if p.k < 6 {
        let lp = outs::<T>(&c.p, 0, &x);
        let hp = outs::<T>(&c.p, 1, &x);
        let b1 = outs::<T>(&c.p, 2, &x);
        let b2 = outs::<T>(&c.p, 3, &x);
        let bs = outs::<T>(&c.p, 4, &x);
        let ap = outs::<T>(&c.p, 5, &x);
        let e = |k: u8, y: &[f64]| err(k, &p, xm, amax(y));
        let (elp, ehp, eb1, eb2, ebs, eap) = (e(0, &lp), e(1, &hp), e(2, &b1), e(3, &b2), e(4, &bs), e(5, &ap));
        let sum = |a: &[f64], b: &[f64]| -> Vec<f64> { a.iter().zip(b).map(|(u, v)| u + v).collect() };
        let lh = sum(&lp, &hp);
        same_as("low-pass + high-pass + band-pass 2 vs input", &sum(&lh, &b2), &xf, elp + ehp + eb2)?;
        same_as("low-pass + high-pass vs band-stop", &lh, &bs, elp + ehp + ebs)?;
        let xa: Vec<f64> = xf.iter().zip(&b2).map(|(u, v)| u - 2.0 * v).collect();
        same_as("input - 2 band-pass 2 vs all-pass", &xa, &ap, 2.0 * eb2 + eap)?;
        let q2: Vec<f64> = b2.iter().map(|v| v * p.q.0).collect();
        same_as("Q * band-pass 2 vs band-pass 1", &q2, &b1, p.q.0 * eb2 + eb1)?;
    } else {
        let run = |r: &Rbj, x: &[T]| -> Vec<T> {
            let mut f = Any::<T>::new(&Cfg::Rbj(*r));
            x.iter().map(|v| f.process(*v)).collect()
        };
        let f64v = |v: &[T]| -> Vec<f64> { v.iter().map(|a| a.f()).collect() };
        let l1 = |r: &Rbj| -> f64 {
            let mut imp = vec![0.0; n];
            imp[0] = 1.0;
            cookbook(r).filter(&imp).iter().map(|v| v.abs()).sum()
        };
        let inv = Rbj { g: Fl(-p.g.0), ..p };
        let up = run(&p, &x);
        let back = run(&inv, &up);
        let um = amax(&f64v(&up));
        let bm = amax(&f64v(&back));
        let e1 = err(p.k, &p, xm, um);
        let e2 = err(p.k, &inv, um, bm);
        same_as("gain -g after gain +g vs input", &f64v(&back), &xf, e1 * l1(&inv) + e2)?;
        if p.k >= 7 {
            let other = Rbj { k: 15 - p.k, ..p };
            let both = run(&other, &up);
            let e3 = err(other.k, &other, um, amax(&f64v(&both)));
            let g = 10f64.powf(p.g.0 / 20.0);
            let flat: Vec<f64> = xf.iter().map(|v| v * g).collect();
            let t = e1 * l1(&other) + e3 + 32.0 * T::EPS * g * xm;
            same_as("low-shelf and high-shelf in series vs flat gain", &f64v(&both), &flat, t)?;
        }
        let zero = Rbj { g: Fl(0.0), ..p };
        let z = run(&zero, &x);
        let ez = err(p.k, &zero, xm, amax(&f64v(&z)));
        same_as("zero gain vs input", &f64v(&z), &xf, ez)?;
    }
    // rate scaling: the same filter, with rate and frequency scaled alike
    let scaled = Rbj {
        fs: Fl(T::of(p.fs.0 * c.scale.0).f()),
        f: Fl(T::of(p.f.0 * c.scale.0).f()),
        ..p
    };
    let a = outs::<T>(&p, p.k, &x);
    let b = outs::<T>(&scaled, p.k, &x);
    let e = err(p.k, &p, xm, amax(&a).max(amax(&b)));
    same_as("scaled sample rate and frequency", &a, &b, 4.0 * e)?;
    obs.label(RBJ_NAMES[p.k as usize]);
    obs.nontrivial_if(informative && n >= 3);
    Ok(())
}

pub fn c13(cx: &mut Ctx) {
    cx.rule("C13: generated parameters and signals; metamorphic oracle: complementarity of low-pass/high-pass/band-pass/band-stop/all-pass outputs, boost/cut inversion, shelf complement, zero gain, and invariance under common scaling of rate and frequency, within accumulated rounding bounds. Non-trivial: some identity was checked to better than 1% of the signal.");
    let strat = || {
        (
            proptest::bool::weighted(0.7),
            rbj_kind(prop_oneof![4 => 0u8..6, 5 => 6u8..9], 5e-5, 0.01, 500.0, 90.0),
            sig(200),
            prop_oneof![Just(2.0f64), Just(0.5), Just(4.0), Just(1.0 / 48000.0), log_uniform(0.01, 100.0)].prop_map(Fl),
        )
            .prop_map(|(f64s, p, x, scale)| Ident { f64s, p, x, scale })
            .boxed()
    };
    cx.search("identities", 80_000, 25, strat, |c: &Ident, o| {
        if c.f64s { c13_case::<f64>(c, o) } else { c13_case::<f32>(c, o) }
    });
}
