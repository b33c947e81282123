//! C18-C21: window iterators and apply_window.

use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use rasp::window::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub const WINDOWS: [&str; 6] = ["Triangular", "Bartlett", "Hann", "Hamming", "Blackman", "BlackmanHarris"];

#[macro_export]
macro_rules! win {
    ($k:expr, $t:ty, $n:expr, $it:ident => $e:expr) => {
        match $k {
            0 => { let $it = rasp::window::TriangularIter::<$t>::new($n); $e }
            1 => { let $it = rasp::window::BartlettIter::<$t>::new($n); $e }
            2 => { let $it = rasp::window::HannIter::<$t>::new($n); $e }
            3 => { let $it = rasp::window::HammingIter::<$t>::new($n); $e }
            4 => { let $it = rasp::window::BlackmanIter::<$t>::new($n); $e }
            _ => { let $it = rasp::window::BlackmanHarrisIter::<$t>::new($n); $e }
        }
    };
}

/// The window's values; more than n+2 of them are never drawn.
pub fn values<T: Smp>(k: u8, n: usize) -> Vec<T> {
    win!(k, T, n, it => {
        let mut v = Vec::with_capacity(n + 2);
        for x in it.take(n + 2) { v.push(x); }
        v
    })
}

pub fn apply<T: Smp>(k: u8, b: &mut [T]) {
    apply_window(b, kind(k));
}

/// Definition, in double precision.
fn define(k: u8, i: usize, n: usize) -> f64 {
    if n == 1 {
        return 1.0;
    }
    let (x, m) = (i as f64, (n - 1) as f64);
    let c = |j: f64| {
        // exact reduction keeps the cosine accurate for large indices
        let num = (j * x) % m;
        (2.0 * PI * num / m).cos()
    };
    match k {
        0 => 1.0 - ((x - m / 2.0) / (n as f64 / 2.0)).abs(),
        1 => 1.0 - ((x - m / 2.0) / (m / 2.0)).abs(),
        2 => 0.5 - 0.5 * c(1.0),
        3 => 0.54 - 0.46 * c(1.0),
        4 => 0.42 - 0.5 * c(1.0) + 0.08 * c(2.0),
        _ => 0.35875 - 0.48829 * c(1.0) + 0.14128 * c(2.0) - 0.01168 * c(3.0),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct W {
    f64s: bool,
    k: u8,
    n: u32,
}

fn tolerance<T: Smp>() -> f64 {
    32.0 * T::EPS
}

fn c18_case<T: Smp>(c: &W, obs: &mut Obs) -> Res {
    let n = c.n as usize;
    let v = values::<T>(c.k, n);
    ensure!(v.len() == n, "{} of size {} yields {} values", WINDOWS[c.k as usize], n, if v.len() > n { "more".to_string() } else { v.len().to_string() });
    for (i, x) in v.iter().enumerate() {
        let want = define(c.k, i, n);
        ensure!(
            close(x.f(), want, tolerance::<T>()),
            "{} of size {}: value {} is {:?}, definition gives {}", WINDOWS[c.k as usize], n, i, x, want
        );
    }
    obs.label(WINDOWS[c.k as usize]);
    obs.nontrivial_if(n >= 1);
    Ok(())
}

fn w_dispatch(f32f: fn(&W, &mut Obs) -> Res, f64f: fn(&W, &mut Obs) -> Res) -> impl Fn(&W, &mut Obs) -> Res + Sync {
    move |c, o| if c.f64s { f64f(c, o) } else { f32f(c, o) }
}

fn all_sizes(top: u32) -> Vec<W> {
    let mut v = vec![];
    for n in 0..=top {
        for k in 0..6 {
            v.push(W { f64s: false, k, n });
            v.push(W { f64s: true, k, n });
        }
    }
    v
}

/// The sizes people use: powers of two and neighbours, round numbers, sample
/// rates and their multiples.
fn special_sizes() -> Vec<W> {
    let mut v = vec![];
    for n in crate::gen::SPECIAL_SIZES {
        for k in 0..6 {
            v.push(W { f64s: false, k, n: *n });
            v.push(W { f64s: true, k, n: *n });
        }
    }
    v
}

fn w_strategy(top: u32) -> BoxedStrategy<W> {
    (any::<bool>(), 0u8..6, prop_oneof![3 => size(top), 2 => 0..=top.min(20_000)])
        .prop_map(|(f64s, k, n)| W { f64s, k, n })
        .boxed()
}

fn top(cx: &Ctx, q: u32, t: u32) -> u32 {
    if cx.tier == Tier::Quick { q } else { t }
}

pub fn c18(cx: &mut Ctx) {
    cx.rule("C18: every window kind, both sample types; every size up to the sweep bound (enumerated), plus generated sizes up to 1048577; oracle: the definition in double precision at every index, tolerance 32 epsilons. Non-trivial: size at least 1.");
    let t = top(cx, 1300, 6000);
    cx.sweep("sizes", all_sizes(t), w_dispatch(c18_case::<f32>, c18_case::<f64>));
    cx.sweep("special sizes", special_sizes(), w_dispatch(c18_case::<f32>, c18_case::<f64>));
    cx.search("large", 400, 20, || w_strategy(1_048_577), w_dispatch(c18_case::<f32>, c18_case::<f64>));
}

fn c19_case<T: Smp>(c: &W, obs: &mut Obs) -> Res {
    let n = c.n as usize;
    let v: Vec<f64> = values::<T>(c.k, n).into_iter().take(n).map(|x| x.f()).collect();
    let n = v.len();
    let name = WINDOWS[c.k as usize];
    let t = tolerance::<T>();
    for i in 0..n {
        ensure!(v[i] >= -t && v[i] <= 1.0 + t, "{} of size {}: value {} is {}, outside [0, 1]", name, n, i, v[i]);
        let j = n - 1 - i;
        ensure!(close(v[i], v[j], t), "{} of size {}: values {} and {} differ: {} {}", name, n, i, j, v[i], v[j]);
        if i > 0 && i <= (n - 1) / 2 {
            ensure!(v[i] >= v[i - 1] - t, "{} of size {}: falls from {} to {} at {} before the middle", name, n, v[i - 1], v[i], i);
        }
    }
    let overlap = match c.k {
        1 | 2 if n % 2 == 1 && n >= 3 => Some(((n - 1) / 2, 1.0)),
        3 if n % 2 == 1 && n >= 3 => Some(((n - 1) / 2, 1.08)),
        0 if n % 2 == 0 && n >= 2 => Some((n / 2, 1.0)),
        _ => None,
    };
    if let Some((h, sum)) = overlap {
        for i in 0..h {
            ensure!(
                close(v[i] + v[i + h], sum, 2.0 * t),
                "{} of size {}: overlapped by {} the sum at {} is {}, expected {}", name, n, h, i, v[i] + v[i + h], sum
            );
        }
        obs.label("overlap checked");
    }
    obs.label(name);
    obs.nontrivial_if(n >= 3);
    Ok(())
}

pub fn c19(cx: &mut Ctx) {
    cx.rule("C19: as C18; oracle: mirror symmetry, range [0,1], monotone rise to the middle, and constant half-overlap sum, tolerance 32 (64 for sums) epsilons. Non-trivial: size at least 3.");
    let t = top(cx, 1300, 6000);
    cx.sweep("sizes", all_sizes(t), w_dispatch(c19_case::<f32>, c19_case::<f64>));
    cx.sweep("special sizes", special_sizes(), w_dispatch(c19_case::<f32>, c19_case::<f64>));
    cx.search("large", 500, 20, || w_strategy(1_048_577), w_dispatch(c19_case::<f32>, c19_case::<f64>));
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Apply {
    f64s: bool,
    /// 6 is rectangular
    k: u8,
    x: Sig,
    pad: u8,
}

pub fn kind(k: u8) -> Window {
    match k {
        0 => Window::Triangular,
        1 => Window::Bartlett,
        2 => Window::Hann,
        3 => Window::Hamming,
        4 => Window::Blackman,
        5 => Window::BlackmanHarris,
        _ => Window::Rectangular,
    }
}

fn c20_case<T: Smp>(c: &Apply, obs: &mut Obs) -> Res {
    let mut x = c.x.t::<T>();
    for v in x.iter_mut() {
        if !v.is_finite() {
            *v = T::max_value() * v.signum();
        }
    }
    let n = x.len();
    let pad = c.pad as usize;
    let guard = T::of(123.5);
    let mut buf = vec![guard; n + 2 * pad];
    buf[pad..pad + n].copy_from_slice(&x);
    apply_window(&mut buf[pad..pad + n], kind(c.k));
    for (i, g) in buf.iter().enumerate() {
        if i < pad || i >= pad + n {
            ensure!(g.bits() == guard.bits(), "sample outside the slice changed");
        }
    }
    let y = &buf[pad..pad + n];
    if c.k >= 6 {
        for i in 0..n {
            ensure!(
                y[i].bits() == x[i].bits(),
                "rectangular window changed sample {} of {} from {:?} to {:?}", i, n, x[i], y[i]
            );
        }
    } else {
        let w = values::<T>(c.k, n);
        ensure!(w.len() == n, "window iterator of size {} yields {} values", n, w.len());
        for i in 0..n {
            let want = w[i].f() * x[i].f();
            ensure!(
                close(y[i].f(), want, 2.0 * T::EPS * want.abs() + T::SUB),
                "{} applied to {} samples: sample {} {:?} became {:?}, window value {:?}",
                WINDOWS[c.k as usize], n, i, x[i], y[i], w[i]
            );
            ensure!(y[i].is_finite(), "sample {} became {:?}", i, y[i]);
        }
    }
    obs.label(if c.k >= 6 { "Rectangular" } else { WINDOWS[c.k as usize] });
    obs.nontrivial_if(n >= 1 && x.iter().any(|v| *v != T::zero()));
    Ok(())
}

pub fn c20(cx: &mut Ctx) {
    cx.rule("C20: generated slices (length 0 up to 1.1 million, values over many decades) embedded in a guarded buffer, each of the seven kinds; oracle: product with the iterator's values of the same size, bit equality for rectangular, guards untouched. Every length 0..=600 enumerated. Non-trivial: some non-zero sample.");
    let f = |c: &Apply, o: &mut Obs| if c.f64s { c20_case::<f64>(c, o) } else { c20_case::<f32>(c, o) };
    let mut all = vec![];
    for n in 0..=600u32 {
        for k in 0..7 {
            for f64s in [false, true] {
                all.push(Apply { f64s, k, x: Sig::Noise { seed: n, n, exp: 0 }, pad: 2 });
            }
        }
    }
    cx.sweep("lengths", all, f);
    let mut all = vec![];
    for n in crate::gen::SPECIAL_SIZES.iter() {
        for k in 0..7 {
            for f64s in [false, true] {
                all.push(Apply { f64s, k, x: Sig::Noise { seed: *n, n: *n, exp: 0 }, pad: 1 });
            }
        }
    }
    cx.sweep("special lengths", all, f);
    cx.search(
        "slices", 24_000, 25,
        || {
            (any::<bool>(), 0u8..7, prop_oneof![2 => sig_of(300, fin(-25, 30)), 2 => sig_quiet(300), 1 => sig_of(300, huge())], 0u8..4)
                .prop_map(|(f64s, k, x, pad)| Apply { f64s, k, x, pad })
                .boxed()
        },
        f,
    );
    cx.search(
        "long slices", 400, 20,
        || {
            (any::<bool>(), 0u8..7, size(1_100_000), any::<u32>())
                .prop_map(|(f64s, k, n, seed)| Apply { f64s, k, x: Sig::Noise { seed, n, exp: 0 }, pad: 1 })
                .boxed()
        },
        f,
    );
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum IOp {
    Next,
    Nth(u32),
    /// by_ref().take(n) consumed by a loop
    Take(u32),
    /// by_ref().skip(n).next()
    Skip(u32),
    /// only reads
    Hints,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Collect,
    Count,
    Last,
    Fold,
    ZipLen(u32),
    EnumLen,
    MapLen,
    PeekLen,
    SkipLen(u32),
    TakeLen(u32),
    ForLoop,
    Extend,
    Past(u8),
    StepLen(u32),
    ChainHint,
    ForEach,
    Find(u32),
    Spread,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct It {
    f64s: bool,
    k: u8,
    n: u32,
    ops: Vec<IOp>,
    end: End,
}

/// The top of the range stands for counts near the largest integer.
fn far(k: u32) -> usize {
    if k >= u32::MAX - 4 { usize::MAX - (u32::MAX - k) as usize } else { k as usize }
}

fn c21_iter<T: Smp, I: ExactSizeIterator<Item = T>>(mut it: I, full: &[T], c: &It, obs: &mut Obs) -> Res {
    let n = full.len();
    let name = WINDOWS[c.k as usize];
    let mut pos = 0usize;
    fn hints<T: Smp, I: ExactSizeIterator<Item = T>>(it: &I, left: usize, at: &str) -> Res {
        ensure!(it.len() == left, "{}: len() is {}, {} values left", at, it.len(), left);
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "{}: size_hint() is {:?}, {} values left", at, h, left);
        Ok(())
    }
    let at = |i: usize| format!("{} of size {}, step {}", name, n, i);
    let expect = |got: Option<T>, pos: usize, i: usize| -> Res {
        match (got, full.get(pos)) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if same(a, *b) => Ok(()),
            (g, w) => Err(format!("{} of size {}, step {}: got {:?}, expected {:?} (position {})", name, n, i, g, w, pos)),
        }
    };
    hints::<T, I>(&it, n, &at(0))?;
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            IOp::Next => {
                expect(it.next(), pos, i)?;
                pos += 1;
            }
            IOp::Nth(k) => {
                let k = far(*k);
                expect(it.nth(k), pos.saturating_add(k), i)?;
                pos = pos.saturating_add(k).saturating_add(1);
            }
            IOp::Take(k) => {
                let mut m = 0;
                for v in it.by_ref().take(*k as usize) {
                    expect(Some(v), pos + m, i)?;
                    m += 1;
                }
                ensure!(m == (*k as usize).min(n.saturating_sub(pos)), "{}: take({}) gave {}", at(i), k, m);
                pos += m;
            }
            IOp::Skip(k) => {
                let k = far(*k);
                expect(it.by_ref().skip(k).next(), pos.saturating_add(k), i)?;
                pos = pos.saturating_add(k).saturating_add(1);
            }
            IOp::Hints => {}
        }
        pos = pos.min(n);
        hints::<T, I>(&it, n - pos, &at(i + 1))?;
    }
    let left = n - pos;
    let e = c.ops.len();
    let is = |what: &str, got: usize, want: usize| -> Res {
        ensure!(got == want, "{} of size {}: {} gives {}, {} values left", name, n, what, got, left);
        Ok(())
    };
    match &c.end {
        End::Collect => {
            // bounded: an iterator that never ends must not hang the check
            let v: Vec<T> = it.take(left + 8).collect();
            is("collect", v.len(), left)?;
            for (i, x) in v.iter().enumerate() {
                expect(Some(*x), pos + i, e)?;
            }
        }
        End::Extend => {
            let mut v: Vec<T> = vec![];
            v.extend(it.take(left + 8));
            is("extend", v.len(), left)?;
        }
        End::Count => is("count", it.count(), left)?,
        End::Last => {
            let want = if left == 0 { None } else { Some(full[n - 1]) };
            let got = it.last();
            ensure!(
                got.is_some() == want.is_some() && got.map_or(true, |g| same(g, want.unwrap())),
                "{} of size {}: last is {:?}, expected {:?}", name, n, got, want
            );
        }
        End::Fold => {
            let (m, bad) = it.fold((0usize, None), |(m, bad), x| {
                let ok = expect(Some(x), pos + m, e);
                (m + 1, bad.or(ok.err()))
            });
            if let Some(b) = bad {
                return Err(format!("fold: {}", b));
            }
            is("fold", m, left)?
        }
        End::ForEach => {
            let (mut m, mut bad) = (0usize, Ok(()));
            it.for_each(|x| {
                if bad.is_ok() {
                    bad = expect(Some(x), pos + m, e);
                }
                m += 1;
            });
            bad?;
            is("for_each", m, left)?
        }
        End::Find(k) => {
            // stops at the k-th value and goes on from there
            let (k, mut m) = (*k as usize, 0usize);
            let got = it.find(|_| { m += 1; m > k });
            expect(got, pos + k, e)?;
            hints::<T, I>(&it, left.saturating_sub(k + 1), "after find")?;
            let mut m = 0usize;
            ensure!(it.all(|_| { m += 1; true }), "all() of true is false");
            is("all after find", m, left.saturating_sub(k + 1))?;
            hints::<T, I>(&it, 0, "after all")?;
            is("position past the end", it.position(|_| true).map_or(0, |_| 1), 0)?;
            is("count past the end", it.count(), 0)?;
        }
        End::Spread => {
            // greatest value and its first-to-last order are those of a slice
            let want = full[pos..].iter().fold(None, |a: Option<T>, x| match a { Some(v) if v > *x => Some(v), _ => Some(*x) });
            let got = it.max_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            ensure!(
                got.is_some() == want.is_some() && got.map_or(true, |g| same(g, want.unwrap())),
                "{} of size {}: max_by is {:?}, expected {:?}", name, n, got, want
            );
        }
        End::ZipLen(m) => {
            let m = *m as usize;
            let z = it.zip(vec![0u8; m]);
            is("zip(..).len()", z.len(), left.min(m)).map_err(|s| format!("{} (zipped with {})", s, m))?;
            is("zip", z.count(), left.min(m))?;
        }
        End::EnumLen => is("enumerate().len()", it.enumerate().len(), left)?,
        End::MapLen => is("map(..).len()", it.map(|x| x + x).len(), left)?,
        End::PeekLen => {
            let mut p = it.peekable();
            p.peek();
            is("peekable().len()", p.len(), left)?;
        }
        End::SkipLen(k) => is("skip(..).len()", it.skip(*k as usize).len(), left.saturating_sub(*k as usize))?,
        End::TakeLen(k) => is("take(..).len()", it.take(*k as usize).len(), left.min(*k as usize))?,
        End::StepLen(k) => {
            let k = *k as usize + 1;
            is("step_by(..).len()", it.step_by(k).len(), (left + k - 1) / k)?
        }
        End::ChainHint => {
            let h = it.chain(std::iter::once(T::zero())).size_hint();
            ensure!(h == (left + 1, Some(left + 1)), "{} of size {}: chained size_hint {:?}", name, n, h);
        }
        End::ForLoop => {
            let mut m = 0;
            for x in it {
                expect(Some(x), pos + m, e)?;
                m += 1;
            }
            is("for loop", m, left)?;
        }
        End::Past(k) => {
            for m in 0..left {
                expect(it.next(), pos + m, e)?;
            }
            for _ in 0..*k {
                ensure!(it.next().is_none(), "{} of size {}: yields a value after the end", name, n);
                hints::<T, I>(&it, 0, "past the end")?;
            }
        }
    }
    obs.label(name);
    if pos > 0 {
        obs.label("partly consumed");
    }
    obs.nontrivial_if(n >= 1);
    Ok(())
}

fn c21_case<T: Smp>(c: &It, obs: &mut Obs) -> Res {
    let n = c.n as usize;
    let full = values::<T>(c.k, n);
    ensure!(full.len() == n, "{} of size {} yields {} values", WINDOWS[c.k as usize], n, full.len());
    win!(c.k, T, n, it => c21_iter::<T, _>(it, &full, c, obs))
}

/// An iterator far too long to drain, drawn from at its start.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    f64s: bool,
    k: u8,
    n: u64,
    steps: u32,
}

fn giant_case<T: Smp>(c: &Giant, obs: &mut Obs) -> Res {
    let n = c.n as usize;
    win!(c.k, T, n, it => {
        let mut it = it;
        for i in 0..=c.steps as usize {
            let left = n - i;
            ensure!(it.len() == left, "{} of size {}: len() {} after {} values", WINDOWS[c.k as usize], n, it.len(), i);
            ensure!(it.size_hint() == (left, Some(left)), "{} of size {}: size_hint() {:?} after {} values", WINDOWS[c.k as usize], n, it.size_hint(), i);
            ensure!(it.next().is_some(), "{} of size {} ends after {} values", WINDOWS[c.k as usize], n, i);
        }
    });
    obs.nontrivial_if(true);
    Ok(())
}

pub fn c21(cx: &mut Ctx) {
    cx.rule("C21: generated sizes and consumption patterns (next, nth, by_ref/take/skip, adaptors, draining, reading past the end); oracle: position model over the values of a fresh iterator, len and size_hint compared after every step. Large: sizes up to 140000. Giant: sizes up to the largest integer, drawn from at the start. Non-trivial: size at least 1.");
    let strat = || {
        let op = prop_oneof![
            5 => Just(IOp::Next),
            2 => (0u32..6).prop_map(IOp::Nth),
            1 => size(300).prop_map(IOp::Nth),
            2 => (0u32..10).prop_map(IOp::Take),
            1 => (0u32..6).prop_map(IOp::Skip),
            1 => Just(IOp::Hints),
            1 => prop_oneof![Just(1_000u32), u32::MAX - 5..=u32::MAX].prop_map(IOp::Nth),
            1 => (u32::MAX - 5..=u32::MAX).prop_map(IOp::Skip),
        ];
        let end = prop_oneof![
            Just(End::Collect), Just(End::Count), Just(End::Last), Just(End::Fold), Just(End::EnumLen),
            Just(End::MapLen), Just(End::PeekLen), Just(End::ForLoop), Just(End::Extend), Just(End::ChainHint),
            (0u32..300).prop_map(End::ZipLen), (0u32..40).prop_map(End::SkipLen), (0u32..40).prop_map(End::TakeLen),
            (1u8..5).prop_map(End::Past), (0u32..5).prop_map(End::StepLen),
            Just(End::ForEach), size(300).prop_map(End::Find), Just(End::Spread)
        ];
        (any::<bool>(), 0u8..6, size(600), proptest::collection::vec(op, 0..20), end)
            .prop_map(|(f64s, k, n, ops, end)| It { f64s, k, n, ops, end })
            .boxed()
    };
    cx.search("consumption", 40_000, 25, strat, |c: &It, o| {
        if c.f64s { c21_case::<f64>(c, o) } else { c21_case::<f32>(c, o) }
    });
    // every size with a plain drain
    let mut all = vec![];
    for n in 0..=700u32 {
        for k in 0..6 {
            all.push(It { f64s: n % 2 == 0, k, n, ops: vec![IOp::Next, IOp::Nth(1)], end: End::Past(2) });
        }
    }
    cx.sweep("sizes", all, |c: &It, o| if c.f64s { c21_case::<f64>(c, o) } else { c21_case::<f32>(c, o) });
    let mut all = vec![];
    for n in crate::gen::SPECIAL_SIZES.iter().filter(|n| **n > 700) {
        for k in 0..6 {
            for f64s in [false, true] {
                all.push(It { f64s, k, n: *n, ops: vec![IOp::Next, IOp::Nth(1)], end: End::Past(2) });
            }
        }
    }
    cx.sweep("special sizes", all, |c: &It, o| if c.f64s { c21_case::<f64>(c, o) } else { c21_case::<f32>(c, o) });
    let large = || {
        let op = prop_oneof![
            2 => Just(IOp::Next),
            2 => size(70_000).prop_map(IOp::Nth),
            1 => size(9_000).prop_map(IOp::Take),
            1 => size(9_000).prop_map(IOp::Skip),
            1 => Just(IOp::Hints),
        ];
        let end = prop_oneof![Just(End::Collect), Just(End::Count), Just(End::Last), Just(End::Fold), (1u8..5).prop_map(End::Past)];
        (any::<bool>(), 0u8..6, prop_oneof![size(140_000), 600u32..20_000], proptest::collection::vec(op, 0..4), end)
            .prop_map(|(f64s, k, n, ops, end)| It { f64s, k, n, ops, end })
            .boxed()
    };
    cx.search("large", 400, 20, large, |c: &It, o| {
        if c.f64s { c21_case::<f64>(c, o) } else { c21_case::<f32>(c, o) }
    });
    let giant = || {
        (any::<bool>(), 0u8..6, prop_oneof![
            (20u32..64, -2i64..3).prop_map(|(e, d)| (1u64 << e).wrapping_add(d as u64)),
            (0u64..4).prop_map(|d| u64::MAX - d),
            any::<u64>(),
        ], 0u32..40)
            .prop_map(|(f64s, k, n, steps)| Giant { f64s, k, n: n.max(64), steps })
            .boxed()
    };
    cx.search("giant", 5_000, 20, giant, |c: &Giant, o| {
        if c.f64s { giant_case::<f64>(c, o) } else { giant_case::<f32>(c, o) }
    });
}
