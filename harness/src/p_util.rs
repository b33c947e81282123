//! C22: decibel conversions and gain.

use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use rasp::util::{apply_gain, to_db, to_sample};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct U {
    f64s: bool,
    s: Fl,
    s2: Fl,
    db: Fl,
    db2: Fl,
    x: Fl,
}

fn smp() -> BoxedStrategy<Fl> {
    prop_oneof![
        3 => log_uniform(1e-7, 10.0),
        1 => log_uniform(1e-30, 1e30),
        2 => (-40i64..40).prop_map(|k| f32::from_bits((1e-6f32.to_bits() as i64 + k) as u32) as f64),
        1 => (-40i64..40).prop_map(|k| f64::from_bits((1e-6f64.to_bits() as i64 + k) as u64)),
        1 => (0i64..80).prop_map(|k| f32::from_bits((1f32.to_bits() as i64 + k - 40) as u32) as f64),
        1 => (-12i32..13).prop_map(|k| 10f64.powi(k)),
        1 => (-40i32..40).prop_map(|k| 2f64.powi(k)),
        1 => proptest::sample::select(vec![
            0.0f64, 1.0, 1e-6, 0.5, f64::INFINITY, f64::NAN.abs(), f32::MAX as f64, f32::MIN_POSITIVE as f64,
            1e-45, 1e-40, 0.999999e-6, 1.000001e-6, 2.0, 1e-7, 1e-5
        ]),
        1 => any::<u32>().prop_map(|b| (f32::from_bits(b & 0x7fff_ffff) as f64).abs()),
    ]
    .prop_map(Fl)
    .boxed()
}

fn dbs() -> BoxedStrategy<Fl> {
    prop_oneof![
        4 => -130.0f64..40.0,
        1 => -1000.0f64..1000.0,
        2 => (-40i64..40).prop_map(|k| f32::from_bits(((-120f32).to_bits() as i64 + k) as u32) as f64),
        1 => (-40i64..40).prop_map(|k| f64::from_bits(((-120f64).to_bits() as i64 + k) as u64)),
        1 => (-9i32..10).prop_map(|k| k as f64 * 20.0),
        1 => (-140i32..60).prop_map(|k| k as f64),
        1 => proptest::sample::select(vec![
            0.0f64, -0.0, -120.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, -119.99999, -1e30, 1e-9,
            -3.0, 6.0, 20.0, -121.0, 120.0, f32::MIN as f64, 700.0
        ]),
        1 => any::<u32>().prop_map(|b| f32::from_bits(b) as f64),
    ]
    .prop_map(Fl)
    .boxed()
}

fn c22_case<T: Smp>(c: &U, obs: &mut Obs) -> Res {
    let floor = T::of(-120.0);
    // to_db; its documented domain is samples without a negative sign
    let db_of = |s: T| -> Result<T, String> {
        let d = to_db(s);
        if s.is_finite() && s > T::of(1e-6) {
            let want = 20.0 * s.f().log10();
            ensure!(
                close(d.f(), want, 16.0 * T::EPS * (1.0 + want.abs())),
                "to_db({:?}) = {:?}, expected {}", s, d, want
            );
        } else {
            ensure!(d == floor, "to_db({:?}) = {:?}, expected exactly -120", s, d);
        }
        Ok(d)
    };
    let smp_of = |d: T| -> Result<T, String> {
        let s = to_sample(d);
        if d.is_finite() && d > floor {
            let want = 10f64.powf(d.f() / 20.0);
            if T::of(want * 1.001).is_finite() {
                ensure!(
                    close(s.f(), want, (16.0 + 2.0 * d.f().abs()) * T::EPS * want),
                    "to_sample({:?}) = {:?}, expected {}", d, s, want
                );
            } else {
                ensure!(s.f() > T::max_value().f() * 0.5, "to_sample({:?}) = {:?}", d, s);
            }
        } else {
            ensure!(s == T::zero(), "to_sample({:?}) = {:?}, expected exactly 0", d, s);
        }
        Ok(s)
    };
    // a NaN or zero with the sign bit set is outside to_db's domain
    let pos = |v: f64| {
        let t = T::of(v);
        if t.is_sign_negative() { -t } else { t }
    };
    let (s, s2) = (pos(c.s.0), pos(c.s2.0));
    let (d, d2) = (db_of(s)?, db_of(s2)?);
    let (e, e2) = (T::of(c.db.0), T::of(c.db2.0));
    let (x, x2) = (smp_of(e)?, smp_of(e2)?);
    // monotone
    if s.is_finite() && s2.is_finite() && s <= s2 {
        ensure!(
            d.f() <= d2.f() + 8.0 * T::EPS * d2.f().abs(),
            "to_db not monotone: {:?} -> {:?}, {:?} -> {:?}", s, d, s2, d2
        );
    }
    if e.is_finite() && e2.is_finite() && e <= e2 && x2.is_finite() {
        ensure!(
            x.f() <= x2.f() * (1.0 + (8.0 + e2.f().abs()) * T::EPS),
            "to_sample not monotone: {:?} -> {:?}, {:?} -> {:?}", e, x, e2, x2
        );
    }
    // inverse, away from the floor where both sides switch
    if s.is_finite() && s.f() > 1.0001e-6 && s.f() < T::max_value().f() * 1e-3 {
        let back = to_sample(d).f();
        ensure!(
            close(back, s.f(), (32.0 + 4.0 * d.f().abs()) * T::EPS * s.f()),
            "to_sample(to_db({:?})) = {}", s, back
        );
        obs.nontrivial = true;
    }
    if e.is_finite() && e.f() > -119.999 && x.is_finite() && x.f() < T::max_value().f() * 1e-3 {
        let back = to_db(x).f();
        ensure!(
            close(back, e.f(), (32.0 + 8.0 * e.f().abs()) * T::EPS),
            "to_db(to_sample({:?})) = {}", e, back
        );
        obs.nontrivial = true;
    }
    // gain
    let v = T::of(c.x.0);
    // by converted levels and by any other ratio
    for r in [x, s] {
        if !r.is_finite() || r.is_sign_negative() {
            continue;
        }
        let y = apply_gain(v, r).f();
        if !v.is_finite() {
            let want = (v * r).f();
            ensure!(y == want || y.is_nan() && want.is_nan(), "apply_gain({:?}, {:?}) = {}", v, r, y);
            obs.label("gain on a sample that is not finite");
            continue;
        }
        let want = v.f() * r.f();
        if T::of(want).is_finite() {
            ensure!(close(y, want, 2.0 * T::EPS * want.abs() + T::TINY), "apply_gain({:?}, {:?}) = {}", v, r, y);
        }
    }
    // gains combine by adding decibels
    let (a, b) = (e.f(), e2.f());
    if a.abs() < 60.0 && b.abs() < 60.0 && a + b > -119.0 && v.f().abs() < 1e30 {
        let y = apply_gain(apply_gain(v, x), x2).f();
        let z = apply_gain(v, to_sample(T::of(a + b))).f();
        ensure!(
            close(y, z, 64.0 * T::EPS * (1.0 + a.abs() + b.abs()) * z.abs() + T::TINY),
            "gains of {} dB and {} dB applied to {:?} give {}, their sum gives {}", a, b, v, y, z
        );
        obs.label("gains combined");
    }
    if s.is_finite() && s.f() <= 1e-6 || !s.is_finite() {
        obs.label("sample at the floor or not finite");
    }
    if !(e > floor) || !e.is_finite() {
        obs.label("dB at the floor or not finite");
    }
    Ok(())
}

pub fn c22(cx: &mut Ctx) {
    cx.rule("C22: generated samples and dB values (log-uniform, neighbours of 1e-6 and -120 and 1, round values, any bit pattern, non-finite); oracle: 20 log10 and 10^(x/20) in double precision, exact floor values, monotonicity on generated pairs, both round trips, and additivity of gains. Non-trivial: a round trip was checked away from the floor.");
    let strat = || {
        (any::<bool>(), smp(), smp(), dbs(), dbs(), prop_oneof![6 => fin(-10, 10), 1 => wild()])
            .prop_map(|(f64s, s, s2, db, db2, x)| U { f64s, s, s2, db, db2, x })
            .boxed()
    };
    cx.search("conversions", 300_000, 25, strat, |c: &U, o| {
        if c.f64s { c22_case::<f64>(c, o) } else { c22_case::<f32>(c, o) }
    });
}
