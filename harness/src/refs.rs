//! Reference definitions, in double precision, written from the Audio EQ
//! Cookbook text and not from the library.

use crate::procs::Rbj;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug)]
pub struct Bq {
    pub b0: f64,
    pub b1: f64,
    pub b2: f64,
    pub a1: f64,
    pub a2: f64,
    /// Condition: size of the terms summed in numerator / denominator,
    /// relative to a0. Multiplied by the machine epsilon it bounds the
    /// coefficients' absolute rounding error up to a small factor.
    pub nb: f64,
    pub na: f64,
}

/// Cookbook coefficients normalised by a0. The parameters are taken as they
/// are in `r` (round them to the sample type first).
pub fn cookbook(r: &Rbj) -> Bq {
    let (fs, f, g, q) = (r.fs.0, r.f.0, r.g.0, r.q.0);
    let w = 2.0 * PI * (f / fs);
    let (sn, cs) = (w.sin(), w.cos());
    let big_a = 10f64.powf(g / 40.0);
    // 1 - cos and 1 + cos without cancellation
    let omc = 2.0 * (w / 2.0).sin().powi(2);
    let opc = 2.0 * (w / 2.0).cos().powi(2);
    let (b, a, sb, sa): ([f64; 3], [f64; 3], f64, f64);
    if r.k < 7 {
        let al = sn / (2.0 * q);
        let den = [1.0 + al, -2.0 * cs, 1.0 - al];
        let sden = 2.0 + al;
        match r.k {
            0 => {
                b = [omc / 2.0, omc, omc / 2.0];
                a = den;
                sb = 2.0;
                sa = sden;
            }
            1 => {
                b = [opc / 2.0, -opc, opc / 2.0];
                a = den;
                sb = 2.0;
                sa = sden;
            }
            2 => {
                b = [sn / 2.0, 0.0, -sn / 2.0];
                a = den;
                sb = 1.0;
                sa = sden;
            }
            3 => {
                b = [al, 0.0, -al];
                a = den;
                sb = 1.0 + al;
                sa = sden;
            }
            4 => {
                b = [1.0, -2.0 * cs, 1.0];
                a = den;
                sb = 2.0;
                sa = sden;
            }
            5 => {
                b = [1.0 - al, -2.0 * cs, 1.0 + al];
                a = den;
                sb = sden;
                sa = sden;
            }
            _ => {
                b = [1.0 + al * big_a, -2.0 * cs, 1.0 - al * big_a];
                a = [1.0 + al / big_a, -2.0 * cs, 1.0 - al / big_a];
                sb = 2.0 + al * big_a;
                sa = 2.0 + al / big_a;
            }
        }
    } else {
        // S is the shelf slope
        let s = q;
        let al = sn / 2.0 * ((big_a + 1.0 / big_a) * (1.0 / s - 1.0) + 2.0).sqrt();
        let sq = 2.0 * big_a.sqrt() * al;
        let (p, m) = (big_a + 1.0, big_a - 1.0);
        let size = 2.0 * (p + m.abs()) + sq;
        sb = big_a * size;
        sa = size;
        if r.k == 7 {
            b = [
                big_a * (p - m * cs + sq),
                2.0 * big_a * (m - p * cs),
                big_a * (p - m * cs - sq),
            ];
            a = [p + m * cs + sq, -2.0 * (m + p * cs), p + m * cs - sq];
        } else {
            b = [
                big_a * (p + m * cs + sq),
                -2.0 * big_a * (m + p * cs),
                big_a * (p + m * cs - sq),
            ];
            a = [p - m * cs + sq, 2.0 * (m - p * cs), p - m * cs - sq];
        }
    }
    let a0 = a[0];
    // sine of an angle near pi (or 0) carries an absolute error of the order
    // of the angle's rounding; through alpha it is amplified by 1/(2q).
    let extra = if r.k < 7 {
        let amp = if r.k == 6 { big_a.max(1.0 / big_a) } else { 1.0 };
        4.0 * amp / (2.0 * q)
    } else {
        4.0 * big_a.sqrt() * ((big_a + 1.0 / big_a) * (1.0 / q - 1.0) + 2.0).sqrt()
    };
    let eb = if r.k >= 7 { big_a * extra } else { extra };
    let na = (sa + extra) / a0;
    let peak_b = b.iter().fold(0.0f64, |m, x| m.max(x.abs())) / a0;
    Bq {
        b0: b[0] / a0,
        b1: b[1] / a0,
        b2: b[2] / a0,
        a1: a[1] / a0,
        a2: a[2] / a0,
        nb: (sb + eb) / a0 + peak_b * na,
        na: na + na * (a[1].abs().max(a[2].abs()) / a0),
    }
}

impl Bq {
    pub fn filter(&self, x: &[f64]) -> Vec<f64> {
        let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
        x.iter()
            .map(|&v| {
                let y = self.b0 * v + self.b1 * x1 + self.b2 * x2 - self.a1 * y1 - self.a2 * y2;
                x2 = x1;
                x1 = v;
                y2 = y1;
                y1 = y;
                y
            })
            .collect()
    }
    /// |1 + a1 z^-1 + a2 z^-2| at angular frequency w.
    pub fn den_mag(&self, w: f64) -> f64 {
        let re = 1.0 + self.a1 * w.cos() + self.a2 * (2.0 * w).cos();
        let im = -self.a1 * w.sin() - self.a2 * (2.0 * w).sin();
        (re * re + im * im).sqrt()
    }
    /// Largest pole radius.
    pub fn radius(&self) -> f64 {
        let d = self.a1 * self.a1 - 4.0 * self.a2;
        if d < 0.0 {
            self.a2.max(0.0).sqrt()
        } else {
            let s = d.sqrt();
            let p = (-self.a1 + s) / 2.0;
            let q = (-self.a1 - s) / 2.0;
            p.abs().max(q.abs())
        }
    }
}

/// Sum of |impulse response| of 1/(1 + a1 z^-1 + a2 z^-2) over n samples:
/// the factor by which local rounding errors can accumulate.
pub fn accum(a1: f64, a2: f64, n: usize) -> f64 {
    let (mut y1, mut y2, mut s) = (0.0f64, 0.0f64, 0.0f64);
    for i in 0..n {
        let x = if i == 0 { 1.0 } else { 0.0 };
        let y = x - a1 * y1 - a2 * y2;
        y2 = y1;
        y1 = y;
        s += y.abs();
        if !s.is_finite() {
            return f64::INFINITY;
        }
    }
    s
}
