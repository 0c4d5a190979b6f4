//! helpers shared by the checks
use crate::{mon::*, oracle::*, sim::*};

pub fn scales(ph: Phys, g: f64, p: &[f64], cs: &[f64], s: usize) -> Vec<f64> {
    let e = ph.e();
    let mut m = vec![0.0f64; e];
    for i in 0..s {
        let q = col(p, e, s, i);
        let c = sound(ph, g, &q, if cs.is_empty() { 0.0 } else { cs[i] });
        m[0] = m[0].max(q[0].abs());
        m[1] = m[1].max(q[1].abs() + if c.is_finite() { c } else { 0.0 });
        if e == 3 {
            m[2] = m[2].max(q[2].abs());
        }
    }
    m
}
/// largest difference of two primitive fields, relative to the largest values of the first one
pub fn diff_prim(ph: Phys, g: f64, a: &[f64], b: &[f64], cs: &[f64], s: usize) -> f64 {
    let m = scales(ph, g, a, cs, s);
    let mut d = 0.0f64;
    for j in 0..ph.e() {
        for i in 0..s {
            let (x, y) = (a[j * s + i], b[j * s + i]);
            let q = (x - y).abs() / m[j];
            if q.is_nan() {
                return f64::NAN;
            }
            d = d.max(q);
        }
    }
    d
}
pub fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub fn bad(x: f64, lim: f64) -> bool {
    !(x <= lim)
}
/// centre coordinates of the mesh of a problem
pub fn xs(sp: &Spec) -> Vec<f64> {
    (0..sp.s).map(|i| sp.x(i)).collect()
}
pub fn take_steps() -> Vec<StepEv> {
    ctl(|c| std::mem::take(&mut c.steps))
}
pub fn take_stages() -> Vec<StageEv> {
    ctl(|c| std::mem::take(&mut c.stages))
}
#[macro_export]
macro_rules! req {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}
/// an iterator over the attempts of one step: groups of `n` stages
pub fn interior_sum(f: &[f64], e: usize, s: usize, j: usize) -> f64 {
    let _ = e;
    // pairwise enough for the sizes used
    f[j * s + 2..j * s + s - 2].iter().sum()
}
pub fn interior_abs(f: &[f64], s: usize, j: usize) -> f64 {
    f[j * s + 2..j * s + s - 2].iter().map(|x| x.abs()).sum()
}
