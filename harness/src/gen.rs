//! Random problems.
use crate::{oracle::*, rng::Rng, sim::*};
use corries::prelude::*;

pub fn phys(r: &mut Rng) -> Phys {
    if r.chance(0.6) {
        Phys::Adi
    } else {
        Phys::Iso
    }
}
pub fn gamma(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.4,
        1 => 5.0 / 3.0,
        2 => r.uni(1.05, 1.95),
        _ => r.uni(1.2, 1.7),
    }
}
/// total variation diminishing limiters
pub fn limiter_tvd(r: &mut Rng) -> LimiterMode {
    match r.below(4) {
        0 => LimiterMode::MinMod,
        1 => LimiterMode::Superbee,
        2 => LimiterMode::Monocent(r.uni(1.01, 2.0)),
        _ => LimiterMode::VanLeer,
    }
}
pub fn limiter_any(r: &mut Rng) -> LimiterMode {
    match r.below(8) {
        0 => LimiterMode::NoLimiter,
        1 => LimiterMode::Monocent(r.uni(2.0, 5.0)),
        _ => limiter_tvd(r),
    }
}
pub fn flux_any(r: &mut Rng) -> Flux {
    if r.chance(0.4) {
        Flux::Hll
    } else {
        Flux::Kt(limiter_any(r))
    }
}
pub fn flux_tvd(r: &mut Rng) -> Flux {
    if r.chance(0.4) {
        Flux::Hll
    } else {
        Flux::Kt(limiter_tvd(r))
    }
}
pub fn mode(r: &mut Rng) -> RKFMode {
    *r.pick(MODES)
}
pub fn rkf(r: &mut Rng, asc: bool) -> RkfConfig {
    RkfConfig {
        rkf_mode: mode(r),
        asc,
        asc_relative_tolerance: r.log10(-4.0, -1.0),
        asc_absolute_tolerance: r.log10(-4.0, 0.0),
        asc_timestep_friction: r.uni(0.01, 0.1),
    }
}
/// an interval on which no face or centre falls on zero
pub fn interval(r: &mut Rng, s: usize) -> (f64, f64) {
    loop {
        let len = match r.below(3) {
            0 => 1.0,
            1 => r.log10(-3.0, 3.0),
            _ => r.uni(0.1, 10.0),
        };
        let lo = match r.below(4) {
            0 => 1.0,
            1 => -len - r.uni(0.5, 3.0) * len,
            2 => -r.f() * len,
            _ => r.uni(0.1, 5.0) * len,
        };
        let xi = (lo, lo + len);
        if !hits_zero(xi, s) {
            return xi;
        }
    }
}
pub fn hits_zero(xi: (f64, f64), s: usize) -> bool {
    let dx = (xi.1 - xi.0) / (s - 4) as f64;
    (0..2 * s + 1).any(|k| (xi.0 + dx * (0.5 * k as f64 - 2.0)).abs() < 1e-6 * dx)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Uniform,
    Riemann,
    Multi,
    Smooth,
    Cells,
    Vacuum,
    Collide,
    Blast,
    Rest,
}
pub const KINDS: &[Kind] = &[
    Kind::Uniform,
    Kind::Riemann,
    Kind::Multi,
    Kind::Smooth,
    Kind::Cells,
    Kind::Vacuum,
    Kind::Collide,
    Kind::Blast,
    Kind::Rest,
];
/// ranges of the random states: `con` decades of contrast in density and pressure, `mach` the largest Mach number
#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub con: f64,
    pub mach: f64,
}
pub const MILD: Lim = Lim { con: 0.8, mach: 1.5 };
pub const MED: Lim = Lim { con: 2.0, mach: 4.0 };
pub const WILD: Lim = Lim { con: 5.0, mach: 30.0 };

fn cell(r: &mut Rng, l: Lim) -> [f64; 3] {
    let rho = r.log10(-l.con / 2.0, l.con / 2.0);
    let p = r.log10(-l.con / 2.0, l.con / 2.0);
    // velocities in units of one, sound speeds are around one
    let v = r.uni(-1.0, 1.0) * l.mach * if r.chance(0.5) { (p / rho).sqrt().min(1.0) } else { 1.0 };
    [rho, v, p]
}
/// (prim, c_sound): row-major E x S in units of (density d, velocity v); isothermal flow gets a constant sound speed
pub fn data(r: &mut Rng, ph: Phys, s: usize, kind: Kind, l: Lim, d: f64, v: f64) -> (Vec<f64>, Vec<f64>) {
    let mut cells = vec![[0.0; 3]; s];
    match kind {
        Kind::Uniform => {
            let c = cell(r, l);
            cells.iter_mut().for_each(|x| *x = c);
        },
        Kind::Rest => {
            let (mut a, mut b) = (cell(r, l), cell(r, l));
            a[1] = 0.0;
            b[1] = 0.0;
            let k = r.range(1, s - 1);
            for (i, x) in cells.iter_mut().enumerate() {
                *x = if i < k { a } else { b };
            }
        },
        Kind::Riemann => {
            let (a, b) = (cell(r, l), cell(r, l));
            let k = if r.chance(0.7) { s / 2 } else { r.range(2, s - 2) };
            for (i, x) in cells.iter_mut().enumerate() {
                *x = if i < k { a } else { b };
            }
        },
        Kind::Multi => {
            let mut c = cell(r, l);
            let q = r.uni(0.05, 0.6);
            for x in cells.iter_mut() {
                if r.chance(q) {
                    c = cell(r, l);
                }
                *x = c;
            }
        },
        Kind::Smooth => {
            let (a, b) = (cell(r, l), r.uni(0.0, 6.3));
            let amp = [r.uni(0.0, 0.5), r.uni(0.0, 0.5), r.uni(0.0, 0.5)];
            let m = r.range(1, 3) as f64;
            for (i, x) in cells.iter_mut().enumerate() {
                let w = (b + m * 6.283185307179586 * i as f64 / s as f64).sin();
                *x = [a[0] * (1.0 + amp[0] * w), a[1] + amp[1] * w, a[2] * (1.0 + amp[2] * w)];
            }
        },
        Kind::Cells => {
            for x in cells.iter_mut() {
                *x = cell(r, l);
            }
        },
        Kind::Vacuum => {
            let c = cell(r, l);
            let lo = 10f64.powf(-l.con);
            let (a, b) = (r.below(s), r.below(s));
            for (i, x) in cells.iter_mut().enumerate() {
                *x = c;
                if i >= a.min(b) && i <= a.max(b) {
                    x[0] *= lo;
                    x[2] *= lo;
                }
            }
        },
        Kind::Collide => {
            let c = cell(r, l);
            let w = r.uni(0.1, 1.0) * l.mach * r.sign();
            for (i, x) in cells.iter_mut().enumerate() {
                *x = [c[0], if i < s / 2 { w } else { -w }, c[2] * 10f64.powf(-l.con / 2.0)];
            }
        },
        Kind::Blast => {
            let c = cell(r, l);
            let k = r.below(s);
            for x in cells.iter_mut() {
                *x = [c[0], 0.0, c[2]];
            }
            cells[k][2] *= 10f64.powf(l.con);
            cells[k][0] *= 10f64.powf(0.5 * l.con * r.uni(-1.0, 1.0));
        },
    }
    let mut prim = vec![0.0; ph.e() * s];
    for (i, c) in cells.iter().enumerate() {
        prim[i] = c[0] * d;
        prim[s + i] = c[1] * v;
        if ph == Phys::Adi {
            prim[2 * s + i] = c[2] * d * v * v;
        }
    }
    let cs = match ph {
        Phys::Adi => vec![],
        Phys::Iso => vec![r.log10(-0.7, 0.7) * v; s],
    };
    (prim, cs)
}
pub fn walls(e: usize) -> Bc {
    Bc::Custom(
        (0..e)
            .map(|j| (j, if j == 1 { CustomBoundaryMode::Reflecting } else { CustomBoundaryMode::NoGradients }))
            .collect(),
    )
}
pub fn no_grad_custom(r: &mut Rng, e: usize) -> Bc {
    let mut v: Vec<_> = (0..e).map(|j| (j, CustomBoundaryMode::NoGradients)).collect();
    r.shuffle(&mut v);
    Bc::Custom(v)
}
/// boundary conditions under which a run can reasonably be expected to stay well behaved
pub fn bc_sane(r: &mut Rng, e: usize) -> Bc {
    match r.below(6) {
        0 | 1 => Bc::NoGrad,
        2 => no_grad_custom(r, e),
        3 => walls(e),
        4 => {
            let mut v: Vec<_> = (0..e).map(|j| (j, CustomBoundaryMode::NoGradients)).collect();
            v[1].1 = CustomBoundaryMode::OutflowNoGradients;
            Bc::Custom(v)
        },
        _ => {
            let mut v: Vec<_> = (0..e).map(|j| (j, CustomBoundaryMode::NoGradients)).collect();
            v[1].1 = CustomBoundaryMode::NearZero;
            r.shuffle(&mut v);
            Bc::Custom(v)
        },
    }
}
pub const BCMODES: &[CustomBoundaryMode] = &[
    CustomBoundaryMode::Extrapolate,
    CustomBoundaryMode::ExtrapolateDensityKepler,
    CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
    CustomBoundaryMode::NearZero,
    CustomBoundaryMode::NoGradients,
    CustomBoundaryMode::OutflowNoGradients,
    CustomBoundaryMode::OutFlowExtrapolate,
    CustomBoundaryMode::Reflecting,
];
pub fn small_size(r: &mut Rng) -> usize {
    sized(r, &[6, 7, 8, 11, 16, 33, 54])
}
/// mostly one of the given sizes, now and then a large mesh
pub fn sized(r: &mut Rng, small: &[usize]) -> usize {
    match r.below(1000) {
        0..=3 => 1004,
        4..=15 => 404,
        16..=50 => 204,
        51..=150 => 104,
        _ => *r.pick(small),
    }
}
/// rough signal speed of the data
pub fn speed(sp: &Spec) -> f64 {
    sp.dx() * sp.cfl / cfl_dt(sp.phys, sp.gamma, &sp.prim, &sp.cs, sp.s, sp.dx(), sp.cfl)
}
/// sets t_end so that about `steps` steps of the initial width fit
pub fn set_duration(sp: &mut Spec, steps: f64) {
    let dt = sp.cfl * sp.dx() / speed(sp);
    sp.t_end = sp.t0 + steps * dt;
    sp.dt_min = dt * 1e-9;
}
/// a random problem without outputs; `steps` initial step widths long
pub fn problem(r: &mut Rng, l: Lim, steps: f64) -> Spec {
    let ph = phys(r);
    let s = small_size(r);
    problem_on(r, ph, s, l, steps)
}
pub fn problem_on(r: &mut Rng, ph: Phys, s: usize, l: Lim, steps: f64) -> Spec {
    let kind = *r.pick(KINDS);
    let (prim, cs) = data(r, ph, s, kind, l, 1.0, 1.0);
    let mut sp = Spec {
        phys: ph,
        flux: flux_tvd(r),
        rkf: rkf(r, false),
        s,
        xi: interval(r, s),
        gamma: gamma(r),
        bc: (bc_sane(r, ph.e()), bc_sane(r, ph.e())),
        cfl: r.uni(0.05, 0.4),
        n_out: r.range(1, 5),
        prim,
        cs,
        ..Default::default()
    };
    let steps = steps * r.uni(0.3, 1.0);
    set_duration(&mut sp, steps);
    sp
}
