//! C31: equation systems written by users of the crate.
use crate::{gen::*, mon::*, oracle::*, rep::*, rng::Rng, sim::*, util::*};
use color_eyre::{eyre::bail, Result};
use corries::{prelude::*, variables::Variables};
use std::cell::Cell;

/// adiabatic Euler equations whose rows come in another order: rho in row JR, v in JV, p in JP
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Perm<const JR: usize, const JV: usize, const JP: usize, const S: usize>;
impl<const JR: usize, const JV: usize, const JP: usize, const S: usize> Physics<3, S> for Perm<JR, JV, JP, S> {
    const NUM_EQ: usize = 3;
    const IS_ADIABATIC: bool = true;
    const JRHO: usize = JR;
    const JXI: usize = JV;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = JP;
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "Perm".into()
    }
    fn update_prim(v: &mut Variables<3, S>) {
        for i in 0..S {
            let (r, m, e) = (v.cons[[JR, i]], v.cons[[JV, i]], v.cons[[JP, i]]);
            v.prim[[JR, i]] = r;
            v.prim[[JV, i]] = m / r;
            v.prim[[JP, i]] = (v.gamma - 1.0) * (e - 0.5 / r * m * m);
        }
    }
    fn update_cons(v: &mut Variables<3, S>) {
        for i in 0..S {
            let (r, u, p) = (v.prim[[JR, i]], v.prim[[JV, i]], v.prim[[JP, i]]);
            v.cons[[JR, i]] = r;
            v.cons[[JV, i]] = r * u;
            v.cons[[JP, i]] = p * (v.gamma - 1.0).recip() + 0.5 * r * u * u;
        }
    }
    fn update_flux(v: &mut Variables<3, S>) {
        for i in 0..S {
            v.flux[[JR, i]] = v.cons[[JV, i]];
            v.flux[[JV, i]] = v.prim[[JV, i]] * v.cons[[JV, i]] + v.prim[[JP, i]];
            v.flux[[JP, i]] = (v.cons[[JP, i]] + v.prim[[JP, i]]) * v.prim[[JV, i]];
        }
    }
    fn validate(v: &Variables<3, S>) -> Result<()> {
        valid(v, &[JR, JP])
    }
}
fn valid<const E: usize, const S: usize>(v: &Variables<E, S>, pos: &[usize]) -> Result<()> {
    if !v.prim.iter().chain(v.cons.iter()).all(|x| x.is_finite()) || !pos.iter().all(|j| v.prim.row(*j).iter().all(|x| *x > 0.0)) {
        bail!("cvm: user validation");
    }
    Ok(())
}
/// Euler equations with an additional conserved quantity rho * c, carried along with the fluid in row JT;
/// AD: with energy equation
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Tracer<const JT: usize, const AD: bool, const E: usize, const S: usize>;
const fn skip(j: usize, t: usize) -> usize {
    if j < t {
        j
    } else {
        j + 1
    }
}
impl<const JT: usize, const AD: bool, const E: usize, const S: usize> Tracer<JT, AD, E, S> {
    const R: usize = skip(0, JT);
    const V: usize = skip(1, JT);
    const P: usize = skip(2, JT);
}
impl<const JT: usize, const AD: bool, const E: usize, const S: usize> Physics<E, S> for Tracer<JT, AD, E, S> {
    const NUM_EQ: usize = E;
    const IS_ADIABATIC: bool = AD;
    const JRHO: usize = Self::R;
    const JXI: usize = Self::V;
    const JETA: usize = JT;
    const JPRESSURE: usize = if AD { Self::P } else { usize::MAX };
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "Tracer".into()
    }
    fn update_prim(v: &mut Variables<E, S>) {
        for i in 0..S {
            let (r, m) = (v.cons[[Self::R, i]], v.cons[[Self::V, i]]);
            v.prim[[Self::R, i]] = r;
            v.prim[[Self::V, i]] = m / r;
            v.prim[[JT, i]] = v.cons[[JT, i]] / r;
            if AD {
                v.prim[[Self::P, i]] = (v.gamma - 1.0) * (v.cons[[Self::P, i]] - 0.5 / r * m * m);
            }
        }
    }
    fn update_cons(v: &mut Variables<E, S>) {
        for i in 0..S {
            let (r, u) = (v.prim[[Self::R, i]], v.prim[[Self::V, i]]);
            v.cons[[Self::R, i]] = r;
            v.cons[[Self::V, i]] = r * u;
            v.cons[[JT, i]] = r * v.prim[[JT, i]];
            if AD {
                v.cons[[Self::P, i]] = v.prim[[Self::P, i]] * (v.gamma - 1.0).recip() + 0.5 * r * u * u;
            }
        }
    }
    fn update_flux(v: &mut Variables<E, S>) {
        for i in 0..S {
            let (u, m) = (v.prim[[Self::V, i]], v.cons[[Self::V, i]]);
            v.flux[[Self::R, i]] = m;
            v.flux[[JT, i]] = m * v.prim[[JT, i]];
            if AD {
                v.flux[[Self::V, i]] = u * m + v.prim[[Self::P, i]];
                v.flux[[Self::P, i]] = (v.cons[[Self::P, i]] + v.prim[[Self::P, i]]) * u;
            } else {
                let c = v.c_sound[i];
                v.flux[[Self::V, i]] = u * m + v.cons[[Self::R, i]] * c * c;
            }
        }
    }
    fn validate(v: &Variables<E, S>) -> Result<()> {
        if AD {
            valid(v, &[Self::R, Self::P])
        } else {
            valid(v, &[Self::R])
        }
    }
}
thread_local! {
    static SPEED: Cell<f64> = const { Cell::new(1.0) };
    static VALIDATED: Cell<u64> = const { Cell::new(0) };
    static REFUSE: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// scalar conservation laws: u_t + (a u)_x = 0 (BU = false) and Burgers' equation
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Scalar<const BU: bool, const S: usize>;
impl<const BU: bool, const S: usize> Physics<1, S> for Scalar<BU, S> {
    const NUM_EQ: usize = 1;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = usize::MAX;
    const JXI: usize = 0;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "Scalar".into()
    }
    fn update_prim(v: &mut Variables<1, S>) {
        v.prim.assign(&v.cons);
    }
    fn update_cons(v: &mut Variables<1, S>) {
        v.cons.assign(&v.prim);
    }
    fn update_eigen_vals(v: &mut Variables<1, S>) {
        for i in 0..S {
            v.eigen_vals[[0, i]] = if BU { v.prim[[0, i]] } else { SPEED.with(|a| a.get()) };
        }
    }
    fn update_eigen_vals_min(v: &mut Variables<1, S>) {
        Self::update_eigen_vals(v);
    }
    fn update_eigen_vals_max(v: &mut Variables<1, S>) {
        Self::update_eigen_vals(v);
    }
    fn update_flux(v: &mut Variables<1, S>) {
        for i in 0..S {
            let u = v.prim[[0, i]];
            v.flux[[0, i]] = if BU { 0.5 * u * u } else { SPEED.with(|a| a.get()) * u };
        }
    }
    fn validate(v: &Variables<1, S>) -> Result<()> {
        let k = VALIDATED.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if k > REFUSE.with(|c| c.get()) {
            bail!("cvm: the user's law was broken");
        }
        valid(v, &[])
    }
}
/// shallow water: the signal speed sqrt(g h) is a quantity of the user's own, g = 1
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Shallow<const S: usize>;
impl<const S: usize> Physics<2, S> for Shallow<S> {
    const NUM_EQ: usize = 2;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "Shallow".into()
    }
    fn update_prim(v: &mut Variables<2, S>) {
        for i in 0..S {
            v.prim[[0, i]] = v.cons[[0, i]];
            v.prim[[1, i]] = v.cons[[1, i]] / v.cons[[0, i]];
        }
    }
    fn update_cons(v: &mut Variables<2, S>) {
        for i in 0..S {
            v.cons[[0, i]] = v.prim[[0, i]];
            v.cons[[1, i]] = v.prim[[1, i]] * v.prim[[0, i]];
        }
    }
    fn update_c_sound(v: &mut Variables<2, S>) {
        for i in 0..S {
            v.c_sound[i] = v.prim[[0, i]].sqrt();
        }
    }
    fn update_derived_variables(v: &mut Variables<2, S>) {
        Self::update_c_sound(v);
        Self::update_eigen_vals(v);
    }
    fn update_flux(v: &mut Variables<2, S>) {
        for i in 0..S {
            let (h, u, m) = (v.prim[[0, i]], v.prim[[1, i]], v.cons[[1, i]]);
            v.flux[[0, i]] = m;
            v.flux[[1, i]] = m * u + 0.5 * h * h;
        }
    }
    fn validate(v: &Variables<2, S>) -> Result<()> {
        valid(v, &[0])
    }
}

type T<P, const E: usize, const S: usize> = MonTime<RungeKuttaFehlberg<P, E, S>>;
fn mk<P: Physics<E, S> + 'static, const E: usize, const S: usize>(sp: &Spec) -> Result<Box<dyn Sim>, String> {
    let cfg = sp.config();
    INIT.with(|c| *c.borrow_mut() = Some(InitData { prim: sp.prim.clone(), cs: sp.cs.clone(), ..Default::default() }));
    Ok(match sp.flux {
        Flux::Kt(_) => {
            Box::new(build::<P, MonFlux<Kt<E, S>>, T<P, E, S>, E, S>(&cfg, tl_init::<P, MonFlux<Kt<E, S>>, T<P, E, S>, E, S>)?)
        },
        _ => Box::new(build::<P, MonFlux<Hll<E, S>>, T<P, E, S>, E, S>(&cfg, tl_init::<P, MonFlux<Hll<E, S>>, T<P, E, S>, E, S>)?),
    })
}
fn run_logged(sim: &mut dyn Sim, limit: u64) -> (Result<(), String>, Vec<StepEv>, bool) {
    let x = sim_run(sim, limit);
    reset();
    x
}
fn sim_run(sim: &mut dyn Sim, limit: u64) -> (Result<(), String>, Vec<StepEv>, bool) {
    ctl(|c| {
        c.log_steps = true;
        c.keep_cons = true;
        c.step_limit = limit;
    });
    let res = sim.run();
    let hit = ctl(|c| c.limit_hit);
    (res, take_steps(), hit)
}
/// rows[j] = row of the user's system which holds equation j of the built-in one
fn spread(sp: &Spec, rows: &[usize], e: usize, extra: Option<(usize, &[f64], CustomBoundaryMode)>) -> Spec {
    let s = sp.s;
    let mut q = sp.clone();
    q.prim = vec![0.0; e * s];
    for (j, k) in rows.iter().enumerate() {
        q.prim[k * s..(k + 1) * s].copy_from_slice(&sp.prim[j * s..(j + 1) * s]);
    }
    let bc = |b: &Bc| match b {
        Bc::NoGrad => Bc::NoGrad,
        Bc::Custom(v) => {
            let mut w: BcVec = v.iter().map(|(j, m)| (rows[*j], *m)).collect();
            if let Some((t, _, m)) = extra {
                w.push((t, m));
            }
            Bc::Custom(w)
        },
    };
    q.bc = (bc(&sp.bc.0), bc(&sp.bc.1));
    if let Some((t, f, _)) = extra {
        q.prim[t * s..(t + 1) * s].copy_from_slice(f);
    }
    q
}
fn gather(p: &[f64], rows: &[usize], s: usize) -> Vec<f64> {
    rows.iter().flat_map(|k| p[k * s..(k + 1) * s].iter().copied()).collect()
}
/// compares two recorded runs step by step
fn same_run(sp: &Spec, a: &(Result<(), String>, Vec<StepEv>, bool), b: &(Result<(), String>, Vec<StepEv>, bool), rows: &[usize], cx: &mut Cx) -> Result<usize, String> {
    // a limiter may switch, and unlimited reconstruction come close to vacuum
    // an error estimate may be dominated by rounding: the widths it leads to agree less well
    let asc = sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded;
    let mut tol = if asc { 1e-6 } else { 1e-10 };
    let mut n = 0;
    for (k, (x, y)) in a.1.iter().zip(&b.1).enumerate() {
        req!(x.ok == y.ok, "step {k}: the built-in system {} and the same system written by a user {} ({:?} / {:?})", x.ok, y.ok, a.0, b.0);
        if !x.ok {
            return Ok(n);
        }
        let d = diff_prim(sp.phys, sp.gamma, &x.prim, &gather(&y.prim, rows, sp.s), &sp.cs, sp.s);
        cx.max("difference_to_built_in", d);
        cx.count("states_compared", 1);
        req!(d <= tol, "after step {k} the user's system differs from the built-in one by {d:e} (relative)");
        req!((x.dt - y.dt).abs() <= 100.0 * tol * x.dt, "step {k}: widths {:e} and {:e}", x.dt, y.dt);
        tol = (tol * 1.5f64).min(if asc { 1e-5 } else { 1e-7 });
        n += 1;
    }
    req!(a.1.len() == b.1.len() && a.0.is_ok() == b.0.is_ok(), "{} and {} steps, {:?} / {:?}", a.1.len(), b.1.len(), a.0, b.0);
    Ok(n)
}
macro_rules! size3 {
    ($s:expr, $S:ident, $b:block) => {
        match $s {
            8 => { const $S: usize = 8; $b },
            33 => { const $S: usize = 33; $b },
            _ => { const $S: usize = 104; $b },
        }
    };
}
fn mk_perm(k: usize, sp: &Spec) -> Result<Box<dyn Sim>, String> {
    size3!(sp.s, S, {
        match k {
            0 => mk::<Perm<2, 1, 0, S>, 3, S>(sp),
            1 => mk::<Perm<1, 2, 0, S>, 3, S>(sp),
            _ => mk::<Perm<2, 0, 1, S>, 3, S>(sp),
        }
    })
}
const PERMS: [[usize; 3]; 3] = [[2, 1, 0], [1, 2, 0], [2, 0, 1]];
fn mk_tracer(ph: Phys, t: usize, sp: &Spec) -> Result<Box<dyn Sim>, String> {
    size3!(sp.s, S, {
        match (ph, t) {
            (Phys::Adi, 0) => mk::<Tracer<0, true, 4, S>, 4, S>(sp),
            (Phys::Adi, 1) => mk::<Tracer<1, true, 4, S>, 4, S>(sp),
            (Phys::Adi, 2) => mk::<Tracer<2, true, 4, S>, 4, S>(sp),
            (Phys::Adi, _) => mk::<Tracer<3, true, 4, S>, 4, S>(sp),
            (Phys::Iso, 0) => mk::<Tracer<0, false, 3, S>, 3, S>(sp),
            (Phys::Iso, 1) => mk::<Tracer<1, false, 3, S>, 3, S>(sp),
            (Phys::Iso, _) => mk::<Tracer<2, false, 3, S>, 3, S>(sp),
        }
    })
}
fn mk_scalar(bu: bool, sp: &Spec) -> Result<Box<dyn Sim>, String> {
    size3!(sp.s, S, {
        if bu {
            mk::<Scalar<true, S>, 1, S>(sp)
        } else {
            mk::<Scalar<false, S>, 1, S>(sp)
        }
    })
}
/// the signal speeds of a fluid are v - c, v (as often as needed), v + c with the velocity row the system names
fn eigen_rows(v: &Vars, jv: usize, e: usize, s: usize) -> Result<(), String> {
    for i in 0..s {
        let (u, c) = (v.prim[jv * s + i], v.cs[i]);
        for j in 0..e {
            let want = if j == 0 { u - c } else if j == e - 1 { u + c } else { u };
            let got = v.eig[j * s + i];
            if !((got - want).abs() <= 4.0 * f64::EPSILON * (u.abs() + c)) && want.is_finite() {
                return Err(format!("signal speed {j} of {e} in cell {i} is {got:e} instead of {want:e}"));
            }
        }
    }
    Ok(())
}
pub fn c31(rep: &Rep) {
    rep.rule("systems written against the public Physics trait run through the real schemes, integrators and boundary conditions. permuted: the adiabatic Euler equations with their rows in another order give the permuted solution of the built-in system, step by step (custom boundaries permuted, with and without step control). tracer: Euler equations plus a carried quantity in any row: density, velocity and pressure stay those of the built-in system, the quantity is conserved between walls, stays exactly constant if it was, and first-order HLL keeps it within its initial bounds. scalar: advection and Burgers' equation (one equation) against a reference implementation of the scheme and the method's formula, plus exact shock speed. dam: shallow water with a signal speed of its own against the exact solution. validation: a user's validate is consulted every step and its verdict ends the run. Non-trivial: at least two steps.");
    rep.family("permuted", rep.n(3000, 60_000), if rep.thorough { 120.0 } else { 6.0 }, |r, cx| {
        let s = *r.pick(&[8, 33, 104]);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem_on(r, Phys::Adi, s, lim, 20.0);
        sp.flux = flux_tvd(r);
        sp.rkf.asc = r.chance(0.2);
        let k = r.below(3);
        let q = spread(&sp, &PERMS[k], 3, None);
        cx.desc = format!("rows={:?} {}", PERMS[k], sp.describe());
        let mut sim = make(&sp)?;
        let embedded = sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded;
        ctl(|c| c.log_stages = embedded);
        let res = sim_run(sim.as_mut(), 60);
        let stages = take_stages();
        reset();
        let mut a = res;
        drop(sim);
        let mut psim = mk_perm(k, &q)?;
        eigen_rows(&psim.vars(Dir::Cent), PERMS[k][1], 3, s)?;
        let mut b = run_logged(psim.as_mut(), 60);
        // attempts are accepted or not by a comparison: only the steps before a close call can be compared
        if embedded {
            let n = crate::c_num::asc_reliable(&sp, &a.1, &stages);
            a.1.truncate(n);
            b.1.truncate(n);
            let same = a.1.iter().zip(&b.1).all(|(x, y)| x.flux_calls == y.flux_calls);
            if !same {
                cx.count("close_calls", 1);
                return Ok(false);
            }
        }
        Ok(same_run(&sp, &a, &b, &PERMS[k], cx)? > 1)
    });
    rep.family("tracer", rep.n(3000, 60_000), if rep.thorough { 120.0 } else { 6.0 }, |r, cx| {
        let ph = phys(r);
        let s = *r.pick(&[8, 33, 104]);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem_on(r, ph, s, lim, 20.0);
        sp.flux = flux_tvd(r);
        let bounded = r.chance(0.4);
        if bounded {
            sp.flux = Flux::Hll;
            sp.rkf.rkf_mode = RKFMode::RK1;
        }
        let closed = r.chance(0.4);
        if closed {
            sp.bc = (walls(sp.e()), walls(sp.e()));
            sp.flux = if bounded || r.chance(0.5) { Flux::Hll } else { sp.flux };
        }
        let e = sp.e() + 1;
        let t = r.below(e);
        let rows: Vec<usize> = (0..sp.e()).map(|j| skip(j, t)).collect();
        let flat = r.chance(0.3);
        let c0 = r.uni(-3.0, 3.0);
        let f: Vec<f64> = (0..s).map(|_| if flat { c0 } else { r.uni(-2.0, 5.0) }).collect();
        let q = spread(&sp, &rows, e, Some((t, &f, CustomBoundaryMode::NoGradients)));
        cx.desc = format!("tracer row {t} {}", sp.describe());
        let a = run_logged(make(&sp)?.as_mut(), 60);
        let mut sim = mk_tracer(ph, t, &q)?;
        // the equation index of the eta velocity names the tracer's row
        let v = sim.views(Dir::Cent);
        let p = sim.prim();
        req!(bits_eq(&v[0], &p[rows[0] * s..(rows[0] + 1) * s]) && bits_eq(&v[2], &p[rows[1] * s..(rows[1] + 1) * s]) && bits_eq(&v[4], &p[t * s..(t + 1) * s]), "rho_prim, xi_vel or eta_vel is not the row the system names");
        if ph == Phys::Adi {
            req!(bits_eq(&v[6], &p[rows[2] * s..(rows[2] + 1) * s]), "pressure is not the row the system names");
        }
        let m0 = sim.cons();
        eigen_rows(&sim.vars(Dir::Cent), rows[1], e, s)?;
        let b = run_logged(sim.as_mut(), 60);
        let n = same_run(&sp, &a, &b, &rows, cx)?;
        let (lo, hi) = f[2..s - 2].iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
        let big = f.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        for ev in b.1.iter().take(n) {
            let c = &ev.prim[t * s..(t + 1) * s];
            if flat {
                let d = c.iter().fold(0.0f64, |m, x| m.max((x - c0).abs()));
                // reconstructed densities close to zero amplify rounding
                let tol = match sp.flux {
                    Flux::Hll => 1e-11,
                    Flux::Kt(LimiterMode::NoLimiter) => continue,
                    Flux::Kt(LimiterMode::Monocent(p)) if p > 2.0 => continue,
                    _ => 1e-8,
                };
                cx.max(if sp.flux == Flux::Hll { "constant_tracer_drift_hll" } else { "constant_tracer_drift_kt" }, d / big);
                req!(d <= tol * big, "step {}: a tracer that was {c0} everywhere deviates by {d:e}", ev.iter1);
            } else if bounded {
                for (i, x) in c.iter().enumerate() {
                    req!(*x >= lo - 1e-10 * big && *x <= hi + 1e-10 * big, "step {}: the tracer is {x} in cell {i}, outside its initial bounds [{lo}, {hi}]", ev.iter1);
                }
                cx.count("bounds_checked", 1);
            }
            if closed && sp.flux == Flux::Hll {
                let (x, y) = (interior_sum(&m0, e, s, t), interior_sum(&ev.cons, e, s, t));
                let m = interior_abs(&m0, s, t);
                req!((x - y).abs() <= 1e-11 * m + 1e-12 * m * ev.iter1 as f64, "step {}: the total of the tracer went from {x:e} to {y:e}", ev.iter1);
                cx.count("tracer_totals", 1);
            }
        }
        Ok(n > 1)
    });
    rep.family("scalar", rep.n(3000, 60_000), if rep.thorough { 120.0 } else { 6.0 }, |r, cx| {
        let bu = r.chance(0.5);
        let s = *r.pick(&[8, 33, 104]);
        let a = r.uni(0.2, 3.0) * r.sign();
        SPEED.with(|c| c.set(a));
        REFUSE.with(|c| c.set(u64::MAX));
        let mut sp = Spec {
            flux: flux_any(r),
            rkf: rkf(r, false),
            s,
            xi: interval(r, s),
            cfl: r.uni(0.05, 0.4),
            n_out: r.range(1, 3),
            prim: scalar_data(r, s),
            cs: vec![0.0; s],
            ..Default::default()
        };
        if r.chance(0.5) {
            let mode = |r: &mut Rng| Bc::Custom(vec![(0, *r.pick(&[CustomBoundaryMode::NoGradients, CustomBoundaryMode::Extrapolate]))]);
            sp.bc = (mode(r), mode(r));
        }
        let amax = if bu { sp.prim.iter().fold(0.0f64, |m, x| m.max(x.abs())) } else { a.abs() };
        sp.t_end = r.uni(2.0, 20.0) * sp.cfl * sp.dx() / amax;
        cx.desc = format!("{} a={a} {} u={:?}", if bu { "burgers" } else { "advection" }, sp.head(), &sp.prim[..s.min(33)]);
        let mut sim = mk_scalar(bu, &sp)?;
        let mut u = sim.prim();
        let x = xs(&sp);
        let fill = |u: &mut Vec<f64>| apply_bc(&sp.bc, u, 1, s, &x);
        let dx = sp.dx();
        let speed = |v: f64| if bu { v } else { a };
        let flx = |v: f64| if bu { 0.5 * v * v } else { a * v };
        let slow = Cell::new(false);
        let rhs = |u: &[f64]| -> Vec<f64> {
            let (w, ea) = match sp.flux {
                Flux::Kt(m) => reconstruct(m, u, 1, s),
                _ => (u.to_vec(), u.to_vec()),
            };
            let f: Vec<f64> = (0..s)
                .map(|i| {
                    if i < 1 || i > s - 3 {
                        return 0.0;
                    }
                    let (l, q) = (ea[i], w[i + 1]);
                    let (sl, sr) = (speed(l).min(speed(q)).min(0.0), speed(l).max(speed(q)).max(0.0));
                    // Burgers: no signal through a face between two cells at rest
                    if !(sr - sl > 1e-9 * amax) {
                        slow.set(true);
                    }
                    (sr * flx(l) - sl * flx(q) + sl * sr * (q - l)) / (sr - sl)
                })
                .collect();
            (0..s).map(|i| if i < 2 || i > s - 3 { 0.0 } else { (f[i] - f[i - 1]) / dx }).collect()
        };
        let (res, st, _) = run_logged(sim.as_mut(), 60);
        let tab = tableau(sp.rkf.rkf_mode);
        if sp.rkf.rkf_mode == RKFMode::SSPRK5 {
            // its coefficients are a known finding of C08
            return Ok(false);
        }
        let mut n = 0;
        for ev in &st {
            // the widest step allowed
            let am = if bu { u.iter().fold(0.0f64, |m, x| m.max(x.abs())) } else { a.abs() };
            req!(ev.dt <= sp.cfl * dx / am * (1.0 + 1e-9), "step {}: width {:e}, CFL limit {:e}", ev.iter1, ev.dt, sp.cfl * dx / am);
            let mut k: Vec<Vec<f64>> = vec![];
            for q in 0..tab.b.len() {
                let mut v = u.clone();
                for i in 0..s {
                    for (p, kp) in k.iter().enumerate() {
                        v[i] -= ev.dt * tab.a[q][p] * kp[i];
                    }
                }
                fill(&mut v);
                k.push(rhs(&v));
            }
            if slow.get() {
                cx.count("resting_faces", 1);
                return Ok(n > 1);
            }
            req!(ev.ok, "step {} failed: {res:?}", ev.iter1);
            for i in 0..s {
                for (p, kp) in k.iter().enumerate() {
                    u[i] -= ev.dt * tab.b[p] * kp[i];
                }
            }
            fill(&mut u);
            let d = u.iter().zip(&ev.prim).fold(0.0f64, |m, (x, y)| m.max((x - y).abs()));
            cx.max("scalar_difference", d);
            cx.count("scalar_steps", 1);
            if d.is_nan() || d > 1e-7 {
                // 0/0 in the limiter or between two cells at rest
                return Err(format!("step {}: the solution differs from the scheme applied to the user's law by {d:e}", ev.iter1));
            }
            u = ev.prim.clone();
            n += 1;
        }
        Ok(n > 1)
    });
    rep.family("burgers_shock", rep.n(300, 3000), if rep.thorough { 40.0 } else { 4.0 }, |r, cx| {
        let s = 104;
        let (ul, ur) = (r.uni(0.3, 3.0), r.uni(-2.0, 0.2));
        let rare = r.chance(0.4);
        let (ul, ur) = if rare { (ur, ul) } else { (ul, ur) };
        let mut sp = Spec {
            flux: flux_tvd(r),
            rkf: RkfConfig { rkf_mode: RKFMode::SSPRK3, ..Default::default() },
            s,
            xi: (1.0, 2.0),
            cfl: 0.4,
            prim: (0..s).map(|i| if i < s / 2 { ul } else { ur }).collect(),
            cs: vec![0.0; s],
            ..Default::default()
        };
        sp.t_end = 0.35 / ul.abs().max(ur.abs());
        REFUSE.with(|c| c.set(u64::MAX));
        cx.desc = format!("ul={ul} ur={ur} {}", sp.head());
        let mut sim = mk_scalar(true, &sp)?;
        let (res, _, _) = run_logged(sim.as_mut(), 2000);
        res.map_err(|m| format!("the run failed: {m}"))?;
        let p = sim.prim();
        let t = sp.t_end;
        let mut err = 0.0;
        for i in 2..s - 2 {
            let y = (sp.x(i) - 1.5) / t;
            let ex = if !rare {
                if y < 0.5 * (ul + ur) { ul } else { ur }
            } else {
                y.clamp(ul, ur)
            };
            err += (p[i] - ex).abs() * sp.dx();
        }
        let rel = err / (ul - ur).abs();
        cx.max("burgers_l1", rel);
        req!(rel < 0.06, "the L1 error to the exact solution is {rel:e} of the jump");
        Ok(true)
    });
    rep.family("dam", rep.n(200, 2000), if rep.thorough { 40.0 } else { 4.0 }, |r, cx| {
        let s = 104;
        let (mut hl, mut hr) = (r.uni(1.0, 3.0), r.uni(0.1, 0.9));
        if r.chance(0.5) {
            std::mem::swap(&mut hl, &mut hr);
        }
        let mut sp = Spec {
            phys: Phys::Iso,
            flux: flux_tvd(r),
            rkf: RkfConfig { rkf_mode: RKFMode::SSPRK3, ..Default::default() },
            s,
            xi: (1.0, 2.0),
            cfl: 0.4,
            prim: (0..2 * s).map(|i| if i < s / 2 { hl } else if i < s { hr } else { 0.0 }).collect(),
            cs: vec![],
            ..Default::default()
        };
        sp.t_end = 0.2 / hl.max(hr).sqrt();
        cx.desc = format!("hl={hl} hr={hr} {}", sp.head());
        let mut sim = mk::<Shallow<104>, 2, 104>(&sp)?;
        let c = sim.vars(Dir::Cent);
        req!((0..s).all(|i| (c.cs[i] - c.prim[i].sqrt()).abs() < 1e-12), "the user's signal speed is not in place after initialisation");
        let (res, st, _) = run_logged(sim.as_mut(), 2000);
        res.map_err(|m| format!("the run failed: {m}"))?;
        for ev in &st {
            req!((0..s).all(|i| (ev.cs[i] - ev.prim[i].sqrt()).abs() < 1e-9), "after step {} the signal speed of the cells is not the user's sqrt(h)", ev.iter1);
        }
        // exact solution, from the deep side to the shallow one
        let (a, b, flip) = if hl > hr { (hl, hr, false) } else { (hr, hl, true) };
        let f = |h: f64| 2.0 * (a.sqrt() - h.sqrt()) - (h - b) * (0.5 * (h + b) / (h * b)).sqrt();
        let (mut lo, mut hi) = (b, a);
        for _ in 0..200 {
            let m = 0.5 * (lo + hi);
            if f(m) > 0.0 {
                lo = m
            } else {
                hi = m
            }
        }
        let h = 0.5 * (lo + hi);
        let u = 2.0 * (a.sqrt() - h.sqrt());
        let sh = h * u / (h - b);
        let p = sim.prim();
        let (mut eh, mut eu) = (0.0, 0.0);
        for i in 2..s - 2 {
            let y = (sp.x(i) - 1.5) / sp.t_end * if flip { -1.0 } else { 1.0 };
            let (xh, xu) = if y < -a.sqrt() {
                (a, 0.0)
            } else if y < u - h.sqrt() {
                let c = (2.0 * a.sqrt() - y) / 3.0;
                (c * c, 2.0 * (a.sqrt() - c))
            } else if y < sh {
                (h, u)
            } else {
                (b, 0.0)
            };
            eh += (p[i] - xh).abs() * sp.dx();
            eu += (p[s + i] - xu * if flip { -1.0 } else { 1.0 }).abs() * sp.dx();
        }
        cx.max("dam_l1_h", eh / (a - b));
        cx.max("dam_l1_u", eu / u);
        req!(eh / (a - b) < 0.05 && eu / u < 0.08, "L1 errors to the exact dam break: {:e} in h, {:e} in u", eh / (a - b), eu / u);
        Ok(true)
    });
    rep.family("validation", rep.n(600, 6000), if rep.thorough { 30.0 } else { 3.0 }, |r, cx| {
        let s = *r.pick(&[8, 33]);
        let a = r.uni(0.2, 3.0) * r.sign();
        SPEED.with(|c| c.set(a));
        let mut sp = Spec { flux: flux_tvd(r), rkf: rkf(r, false), s, xi: (1.0, 2.0), cfl: 0.3, prim: scalar_data(r, s), cs: vec![0.0; s], ..Default::default() };
        sp.t_end = 12.0 * sp.cfl * sp.dx() / a.abs();
        cx.desc = format!("a={a} {}", sp.head());
        VALIDATED.with(|c| c.set(0));
        REFUSE.with(|c| c.set(u64::MAX));
        let mut sim = mk_scalar(false, &sp)?;
        ctl(|c| c.on_step = Some(std::rc::Rc::new(|k| VALIDATED.with(|v| SEEN.with(|w| w.borrow_mut().push((k, v.get())))))));
        SEEN.with(|w| w.borrow_mut().clear());
        let res = sim.run();
        let n = VALIDATED.with(|c| c.get());
        let seen: Vec<(u64, u64)> = SEEN.with(|w| w.borrow().clone());
        reset();
        res.map_err(|m| format!("the run failed: {m}"))?;
        req!(seen.windows(2).all(|w| w[1].1 > w[0].1) && n > seen.last().map_or(0, |x| x.1), "the user's validate was not consulted in every step: {seen:?}, {n}");
        // refuse the last consultation of some step
        let k = r.below(seen.len() - 1);
        let last = seen[k + 1].1;
        VALIDATED.with(|c| c.set(0));
        REFUSE.with(|c| c.set(last - 1));
        let mut sim = mk_scalar(false, &sp)?;
        ctl(|c| {
            c.log_steps = true;
        });
        let res = sim.run();
        REFUSE.with(|c| c.set(u64::MAX));
        let st = take_steps();
        match res {
            Ok(()) => return Err(format!("the user's validate failed in step {k} and the run succeeded")),
            Err(m) => req!(m.contains("the user's law was broken"), "the user's error got lost: {m}"),
        }
        req!(st.len() == k + 1 && !st[k].ok, "the run went on to step {} after the user's validate had failed in step {k}", st.len());
        cx.count("refusals", 1);
        Ok(true)
    });
}
thread_local! { static SEEN: std::cell::RefCell<Vec<(u64, u64)>> = const { std::cell::RefCell::new(vec![]) }; }
fn scalar_data(r: &mut Rng, s: usize) -> Vec<f64> {
    let (a, b) = (r.uni(-2.0, 2.0), r.uni(-2.0, 2.0));
    match r.below(4) {
        0 => (0..s).map(|i| if i < s / 2 { a } else { b }).collect(),
        1 => (0..s).map(|_| r.uni(-2.0, 2.0)).collect(),
        2 => {
            let p = r.uni(0.0, 6.0);
            (0..s).map(|i| a + 0.7 * (p + 6.283185307179586 * i as f64 / s as f64).sin()).collect()
        },
        _ => vec![a; s],
    }
}
