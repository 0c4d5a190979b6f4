//! C01 - C10, C27, C28: numerics.
use crate::{gen, gen::*, mon::*, oracle::*, rep::*, rng::Rng, sim::*, util::*};
use corries::prelude::*;

/// set the primitive variables of all cells and derive everything else
fn load(sim: &mut dyn Sim, prim: &[f64], cs: &[f64]) {
    sim.set_prim(Dir::Cent, prim);
    if !cs.is_empty() {
        sim.set_cs(Dir::Cent, cs);
    }
    sim.upd(Dir::Cent, Op::VarsFromPrim);
    sim.init_west_east();
}

// ------------------------------------------------------------------------------------------------ C01
pub fn c01(rep: &Rep) {
    rep.rule("telescoping: random states (9 kinds, up to 5 decades of contrast, Mach 30) on random meshes through the real flux scheme; the sum of the divergence must equal the difference of the two reference end fluxes and must not react to changes of the cells 4 or more away from the ends. steps: real runs with recorded stages; change of the totals vs stage-weighted end fluxes. closed/uniform: totals constant. Non-trivial: the flux changes somewhere inside the domain.");
    rep.family("telescoping", rep.n(60_000, 1_500_000), if rep.thorough { 120.0 } else { 7.0 }, |r, cx| {
        let ph = phys(r);
        let s = *r.pick(&[11, 16, 33, 54]);
        let kind = *r.pick(KINDS);
        let lim = *r.pick(&[MILD, MED, WILD]);
        let (ds, vs) = (r_scale(r), r_scale(r));
        let (prim, cs) = data(r, ph, s, kind, lim, ds, vs);
        let sp = Spec { phys: ph, s, flux: flux_any(r), xi: interval(r, s), gamma: gamma(r), bc: (bc_sane(r, ph.e()), bc_sane(r, ph.e())), prim, cs, ..Default::default() };
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let sum = |d: &[f64], j: usize| interior_sum(d, sp.e(), s, j) * sp.dx();
        let zero = vec![0.0; sp.e() * s];
        let d = match sim.raw_flux(&zero) {
            Ok(d) => d,
            Err(_) => return Ok(false),
        };
        let filled = sim.prim();
        let f = faces(ph, sp.flux, sp.gamma, &filled, &sp.cs, s);
        let mut checked = false;
        if f.ok[1] && f.ok[s - 3] {
            for j in 0..sp.e() {
                let want = f.f[s - 3][j] - f.f[1][j];
                let tol = 1e-9 * (f.scale[1][j] + f.scale[s - 3][j]) + 1e-12 * interior_abs(&d, s, j) * sp.dx();
                let err = (sum(&d, j) - want).abs();
                if d.iter().all(|x| x.is_finite()) {
                    cx.max("telescoping_err_over_tol", err / tol.max(1e-300));
                    cx.count("end_flux_comparisons", 1);
                    req!(err <= tol, "sum over the interior of the flux divergence of equation {j} is {:e}, the difference of the end fluxes {:e} (tolerance {:e})", sum(&d, j), want, tol);
                    checked = true;
                }
            }
        }
        // change the middle only
        let (p2, _) = data(r, ph, s, Kind::Cells, MED, filled[s / 2].abs().max(1e-300), 1.0);
        let mut q = sp.prim.clone();
        for j in 0..sp.e() {
            for i in 4..=s - 5 {
                q[j * s + i] = if j == 1 { q[s + i] + 0.3 * sound(ph, sp.gamma, &col(&sp.prim, sp.e(), s, i), if cs_empty(&sp) { 0.0 } else { sp.cs[i] }) } else { p2[j * s + i].abs().min(10.0 * q[j * s + i]).max(0.1 * q[j * s + i]) };
            }
        }
        load(sim.as_mut(), &q, &sp.cs);
        let d2 = match sim.raw_flux(&zero) {
            Ok(d) => d,
            Err(_) => return Ok(checked),
        };
        if f.ok[1] && f.ok[s - 3] && d.iter().chain(d2.iter()).all(|x| x.is_finite()) {
            for j in 0..sp.e() {
                let tol = 1e-10 * (f.scale[1][j] + f.scale[s - 3][j]) + 1e-12 * (interior_abs(&d, s, j) + interior_abs(&d2, s, j)) * sp.dx();
                let err = (sum(&d, j) - sum(&d2, j)).abs();
                cx.count("locality_comparisons", 1);
                req!(err <= tol, "changing only cells 4..{} changed the net flux of equation {j} from {:e} to {:e}", s - 5, sum(&d, j), sum(&d2, j));
            }
        }
        Ok(checked && kind != Kind::Uniform)
    });
    rep.family("steps", rep.n(4000, 60_000), if rep.thorough { 150.0 } else { 9.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED]);
        let n_steps = if r.chance(0.1) { 120.0 } else { 12.0 };
        let mut sp = problem(r, lim, n_steps);
        if r.chance(0.4) {
            sp.rkf.asc = true;
        }
        if r.chance(0.15) {
            sp.bc = (no_grad_custom(r, sp.e()), extrap(sp.e()));
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_stages = true;
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 4 * n_steps as u64 + 50;
        });
        let c0 = sim.cons();
        let _ = sim.run();
        let (st, sg) = (take_steps(), take_stages());
        totals_over_steps(&sp, &c0, &st, &sg, cx)
    });
    rep.family("closed", rep.n(1500, 20_000), if rep.thorough { 80.0 } else { 6.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED, WILD]);
        let mut sp = problem(r, lim, 60.0);
        sp.flux = Flux::Hll;
        sp.bc = (walls(sp.e()), walls(sp.e()));
        sp.rkf.asc = r.chance(0.2);
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 300;
        });
        let c0 = sim.cons();
        let _ = sim.run();
        let st = take_steps();
        let mut moved = false;
        for ev in st.iter().filter(|e| e.ok) {
            for j in 0..sp.e() {
                if j == 1 {
                    continue;
                }
                let (a, b) = (interior_sum(&c0, sp.e(), sp.s, j), interior_sum(&ev.cons, sp.e(), sp.s, j));
                let err = (a - b).abs() / a.abs();
                cx.max("closed_domain_drift", err);
                cx.count("closed_totals_checked", 1);
                req!(err <= 1e-11 + 1e-13 * ev.iter1 as f64, "between two reflecting walls the total of equation {j} went from {a:e} to {b:e} by step {}", ev.iter1);
                moved |= ev.cons[2] != c0[2] || ev.cons[sp.s / 2] != c0[sp.s / 2];
            }
        }
        Ok(moved)
    });
    rep.family("uniform_ends", rep.n(600, 10_000), if rep.thorough { 60.0 } else { 4.0 }, |r, cx| {
        let ph = phys(r);
        let s = 204;
        let (mut prim, cs) = data(r, ph, s, Kind::Uniform, MED, 1.0, 1.0);
        let (p2, _) = data(r, ph, s, Kind::Cells, MED, prim[0], 1.0);
        let w = r.range(1, 20);
        for j in 0..ph.e() {
            for i in 102 - w..102 + w {
                prim[j * s + i] = p2[j * s + i];
            }
        }
        let mut sp = Spec { phys: ph, s, flux: flux_tvd(r), xi: interval(r, s), gamma: gamma(r), prim, cs, rkf: gen::rkf(r, false), cfl: r.uni(0.1, 0.4), ..Default::default() };
        // neither waves nor the numerical domain of dependence reach the ends
        let steps = 6.0;
        set_duration(&mut sp, steps);
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 6;
        });
        let c0 = sim.cons();
        let _ = sim.run();
        let st = take_steps();
        for ev in st.iter().filter(|e| e.ok) {
            for j in 0..sp.e() {
                let (a, b) = (interior_sum(&c0, sp.e(), s, j), interior_sum(&ev.cons, sp.e(), s, j));
                let sc = interior_abs(&c0, s, j) + interior_abs(&ev.cons, s, j);
                let m = scales(ph, sp.gamma, &ev.prim, &sp.cs, s);
                let err = (a - b).abs() / (sc + 1e-3 * m[0] * m[1]);
                cx.max("uniform_ends_drift", err);
                req!(err <= 1e-12 * (1.0 + ev.iter1 as f64), "with the same uniform fluid at both ends the total of equation {j} went from {a:e} to {b:e} by step {}", ev.iter1);
                cx.count("uniform_totals_checked", 1);
            }
        }
        Ok(st.iter().any(|e| e.ok))
    });
}
fn cs_empty(sp: &Spec) -> bool {
    sp.cs.is_empty()
}
fn r_scale(r: &mut Rng) -> f64 {
    if r.chance(0.6) {
        1.0
    } else {
        r.log10(-6.0, 6.0)
    }
}
fn extrap(e: usize) -> Bc {
    Bc::Custom((0..e).map(|j| (j, CustomBoundaryMode::Extrapolate)).collect())
}
/// number of stages of one attempt as seen in the log, and the stages of the attempt that was taken
fn final_attempt<'a>(ev_idx: u64, n: usize, sg: &'a [StageEv]) -> Option<&'a [StageEv]> {
    // `step` of a stage is the number of calls of next_solution made so far, i.e. index + 1
    let lo = sg.iter().position(|s| s.step == ev_idx + 1)?;
    let hi = lo + sg[lo..].iter().take_while(|s| s.step == ev_idx + 1).count();
    if (hi - lo) % n != 0 {
        return None;
    }
    Some(&sg[hi - n..hi])
}
fn totals_over_steps(sp: &Spec, c0: &[f64], st: &[StepEv], sg: &[StageEv], cx: &mut Cx) -> Verdict {
    let (e, s) = (sp.e(), sp.s);
    let tb = tableau(sp.rkf.rkf_mode);
    let n = tb.b.len();
    let mut before = c0.to_vec();
    let mut any = false;
    let x = xs(sp);
    for (k, ev) in st.iter().enumerate() {
        if !ev.ok {
            break;
        }
        let att = final_attempt(k as u64, n, sg).ok_or("cannot match the recorded stages to the step")?;
        for j in 0..e {
            let (mut want, mut tol, mut usable) = (0.0, 0.0, true);
            for (q, g) in att.iter().enumerate() {
                let mut p = prim_of(sp.phys, sp.gamma, &g.cons, s);
                apply_bc(&sp.bc, &mut p, e, s, &x);
                let f = faces(sp.phys, sp.flux, sp.gamma, &p, &sp.cs, s);
                usable &= f.ok[1] && f.ok[s - 3];
                want -= ev.dt * tb.b[q] * (f.f[s - 3][j] - f.f[1][j]);
                tol += 1e-8 * ev.dt * tb.b[q].abs() * (f.scale[s - 3][j] + f.scale[1][j]);
                tol += 1e-12 * ev.dt * interior_abs(&g.rhs, s, j) * sp.dx();
            }
            tol += 1e-13 * (interior_abs(&before, s, j) + interior_abs(&ev.cons, s, j)) * sp.dx();
            let got = (interior_sum(&ev.cons, e, s, j) - interior_sum(&before, e, s, j)) * sp.dx();
            if usable {
                cx.count("step_balances", 1);
                cx.max("step_balance_err_over_tol", (got - want).abs() / tol);
                req!((got - want).abs() <= tol, "step {} (dt = {:e}): the total of equation {j} changed by {got:e}, the net boundary flux accounts for {want:e} (tolerance {tol:e})", ev.iter1, ev.dt);
                any = true;
            }
        }
        before = ev.cons.clone();
    }
    Ok(any)
}

// ------------------------------------------------------------------------------------------------ C02
pub fn c02(rep: &Rep) {
    rep.rule("uniform states over many decades of density, velocity and pressure, all schemes, limiters, integrators, meshes, step control on/off, zero-gradient or extrapolating ends; every step of the run is compared with the initial state. Non-trivial: at least one step was taken.");
    rep.family("uniform", rep.n(12_000, 200_000), if rep.thorough { 180.0 } else { 14.0 }, |r, cx| {
        let ph = phys(r);
        let s = small_size(r);
        let lim = *r.pick(&[MILD, MED, WILD]);
        let (d, v) = (r_scale(r), r_scale(r));
        let (prim, cs) = data(r, ph, s, Kind::Uniform, lim, d, v);
        let mut sp = Spec { phys: ph, s, flux: flux_any(r), xi: interval(r, s), gamma: gamma(r), prim, cs, cfl: r.uni(0.02, 0.9), n_out: r.range(1, 6), ..Default::default() };
        sp.rkf = gen::rkf(r, r_asc(&sp));
        sp.rkf.asc = r.chance(0.4);
        if r.chance(0.3) {
            sp.t0 = r.log10(-3.0, 1.0);
        }
        // linear extrapolation at an inflow end amplifies rounding errors exponentially: keep those runs short
        let ex = r.chance(0.35);
        if ex {
            sp.bc = (extrap(sp.e()), extrap(sp.e()));
            if r.chance(0.3) {
                sp.bc.0 = Bc::NoGrad;
            }
        } else if r.chance(0.5) {
            sp.bc = (no_grad_custom(r, sp.e()), no_grad_custom(r, sp.e()));
        }
        let steps = if ex { r.uni(1.0, 8.0) } else { r.uni(1.0, 150.0) };
        set_duration(&mut sp, steps);
        sp.t_end = sp.t0 + (sp.t_end - sp.t0).max(1e-9 * sp.t0);
        // a minimum width near the CFL width: whatever remains at an output or at the end may be shorter than that
        if !sp.rkf.asc && r.chance(0.4) {
            let dt = sp.cfl * sp.dx() / gen::speed(&sp);
            sp.dt_min = (dt * r.uni(0.001, 0.7)).min(0.3 * (sp.t_end - sp.t0) / sp.n_out as f64);
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 20_000;
        });
        let p0 = sim.prim();
        let res = sim.run();
        if let Err(m) = res {
            return Err(format!("the run of a uniform state failed: {m}"));
        }
        let st = take_steps();
        let tol = if ex { 1e-11 * (1.0 + sp.cfl).powf(3.0 * st.len() as f64) } else { 1e-11 * (1.0 + 0.1 * st.len() as f64) };
        // velocity and pressure come from conserved quantities: allow for their cancellation
        let c = sound(ph, sp.gamma, &col(&p0, sp.e(), s, 0), sp.cs.first().copied().unwrap_or(0.0));
        let amp = 1.0 + (p0[s] / c).powi(2);
        for ev in &st {
            let dv = diff_prim(ph, sp.gamma, &p0, &ev.prim, &sp.cs, s);
            cx.max("deviation_over_tol", dv / (tol * amp));
            req!(dv <= tol * amp, "after step {} a uniform state deviates by {dv:e} (relative)", ev.iter1);
            cx.count("steps", 1);
        }
        let t = sim.time();
        if sp.dt_min > 1e-6 * (sp.t_end - sp.t0) {
            cx.count("runs_with_large_dt_min", 1);
        }
        req!(sp.t_end - t.t <= 1e-9 * (sp.t_end - sp.t0) + 0.011 * sp.dt_min && t.t - sp.t_end <= 1e-9 * (sp.t_end - sp.t0), "the run ended at t = {:e} instead of {:e}", t.t, sp.t_end);
        Ok(!st.is_empty())
    });
}
fn r_asc(_: &Spec) -> bool {
    false
}

// ------------------------------------------------------------------------------------------------ C03
pub fn mirror(sp: &Spec) -> Spec {
    let mut m = sp.clone();
    let s = sp.s;
    m.xi = (-sp.xi.1, -sp.xi.0);
    m.bc = (sp.bc.1.clone(), sp.bc.0.clone());
    m.prim = mirror_prim(&sp.prim, sp.e(), s);
    m.cs = sp.cs.iter().rev().copied().collect();
    m
}
pub fn mirror_prim(p: &[f64], e: usize, s: usize) -> Vec<f64> {
    let mut q = p.to_vec();
    for j in 0..e {
        for i in 0..s {
            q[j * s + i] = if j == 1 { -p[j * s + s - 1 - i] } else { p[j * s + s - 1 - i] };
        }
    }
    q
}
/// errors of all attempts of a run with step control, from the recorded stages
pub fn asc_errors(sp: &Spec, st: &[StepEv], sg: &[StageEv]) -> Vec<Vec<(f64, f64)>> {
    let tb = tableau(sp.rkf.rkf_mode);
    let n = tb.b.len();
    let (e, s) = (sp.e(), sp.s);
    let mut out = vec![];
    for k in 0..st.len() {
        let mine: Vec<&StageEv> = sg.iter().filter(|g| g.step == k as u64 + 1).collect();
        let mut v = vec![];
        for att in mine.chunks(n) {
            if att.len() < n {
                break;
            }
            v.push(attempt(&tb, sp, att, e, s));
        }
        out.push(v);
    }
    out
}
/// (dt, err) of one attempt: dt is inferred from the second stage
fn attempt(tb: &Tableau, sp: &Spec, att: &[&StageEv], e: usize, s: usize) -> (f64, f64) {
    let k0 = &att[0].rhs;
    // the entry in which the step moved the state the most relative to its rounding error
    let mut best = (0.0, f64::NAN);
    for j in 0..e {
        for i in 2..s - 2 {
            let (y0, y1) = (att[0].cons[j * s + i], att[1].cons[j * s + i]);
            let q = (y1 - y0).abs() / (y0.abs() + y1.abs() + 1e-300);
            if k0[j * s + i] != 0.0 && q > best.0 {
                best = (q, (y0 - y1) / (tb.a[1][0] * k0[j * s + i]));
            }
        }
    }
    let dt = if best.0 > 1e-9 { best.1 } else { f64::NAN };
    let mut err = 0.0f64;
    for j in 0..e {
        for i in 2..s - 2 {
            let y0 = att[0].cons[j * s + i];
            let (mut h, mut d) = (y0, 0.0);
            for q in 0..tb.b.len() {
                h -= dt * tb.b[q] * att[q].rhs[j * s + i];
                d -= dt * (tb.b[q] - tb.bl[q]) * att[q].rhs[j * s + i];
            }
            err = err.max((d / (sp.rkf.asc_relative_tolerance * (h.abs() + sp.rkf.asc_absolute_tolerance))).abs());
        }
    }
    (dt, err)
}
/// number of leading steps in which no decision of the step control depends on rounding errors: the error estimate
/// is a difference of nearly equal numbers
pub fn asc_reliable(sp: &Spec, st: &[StepEv], sg: &[StageEv]) -> usize {
    if !(sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded) {
        return usize::MAX;
    }
    let big = sg.iter().flat_map(|g| g.cons.iter()).fold(0.0f64, |a, x| a.max(x.abs()));
    let noise = 1e-15 * (1.0 + big / sp.rkf.asc_absolute_tolerance.min(big)) / sp.rkf.asc_relative_tolerance;
    asc_errors(sp, st, sg)
        .iter()
        .position(|v| v.iter().any(|(_, e)| !e.is_finite() || (*e != 0.0 && noise / e > 1e-7) || (e - 1.0).abs() < 1e-4))
        .unwrap_or(usize::MAX)
}
pub fn c03(rep: &Rep) {
    rep.rule("pairs of mirrored problems (mesh, data, boundary conditions) run side by side through the real code; steps, times, verdicts and every state are compared after reflection. Non-trivial: the data are not mirror symmetric and at least one step was taken.");
    rep.family("pairs", rep.n(8000, 150_000), if rep.thorough { 200.0 } else { 15.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MILD, MED]);
        let mut sp = problem(r, lim, 25.0);
        sp.rkf.asc = r.chance(0.3);
        if r.chance(0.25) {
            // any mode for the velocity, extrapolation for the rest
            let e = sp.e();
            let mk = |r: &mut Rng| {
                let mut v: Vec<_> = (0..e).map(|j| (j, *r.pick(&[CustomBoundaryMode::NoGradients, CustomBoundaryMode::Extrapolate]))).collect();
                v[1].1 = *r.pick(&[CustomBoundaryMode::OutFlowExtrapolate, CustomBoundaryMode::OutflowNoGradients, CustomBoundaryMode::Extrapolate, CustomBoundaryMode::Reflecting, CustomBoundaryMode::NearZero]);
                Bc::Custom(v)
            };
            sp.bc = (mk(r), mk(r));
        }
        if r.chance(0.3) {
            sp.dt_max = sp.cfl * sp.dx() / speed(&sp) * r.uni(0.3, 1.2);
        }
        // avoid the sign decision of outflow boundaries being taken on a zero
        for i in 0..sp.s {
            if sp.prim[sp.s + i] == 0.0 {
                sp.prim[sp.s + i] = 1e-3;
            }
        }
        cx.desc = sp.describe();
        let run = |sp: &Spec| -> Result<(Result<(), String>, Vec<StepEv>, Vec<StageEv>, Vec<f64>), String> {
            crate::mon::reset();
            let mut sim = make(sp)?;
            ctl(|c| {
                c.log_steps = true;
                c.keep_cons = true;
                c.log_stages = sp.rkf.asc;
                c.step_limit = 60;
            });
            let p0 = sim.prim();
            let res = sim.run();
            Ok((res, take_steps(), take_stages(), p0))
        };
        let ms = mirror(&sp);
        let a = run(&sp)?;
        let b = run(&ms)?;
        let asc = sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded;
        let reliable = asc_reliable(&sp, &a.1, &a.2);
        let mut n = 0;
        let mut grow = if asc { 1e-5 } else { 1e-9 };
        for (x, y) in std::iter::once((&a.3, &b.3, 0.0, 0.0, 0.0, 0.0, true, true))
            .chain(a.1.iter().zip(&b.1).map(|(x, y)| (&x.prim, &y.prim, x.dt, y.dt, x.t1, y.t1, x.ok, y.ok)))
            .map(|q| (q, ()))
        {
            let _ = y;
            let (p, q, dta, dtb, ta, tb, oka, okb) = x;
            if n > reliable {
                break;
            }
            if oka != okb && sensitive(&sp, n - 1, None, 1e-12, 60) {
                cx.count("ill_conditioned", 1);
                return Ok(false);
            }
            req!(oka == okb, "one of two mirrored runs failed at step {n}, the other did not ({:?} / {:?})", a.0, b.0);
            if !oka {
                break;
            }
            let d = diff_prim(sp.phys, sp.gamma, p, &mirror_prim(q, sp.e(), sp.s), &sp.cs, sp.s);
            cx.max("mirror_difference", d);
            cx.max("mirror_difference_over_tol", d / grow);
            if !(d <= grow) && n > 0 && sensitive(&sp, n - 1, Some(d), 1e-12, 60) {
                cx.count("ill_conditioned", 1);
                return Ok(false);
            }
            req!(d <= grow, "after {n} steps the mirrored solution differs by {d:e} (relative)");
            let dd = (dta - dtb).abs() / (dta.abs() + 1e-300);
            req!(dd <= grow * 10.0, "step {n}: widths {dta:e} and {dtb:e} of the mirrored runs differ");
            req!((ta - tb).abs() <= grow * 10.0 * (sp.t_end - sp.t0), "step {n}: times {ta:e} and {tb:e}");
            cx.count("states_compared", 1);
            n += 1;
            grow = (grow * 1.5).min(if asc { 1e-3 } else { 1e-5 });
        }
        if reliable == usize::MAX {
            req!(a.1.len() == b.1.len(), "mirrored runs took {} and {} steps", a.1.len(), b.1.len());
        }
        let asym = diff_prim(sp.phys, sp.gamma, &sp.prim, &mirror_prim(&sp.prim, sp.e(), sp.s), &sp.cs, sp.s) > 1e-3;
        Ok(asym && n > 1)
    });
}

// ------------------------------------------------------------------------------------------------ C04
pub fn c04(rep: &Rep) {
    rep.rule("pairs of problems which differ by a change of units (power-of-two factors for length, density and velocity, so that exact arithmetic scaling is expected, up to 2^60 each; also factors like 3.7e5) or by a shift of the mesh or of the time at which the run starts; all steps compared. Non-trivial: at least one step and a factor different from one.");
    rep.family("units", rep.n(8000, 150_000), if rep.thorough { 150.0 } else { 11.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 25.0);
        sp.rkf.asc = r.chance(0.25);
        if r.chance(0.3) {
            sp.dt_max = sp.cfl * sp.dx() / speed(&sp) * r.uni(0.3, 1.2);
        }
        if r.chance(0.3) {
            sp.t0 = r.uni(0.1, 2.0) * (sp.t_end - sp.t0);
            sp.t_end += sp.t0;
        }
        let p2 = r.chance(0.8);
        let mut k = |m: i32| if p2 { 2f64.powi(r.below(2 * m as usize + 1) as i32 - m) } else { r.log10(-8.0, 8.0) };
        let (l, mut d, mut v) = (k(60), k(60), k(40));
        if sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded {
            d = 1.0;
            v = 1.0;
        }
        let t = l / v;
        let (e, s) = (sp.e(), sp.s);
        let mut sc = sp.clone();
        sc.xi = (sp.xi.0 * l, sp.xi.1 * l);
        sc.t0 *= t;
        sc.t_end *= t;
        sc.dt_min *= t;
        if sp.dt_max < f64::MAX {
            sc.dt_max *= t;
        }
        let f = [d, v, d * v * v];
        for j in 0..e {
            for i in 0..s {
                sc.prim[j * s + i] *= f[j];
            }
        }
        sc.cs.iter_mut().for_each(|c| *c *= v);
        cx.desc = format!("L={l:e} D={d:e} V={v:e} {}", sp.describe());
        let back = |p: &[f64]| -> Vec<f64> { (0..e * s).map(|i| p[i] / f[i / s]).collect() };
        compare_pair(&sp, &sc, &back, t, 60, if p2 { (1e-12, 1e-15) } else { (1e-9, 1e-14) }, cx).map(|n| n && (l != 1.0 || d != 1.0 || v != 1.0))
    });
    rep.family("shift", rep.n(6000, 100_000), if rep.thorough { 120.0 } else { 8.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 25.0);
        let dy = r.chance(0.5);
        let n = (sp.s - 4) as f64;
        let dx = if dy { 2f64.powi(r.below(21) as i32 - 10) } else { sp.dx() };
        let a = if dy { dx * (r.below(400) as f64 + 3.0) } else { sp.xi.0 };
        sp.xi = (a, a + n * dx);
        let steps = r.uni(3.0, 25.0);
        set_duration(&mut sp, steps);
        let mut sc = sp.clone();
        let sh = loop {
            let sh = if dy { dx * (r.below(4000) as f64 - 2000.0) } else { r.uni(-300.0, 300.0) * n * dx };
            sc.xi = (sp.xi.0 + sh, sp.xi.1 + sh);
            if !hits_zero(sc.xi, sp.s) {
                break sh;
            }
        };
        if hits_zero(sp.xi, sp.s) {
            return Ok(false);
        }
        // the shifted mesh resolves coordinates to eps * |xi| only
        let g = 3e-16 * (sc.xi.0.abs() + sc.xi.1.abs() + sp.xi.0.abs() + sp.xi.1.abs()) / dx;
        cx.desc = format!("shift={sh:e} {}", sp.describe());
        compare_pair(&sp, &sc, &|p: &[f64]| p.to_vec(), 1.0, 60, ((1e-9 + 300.0 * g).min(1e-6), g), cx)
    });
    rep.family("time", rep.n(5000, 80_000), if rep.thorough { 60.0 } else { 5.0 }, |r, cx| {
        // the clock starts somewhere else; the end is far away, so that nothing cuts a step short
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 25.0);
        sp.rkf.asc = r.chance(0.3);
        sp.n_out = 1;
        let dur = 1000.0 * (sp.t_end - sp.t0);
        sp.t0 = 0.0;
        sp.t_end = dur;
        let mut sc = sp.clone();
        sc.t0 = dur * r.log10(-5.0, 5.0);
        sc.t_end = sc.t0 + dur;
        cx.desc = format!("t0={:e} {}", sc.t0, sp.describe());
        let a = traced(&sp, 15)?;
        let b = traced(&sc, 15)?;
        req!(a.1.len() == b.1.len() && a.0.is_ok() == b.0.is_ok(), "the runs took {} and {} steps ({:?}/{:?})", a.1.len(), b.1.len(), a.0, b.0);
        for (x, y) in a.1.iter().zip(&b.1) {
            req!(x.ok == y.ok && x.dt == y.dt, "step {}: widths {:e} and {:e}", x.iter1, x.dt, y.dt);
            req!(bits_eq(&x.cons, &y.cons) && bits_eq(&x.prim, &y.prim), "after step {} the state depends on the time at which the run starts", x.iter1);
            cx.count("times_compared", 1);
        }
        Ok(a.1.len() > 2)
    });
}
type PairRun = (Result<(), String>, Vec<StepEv>, Vec<StageEv>, Vec<f64>);
fn traced(sp: &Spec, limit: u64) -> Result<PairRun, String> {
    crate::mon::reset();
    let mut sim = make(sp)?;
    ctl(|c| {
        c.log_steps = true;
        c.keep_cons = true;
        c.log_stages = sp.rkf.asc;
        c.step_limit = limit;
    });
    let p0 = sim.prim();
    let res = sim.run();
    Ok((res, take_steps(), take_stages(), p0))
}
/// Whether a problem is so sensitive that a relative perturbation of its data by `delta` changes the state after step
/// `k` by at least `d` (`None`: changes which steps succeed or how many there are). Used before a difference between
/// two runs is called a violation: rounding errors (far below `delta`) then explain it.
pub fn sensitive(sp: &Spec, k: usize, d: Option<f64>, delta: f64, limit: u64) -> bool {
    let Ok(a) = traced(sp, limit) else { return false };
    let m = scales(sp.phys, sp.gamma, &sp.prim, &sp.cs, sp.s);
    (0..8u64).any(|q| {
        let mut r = Rng::new(0x5e4517 + q);
        let mut sc = sp.clone();
        for i in 0..sp.e() * sp.s {
            let z = delta * r.uni(-1.0, 1.0);
            if i / sp.s == 1 {
                sc.prim[i] += z * m[1];
            } else {
                sc.prim[i] *= 1.0 + z;
            }
        }
        let Ok(b) = traced(&sc, limit) else { return false };
        match d {
            Some(d) => match (a.1.get(k), b.1.get(k)) {
                (Some(x), Some(y)) => !(diff_prim(sp.phys, sp.gamma, &x.prim, &y.prim, &sp.cs, sp.s) < d),
                _ => true,
            },
            None => a.1.len() != b.1.len() || a.1.iter().zip(&b.1).take(k + 1).any(|(x, y)| x.ok != y.ok),
        }
    })
}
fn compare_pair(sp: &Spec, sc: &Spec, back: &dyn Fn(&[f64]) -> Vec<f64>, t: f64, limit: u64, (tol0, noise): (f64, f64), cx: &mut Cx) -> Verdict {
    let mut at = (0, None);
    match compare_pair_at(sp, sc, back, t, limit, tol0, cx, &mut at) {
        Err(_) if sensitive(sp, at.0, at.1, 1e3 * noise.max(1e-15), limit) => {
            cx.count("ill_conditioned", 1);
            Ok(false)
        },
        v => v,
    }
}
fn compare_pair_at(sp: &Spec, sc: &Spec, back: &dyn Fn(&[f64]) -> Vec<f64>, t: f64, limit: u64, tol0: f64, cx: &mut Cx, at: &mut (usize, Option<f64>)) -> Verdict {
    let a = traced(sp, limit)?;
    let b = traced(sc, limit)?;
    let asc = sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded;
    let reliable = asc_reliable(sp, &a.1, &a.2);
    let tol0 = if asc && tol0 > 1e-12 { tol0.max(1e-5) } else { tol0 };
    let mut tol = tol0;
    let d0 = diff_prim(sp.phys, sp.gamma, &a.3, &back(&b.3), &sp.cs, sp.s);
    req!(d0 <= tol, "initial states differ by {d0:e}");
    for (k, (x, y)) in a.1.iter().zip(&b.1).enumerate() {
        if k >= reliable {
            return Ok(k > 0);
        }
        *at = (k, None);
        req!(x.ok == y.ok, "step {}: one run failed, the other did not ({:?} / {:?})", x.iter1, a.0, b.0);
        if !x.ok {
            break;
        }
        tol = (tol * 1.5).min(1e-4);
        let d = diff_prim(sp.phys, sp.gamma, &x.prim, &back(&y.prim), &sp.cs, sp.s);
        *at = (k, Some(d));
        cx.max("pair_difference", d);
        cx.max("pair_difference_over_tol", d / tol);
        req!(d <= tol, "after step {} the solutions differ by {d:e} (relative), tolerance {tol:e}", x.iter1);
        req!((x.dt - y.dt / t).abs() <= 10.0 * tol * x.dt.abs() + 1e-12 * (sp.t_end - sp.t0), "step {}: widths {:e} and {:e}", x.iter1, x.dt, y.dt / t);
        cx.count("states_compared", 1);
    }
    *at = (a.1.len(), None);
    req!(a.1.len() == b.1.len(), "the runs took {} and {} steps ({:?}/{:?})", a.1.len(), b.1.len(), a.0, b.0);
    Ok(!a.1.is_empty())
}

// ------------------------------------------------------------------------------------------------ C05
pub fn c05(rep: &Rep) {
    rep.rule("random and canonical Riemann problems (adiabatic and isothermal, both flux schemes, all limiters and integrators), computed with 100, 200 and 400 cells and compared with the exact solution in L1; bound on the error at 400 cells and decrease with resolution. Non-trivial: the exact solution has a jump or fan of more than 5 percent.");
    rep.family("riemann", rep.n(400, 6000), if rep.thorough { 300.0 } else { 22.0 }, |r, cx| {
        let ph = phys(r);
        let g = gamma(r).clamp(1.15, 1.8);
        let cs = if ph == Phys::Iso { r.log10(-0.5, 0.5) } else { 0.0 };
        let mut st = |r: &mut Rng| -> (f64, f64, f64) {
            let rho = r.log10(-0.8, 0.8);
            let p = if ph == Phys::Adi { r.log10(-0.8, 0.8) } else { rho * cs * cs };
            let c = if ph == Phys::Adi { (g * p / rho).sqrt() } else { cs };
            (rho, r.uni(-1.0, 1.0) * c, p)
        };
        let (mut l, mut q) = (st(r), st(r));
        match r.below(8) {
            0 if ph == Phys::Adi => {
                l = (1.0, 0.0, 1.0);
                q = (0.125, 0.0, 0.1);
            },
            1 => {
                // symmetric collision or expansion
                q = (l.0, -l.1, l.2);
            },
            2 => {
                // moving contact / pure jump in density
                if ph == Phys::Adi {
                    q = (q.0, l.1, l.2);
                }
            },
            _ => {},
        }
        let ex = match Riemann::new(ph, g, cs, l, q) {
            Some(e) => e,
            None => return Ok(false),
        };
        if ex.ps < 0.02 * l.2.min(q.2) {
            return Ok(false);
        }
        let flux = flux_tvd(r);
        let mut rk = gen::rkf(r, false);
        if let Flux::Kt(_) = flux {
            // forward Euler is not stable with a second order scheme
            if rk.rkf_mode == RKFMode::RK1 {
                rk.rkf_mode = RKFMode::SSPRK3;
            }
        }
        let x0 = r.uni(0.4, 0.6);
        let off = r.uni(0.3, 3.0);
        // fastest wave travels about 0.35
        let c = |k: (f64, f64, f64)| if ph == Phys::Adi { (g * k.2 / k.0).sqrt() } else { cs };
        let mut sm = (l.1.abs() + c(l)).max(q.1.abs() + c(q)).max(ex.us.abs());
        for k in 0..400 {
            // shocks faster than the sound speed ahead
            let xi = (k as f64 / 399.0 * 2.0 - 1.0) * 6.0 * sm;
            let w = ex.w(xi);
            let outer = if xi < ex.us { l } else { q };
            if (w.0 - outer.0).abs() > 1e-9 * outer.0 {
                sm = sm.max(xi.abs());
            }
        }
        let t = 0.3 / sm;
        let mut errs = vec![];
        cx.desc = format!("{ph:?} {flux:?} {:?} g={g:.3} cs={cs:.3} L={l:?} R={q:?} t={t:.4}", rk.rkf_mode);
        let sizes: &[usize] = if rep.thorough { &[104, 204, 404, 1004] } else { &[104, 204, 404] };
        for &s in sizes {
            let n = s - 4;
            let mut sp = Spec { phys: ph, flux, rkf: rk, s, xi: (off, off + 1.0), gamma: g, t_end: t, cfl: 0.4, ..Default::default() };
            sp.cs = if ph == Phys::Iso { vec![cs; s] } else { vec![] };
            let mut p = vec![0.0; ph.e() * s];
            // cell averages of the discontinuous data
            let k = (x0 * n as f64).round();
            let xj = k / n as f64;
            for i in 0..s {
                let w = if (i as f64 - 2.0) < k { l } else { q };
                set_col(&mut p, s, i, &[w.0, w.1, w.2][..ph.e()]);
            }
            sp.prim = p;
            crate::mon::reset();
            let mut sim = make(&sp)?;
            ctl(|c| c.step_limit = 200_000);
            if let Err(m) = sim.run() {
                // stages of methods with negative coefficients are no averages of physical states: at large jumps one
                // may turn out non-positive although the data are harmless
                if tableau(sp.rkf.rkf_mode).a.iter().flatten().any(|a| *a < 0.0) {
                    cx.count("trial_stages_refused", 1);
                    return Ok(false);
                }
                return Err(format!("the run with {n} cells failed: {m}"));
            }
            let got = sim.prim();
            let tt = sim.time().t;
            let mut e = [0.0f64; 3];
            let mut nrm = [0.0f64; 3];
            for i in 2..s - 2 {
                let mut av = [0.0; 3];
                let m = 16;
                for z in 0..m {
                    let x = (i as f64 - 2.0 + (z as f64 + 0.5) / m as f64) / n as f64 - xj;
                    let w = ex.w(x / tt);
                    av[0] += w.0 / m as f64;
                    av[1] += w.1 / m as f64;
                    av[2] += w.2 / m as f64;
                }
                for j in 0..ph.e() {
                    e[j] += (got[j * s + i] - av[j]).abs() / n as f64;
                }
            }
            // norm: the variation of the solution
            let mut lo = [f64::INFINITY; 3];
            let mut hi = [f64::NEG_INFINITY; 3];
            for k in 0..2000 {
                let w = ex.w((k as f64 / 1000.0 - 1.0) * 1.5 * sm);
                for (j, x) in [w.0, w.1, w.2].iter().enumerate() {
                    lo[j] = lo[j].min(*x);
                    hi[j] = hi[j].max(*x);
                }
            }
            let cm = c(l).max(c(q));
            for j in 0..3 {
                nrm[j] = hi[j] - lo[j];
            }
            let strength = (nrm[0] / hi[0]).max(nrm[1] / cm);
            nrm[0] = nrm[0].max(0.3 * strength * hi[0]);
            nrm[1] = nrm[1].max(0.3 * strength * cm);
            nrm[2] = nrm[2].max(0.3 * strength * hi[2]);
            errs.push((n, (0..ph.e()).map(|j| e[j] / nrm[j]).fold(0.0, f64::max), strength));
        }
        let strength = errs[0].2;
        if strength < 0.05 {
            return Ok(false);
        }
        cx.count("solutions_compared", errs.len() as u64);
        let hll = flux == Flux::Hll;
        for &(n, e, _) in &errs {
            // calibrated on the tree: see DESIGN.md
            let bound = if hll { 0.14 * (n as f64 / 100.0).powf(-0.45) } else { 0.075 * (n as f64 / 100.0).powf(-0.6) };
            let key = if hll { "hll_err_over_bound" } else { "kt_err_over_bound" };
            cx.max(&format!("{key}_{n}"), e * (1.0 / bound));
            cx.max(&format!("{}_scaled_{n}", if hll { "hll" } else { "kt" }), e);
            req!(e <= bound, "L1 error with {n} cells is {e:.4} of the jump, bound {bound:.4} (all: {errs:?})");
        }
        let (a, b) = (errs[0].1, errs[errs.len() - 1].1);
        cx.max(if hll { "hll_ratio" } else { "kt_ratio" }, b / a);
        req!(b < 0.8 * a, "the L1 error does not decrease with resolution: {errs:?}");
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C06
pub fn c06(rep: &Rep) {
    rep.rule("random states of 9 kinds with all ghost cells filled, all limiters, both systems, also spatially varying isothermal sound speed, through the real flux objects into a buffer of garbage; compared cell by cell with independent HLL / Kurganov-Tadmor fluxes, entries outside the interior bit-compared with the garbage, and the first state evaluated again after a different one. Non-trivial: non-uniform and at least one cell compared.");
    rep.family("flux", rep.n(150_000, 3_000_000), if rep.thorough { 200.0 } else { 14.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[6, 7, 8, 11, 16, 33]);
        let kind = *r.pick(KINDS);
        let lim = *r.pick(&[MILD, MED, WILD]);
        let (d, v) = (r_scale(r), r_scale(r));
        let (prim, mut cs) = data(r, ph, s, kind, lim, d, v);
        if ph == Phys::Iso && r.chance(0.3) {
            cs.iter_mut().for_each(|c| *c *= r.uni(0.5, 2.0));
        }
        let sp = Spec { phys: ph, s, flux: flux_any(r), xi: interval(r, s), gamma: gamma(r), bc: (bc_sane(r, ph.e()), bc_sane(r, ph.e())), prim, cs, ..Default::default() };
        cx.desc = sp.describe();
        let e = sp.e();
        let mut sim = make(&sp)?;
        let junk: Vec<f64> = (0..e * s).map(|_| r.uni(-1.0, 1.0) * 1e30).collect();
        let filled = sim.prim();
        let first = sim.raw_flux(&junk);
        let f = faces(ph, sp.flux, sp.gamma, &filled, &sp.cs, s);
        let mut n = 0;
        if let Ok(dd) = &first {
            for j in 0..e {
                for i in 0..s {
                    let (got, k) = (dd[j * s + i], j * s + i);
                    if i < 2 || i > s - 3 {
                        req!(got.to_bits() == junk[k].to_bits(), "entry [{j},{i}] outside the interior was changed to {got:e}");
                        continue;
                    }
                    if !f.ok[i] || !f.ok[i - 1] {
                        continue;
                    }
                    let want = (f.f[i][j] - f.f[i - 1][j]) / sp.dx();
                    let tol = 4e-9 * (f.scale[i][j] + f.scale[i - 1][j]) / sp.dx();
                    cx.max("flux_err_over_tol", (got - want).abs() / tol);
                    req!((got - want).abs() <= tol, "divergence [{j},{i}] is {got:e}, reference {want:e} (tolerance {tol:e})");
                    n += 1;
                }
            }
        } else if f.ok[1..=s - 3].iter().all(|x| *x) {
            return Err(format!("the flux scheme failed on a regular state: {:?}", first));
        }
        cx.count("cells_compared", n);
        // another state in between must not leave a trace
        let k2 = *r.pick(KINDS);
        let (p2, c2) = data(r, ph, s, k2, MED, d, v);
        load(sim.as_mut(), &p2, &c2);
        let _ = sim.raw_flux(&junk);
        load(sim.as_mut(), &sp.prim, &sp.cs);
        let again = sim.raw_flux(&junk);
        match (&first, &again) {
            (Ok(a), Ok(b)) => {
                req!(bits_eq(a, b), "evaluating the same state again after another one gives a different divergence");
                cx.count("reevaluations", 1);
            },
            (Err(_), Err(_)) => {},
            _ => return Err("evaluating the same state again has a different verdict".into()),
        }
        // the solver's own right-hand side is the same quantity
        load(sim.as_mut(), &sp.prim, &sp.cs);
        if let (Ok(a), Ok(b)) = (&first, sim.rhs_update()) {
            let m2 = mach2(&sp, &filled);
            for j in 0..e {
                for i in 2..s - 2 {
                    if f.ok[i] && f.ok[i - 1] {
                        let tol = 1e-9 * (f.scale[i][j] + f.scale[i - 1][j]) / sp.dx() * (1.0 + m2);
                        req!((a[j * s + i] - b[j * s + i]).abs() <= tol, "Rhs::update [{j},{i}] gives {:e}, the flux scheme {:e}", b[j * s + i], a[j * s + i]);
                    }
                }
            }
        }
        Ok(n > 0 && kind != Kind::Uniform)
    });
}
/// largest squared Mach number: amplification of rounding errors in the pressure
fn mach2(sp: &Spec, prim: &[f64]) -> f64 {
    (0..sp.s)
        .map(|i| {
            let q = col(prim, sp.e(), sp.s, i);
            (q[1] / sound(sp.phys, sp.gamma, &q, sp.cs.get(i).copied().unwrap_or(0.0))).powi(2)
        })
        .fold(0.0, f64::max)
}

// ------------------------------------------------------------------------------------------------ C07
pub fn c07(rep: &Rep) {
    rep.rule("random conserved fields (also ramps, plateaus, extrema, linear profiles, scales from 1e-80 to 1e80) through the real Kurganov-Tadmor scheme; the west and east face values it leaves in the state are compared with the documented slopes, means, bounds. Non-trivial: some slope is non-zero.");
    rep.family("faces", rep.n(150_000, 3_000_000), if rep.thorough { 200.0 } else { 12.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[6, 7, 8, 11, 16, 33]);
        let m = limiter_any(r);
        let kind = *r.pick(KINDS);
        let lim = *r.pick(&[MILD, MED, WILD]);
        let d = if r.chance(0.6) { 1.0 } else { r.log10(-80.0, 80.0) };
        let (mut prim, cs) = data(r, ph, s, kind, lim, d, 1.0);
        let lin = r.chance(0.2);
        let e = ph.e();
        let g = gamma(r);
        let mut cons_lin = vec![];
        if lin {
            // linear conserved quantities with positive pressure
            let n = s as f64;
            let (a, b) = (r.uni(1.0, 2.0), r.uni(-0.9, 0.9) / n);
            let (c, f) = (r.uni(-1.0, 1.0), r.uni(-1.0, 1.0) / n);
            let (h, k) = (r.uni(60.0, 90.0), r.uni(-20.0, 20.0) / n);
            cons_lin = vec![0.0; e * s];
            for i in 0..s {
                let x = i as f64;
                set_col(&mut cons_lin, s, i, &[d * (a + b * x), d * (c + f * x), d * (h + k * x)][..e]);
            }
            prim = prim_of(ph, g, &cons_lin, s);
        }
        let sp = Spec { phys: ph, s, flux: Flux::Kt(m), xi: interval(r, s), gamma: g, prim, cs, ..Default::default() };
        cx.desc = format!("linear={lin} {}", sp.describe());
        let mut sim = make(&sp)?;
        let _ = sim.raw_flux(&vec![0.0; e * s]);
        let (c, w, ea) = (sim.cons(), sim.vars(Dir::West).cons, sim.vars(Dir::East).cons);
        let tvd = match m {
            LimiterMode::NoLimiter => false,
            LimiterMode::Monocent(p) => p <= 2.0,
            _ => true,
        };
        let mut any = false;
        for j in 0..e {
            for i in 1..s - 1 {
                let k = j * s + i;
                let (u, um, up) = (c[k], c[k - 1], c[k + 1]);
                let (a, b) = (u - um, up - u);
                // coordinates resolve to eps * |xi| only
                let geo = 1e-15 * (1.0 + (sp.xi.0.abs() + sp.xi.1.abs()) / sp.dx());
                let eps = 1e-14 * (u.abs() + um.abs() + up.abs()) + geo * (ea[k] - w[k]).abs() + 1e-300;
                let (mid, sl) = (0.5 * (w[k] + ea[k]), ea[k] - w[k]);
                req!((mid - u).abs() <= eps, "cell [{j},{i}]: the faces {:e}, {:e} average to {mid:e}, not to the mean {u:e}", w[k], ea[k]);
                let want = limiter(m, a, b);
                let tol = 4.0 * eps + 1e-11 * (a.abs() + b.abs()) * if let LimiterMode::Monocent(p) = m { p } else { 1.0 };
                cx.max("slope_err_over_tol", (sl - want).abs() / tol);
                req!((sl - want).abs() <= tol, "cell [{j},{i}] with differences {a:e}, {b:e}: slope {sl:e}, documented {want:e} ({m:?})");
                cx.count("cells", 1);
                any |= want != 0.0;
                if tvd {
                    let (lo, hi) = (um.min(u).min(up), um.max(u).max(up));
                    for x in [w[k], ea[k]] {
                        req!(x >= lo - eps && x <= hi + eps, "cell [{j},{i}]: face value {x:e} outside of [{lo:e}, {hi:e}]");
                    }
                    if (u >= um && u >= up) || (u <= um && u <= up) {
                        req!(sl.abs() <= 2.0 * eps, "cell [{j},{i}] is an extremum but has slope {sl:e}");
                        cx.count("extrema", 1);
                    }
                }
                if lin && i >= 3 && i <= s - 4 && m != LimiterMode::Superbee {
                    let step = cons_lin[j * s + 1] - cons_lin[j * s];
                    req!((sl - step).abs() <= 40.0 * eps + 1e-9 * step.abs(), "linear data of slope {step:e} reconstructed with slope {sl:e} in cell [{j},{i}] ({m:?})");
                    cx.count("linear_cells", 1);
                }
            }
        }
        Ok(any)
    });
}

// ------------------------------------------------------------------------------------------------ C08
type Ode = std::rc::Rc<dyn Fn(&ndarray::Array2<f64>, &mut ndarray::Array2<f64>)>;
/// a smooth nonlinear system of ODEs per cell with some coupling between neighbours; `f(y) = -dy/dt`
fn ode(r: &mut Rng, e: usize, s: usize, couple: bool) -> Ode {
    let w: Vec<f64> = (0..4).map(|_| r.uni(0.3, 1.5)).collect();
    let kap = if couple { r.uni(0.0, 0.3) } else { 0.0 };
    std::rc::Rc::new(move |y, d| {
        for i in 2..s - 2 {
            let n = |j: usize| if i > 2 && i < s - 3 { y[[j, i - 1]] - 2.0 * y[[j, i]] + y[[j, i + 1]] } else { 0.0 };
            let (a, b) = (y[[0, i]], y[[1, i]]);
            d[[0, i]] = -w[0] * a * (1.5 - a) - 0.1 * b.sin() * a - kap * n(0);
            d[[1, i]] = w[1] * (b - (2.0 * a).sin()) - kap * n(1);
            if e == 3 {
                let q = y[[2, i]];
                d[[2, i]] = -w[2] * (60.0 + 10.0 * (w[3] * a + b).sin() - q) - kap * n(2);
            }
        }
    })
}
fn ode_spec(r: &mut Rng, m: RKFMode) -> Spec {
    let ph = phys(r);
    let s = *r.pick(&[6, 7, 11, 16]);
    let e = ph.e();
    let mut p = vec![0.0; e * s];
    let g = 1.4;
    for i in 0..s {
        let c = [r.uni(0.4, 2.5), r.uni(-1.0, 1.0), r.uni(50.0, 70.0)];
        set_col(&mut p, s, i, &to_prim(ph, g, &c[..e]));
    }
    Spec {
        phys: ph,
        flux: Flux::Ode,
        s,
        xi: (1.0, 1e9),
        gamma: g,
        prim: p,
        cs: if ph == Phys::Iso { vec![1.0; s] } else { vec![] },
        rkf: RkfConfig { rkf_mode: m, ..Default::default() },
        t_end: 1.0,
        dt_min: 1e-12,
        ..Default::default()
    }
}
/// compares every recorded step and stage with the Runge-Kutta formula
fn rk_formula(sp: &Spec, c0: &[f64], st: &[StepEv], sg: &[StageEv], cx: &mut Cx) -> Result<u64, String> {
    let tb = tableau(sp.rkf.rkf_mode);
    let n = tb.b.len();
    let (e, s) = (sp.e(), sp.s);
    let mut y0 = c0.to_vec();
    let mut done = 0;
    for (k, ev) in st.iter().enumerate() {
        if !ev.ok {
            break;
        }
        let mine = sg.iter().filter(|g| g.step == k as u64 + 1).count();
        if !(sp.rkf.asc && tb.embedded) {
            req!(mine == n, "step {}: {mine} flux evaluations, {:?} has {n} stages", ev.iter1, sp.rkf.rkf_mode);
        } else {
            req!(mine % n == 0 && mine >= 2 * n, "step {}: {mine} flux evaluations with step control, not a multiple of {n}", ev.iter1);
        }
        let att = final_attempt(k as u64, n, sg).ok_or("stages do not match the step")?;
        for j in 0..e {
            for i in 2..s - 2 {
                let z = j * s + i;
                for q in 0..=n {
                    let w: Vec<f64> = if q < n { tb.a[q].clone() } else { tb.b.clone() };
                    let mut want = y0[z];
                    let mut mag = y0[z].abs();
                    for p in 0..q {
                        want -= ev.dt * w[p] * att[p].rhs[z];
                        mag += (ev.dt * w[p] * att[p].rhs[z]).abs();
                    }
                    let got = if q < n { att[q].cons[z] } else { ev.cons[z] };
                    // internal energy is converted to a pressure and back
                    let tol = 1e-12 * mag + 1e-300;
                    cx.max("stage_err_over_tol", (got - want).abs() / tol);
                    req!(
                        (got - want).abs() <= tol,
                        "{:?} step {} (dt = {:e}), {} of [{j},{i}]: {got:e}, the formula gives {want:e}",
                        sp.rkf.rkf_mode,
                        ev.iter1,
                        ev.dt,
                        if q < n { format!("stage {q}") } else { "result".into() }
                    );
                }
            }
        }
        done += 1;
        y0 = ev.cons.clone();
    }
    cx.count("steps_checked", done);
    cx.count("stages_checked", done * n as u64);
    Ok(done)
}
pub fn c08(rep: &Rep) {
    rep.rule("formula: recorded stage states, flux divergences and results of real steps (flows and user-supplied ODE right-hand sides, fixed or controlled width) vs the literature tableau. independence: a step from a solver with a history vs a fresh solver. consistency and order: constant right-hand sides are integrated exactly, nonlinear ODEs converge at the order of the method. Non-trivial: at least one successful step with non-zero right-hand side.");
    rep.family("formula_ode", rep.n(4000, 60_000), if rep.thorough { 60.0 } else { 4.0 }, |r, cx| {
        let m = mode(r);
        let mut sp = ode_spec(r, m);
        sp.dt_max = r.uni(0.01, 0.1);
        sp.rkf.asc = r.chance(0.3);
        sp.rkf.asc_relative_tolerance = r.log10(-5.0, -2.0);
        cx.desc = sp.describe();
        let f = ode(r, sp.e(), sp.s, true);
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_stages = true;
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 12;
            c.ode = Some(f);
        });
        let c0 = sim.cons();
        let _ = sim.run();
        let (st, sg) = (take_steps(), take_stages());
        Ok(rk_formula(&sp, &c0, &st, &sg, cx)? > 0)
    });
    rep.family("formula_flow", rep.n(4000, 60_000), if rep.thorough { 60.0 } else { 6.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 15.0);
        sp.rkf.asc = r.chance(0.3);
        if r.chance(0.2) {
            sp.flux = Flux::Kt(limiter_any(r));
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_stages = true;
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 25;
        });
        let c0 = sim.cons();
        let _ = sim.run();
        let (st, sg) = (take_steps(), take_stages());
        let n = rk_formula(&sp, &c0, &st, &sg, cx)?;
        // and the recorded right-hand sides are those of the recorded stage states
        let x = xs(&sp);
        for g in sg.iter().filter(|g| g.ok).step_by(3) {
            let mut p = prim_of(sp.phys, sp.gamma, &g.cons, sp.s);
            apply_bc(&sp.bc, &mut p, sp.e(), sp.s, &x);
            let f = faces(sp.phys, sp.flux, sp.gamma, &p, &sp.cs, sp.s);
            for j in 0..sp.e() {
                for i in 2..sp.s - 2 {
                    if f.ok[i] && f.ok[i - 1] {
                        let want = (f.f[i][j] - f.f[i - 1][j]) / sp.dx();
                        let tol = 1e-7 * (f.scale[i][j] + f.scale[i - 1][j]) / sp.dx();
                        let got = g.rhs[j * sp.s + i];
                        req!((got - want).abs() <= tol, "the divergence used in a stage is {got:e} at [{j},{i}], the one of the stage state is {want:e}");
                        cx.count("stage_divergences_checked", 1);
                    }
                }
            }
        }
        Ok(n > 0)
    });
    rep.family("independence", rep.n(1500, 20_000), if rep.thorough { 40.0 } else { 4.0 }, |r, cx| {
        let mut sp = problem(r, MILD, 12.0);
        sp.bc = (bc_sane(r, sp.e()), bc_sane(r, sp.e()));
        cx.desc = sp.describe();
        let mut a = make(&sp)?;
        for _ in 0..r.range(1, 6) {
            if a.step().is_err() {
                return Ok(false);
            }
        }
        if a.time().t >= sp.t_end * 0.999 {
            return Ok(false);
        }
        // one step after an unrelated excursion, and one step of a fresh solver
        let (cons, t) = (a.cons(), a.time());
        let mut b = make(&sp)?;
        b.set_cons(Dir::Cent, &cons);
        b.upd(Dir::Cent, Op::VarsFromCons);
        *b.ts() = t.clone();
        if r.chance(0.7) {
            let k = *r.pick(KINDS);
            let (p2, _) = data(r, sp.phys, sp.s, k, MED, 1.0, 1.0);
            a.set_prim(Dir::Cent, &p2);
            a.upd(Dir::Cent, Op::VarsFromPrim);
            for _ in 0..r.range(0, 2) {
                let _ = a.step();
            }
            a.set_cons(Dir::Cent, &cons);
            a.upd(Dir::Cent, Op::VarsFromCons);
            *a.ts() = t;
        }
        let (ra, rb) = (a.step(), b.step());
        req!(ra.is_ok() == rb.is_ok(), "same state, different verdicts: {ra:?} / {rb:?}");
        if ra.is_err() {
            return Ok(false);
        }
        let d = diff_prim(sp.phys, sp.gamma, &a.prim(), &b.prim(), &sp.cs, sp.s);
        cx.max("history_difference", d);
        req!(d <= 1e-11, "a step from the same state gives results which differ by {d:e}, depending on the history of the solver");
        req!((a.time().dt - b.time().dt).abs() <= 1e-11 * b.time().dt, "step widths differ with the history: {:e} / {:e}", a.time().dt, b.time().dt);
        Ok(true)
    });
    rep.family("consistency", rep.n(900, 5000), 5.0, |r, cx| {
        let m = MODES[cx.idx as usize % MODES.len()];
        let mut sp = ode_spec(r, m);
        sp.dt_max = r.uni(0.01, 0.1);
        sp.t_end = 10.0;
        cx.desc = sp.describe();
        let k: Vec<f64> = (0..sp.e()).map(|_| r.uni(0.5, 1.0)).collect();
        let (k2, s, e) = (k.clone(), sp.s, sp.e());
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.ode = Some(std::rc::Rc::new(move |_, d| {
                for j in 0..e {
                    for i in 2..s - 2 {
                        d[[j, i]] = k2[j];
                    }
                }
            }))
        });
        let c0 = sim.cons();
        sim.step()?;
        let (c1, dt) = (sim.cons(), sim.time().dt);
        for j in 0..e {
            for i in 2..s - 2 {
                let rel = (c1[j * s + i] - c0[j * s + i]) / (-dt * k[j]) - 1.0;
                let tol = 1e-14 * c0[j * s + i].abs() / (dt * k[j]) + 1e-13;
                if rel.abs() > tol {
                    // five-digit coefficients: weights sum to 0.999995
                    if m == RKFMode::SSPRK5 && (rel + 5e-6).abs() <= tol + 1e-10 {
                        cx.known.push(("ssprk5-weights".into(), "SSPRK5: the five-digit weights of the method sum to 0.999995, so a constant right-hand side is integrated with a relative error of -5e-6".into()));
                        cx.count("ssprk5_known", 1);
                        continue;
                    }
                    return Err(format!("{m:?}: a constant right-hand side {:e} is integrated over dt = {dt:e} with a relative error of {rel:e}", k[j]));
                }
                cx.count("constant_rhs_checked", 1);
            }
        }
        Ok(true)
    });
    rep.family("order", rep.n(450, 6000), if rep.thorough { 80.0 } else { 6.0 }, |r, cx| {
        let m = MODES[cx.idx as usize % MODES.len()];
        let base = ode_spec(r, m);
        let f = ode(r, base.e(), base.s, false);
        let (e, s) = (base.e(), base.s);
        cx.desc = base.describe();
        let tb = tableau(m);
        let run = |n: usize| -> Result<Vec<f64>, String> {
            let mut sp = base.clone();
            sp.dt_max = sp.t_end / n as f64;
            crate::mon::reset();
            let mut sim = make(&sp)?;
            ctl(|c| {
                c.ode = Some(f.clone());
                c.log_steps = true;
            });
            sim.run()?;
            let st = take_steps();
            req!(st.len() == n || st.len() == n + 1, "{} steps instead of {n}", st.len());
            Ok(sim.cons())
        };
        // reference by classical RK4 with many steps
        let mut sim = make(&base)?;
        let mut y = ndarray::Array2::from_shape_vec((e, s), sim.cons()).unwrap();
        let (mut k1, mut k2, mut k3, mut k4) = (y.clone() * 0.0, y.clone() * 0.0, y.clone() * 0.0, y.clone() * 0.0);
        let nn = 1024;
        let h = base.t_end / nn as f64;
        for _ in 0..nn {
            f(&y, &mut k1);
            f(&(&y - &(0.5 * h * &k1)), &mut k2);
            f(&(&y - &(0.5 * h * &k2)), &mut k3);
            f(&(&y - &(h * &k3)), &mut k4);
            y = &y - &(h / 6.0 * (&k1 + &(2.0 * &k2) + &(2.0 * &k3) + &k4));
        }
        let _ = sim.time();
        let err = |c: &[f64]| -> f64 {
            let mut q: f64 = 0.0;
            for j in 0..e {
                for i in 2..s - 2 {
                    q += (c[j * s + i] - y[[j, i]]).abs() / if j == 2 { 60.0 } else { 1.0 };
                }
            }
            q / (e * (s - 4)) as f64
        };
        let (n1, n2) = match tb.order {
            1 | 2 => (128, 256),
            3 => (32, 64),
            _ => (16, 32),
        };
        let (e1, e2) = (err(&run(n1)?), err(&run(n2)?));
        if m == RKFMode::SSPRK5 {
            // limited by its five-digit coefficients (known finding); must still be this accurate
            req!(e2 < 3e-5, "SSPRK5: error {e2:e} with {n2} steps");
            cx.max("ssprk5_error", e2);
            return Ok(true);
        }
        let p = (e1 / e2).log2();
        if e2 < 1e-13 {
            return Ok(false);
        }
        cx.max(&format!("{m:?}_neg_order"), -p);
        cx.max(&format!("{m:?}_order"), p);
        req!(p > tb.order as f64 - 0.4, "{m:?}: observed order {p:.2} (errors {e1:e} with {n1} steps, {e2:e} with {n2}), expected {}", tb.order);
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C09
pub fn c09(rep: &Rep) {
    rep.rule("runs with step control on (ODE right-hand sides and flows, all methods, tolerances from 1e-8 to 1e-1, dt_min/dt_max/output limits); the width and error of every attempt are reconstructed from the recorded stages with the literature tableaus and checked against the acceptance rule and the bounds. Non-trivial: at least one attempt was rejected, or the option was ignored by a method without embedded pair.");
    rep.family("control", rep.n(12_000, 150_000), if rep.thorough { 200.0 } else { 12.0 }, |r, cx| {
        let flow = r.chance(0.5);
        let mut sp;
        let mut f = None;
        if flow {
            let lim = *r.pick(&[MILD, MED]);
            sp = problem(r, lim, 15.0);
            if r.chance(0.08) {
                // nothing changes: the error estimate is exactly zero
                let s = sp.s;
                for j in 0..sp.e() {
                    let x = sp.prim[j * s + 2];
                    sp.prim[j * s..(j + 1) * s].fill(x);
                }
                if !sp.cs.is_empty() {
                    let x = sp.cs[2];
                    sp.cs.fill(x);
                }
                sp.bc = (Bc::NoGrad, Bc::NoGrad);
                let k = r.log10(0.5, 2.5);
                set_duration(&mut sp, k);
            }
        } else {
            let m = mode(r);
            sp = ode_spec(r, m);
            sp.dt_max = r.log10(-2.0, 1.0);
            sp.n_out = r.range(0, 4);
            f = Some(ode(r, sp.e(), sp.s, true));
        }
        while !tableau(sp.rkf.rkf_mode).embedded {
            sp.rkf.rkf_mode = mode(r);
        }
        sp.rkf.asc = true;
        sp.rkf.asc_relative_tolerance = r.log10(-8.0, -1.0);
        sp.rkf.asc_absolute_tolerance = r.log10(-6.0, 1.0);
        sp.rkf.asc_timestep_friction = r.uni(0.001, 0.1);
        if flow && r.chance(0.3) {
            sp.dt_max = sp.cfl * sp.dx() / speed(&sp) * r.log10(-1.5, 1.0);
        }
        if r.chance(0.2) {
            // make dt_min matter
            sp.dt_min = if flow { sp.cfl * sp.dx() / speed(&sp) } else { sp.dt_max } * r.log10(-4.0, -0.5);
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_stages = true;
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 15;
            c.call_limit = 40_000;
            c.ode = f;
        });
        let p0 = sim.prim();
        let res = sim.run();
        let hit = ctl(|c| c.limit_hit);
        let steps_hit = ctl(|c| c.step_calls > 15);
        let (st, sg) = (take_steps(), take_stages());
        req!(!hit || steps_hit, "a single step made {} flux evaluations without an end", sg.len());
        let tb = tableau(sp.rkf.rkf_mode);
        let n = tb.b.len();
        let (e, s) = (sp.e(), sp.s);
        let big = |g: &[f64]| g.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let mut rejected = 0u64;
        let mut before = p0.clone();
        for (k, ev) in st.iter().enumerate() {
            let mine: Vec<&StageEv> = sg.iter().filter(|g| g.step == k as u64 + 1).collect();
            if mine.is_empty() {
                break;
            }
            let full: Vec<&[&StageEv]> = mine.chunks(n).filter(|c| c.len() == n && c.iter().all(|g| g.ok)).collect();
            let mut prev: Option<f64> = None;
            let cap = |dt: f64| -> f64 {
                let mut d = dt.min(sp.dt_max);
                for l in [ev.t_next, sp.t_end] {
                    if l > ev.t0 && ev.t0 + d > l {
                        d = l - ev.t0;
                    }
                }
                d
            };
            // in a successful step the last computation is the step itself; in a failing one the last two may be an
            // accepted attempt and the step, unless the run was given up because of dt_min
            let gave_up = !ev.ok && matches!(&res, Err(m) if m.contains("dt_min"));
            let n_att = match (ev.ok, gave_up) {
                (true, _) => full.len().saturating_sub(1).max(1),
                (_, true) => full.len(),
                _ => full.len().saturating_sub(2),
            };
            for (ai, att) in full.iter().enumerate().take(n_att) {
                let noise = 1e-15 * (1.0 + big(&att[0].cons) / sp.rkf.asc_absolute_tolerance) / sp.rkf.asc_relative_tolerance;
                let (dt, er) = attempt(&tb, &sp, att, e, s);
                if dt.is_nan() {
                    if ai == 0 && n_att == 1 && ev.ok && att.iter().all(|g| g.rhs.iter().all(|x| *x == 0.0)) {
                        // an attempt that changes nothing does not tell its width, but the first one is known
                        let lim = cap(4.0 * cap(cfl_dt(sp.phys, sp.gamma, &before, &sp.cs, s, sp.dx(), sp.cfl)));
                        req!(ev.dt > 0.0 && ev.dt <= lim * (1.0 + 1e-6), "step {} was taken with width {:e}, more than {lim:e} allowed after the first attempt", ev.iter1, ev.dt);
                        cx.count("zero_errors", 1);
                    }
                    prev = None;
                    continue;
                }
                // relative uncertainty of the reconstructed width
                let u = 1e-6;
                if ai == 0 {
                    let first = cap(cfl_dt(sp.phys, sp.gamma, &before, &sp.cs, s, sp.dx(), sp.cfl));
                    req!((dt - first).abs() <= u * first, "step {}: the first attempt has width {dt:e}, expected {first:e}", ev.iter1);
                }
                if let Some(d) = prev {
                    let q = dt / d;
                    cx.max("retry_factor_max", q);
                    cx.max("retry_factor_neg_min", -q);
                    req!(q >= 0.25 - u && q < 1.0 + 1e-9, "step {}: attempt {ai} has {q} times the width of the rejected one before ({dt:e} after {d:e})", ev.iter1);
                    // a rejected attempt must really have been inaccurate: checked below when it was seen
                    req!(dt >= sp.dt_min * (1.0 - u), "step {}: attempt {ai} has width {dt:e}, below dt_min = {:e}", ev.iter1, sp.dt_min);
                }
                let last = ai + 1 == n_att && ev.ok;
                let clear = (er - 1.0).abs() > 1e-5 + 10.0 * noise;
                if clear {
                    if !last {
                        req!(er > 1.0, "step {}: attempt {ai} (dt = {dt:e}) was repeated although its error is {er} < 1", ev.iter1);
                        rejected += 1;
                    } else {
                        req!(er < 1.0, "step {}: attempt {ai} (dt = {dt:e}) was accepted although its error is {er} > 1", ev.iter1);
                    }
                    cx.count("decisions_checked", 1);
                }
                if last && ev.ok {
                    let lim = cap(4.0 * dt);
                    req!(ev.dt > 0.0, "step {} has width {:e}", ev.iter1, ev.dt);
                    req!(ev.dt <= lim * (1.0 + u), "step {} was taken with width {:e}, more than {lim:e} allowed after an accepted attempt of {dt:e}", ev.iter1, ev.dt);
                    cx.count("accepted_checked", 1);
                }
                prev = Some(dt);
            }
            if ev.ok {
                req!(ev.dt > 0.0 && ev.dt <= cap(f64::MAX) * (1.0 + 1e-12), "step {}: width {:e} exceeds the limits", ev.iter1, ev.dt);
                before = ev.prim.clone();
            } else if let Err(m) = &res {
                // the run ended here: dt_min, or a trial state that is not valid, or a harness limit
                let small = m.contains("dt_min");
                if small {
                    cx.count("dt_min_errors", 1);
                    if let Some(d) = prev {
                        req!(d * 0.25 < sp.dt_min * (1.0 + 1e-6), "the run was given up because of dt_min = {:e} after an attempt of width {d:e}", sp.dt_min);
                    }
                }
            }
        }
        cx.count("rejected_attempts", rejected);
        // attempts of one step below dt_min must not go on: the count of attempts is bounded
        Ok(rejected > 0)
    });
    rep.family("ignored", rep.n(600, 6000), if rep.thorough { 30.0 } else { 3.0 }, |r, cx| {
        let mut sp = problem(r, MILD, 15.0);
        while tableau(sp.rkf.rkf_mode).embedded {
            sp.rkf.rkf_mode = mode(r);
        }
        sp.rkf.asc_relative_tolerance = r.log10(-8.0, -1.0);
        cx.desc = sp.describe();
        let a = traced(&sp, 40)?;
        sp.rkf.asc = true;
        let b = traced(&sp, 40)?;
        req!(a.0.is_ok() == b.0.is_ok() && a.1.len() == b.1.len(), "{:?} does not support step control, but the option changes the run", sp.rkf.rkf_mode);
        for (x, y) in a.1.iter().zip(&b.1) {
            req!(bits_eq(&x.cons, &y.cons) && x.dt == y.dt, "{:?} does not support step control, but the option changes step {}", sp.rkf.rkf_mode, x.iter1);
        }
        Ok(!a.1.is_empty())
    });
}

// ------------------------------------------------------------------------------------------------ C10
pub fn c10(rep: &Rep) {
    rep.rule("every step of runs without step control (all schemes and integrators, flow in either direction, random dt_max, output times, end times): width recomputed from the recorded state before the step. Also states without finite step. Non-trivial: some step was limited by the CFL condition itself.");
    rep.family("steps", rep.n(15_000, 200_000), if rep.thorough { 150.0 } else { 10.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED, WILD]);
        let mut sp = problem(r, lim, 25.0);
        sp.cfl = r.uni(0.02, 0.6);
        if r.chance(0.3) {
            sp.dt_max = sp.cfl * sp.dx() / speed(&sp) * r.log10(-1.5, 0.7);
        }
        if r.chance(0.3) {
            sp.n_out = r.range(1, 40);
        }
        // often: all flow in one direction, supersonic
        if r.chance(0.4) {
            let c = r.sign() * speed(&sp) * r.uni(0.5, 3.0);
            for i in 0..sp.s {
                sp.prim[sp.s + i] += c;
            }
            let k = r.uni(5.0, 25.0);
            set_duration(&mut sp, k);
        }
        if r.chance(0.3) {
            sp.t0 = r.uni(0.0, 3.0) * sp.t_end;
            sp.t_end += sp.t0;
        }
        if r.chance(0.2) {
            sp.n_out = 0;
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 80;
        });
        let mut p = sim.prim();
        let manual = r.chance(0.25);
        if manual {
            for _ in 0..20 {
                if sim.step().is_err() || sim.time().t >= sp.t_end {
                    break;
                }
            }
        } else {
            let _ = sim.run();
        }
        let mut by_cfl = 0;
        for ev in take_steps().iter() {
            if !ev.ok {
                break;
            }
            let full = cfl_dt(sp.phys, sp.gamma, &p, &sp.cs, sp.s, sp.dx(), sp.cfl);
            let mut want = full.min(sp.dt_max);
            for l in [ev.t_next, sp.t_end] {
                if l > ev.t0 && ev.t0 + want > l {
                    want = l - ev.t0;
                }
            }
            let tol = 1e-10 * (1.0 + mach2_of(&sp, &p)) * want + 1e-15 * ev.t0.abs();
            cx.max("dt_err_over_tol", (ev.dt - want).abs() / tol);
            req!((ev.dt - want).abs() <= tol, "step {} has width {:e}; the CFL condition gives {full:e}, with dt_max = {:e}, t = {:e}, next output {:e}, end {:e} that is {want:e}", ev.iter1, ev.dt, sp.dt_max, ev.t0, ev.t_next, sp.t_end);
            if want == full {
                by_cfl += 1;
            }
            cx.count("steps_checked", 1);
            p = ev.prim.clone();
        }
        cx.count("steps_limited_by_cfl_alone", by_cfl);
        Ok(by_cfl > 0)
    });
    rep.family("direct", rep.n(30_000, 300_000), if rep.thorough { 60.0 } else { 5.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[6, 7, 8, 11, 16]);
        let kind = *r.pick(KINDS);
        let (d, v) = (r_scale(r), r_scale(r));
        let (mut prim, mut cs) = data(r, ph, s, kind, WILD, d, v);
        let what = r.below(12);
        if what == 0 && ph == Phys::Iso {
            // nothing moves: there is no finite step
            cs.iter_mut().for_each(|c| *c = 0.0);
            (0..s).for_each(|i| prim[s + i] = 0.0);
        }
        let dir = r.sign();
        if what < 6 {
            for i in 0..s {
                prim[s + i] = dir * prim[s + i].abs();
            }
        }
        let sp = Spec { phys: ph, s, flux: Flux::Hll, xi: interval(r, s), gamma: gamma(r), prim, cs, cfl: r.uni(0.01, 1.0), ..Default::default() };
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        // one hot cell anywhere, ghost cells included
        let mut p = sim.prim();
        if r.chance(0.5) && what != 0 {
            let k = r.below(s);
            p[s + k] += dir * r.log10(0.0, 3.0) * v;
            sim.set_prim(Dir::Cent, &p);
            sim.upd(Dir::Cent, Op::Cons);
            sim.upd(Dir::Cent, Op::Derived);
        }
        let want = cfl_dt(ph, sp.gamma, &p, &sp.cs, s, sp.dx(), sp.cfl);
        match sim.calc_dt(sp.cfl) {
            Ok(dt) => {
                req!(want.is_finite(), "no finite step exists, but {dt:e} was returned");
                cx.max("direct_rel_err", (dt / want - 1.0).abs());
                req!((dt / want - 1.0).abs() < 1e-10, "the step is {dt:e}, cell width over fastest signal times the CFL parameter is {want:e}");
            },
            Err(m) => {
                req!(!want.is_finite(), "a finite step {want:e} exists, but an error was reported: {m}");
                cx.count("no_finite_step", 1);
            },
        }
        Ok(kind != Kind::Uniform)
    });
}
fn mach2_of(sp: &Spec, p: &[f64]) -> f64 {
    mach2(sp, p)
}

// ------------------------------------------------------------------------------------------------ C27
pub fn c27(rep: &Rep) {
    rep.rule("HLL + forward Euler + CFL <= 1/2 on hostile data (random cells, near vacuum, blasts, collisions, receding flow; up to 12 decades of contrast, Mach 1000) with zero-gradient or reflecting ends; every state of the run must be positive and the run must complete. States whose internal energy is below the rounding error of the total energy are outside the claim and end the observation. Non-trivial: at least one step.");
    rep.family("hostile", rep.n(12_000, 200_000), if rep.thorough { 200.0 } else { 14.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[6, 7, 8, 11, 16, 33, 54]);
        let kind = *r.pick(KINDS);
        let lim = Lim { con: r.uni(1.0, 12.0), mach: r.log10(0.0, 3.0) };
        let (prim, cs) = data(r, ph, s, kind, lim, 1.0, 1.0);
        let mut sp = Spec {
            phys: ph,
            s,
            flux: Flux::Hll,
            rkf: RkfConfig { rkf_mode: RKFMode::RK1, ..Default::default() },
            xi: interval(r, s),
            gamma: gamma(r),
            prim,
            cs,
            cfl: if r.chance(0.5) { 0.5 } else { r.uni(0.1, 0.5) },
            n_out: r.range(1, 3),
            ..Default::default()
        };
        let end = |r: &mut Rng| match r.below(3) {
            0 => Bc::NoGrad,
            1 => walls(sp.phys.e()),
            _ => no_grad_custom(r, sp.phys.e()),
        };
        sp.bc = (end(r), end(r));
        let steps = r.uni(2.0, 100.0);
        set_duration(&mut sp, steps);
        sp.dt_min = sp.t_end * 1e-12;
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 400;
        });
        let p0 = sim.prim();
        let res = sim.run();
        let hit = ctl(|c| c.limit_hit);
        let st = take_steps();
        let e = sp.e();
        let resolved = |p: &[f64]| {
            ph == Phys::Iso
                || (0..s).all(|i| {
                    let q = col(p, e, s, i);
                    q[2] > 1e-11 * q[0] * q[1] * q[1]
                })
        };
        if !resolved(&p0) {
            return Ok(false);
        }
        let mut n = 0;
        for ev in &st {
            if !ev.ok {
                if hit {
                    break;
                }
                return Err(format!("the run failed at step {} (t = {:e}): {:?}", ev.iter1, ev.t0, res));
            }
            for i in 0..s {
                let q = col(&ev.prim, e, s, i);
                req!(q[0] > 0.0 && q[1].is_finite() && (e == 2 || q[2] > 0.0), "after step {} cell {i} is {q:?}", ev.iter1);
            }
            n += 1;
            cx.count("states_checked", 1);
            if !resolved(&ev.prim) {
                cx.count("unresolved", 1);
                return Ok(n > 1);
            }
        }
        if !hit {
            if let Err(m) = res {
                return Err(format!("the run failed: {m}"));
            }
        }
        Ok(n > 0)
    });
}

// ------------------------------------------------------------------------------------------------ C28
pub fn c28(rep: &Rep) {
    rep.rule("space: smooth random flows computed with 50, 100, 200, 400 cells; observed L1 order from successive differences away from the ends, and error of travelling entropy waves against the exact solution. time: one smooth semi-discrete problem (supersonic, unlimited) integrated with n, 2n steps vs a fine reference. Non-trivial: errors well above rounding.");
    rep.family("space", rep.n(160, 2500), if rep.thorough { 150.0 } else { 12.0 }, |r, cx| {
        let ph = phys(r);
        let g = gamma(r).clamp(1.2, 1.8);
        let cs = r.uni(0.7, 1.5);
        let fx = match cx.idx % 5 {
            0 => Flux::Hll,
            1 => Flux::Kt(LimiterMode::VanLeer),
            2 => Flux::Kt(LimiterMode::Monocent(r.uni(1.3, 2.0))),
            3 => Flux::Kt(LimiterMode::NoLimiter),
            _ => Flux::Kt(LimiterMode::MinMod),
        };
        let entropy = ph == Phys::Adi && r.chance(0.4);
        let (v0, a) = (r.uni(-0.8, 0.8), r.uni(0.05, 0.15) * r.sign());
        let (b, d) = (r.uni(0.0, 0.15), r.uni(0.05, 0.15));
        // a smooth pulse in the middle of [1,2]
        let bump = |x: f64| (-((x - 1.5) / 0.11).powi(2)).exp();
        let exact = |x: f64| [1.0 + a * bump(x), if entropy { v0 } else { v0 + b * bump(x) }, if entropy { 1.0 } else { 1.0 + d * bump(x) }];
        let t = 0.10;
        let mut sols: Vec<(usize, Vec<f64>)> = vec![];
        cx.desc = format!("{ph:?} {fx:?} g={g} cs={cs} v0={v0} a={a} b={b} d={d} entropy={entropy}");
        let e = ph.e();
        for s in [54usize, 104, 204, 404] {
            let n = s - 4;
            let mut prim = vec![0.0; e * s];
            let mut sp = Spec { phys: ph, s, flux: fx, xi: (1.0, 2.0), gamma: g, t_end: t, cfl: 0.3, ..Default::default() };
            sp.rkf.rkf_mode = RKFMode::SSPRK3;
            sp.cs = if ph == Phys::Iso { vec![cs; s] } else { vec![] };
            for i in 0..s {
                // cell averages of the conserved quantities by Gauss quadrature
                let x = sp.x(i);
                let h = 0.5 / n as f64;
                let gq = [(-0.7745966692414834, 5.0 / 18.0), (0.0, 8.0 / 18.0), (0.7745966692414834, 5.0 / 18.0)];
                let mut c = vec![0.0; e];
                for (z, w) in gq {
                    for (q, y) in c.iter_mut().zip(to_cons(ph, g, &exact(x + h * z)[..e])) {
                        *q += w * y;
                    }
                }
                set_col(&mut prim, s, i, &to_prim(ph, g, &c));
            }
            sp.prim = prim;
            crate::mon::reset();
            let mut sim = make(&sp)?;
            sim.run()?;
            sols.push((n, sim.cons()));
        }
        let diff = |k: usize| -> f64 {
            let (n, c) = &sols[k];
            let (m, f) = &sols[k + 1];
            let (s, sf) = (n + 4, m + 4);
            let mut q = 0.0;
            for j in 0..e {
                // away from the ends: the middle 80 percent
                for i in n / 10..n - n / 10 {
                    let fine = 0.5 * (f[j * sf + 2 + 2 * i] + f[j * sf + 3 + 2 * i]);
                    q += (c[j * s + 2 + i] - fine).abs() / *n as f64;
                }
            }
            q
        };
        let (d1, d2, d3) = (diff(0), diff(1), diff(2));
        let p = (d2 / d3).log2();
        let _ = d1;
        let key = match fx {
            Flux::Hll => "hll",
            Flux::Kt(LimiterMode::NoLimiter) => "kt_nolimiter",
            Flux::Kt(LimiterMode::MinMod) => "kt_minmod",
            Flux::Kt(LimiterMode::VanLeer) => "kt_vanleer",
            _ => "kt_monocent",
        };
        cx.max(&format!("{key}_order_max"), p);
        cx.max(&format!("{key}_order_neg_min"), -p);
        let lim = match key {
            "hll" => 0.75,
            "kt_nolimiter" => 1.8,
            "kt_minmod" => 1.3,
            _ => 1.5,
        };
        req!(p > lim, "observed order {p:.2} in space (differences {d1:e}, {d2:e}, {d3:e}), at least {lim} expected");
        if entropy {
            // exact: the density profile moves with v0
            let (n, c) = &sols[3];
            let s = n + 4;
            let mut q = 0.0;
            for i in n / 10..n - n / 10 {
                let x = 1.0 + (i as f64 + 0.5) / *n as f64;
                let h = 0.5 / *n as f64;
                let w = |x: f64| 1.0 + a * bump(x - v0 * t);
                let av = (w(x - h) + 4.0 * w(x) + w(x + h)) / 6.0;
                q += (c[2 + i] - av).abs() / *n as f64;
            }
            let rel = q / (a.abs() * 0.2);
            cx.max(&format!("{key}_entropy_error"), rel);
            let lim = match key {
                "hll" => 0.2,
                _ => 0.01,
            };
            req!(rel < lim, "the entropy wave has a relative error of {rel:e} with {n} cells");
        }
        cx.count("solutions", 4);
        Ok(d2 > 1e-10)
    });
    rep.family("time", rep.n(270, 4000), if rep.thorough { 150.0 } else { 8.0 }, |r, cx| {
        let m = MODES[cx.idx as usize % MODES.len()];
        let ph = phys(r);
        let s = 54;
        let e = ph.e();
        let v = r.uni(2.5, 4.0) * r.sign();
        let g = gamma(r).clamp(1.2, 1.8);
        let (a, b, d) = (r.uni(-0.2, 0.2), r.uni(-0.1, 0.1), r.uni(-0.2, 0.2));
        let mut prim = vec![0.0; e * s];
        let mut sp = Spec { phys: ph, s, flux: Flux::Kt(LimiterMode::NoLimiter), xi: (1.0, 2.0), gamma: g, ..Default::default() };
        for i in 0..s {
            let w = (-((sp.x(i) - 1.5) / 0.2).powi(2)).exp();
            set_col(&mut prim, s, i, &[1.0 + a * w, v + b * w, 1.0 + d * w][..e]);
        }
        sp.prim = prim;
        sp.cs = if ph == Phys::Iso { vec![1.0; s] } else { vec![] };
        sp.cfl = 50.0; // dt_max decides
        let lam = v.abs() + 1.5;
        let t = 0.8 * sp.dx() / lam * 16.0;
        sp.t_end = t;
        cx.desc = format!("{m:?} {}", sp.describe());
        let run = |mo: RKFMode, n: usize| -> Result<Vec<f64>, String> {
            let mut q = sp.clone();
            q.rkf.rkf_mode = mo;
            q.dt_max = t / n as f64;
            crate::mon::reset();
            let mut sim = make(&q)?;
            sim.run()?;
            Ok(sim.cons())
        };
        let rf = run(RKFMode::RKF45, 400)?;
        let err = |c: &[f64]| c.iter().zip(&rf).map(|(x, y)| (x - y).abs()).sum::<f64>() / (e * s) as f64;
        let tb = tableau(m);
        let (n1, n2) = match tb.order {
            1 => (200, 400),
            2 => (48, 96),
            3 => (32, 64),
            _ => (24, 48),
        };
        let (e1, e2) = (err(&run(m, n1)?), err(&run(m, n2)?));
        if m == RKFMode::SSPRK5 {
            cx.max("ssprk5_error", e2);
            req!(e2 < 3e-5, "SSPRK5: error {e2:e} with {n2} steps");
            return Ok(true);
        }
        if e2 < 3e-13 {
            return Ok(false);
        }
        let p = (e1 / e2).log2();
        cx.max(&format!("{m:?}_order"), p);
        cx.max(&format!("{m:?}_neg_order"), -p);
        req!(p > tb.order as f64 - 0.4, "{m:?}: observed order in time {p:.2} (errors {e1:e} with {n1} and {e2:e} with {n2} steps), expected {}", tb.order);
        // a higher order is really more accurate with the same number of steps
        if tb.order >= 2 {
            let low = if tb.order == 2 { RKFMode::RK1 } else { RKFMode::RK2 };
            let el = err(&run(low, n2)?);
            req!(el.is_nan() || e2 < 0.5 * el, "{m:?} has error {e2:e}, {low:?} {el:e}");
        }
        Ok(true)
    });
}
