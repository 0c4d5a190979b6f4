//! C29, C30, C32, C33, C34: whole-run guarantees.
use crate::{c_io::*, gen::*, mon::*, oracle::*, rep::*, rng::Rng, sim::*, util::*};
use corries::prelude::*;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::RefCell,
    rc::Rc,
    sync::atomic::{AtomicI64, Ordering::Relaxed},
};

// ------------------------------------------------------------------------------------------------ C29
pub fn c29(rep: &Rep) {
    rep.rule("a run with N outputs against the chain of runs from output to output: each link is a new simulation whose init function installs the primitive variables (and sound speed) the link before ended with, at the time it ended (same configuration otherwise, without step control). All states at the joints, the sequence of step widths and the final state must agree to rounding. second_run: a simulation that ended continues when t_end and the next output time are moved. Non-trivial: at least two links and four steps.");
    rep.family("chain", rep.n(4000, 80_000), if rep.thorough { 150.0 } else { 8.0 }, |r, cx| {
        let lim = *r.pick(&[MILD, MED]);
        let s = *r.pick(&[8, 16, 33, 54, 104]);
        let ph = phys(r);
        let mut sp = problem_on(r, ph, s, lim, 40.0);
        sp.n_out = r.range(2, 5);
        if r.chance(0.5) {
            sp.t0 = r.uni(0.0, 3.0) * sp.t_end;
            sp.t_end += sp.t0;
        }
        if r.chance(0.3) {
            sp.dt_max = sp.cfl * sp.dx() / speed(&sp) * r.uni(0.3, 1.2);
        }
        // the direction of the flow at the ends decides: not to be compared close to rest
        let end = |r: &mut Rng| match r.below(3) {
            0 => Bc::NoGrad,
            1 => walls(ph.e()),
            _ => no_grad_custom(r, ph.e()),
        };
        sp.bc = (end(r), end(r));
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_calls = 0;
            c.step_limit = 400;
        });
        let res = sim.run();
        let (st, hit) = (take_steps(), ctl(|c| c.limit_hit));
        if res.is_err() || hit {
            return Ok(false);
        }
        let d_out = (sp.t_end - sp.t0) / sp.n_out as f64;
        let mut cur = sp.clone();
        let mut steps: Vec<StepEv> = vec![];
        let mut tol = 1e-10;
        for k in 1..=sp.n_out {
            cur.n_out = 1;
            cur.t_end = if k == sp.n_out { sp.t_end } else { sp.t0 + k as f64 * d_out };
            let mut link = make(&cur)?;
            ctl(|c| {
                c.log_steps = true;
                c.keep_cons = true;
                c.step_calls = 0;
                c.step_limit = 800;
            });
            let res = link.run();
            let part = take_steps();
            res.map_err(|m| format!("the whole run succeeded, but link {k} of the chain failed: {m}"))?;
            steps.extend(part);
            let p = link.prim();
            let t = link.time().t;
            // the state of the whole run at this output
            let at = st.iter().find(|e| e.t1 >= cur.t_end - 2.0 * sp.dt_min - 1e-12 * cur.t_end.abs());
            let at = at.ok_or_else(|| format!("the whole run never reached t = {:e}", cur.t_end))?;
            tol = (tol * 1.6f64.powf(2.0)).min(1e-6);
            let d = diff_prim(sp.phys, sp.gamma, &at.prim, &p, &sp.cs, s);
            cx.max("joint_difference", d);
            cx.count("joints", 1);
            req!(d <= tol * (1.0 + steps.len() as f64), "at joint {k} (t = {t:e}) the chained run differs by {d:e} (relative) from the whole run");
            req!((t - at.t1).abs() <= 1e-10 * (sp.t_end - sp.t0) + 2.0 * sp.dt_min + 1e-13 * t.abs(), "joint {k} is at t = {t:e} instead of {:e}", at.t1);
            cur.prim = p;
            if !cur.cs.is_empty() {
                cur.cs = link.vars(Dir::Cent).cs;
            }
            cur.t0 = t;
        }
        // steps of rounding size at a joint do not count
        let big = |v: &[StepEv]| v.iter().filter(|e| e.dt > 1e-7 * d_out).map(|e| (e.t1, e.dt)).collect::<Vec<_>>();
        let (a, b) = (big(&st), big(&steps));
        req!(a.len() == b.len(), "the whole run took {} steps, the chain {}", a.len(), b.len());
        for (x, y) in a.iter().zip(&b) {
            req!((x.1 - y.1).abs() <= 1e-6 * x.1 + 1e-9 * d_out, "a step to t = {:e} has width {:e} in the whole run and {:e} in the chain", x.0, x.1, y.1);
        }
        Ok(sp.n_out >= 2 && st.len() >= 4)
    });
    rep.family("moved_end", rep.n(2500, 40_000), if rep.thorough { 80.0 } else { 5.0 }, |r, cx| {
        // the user moves the end of a finished simulation
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 30.0);
        sp.n_out = 2;
        cx.desc = sp.describe();
        let mut whole = make(&sp)?;
        ctl(|c| (c.step_calls, c.step_limit) = (0, 400));
        if whole.run().is_err() {
            return Ok(false);
        }
        let mut half = sp.clone();
        half.n_out = 1;
        half.t_end = sp.t0 + 0.5 * (sp.t_end - sp.t0);
        let mut sim = make(&half)?;
        sim.run()?;
        sim.ts().t_end = sp.t_end;
        sim.ts().t_next_output = sp.t_end;
        ctl(|c| {
            c.step_calls = 0;
            c.step_limit = 800;
        });
        sim.run().map_err(|m| format!("continuing failed: {m}"))?;
        let d = diff_prim(sp.phys, sp.gamma, &whole.prim(), &sim.prim(), &sp.cs, sp.s);
        cx.max("continued_difference", d);
        cx.count("continued", 1);
        req!(d <= 1e-8, "a run that was continued after its end differs by {d:e} from the whole run");
        req!(sim.time().t == whole.time().t || (sim.time().t - whole.time().t).abs() <= 2.0 * sp.dt_min + 1e-12 * sp.t_end, "it ends at t = {:e} instead of {:e}", sim.time().t, whole.time().t);
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C30
fn word(r: &mut Rng) -> String {
    let a = ["results", "o", "noh", "a b", "x.y", "日本", "deep", "_", "run-1"];
    (0..r.range(1, 3)).map(|_| *r.pick(&a)).collect::<Vec<_>>().join("_")
}
fn json<T: serde::Serialize>(x: &T) -> serde_json::Value {
    serde_json::to_value(x).unwrap()
}
fn stdout_json(names: serde_json::Value) -> serde_json::Value {
    serde_json::json!({"stream_mode": "Stdout", "formatting_mode": "TSV", "string_conversion_mode": "Scalar", "folder_name": "",
        "should_clear_out_folder": false, "file_name": "", "precision": 3, "should_print_ghostcells": false,
        "should_print_metadata": false, "data_names": names})
}
fn file_json(folder: &str, file: &str, names: serde_json::Value) -> serde_json::Value {
    serde_json::json!({"stream_mode": "File", "formatting_mode": "CSV", "string_conversion_mode": "Vector", "folder_name": folder,
        "should_clear_out_folder": true, "file_name": file, "precision": 7, "should_print_ghostcells": true,
        "should_print_metadata": true, "data_names": names})
}
fn prims(e: usize) -> Vec<serde_json::Value> {
    (0..e).map(|j| serde_json::json!({"Prim": j})).collect()
}
fn rkf_json() -> serde_json::Value {
    serde_json::json!({"rkf_mode": "SSPRK5", "asc": false, "asc_relative_tolerance": 0.001, "asc_absolute_tolerance": 0.001, "asc_timestep_friction": 0.08})
}
macro_rules! defaults {
    ($t:expr, $f:expr, $n:expr, $($E:literal $S:literal),*) => {
        vec![$(
            ($E, false, CorriesConfig::default_riemann_test::<Hll<$E, $S>, $E, $S>($t, $f, $n), NumericsConfig::default_riemann_test::<Hll<$E, $S>, $E, $S>($t)),
            ($E, true, CorriesConfig::default_riemann_test::<Kt<$E, $S>, $E, $S>($t, $f, $n), NumericsConfig::default_riemann_test::<Kt<$E, $S>, $E, $S>($t))
        ),*]
    };
}
pub fn c30(rep: &Rep) {
    rep.rule("values: the default constructors for random end times, names, column lists and equation counts, every field compared with the documented value. runs: a default Riemann test with the supplied initialisers or random data against the same configuration written out field by field: same files byte for byte, exactly the documented file set, columns, rows and precision. Non-trivial: every case.");
    rep.family("values", rep.n(4000, 40_000), if rep.thorough { 30.0 } else { 3.0 }, |r, cx| {
        let (f, n) = (word(r), word(r));
        let t = match r.below(4) {
            0 => r.log10(-12.0, 12.0),
            1 => f64::MAX,
            2 => f64::MIN_POSITIVE,
            _ => r.uni(0.01, 10.0),
        };
        cx.desc = format!("t_end={t:e} folder={f:?} file={n:?}");
        let same = |what: &str, got: serde_json::Value, want: serde_json::Value| -> Result<(), String> {
            if got != want {
                return Err(format!("{what} differs from the documented default: {}", json_diff(&want, &got, "")));
            }
            Ok(())
        };
        let four = serde_json::json!(["Iter", "T", "Dt", "DtKind"]);
        let numerics = |kt: bool| {
            serde_json::json!({
                "numflux_config": if kt { serde_json::json!({"Kt": {"limiter_mode": "VanLeer"}}) } else { serde_json::json!("Hll") },
                "time_integration_config": {"Rkf": rkf_json()},
                "iter_max": usize::MAX - 2, "t0": 0.0, "t_end": t, "dt_min": 1.0e-12, "dt_max": f64::MAX, "dt_cfl_param": 0.4})
        };
        let mesh = serde_json::json!({"mode": "Cartesian", "xi_in": 1.0, "xi_out": 2.0});
        let physics = serde_json::json!({"adiabatic_index": 5.0 / 3.0, "units_mode": json(&UnitsMode::SI)});
        for (e, kt, c, nc) in defaults!(t, &f, &n, 2 6, 3 6, 2 100, 3 100, 4 54, 1 33) {
            let mut names = vec![serde_json::json!("T"), serde_json::json!("XiCent")];
            names.extend(prims(e));
            let want = serde_json::json!({
                "print_banner": false, "mesh_config": mesh, "physics_config": physics,
                "boundary_condition_west": "NoGradients", "boundary_condition_east": "NoGradients",
                "numerics_config": numerics(kt), "output_counter_max": 1,
                "writer_config": [stdout_json(four.clone()), file_json(&f, &n, serde_json::Value::Array(names))]});
            same("CorriesConfig::default_riemann_test", json(&c), want)?;
            same("NumericsConfig::default_riemann_test", json(&nc), numerics(kt))?;
            cx.count("configurations", 1);
        }
        same("MeshConfig::default_riemann_test", json(&MeshConfig::default_riemann_test()), mesh)?;
        same("PhysicsConfig::default", json(&PhysicsConfig::default()), physics)?;
        same("OutputConfig::default_stdout", json(&OutputConfig::default_stdout()), stdout_json(four))?;
        let e = r.below(7);
        let mut names = vec![serde_json::json!("T"), serde_json::json!("XiCent")];
        names.extend(prims(e));
        same("OutputConfig::default_file", json(&OutputConfig::default_file(&f, &n, e)), file_json(&f, &n, serde_json::Value::Array(names)))?;
        let cols = names_any(r, 3, false);
        same("OutputConfig::default_file_with_names", json(&OutputConfig::default_file_with_names(&f, &n, cols.clone())), file_json(&f, &n, json(&cols)))?;
        same("OutputConfig::default_stdout_with_names", json(&OutputConfig::default_stdout_with_names(cols.clone())), stdout_json(json(&cols)))?;
        same("RkfConfig::default", json(&RkfConfig::default()), rkf_json())?;
        same("TimeIntegrationConfig::default_rkf", json(&TimeIntegrationConfig::default_rkf()), serde_json::json!({"Rkf": rkf_json()}))?;
        same("NumFluxConfig::default", json(&NumFluxConfig::default()), serde_json::json!({"Kt": {"limiter_mode": "VanLeer"}}))?;
        same("LimiterMode::default", json(&LimiterMode::default()), serde_json::json!("VanLeer"))?;
        same("RKFMode::default", json(&RKFMode::default()), serde_json::json!("SSPRK5"))?;
        same("BoundaryMode::default", json(&BoundaryMode::default()), serde_json::json!("NoGradients"))?;
        same("CustomBoundaryMode::default", json(&CustomBoundaryMode::default()), serde_json::json!("NoGradients"))?;
        same("StreamMode::default", json(&StreamMode::default()), serde_json::json!("Stdout"))?;
        same("FormattingMode::default", json(&FormattingMode::default()), serde_json::json!("TSV"))?;
        same("ToStringConversionMode::default", json(&ToStringConversionMode::default()), serde_json::json!("Scalar"))?;
        cx.count("defaults", 18);
        Ok(true)
    });
    rep.family("runs", rep.n(400, 6000), if rep.thorough { 80.0 } else { 5.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let ph = phys(r);
        let kt = r.chance(0.5);
        let s = *r.pick(&[8, 11, 54, 104]);
        let t = r.uni(0.005, 0.1);
        let (prim, cs) = {
            let kind = *r.pick(&[Kind::Riemann, Kind::Smooth, Kind::Uniform, Kind::Rest]);
            data(r, ph, s, kind, MILD, 1.0, 1.0)
        };
        let n = word(r);
        let (fa, fb) = (dir.path("a/x"), dir.path("b"));
        // into a folder with old contents: cleared
        std::fs::create_dir_all(&fa).unwrap();
        std::fs::write(format!("{fa}/old.csv"), "old").unwrap();
        cx.desc = format!("{ph:?} kt={kt} S={s} t_end={t} file={n:?}");
        let cfg = match (ph, s) {
            (Phys::Adi, 8) => defaults!(t, &fa, &n, 3 8),
            (Phys::Adi, 11) => defaults!(t, &fa, &n, 3 11),
            (Phys::Adi, 54) => defaults!(t, &fa, &n, 3 54),
            (Phys::Adi, _) => defaults!(t, &fa, &n, 3 104),
            (Phys::Iso, 8) => defaults!(t, &fa, &n, 2 8),
            (Phys::Iso, 11) => defaults!(t, &fa, &n, 2 11),
            (Phys::Iso, 54) => defaults!(t, &fa, &n, 2 54),
            (Phys::Iso, _) => defaults!(t, &fa, &n, 2 104),
        }
        .swap_remove(kt as usize)
        .2;
        let flux = if kt { Flux::Kt(LimiterMode::VanLeer) } else { Flux::Hll };
        let go = |c: &CorriesConfig| -> Result<(Vec<f64>, f64, Result<(), String>), String> {
            reset();
            INIT.with(|i| *i.borrow_mut() = Some(InitData { prim: prim.clone(), cs: cs.clone(), ..Default::default() }));
            let mut sim = make_cfg(ph, flux, s, c).map_err(|m| format!("a default configuration was rejected: {m}"))?;
            let res = sim.run();
            Ok((sim.prim(), sim.time().t, res))
        };
        let a = go(&cfg)?;
        let e = ph.e();
        let mut cols = vec![DataName::T, DataName::XiCent];
        cols.extend((0..e).map(DataName::Prim));
        let hand = CorriesConfig {
            print_banner: false,
            mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: 1.0, xi_out: 2.0 },
            physics_config: PhysicsConfig { adiabatic_index: 5.0 / 3.0, units_mode: UnitsMode::SI },
            boundary_condition_west: BoundaryMode::NoGradients,
            boundary_condition_east: BoundaryMode::NoGradients,
            numerics_config: NumericsConfig {
                numflux_config: if kt { NumFluxConfig::Kt { limiter_mode: LimiterMode::VanLeer } } else { NumFluxConfig::Hll },
                time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig { rkf_mode: RKFMode::SSPRK5, asc: false, asc_relative_tolerance: 0.001, asc_absolute_tolerance: 0.001, asc_timestep_friction: 0.08 }),
                iter_max: usize::MAX - 2,
                t0: 0.0,
                t_end: t,
                dt_min: 1.0e-12,
                dt_max: f64::MAX,
                dt_cfl_param: 0.4,
            },
            output_counter_max: 1,
            writer_config: vec![OutputConfig {
                stream_mode: StreamMode::File,
                formatting_mode: FormattingMode::CSV,
                string_conversion_mode: ToStringConversionMode::Vector,
                folder_name: fb.clone(),
                should_clear_out_folder: true,
                file_name: n.clone(),
                precision: 7,
                should_print_ghostcells: true,
                should_print_metadata: true,
                data_names: cols,
            }],
        };
        let b = go(&hand)?;
        req!(bits_eq(&a.0, &b.0) && a.1 == b.1 && a.2 == b.2, "the default run and the run written out by hand end in different states");
        if a.2.is_err() {
            // too strong a jump for the scheme
            cx.count("failed_alike", 1);
            return Ok(false);
        }
        let (ta, tb) = (tree(fa.as_ref()), tree(fb.as_ref()));
        let names = |t: &Tree| t.keys().map(|k| k.display().to_string()).collect::<Vec<_>>();
        let mut want = vec![format!("{n}_0.csv"), format!("{n}_1.csv"), format!("{n}__metadata.json")];
        let mut got: Vec<String> = names(&ta).iter().map(|x| x.rsplit('/').next().unwrap().to_string()).collect();
        want.sort();
        got.sort();
        req!(want == got, "the default run left the files {got:?}, not {want:?}");
        for k in 0..2 {
            let x = std::fs::read(format!("{fa}/{n}_{k}.csv")).map_err(|e| e.to_string())?;
            let y = std::fs::read(format!("{fb}/{n}_{k}.csv")).map_err(|e| e.to_string())?;
            req!(x == y, "output {k} differs between the default run and the run written out by hand");
            let lines = x.iter().filter(|c| **c == b'\n').count();
            req!(lines == s + 1, "output {k} has {lines} lines for {s} cells");
        }
        req!(tb.len() == 3, "the run written out by hand left {:?}", names(&tb));
        cx.count("runs", 2);
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C32
/// specific entropy ln(p / rho^gamma), entropy density and entropy flux; for isothermal flow the mechanical
/// energy (with the opposite sign)
fn entropy(ph: Phys, g: f64, cs: f64, q: &[f64]) -> (f64, f64, f64) {
    match ph {
        Phys::Adi => {
            let s = (q[2]).ln() - g * q[0].ln();
            (s, q[0] * s, q[0] * s * q[1])
        },
        Phys::Iso => {
            let e = 0.5 * q[0] * q[1] * q[1] + cs * cs * q[0] * q[0].ln();
            (0.0, -e, -q[1] * (e + cs * cs * q[0]))
        },
    }
}
/// whether the signal speeds of the HLL scheme enclose the exact waves between two states
fn enclosed(ph: Phys, g: f64, cs: f64, l: &[f64], r: &[f64]) -> bool {
    let c = |q: &[f64]| sound(ph, g, q, cs);
    let (cl, cr) = (c(l), c(r));
    let (sl, sr) = ((l[1] - cl).min(r[1] - cr), (l[1] + cl).max(r[1] + cr));
    let p = |q: &[f64]| pressure(ph, q, cs);
    let w = match Riemann::new(ph, g, cs, (l[0], l[1], p(l)), (r[0], r[1], p(r))) {
        None => return true,
        Some(w) => w,
    };
    let sp = |ratio: f64| match ph {
        Phys::Adi => ((g + 1.0) / (2.0 * g) * ratio + (g - 1.0) / (2.0 * g)).sqrt(),
        Phys::Iso => ratio.sqrt(),
    };
    let (pl, pr) = (p(l), p(r));
    let wl = l[1] - cl * if w.ps > pl { sp(w.ps / pl) } else { 1.0 };
    let wr = r[1] + cr * if w.ps > pr { sp(w.ps / pr) } else { 1.0 };
    let t = 1e-12 * (sl.abs() + sr.abs());
    wl >= sl - t && wr <= sr + t
}
pub fn c32(rep: &Rep) {
    rep.rule("first-order HLL with forward Euler and a CFL parameter of at most one half on random data with shocks, contacts and expansions: for every cell whose two faces have signal speeds that enclose the exact waves (checked with the exact Riemann solver), the entropy of the cell after the step is at least the entropy before plus the HLL entropy flux in, and the specific entropy p / rho^gamma never drops below the smallest of the cell and its neighbours (adiabatic); the mechanical energy obeys the opposite inequality (isothermal). Between walls the total entropy of enclosed steps never decreases. Non-trivial: at least one cell with entropy production above rounding.");
    rep.family("entropy", rep.n(6000, 120_000), if rep.thorough { 150.0 } else { 9.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[8, 16, 33, 54]);
        let kind = *r.pick(KINDS);
        let lim = *r.pick(&[MILD, MILD, MED]);
        let (prim, cs) = data(r, ph, s, kind, lim, 1.0, 1.0);
        let mut sp = Spec {
            phys: ph,
            s,
            flux: Flux::Hll,
            rkf: RkfConfig { rkf_mode: RKFMode::RK1, ..Default::default() },
            xi: interval(r, s),
            gamma: gamma(r),
            prim,
            cs,
            cfl: r.uni(0.1, 0.5),
            n_out: 1,
            ..Default::default()
        };
        let closed = r.chance(0.5);
        if closed {
            sp.bc = (walls(ph.e()), walls(ph.e()));
        }
        set_duration(&mut sp, r.uni(2.0, 40.0));
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let mut p = sim.prim();
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_calls = 0;
            c.step_limit = 120;
        });
        let _ = sim.run();
        let st = take_steps();
        let e = ph.e();
        let c0 = sp.cs.first().copied().unwrap_or(0.0);
        let g = sp.gamma;
        let dx = sp.dx();
        let mut produced = false;
        for ev in st.iter().filter(|e| e.ok) {
            let q: Vec<Vec<f64>> = (0..s).map(|i| col(&p, e, s, i)).collect();
            let n: Vec<Vec<f64>> = (0..s).map(|i| col(&ev.prim, e, s, i)).collect();
            let enc: Vec<bool> = (0..s - 1).map(|i| enclosed(ph, g, c0, &q[i], &q[i + 1])).collect();
            let en: Vec<(f64, f64, f64)> = q.iter().map(|x| entropy(ph, g, c0, x)).collect();
            let flux = |i: usize| {
                let (a, b) = (&q[i], &q[i + 1]);
                let (ca, cb) = (sound(ph, g, a, c0), sound(ph, g, b, c0));
                let (sl, sr) = ((a[1] - ca).min(b[1] - cb).min(0.0), (a[1] + ca).max(b[1] + cb).max(0.0));
                (sr * en[i].2 - sl * en[i + 1].2 + sl * sr * (en[i + 1].1 - en[i].1)) / (sr - sl)
            };
            let mut total = 0.0;
            let mut scale = 0.0;
            for i in 2..s - 2 {
                let m = entropy(ph, g, c0, &n[i]);
                // rounding of the conserved quantities, seen through the pressure
                let mach = 1.0 + n[i][1].powi(2) * n[i][0] / pressure(ph, &n[i], c0) + q[i][1].powi(2) * q[i][0] / pressure(ph, &q[i], c0);
                let mag = [i - 1, i, i + 1].iter().map(|k| en[*k].1.abs() + q[*k][0] * mach + if ph == Phys::Iso { c0 * c0 * q[*k][0] } else { 0.0 }).sum::<f64>() + m.1.abs();
                total += m.1 - en[i].1;
                scale += mag;
                if !(enc[i - 1] && enc[i]) {
                    cx.count("faces_not_enclosed", 1);
                    continue;
                }
                let prod = (m.1 - en[i].1) + ev.dt / dx * (flux(i) - flux(i - 1));
                cx.count("cells_checked", 1);
                cx.max("entropy_destroyed_over_tol", -prod / (1e-10 * mag));
                req!(prod >= -1e-10 * mag, "step {}: cell {i} loses entropy: production {prod:e} (scale {mag:e}); {:?} -> {:?}", ev.iter1, q[i], n[i]);
                produced |= prod > 1e-6 * mag;
                if ph == Phys::Adi {
                    let lo = en[i - 1].0.min(en[i].0).min(en[i + 1].0);
                    cx.max("specific_entropy_drop", lo - m.0);
                    req!(m.0 >= lo - 1e-10 * mach * mach, "step {}: ln(p/rho^gamma) of cell {i} falls to {} below the neighbourhood's {lo}", ev.iter1, m.0);
                }
            }
            if closed && enc[1..s - 2].iter().all(|x| *x) {
                cx.count("totals_checked", 1);
                req!(total >= -1e-11 * scale, "step {}: the entropy between two walls decreases by {total:e} (scale {scale:e})", ev.iter1);
            }
            p = ev.prim.clone();
        }
        Ok(produced)
    });
}

// ------------------------------------------------------------------------------------------------ C33
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn grow(n: i64) {
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed);
    }
}
// SAFETY: everything is handed on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn entries(p: &str) -> usize {
    std::fs::read_dir(p).map(|d| d.count()).unwrap_or(0)
}
#[derive(Clone, Copy, Debug)]
struct Use {
    live: i64,
    peak: i64,
    fds: usize,
    threads: usize,
}
pub fn c33(rep: &Rep) {
    rep.rule("long runs (hundreds to thousands of steps, up to 200 outputs, several files and standard output, all schemes, with and without step control, error runs too) under a counting allocator: before every step the live heap, the heap's high-water mark since the step before, the open files and the threads are recorded; after the warm-up (a tenth of the run, at least ten steps and two outputs) none of them grows with steps or outputs, and dropping the simulation gives everything back. Run one at a time. Non-trivial: at least 100 steps.");
    rep.family_threads("runs", rep.n(160, 2500), if rep.thorough { 200.0 } else { 12.0 }, 1, |r, cx| {
        let dir = CaseDir::new(cx);
        let s = sized(r, &[6, 11, 33, 54]);
        let ph = phys(r);
        let mut sp = problem_on(r, ph, s, MILD, 600.0);
        sp.bc = (Bc::NoGrad, Bc::NoGrad);
        sp.rkf.asc = r.chance(0.3);
        sp.n_out = *r.pick(&[0, 1, 3, 20, 50, 200]);
        let outs = r.below(4);
        for k in 0..outs {
            sp.outputs.push(out_any(r, sp.e(), &dir.path(&format!("f{k}")), "o"));
        }
        if r.chance(0.3) {
            sp.outputs.push(OutputConfig::default_stdout());
        }
        let fail = r.chance(0.2);
        if fail {
            sp.iter_max = r.range(50, 400);
        }
        cx.desc = format!("{} outputs={:?}", sp.describe(), sp.outputs);
        // once to warm up the thread pool, the standard library and the allocator's own state
        {
            let mut w = sp.clone();
            w.t_end = sp.t0 + (sp.t_end - sp.t0) * 0.05;
            let mut sim = make(&w)?;
            let _ = sim.run();
        }
        let log: Rc<RefCell<Vec<Use>>> = Rc::new(RefCell::new(Vec::with_capacity(8192)));
        reset();
        let before = (entries("/proc/self/fd"), entries("/proc/self/task"));
        let live0 = LIVE.load(Relaxed);
        let mut sim = make(&sp)?;
        INIT.with(|c| *c.borrow_mut() = None);
        let lg = log.clone();
        ctl(|c| {
            c.step_calls = 0;
            c.step_limit = 4000;
            c.on_step = Some(Rc::new(move |k| {
                let mut v = lg.borrow_mut();
                if v.len() < v.capacity() {
                    let (mut fds, mut threads) = v.last().map_or((0, 0), |u| (u.fds, u.threads));
                    let (live, peak) = (LIVE.load(Relaxed), PEAK.load(Relaxed));
                    if k % 8 == 0 {
                        fds = entries("/proc/self/fd");
                        threads = entries("/proc/self/task");
                    }
                    v.push(Use { live, peak: peak - live, fds, threads });
                    PEAK.store(LIVE.load(Relaxed), Relaxed);
                }
            }));
        });
        let res = sim.run();
        drop(res);
        drop(sim);
        reset();
        let live1 = LIVE.load(Relaxed);
        let after = (entries("/proc/self/fd"), entries("/proc/self/task"));
        let v = log.borrow();
        cx.count("steps_observed", v.len() as u64);
        let n = v.len();
        req!(after.0 <= before.0, "{} files are open after the simulation was dropped, {} before it was made", after.0, before.0);
        req!(after.1 <= before.1, "{} threads after the simulation was dropped, {} before it was made", after.1, before.1);
        cx.max("bytes_not_given_back", (live1 - live0) as f64);
        req!(live1 - live0 <= 4096, "{} bytes were not given back when the simulation was dropped", live1 - live0);
        if n < 100 {
            return Ok(false);
        }
        let w = (n / 10).max(10);
        // with few outputs the first ones may come late
        let (a, b) = (w.max(n * 45 / 100), n);
        let most = |x: &[Use], f: &dyn Fn(&Use) -> i64| x.iter().map(f).max().unwrap();
        for (what, f, slack) in [
            ("live heap bytes", &(|u: &Use| u.live) as &dyn Fn(&Use) -> i64, 2048),
            ("heap bytes needed within a step", &|u: &Use| u.peak, 32768),
            ("open files", &|u: &Use| u.fds as i64, 0),
            ("threads", &|u: &Use| u.threads as i64, 0),
        ] {
            let (early, late) = (most(&v[w..a.max(w + 1)], f), most(&v[a..b], f));
            cx.max(&format!("growth of {what}"), (late - early) as f64);
            req!(late - early <= slack, "the {what} grow during the run: at most {early} in steps {w}..{a}, {late} in steps {a}..{b}");
        }
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C34
pub fn c34(rep: &Rep) {
    rep.rule("pairs of runs with equal step widths which differ initially in a window of cells: after every step all interior cells farther from the window than the scheme can reach (one cell per flux evaluation for HLL, two for Kurganov-Tadmor) are bit-identical; and the disturbance does arrive inside; in a third of the cases the disturbance is up to five (runs) or thirty (single evaluations) orders of magnitude stronger than the rest. evaluation: the same for one evaluation of the right-hand side. Non-trivial: cells outside the reach exist and cells inside differ.");
    rep.family("window", rep.n(5000, 100_000), if rep.thorough { 120.0 } else { 7.0 }, |r, cx| {
        let ph = phys(r);
        let s = *r.pick(&[33, 54, 104, 204]);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem_on(r, ph, s, lim, 8.0);
        sp.flux = flux_any(r);
        let w = r.range(1, 4);
        let a = r.range(2, s - 3 - w);
        let b = a + w - 1;
        let mut sq = sp.clone();
        let (p2, _) = data(r, ph, s, Kind::Cells, MILD, 1.0, 1.0);
        for j in 0..sp.e() {
            for i in a..=b {
                sq.prim[j * s + i] = if r.chance(0.5) { p2[j * s + i] } else { sp.prim[j * s + i] * if j == 1 { 1.1 } else { 1.0 + 0.5 * r.f() } };
            }
        }
        if r.chance(0.33) {
            strong(r, &mut sq, a, b, 10.0);
        }
        // the same steps in both
        let dt = 0.4 * (sp.cfl * sp.dx() / speed(&sp)).min(sp.cfl * sp.dx() / speed(&sq));
        for q in [&mut sp, &mut sq] {
            q.dt_max = dt;
            q.dt_min = dt * 1e-9;
            q.t_end = q.t0 + dt * 6.5;
            q.n_out = 1;
        }
        cx.desc = format!("window {a}..={b} {}", sp.describe());
        let go = |sp: &Spec| -> Result<Vec<StepEv>, String> {
            let mut sim = make(sp)?;
            ctl(|c| {
                c.log_steps = true;
                c.keep_cons = true;
                c.step_calls = 0;
                c.step_limit = 8;
            });
            let _ = sim.run();
            Ok(take_steps())
        };
        let (x, y) = (go(&sp)?, go(&sq)?);
        let per = if sp.flux == Flux::Hll { 1 } else { 2 };
        let mut reach = 0;
        let mut seen = (false, false);
        for (u, v) in x.iter().zip(&y) {
            if !u.ok || !v.ok || u.dt != v.dt {
                break;
            }
            reach += per * u.flux_calls as usize;
            for j in 0..sp.e() {
                for i in 2..s - 2 {
                    let same = u.prim[j * s + i].to_bits() == v.prim[j * s + i].to_bits() && u.cons[j * s + i].to_bits() == v.cons[j * s + i].to_bits();
                    let far = i + reach < a || i > b + reach;
                    seen.0 |= far;
                    seen.1 |= !same;
                    req!(same || !far, "after step {} cell {i} feels a disturbance of cells {a}..={b}, more than {reach} cells away: {:e} and {:e}", u.iter1, u.prim[j * s + i], v.prim[j * s + i]);
                }
            }
            cx.count("steps_compared", 1);
        }
        Ok(seen.0 && seen.1)
    });
    rep.family("evaluation", rep.n(20_000, 400_000), if rep.thorough { 60.0 } else { 5.0 }, |r, cx| {
        let ph = phys(r);
        let s = sized(r, &[11, 16, 33, 54]);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem_on(r, ph, s, lim, 8.0);
        sp.flux = flux_any(r);
        let w = r.range(1, 4);
        let a = r.range(2, s - 3 - w);
        let b = a + w - 1;
        let mut sq = sp.clone();
        for j in 0..sp.e() {
            for i in a..=b {
                sq.prim[j * s + i] *= 1.0 + 0.5 * r.f();
            }
        }
        let x = *r.pick(&[0.0, 4.0, 15.0, 30.0]);
        strong(r, &mut sq, a, b, x);
        cx.desc = format!("window {a}..={b} {}", sp.describe());
        let go = |sp: &Spec| -> Result<Result<Vec<f64>, String>, String> { Ok(make(sp)?.rhs_update()) };
        let (Ok(u), Ok(v)) = (go(&sp)?, go(&sq)?) else {
            cx.count("evaluations_refused", 1);
            return Ok(false);
        };
        let per = if sp.flux == Flux::Hll { 1 } else { 2 };
        let (mut far, mut arrives) = (0, false);
        for j in 0..sp.e() {
            for i in 2..s - 2 {
                let same = u[j * s + i].to_bits() == v[j * s + i].to_bits();
                let out = i + per < a || i > b + per;
                far += out as u64;
                arrives |= !same;
                req!(same || !out, "the right-hand side of cell {i} feels a disturbance of cells {a}..={b}: {:e} and {:e}", u[j * s + i], v[j * s + i]);
            }
        }
        cx.count("far_values_compared", far);
        Ok(far > 0 && arrives)
    });
}
/// multiplies density and pressure (or velocity) of the cells by up to 10^x
fn strong(r: &mut Rng, sq: &mut Spec, a: usize, b: usize, x: f64) {
    let s = sq.s;
    let e = sq.e();
    let (fr, fv, fp) = (10f64.powf(r.uni(-0.3, 0.3) * x), 10f64.powf(r.uni(0.0, 0.3) * x), 10f64.powf(r.uni(-0.3, 1.0) * x));
    for i in a..=b {
        sq.prim[i] *= fr;
        if e == 2 || r.chance(0.3) {
            sq.prim[s + i] *= fv;
        }
        if e == 3 {
            sq.prim[2 * s + i] *= fp;
        }
    }
}
