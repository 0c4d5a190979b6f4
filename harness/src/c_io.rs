//! C11-C17, C25: time schedule, outputs, files, configurations, faults
use crate::{c_num::asc_errors, gen::*, mon::*, oracle::*, rep::*, rng::Rng, sim::*, util::*};
use corries::prelude::*;
use std::{
    collections::BTreeMap,
    fs,
    os::unix::fs::{symlink, PermissionsExt},
    path::{Path, PathBuf},
    rc::Rc,
};

// ------------------------------------------------------------------------------------------------ shared
/// a directory of this case alone, removed when dropped
pub struct CaseDir(pub PathBuf);
impl CaseDir {
    pub fn new(cx: &Cx) -> Self {
        let p = cx.scratch.join(format!("{}-{}", cx.family, cx.idx));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("scratch directory");
        Self(p)
    }
    pub fn path(&self, s: &str) -> String {
        self.0.join(s).to_str().unwrap().to_string()
    }
}
pub fn unlock(p: &Path) {
    if let Ok(m) = fs::symlink_metadata(p) {
        if m.is_dir() {
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o755));
            if let Ok(rd) = fs::read_dir(p) {
                for e in rd.flatten() {
                    unlock(&e.path());
                }
            }
        }
    }
}
impl Drop for CaseDir {
    fn drop(&mut self) {
        unlock(&self.0);
        let _ = fs::remove_dir_all(&self.0);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
    Other,
}
pub type Tree = BTreeMap<PathBuf, Node>;
/// everything below a directory, without following links
pub fn tree(p: &Path) -> Tree {
    let mut t = Tree::new();
    fn walk(p: &Path, rel: &Path, t: &mut Tree) {
        if let Ok(rd) = fs::read_dir(p) {
            for e in rd.flatten() {
                let (q, r) = (e.path(), rel.join(e.file_name()));
                let m = match fs::symlink_metadata(&q) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                if m.file_type().is_symlink() {
                    t.insert(r, Node::Link(fs::read_link(&q).unwrap_or_default()));
                } else if m.is_dir() {
                    t.insert(r.clone(), Node::Dir);
                    walk(&q, &r, t);
                } else if m.is_file() {
                    t.insert(r, Node::File(fs::read(&q).unwrap_or_default()));
                } else {
                    t.insert(r, Node::Other);
                }
            }
        }
    }
    walk(p, Path::new(""), &mut t);
    t
}
pub fn diff_tree(want: &Tree, got: &Tree) -> Option<String> {
    for (p, n) in want {
        match got.get(p) {
            None => return Some(format!("{} is missing", p.display())),
            Some(g) if g != n => {
                return Some(match (n, g) {
                    (Node::File(a), Node::File(b)) => format!(
                        "{} has other contents ({} bytes instead of {}; differs from byte {})",
                        p.display(),
                        b.len(),
                        a.len(),
                        a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
                    ),
                    _ => format!("{} is something else: {:?} instead of {:?}", p.display(), kind(g), kind(n)),
                })
            },
            _ => {},
        }
    }
    got.keys().find(|p| !want.contains_key(*p)).map(|p| format!("{} should not exist", p.display()))
}
pub fn kind(n: &Node) -> &'static str {
    match n {
        Node::Dir => "directory",
        Node::File(_) => "file",
        Node::Link(_) => "link",
        Node::Other => "other",
    }
}
pub fn file_out(folder: &str, name: &str, fmt: FormattingMode, conv: ToStringConversionMode, names: Vec<DataName>) -> OutputConfig {
    OutputConfig {
        stream_mode: StreamMode::File,
        formatting_mode: fmt,
        string_conversion_mode: conv,
        folder_name: folder.into(),
        should_clear_out_folder: true,
        file_name: name.into(),
        precision: 17,
        should_print_ghostcells: true,
        should_print_metadata: false,
        data_names: names,
    }
}
pub const SCALARS: &[DataName] = &[DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind];
pub fn col_name(d: DataName) -> String {
    match d {
        DataName::XiCent => "xi_cent".into(),
        DataName::XiWest => "xi_west".into(),
        DataName::XiEast => "xi_east".into(),
        DataName::Prim(j) => format!("prim_{j}"),
        DataName::Cons(j) => format!("cons_{j}"),
        DataName::CSound => "c_sound".into(),
        DataName::T => "t".into(),
        DataName::Iter => "iter".into(),
        DataName::Dt => "dt".into(),
        DataName::DtKind => "dt_kind".into(),
    }
}
pub fn names_any(r: &mut Rng, e: usize, scalar: bool) -> Vec<DataName> {
    let n = r.range(1, 9);
    (0..n)
        .map(|_| {
            if scalar || r.chance(0.35) {
                *r.pick(SCALARS)
            } else {
                match r.below(6) {
                    0 => DataName::XiCent,
                    1 => DataName::XiWest,
                    2 => DataName::XiEast,
                    3 => DataName::Prim(r.below(e)),
                    4 => DataName::Cons(r.below(e)),
                    _ => DataName::CSound,
                }
            }
        })
        .collect()
}
pub fn out_any(r: &mut Rng, e: usize, folder: &str, file: &str) -> OutputConfig {
    let scalar = r.chance(0.35);
    OutputConfig {
        stream_mode: StreamMode::File,
        formatting_mode: if r.chance(0.5) { FormattingMode::CSV } else { FormattingMode::TSV },
        string_conversion_mode: if scalar { ToStringConversionMode::Scalar } else { ToStringConversionMode::Vector },
        folder_name: folder.into(),
        should_clear_out_folder: r.chance(0.5),
        file_name: file.into(),
        precision: *r.pick(&[0, 1, 2, 3, 5, 6, 7, 12, 17, 20]),
        should_print_ghostcells: r.chance(0.5),
        should_print_metadata: r.chance(0.3),
        data_names: names_any(r, e, scalar),
    }
}
/// what an output can show
#[derive(Clone, Debug)]
pub struct Vals {
    pub prim: Vec<f64>,
    pub cons: Vec<f64>,
    pub cs: Vec<f64>,
    pub t: f64,
    pub iter: usize,
    pub dt: f64,
    pub kind: String,
}
/// `x` correctly rounded to `p` digits after the point of its mantissa
pub fn sci(x: f64, p: usize) -> String {
    format!("{:.*e}", p, x)
}
pub fn header(o: &OutputConfig) -> String {
    let tsv = o.formatting_mode == FormattingMode::TSV;
    let w = if tsv { (o.precision + 7).min(12) } else { 0 };
    let cells: Vec<String> = o.data_names.iter().map(|d| format!("{:>w$}", col_name(*d))).collect();
    format!("{}{}\n", if tsv { "#" } else { "" }, cells.join(if tsv { " " } else { "," }))
}
/// the text of one output: independent of the code under test
pub fn block(o: &OutputConfig, first: bool, v: &Vals, m: &MeshInfo, s: usize) -> String {
    let tsv = o.formatting_mode == FormattingMode::TSV;
    let w = if tsv { (o.precision + 7).min(12) } else { 0 };
    let scalar = o.string_conversion_mode == ToStringConversionMode::Scalar;
    let mut out = String::new();
    if first || !scalar {
        out += &header(o);
    }
    let rows: Vec<usize> = if scalar {
        vec![usize::MAX]
    } else if o.should_print_ghostcells {
        (0..s).collect()
    } else {
        (2..s - 2).collect()
    };
    for i in rows {
        if tsv {
            out.push(' ');
        }
        for (k, d) in o.data_names.iter().enumerate() {
            if k > 0 {
                out.push(if tsv { ' ' } else { ',' });
            }
            let c = match d {
                DataName::XiCent => sci(m.xi_cent[i], o.precision),
                DataName::XiWest => sci(m.xi_west[i], o.precision),
                DataName::XiEast => sci(m.xi_east[i], o.precision),
                DataName::Prim(j) => sci(v.prim[j * s + i], o.precision),
                DataName::Cons(j) => sci(v.cons[j * s + i], o.precision),
                DataName::CSound => sci(v.cs[i], o.precision),
                DataName::T => sci(v.t, o.precision),
                DataName::Dt => sci(v.dt, o.precision),
                DataName::Iter => v.iter.to_string(),
                DataName::DtKind => v.kind.clone(),
            };
            out += &format!("{c:>w$}");
        }
        out.push('\n');
    }
    out
}
/// full path of the k-th file of an output
pub fn out_path(o: &OutputConfig, n: usize, k: usize) -> PathBuf {
    let ext = if o.formatting_mode == FormattingMode::TSV { "tsv" } else { "csv" };
    let width = n.max(1).to_string().len();
    let name = match o.string_conversion_mode {
        ToStringConversionMode::Scalar => format!("{}.{ext}", o.file_name),
        ToStringConversionMode::Vector => format!("{}_{:0w$}.{ext}", o.file_name, k, w = width),
    };
    Path::new(&o.folder_name).join(name)
}
pub fn meta_path(o: &OutputConfig) -> PathBuf {
    let us = if o.string_conversion_mode == ToStringConversionMode::Vector { "_" } else { "" };
    Path::new(&o.folder_name).join(format!("{}{us}_metadata.json", o.file_name))
}
pub fn vals(sim: &dyn Sim) -> Vals {
    let v = sim.vars(Dir::Cent);
    let t = sim.time();
    Vals { prim: v.prim, cons: v.cons, cs: v.cs, t: t.t, iter: t.iter, dt: t.dt, kind: format!("{}", t.dt_kind) }
}
#[derive(Clone, Debug)]
struct Row {
    t: f64,
    iter: usize,
    dt: f64,
    kind: String,
}
/// rows of a scalar CSV output with the columns t, iter, dt, dt_kind
fn rows(path: &Path) -> Result<Vec<Row>, String> {
    let txt = fs::read_to_string(path).map_err(|e| format!("{} cannot be read: {e}", path.display()))?;
    let mut l = txt.lines();
    req!(l.next() == Some("t,iter,dt,dt_kind"), "the first line of a scalar output is not its header: {txt:.200}");
    l.map(|x| {
        let c: Vec<&str> = x.split(',').collect();
        let f = |i: usize| c.get(i).and_then(|v: &&str| v.parse::<f64>().ok()).ok_or(format!("bad row {x:?}"));
        Ok(Row {
            t: f(0)?,
            iter: c.get(1).and_then(|v| v.parse().ok()).ok_or(format!("bad row {x:?}"))?,
            dt: f(2)?,
            kind: c.get(3).unwrap_or(&"").to_string(),
        })
    })
    .collect()
}
fn ulp(x: f64) -> f64 {
    f64::EPSILON * x.abs().max(f64::MIN_POSITIVE)
}
/// a problem that certainly runs to its end: smooth data, first order scheme
fn easy(r: &mut Rng, steps: f64) -> Spec {
    let ph = phys(r);
    let s = sized(r, &[6, 7, 8, 11, 16]);
    let kind = *r.pick(&[Kind::Uniform, Kind::Smooth, Kind::Riemann]);
    let (prim, cs) = data(r, ph, s, kind, MILD, 1.0, 1.0);
    let mut sp = Spec {
        phys: ph,
        flux: Flux::Hll,
        s,
        rkf: rkf(r, false),
        xi: interval(r, s),
        gamma: gamma(r),
        cfl: r.uni(0.05, 0.4),
        prim,
        cs,
        ..Default::default()
    };
    let steps = steps * r.uni(0.1, 1.0);
    set_duration(&mut sp, steps);
    sp
}

// ------------------------------------------------------------------------------------------------ C11
pub fn c11(rep: &Rep) {
    rep.rule("whole runs with an attached scalar output (precision 17) and a step log: t0, t_end, N and dt limits random (t0 up to 1e6 t_end, N up to several hundred, up to more outputs than natural steps), step control on and off; the history is compared with the exact schedule, the finished run is started again, and manual stepping is compared with the run. Non-trivial: the run succeeded with at least two steps.");
    rep.family("schedule", rep.n(12_000, 200_000), if rep.thorough { 250.0 } else { 14.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let mut sp = easy(r, 40.0);
        sp.n_out = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => r.range(2, 4),
            3 => *r.pick(&[9, 10, 11, 99, 100, 101]),
            4 => r.range(50, 300),
            _ => r.range(1, 30),
        };
        if r.chance(0.5) {
            let dur = sp.t_end - sp.t0;
            sp.t0 = match r.below(4) {
                0 => 0.1,
                1 => dur * r.log10(-2.0, 2.0),
                2 => dur * r.log10(2.0, 6.0),
                _ => dur / 3.0,
            };
            sp.t_end = sp.t0 + dur;
        }
        let dur = sp.t_end - sp.t0;
        let natural = sp.cfl * sp.dx() / speed(&sp);
        match r.below(5) {
            0 => sp.dt_max = natural * r.log10(-1.0, 0.5),
            1 => sp.dt_min = natural * r.log10(-12.0, -3.0),
            2 => sp.dt_max = dur / sp.n_out.max(1) as f64,
            _ => {},
        }
        sp.dt_min = sp.dt_min.min(1e-3 * dur / sp.n_out.max(1) as f64).min(1e-3 * natural);
        sp.rkf.asc = r.chance(0.3);
        let asc = sp.rkf.asc && tableau(sp.rkf.rkf_mode).embedded;
        sp.outputs = vec![file_out(&dir.path("o"), "f", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec())];
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.step_limit = 5000;
        });
        let res = sim.run();
        if ctl(|c| c.limit_hit) {
            // far more steps than natural: legitimate only with step control or a tiny dt_max
            let n = 40.0 * (1.0 + natural / sp.dt_max) + sp.n_out as f64;
            req!(asc || n > 1500.0, "the run has not ended after 5000 steps");
            return Ok(false);
        }
        if let Err(m) = &res {
            req!(asc, "the run failed: {m}");
            return Ok(false);
        }
        let st = take_steps();
        let eps = 4.0 * ulp(sp.t_end);
        let mut t = sp.t0;
        for (k, ev) in st.iter().enumerate() {
            req!(ev.ok, "step {k} failed, but the run succeeded");
            req!(ev.t0 == t, "step {k} starts at {:e}, the one before ended at {t:e}", ev.t0);
            req!(ev.dt > 0.0 && ev.t1 > ev.t0, "step {k} does not advance: dt = {:e}, t = {:e} -> {:e}", ev.dt, ev.t0, ev.t1);
            req!((ev.t1 - (ev.t0 + ev.dt)).abs() <= ulp(ev.t1), "step {k} goes from {:e} to {:e} but reports dt = {:e}", ev.t0, ev.t1, ev.dt);
            req!(ev.iter0 == k && ev.iter1 == k + 1, "step {k}: iteration counter {} -> {}", ev.iter0, ev.iter1);
            req!(ev.t1 <= sp.t_end + eps, "step {k} passes the end time: {:e} > {:e}", ev.t1, sp.t_end);
            t = ev.t1;
        }
        cx.count("steps", st.len() as u64);
        req!((t - sp.t_end).abs() <= 0.01 * sp.dt_min + eps, "the run ended at t = {t:e} instead of {:e}", sp.t_end);
        req!(sim.time().t == t && sim.time().iter == st.len(), "the clock shows t = {:e}, iter = {} after {} steps up to {t:e}", sim.time().t, sim.time().iter, st.len());
        // outputs
        let path = out_path(&sp.outputs[0], sp.n_out, 0);
        let rw = rows(&path)?;
        let want: Vec<f64> = if sp.n_out == 0 {
            vec![sp.t0]
        } else {
            (0..=sp.n_out).map(|k| sp.t0 + k as f64 * (dur / sp.n_out as f64)).collect()
        };
        req!(rw.len() == want.len(), "{} outputs instead of {} (N = {})", rw.len(), want.len(), sp.n_out);
        let tol = sp.dt_min * 1.01 + (sp.n_out + 6) as f64 * ulp(sp.t_end);
        for (k, (a, b)) in rw.iter().zip(&want).enumerate() {
            cx.max("output_time_err_over_tol", (a.t - b).abs() / tol);
            req!((a.t - b).abs() <= tol, "output {k} is at t = {:.17e} instead of {b:.17e}", a.t);
            if a.iter == 0 {
                req!(a.t == sp.t0 && a.kind == "init" && k == 0, "output {k} claims iteration 0 at t = {:e} ({})", a.t, a.kind);
            } else {
                let ev = st.get(a.iter - 1).ok_or(format!("output {k} claims iteration {}", a.iter))?;
                req!(a.t == ev.t1 && a.dt == ev.dt, "output {k} shows t = {:e}, dt = {:e}; step {} ended at {:e} with {:e}", a.t, a.dt, a.iter, ev.t1, ev.dt);
                req!(a.kind == "cfl", "output {k} is marked {:?}", a.kind);
            }
        }
        req!(rw[0].t == sp.t0 && rw[0].iter == 0, "the first output is at t = {:e}, iter = {}", rw[0].t, rw[0].iter);
// (a last output within dt_min of the end may be followed by one step over the remaining rounding error)
        req!(sp.n_out == 0 || rw[sp.n_out].iter + 1 >= st.len(), "the last output is of step {} of {}", rw[sp.n_out].iter, st.len());
        cx.count("outputs", rw.len() as u64);
        // run again
        let (p, file, clock) = (sim.vars(Dir::Cent), fs::read(&path).unwrap_or_default(), sim.time());
        for _ in 0..r.range(1, 2) {
            sim.run().map_err(|m| format!("running the finished simulation again fails: {m}"))?;
        }
        let c2 = sim.time();
        req!(take_steps().is_empty(), "running the finished simulation again takes steps");
        req!(fs::read(&path).unwrap_or_default() == file, "running the finished simulation again changes its output");
        req!(sim.vars(Dir::Cent) == p && c2.t == clock.t && c2.iter == clock.iter, "running the finished simulation again changes the state");
        // manual stepping
        if sp.n_out <= 1 {
            drop(sim);
            sp.outputs.clear();
            let mut sim = make(&sp)?;
            for (k, ev) in st.iter().enumerate() {
                sim.step().map_err(|m| format!("manual step {k} fails: {m}"))?;
                let c = sim.time();
                req!((c.t - ev.t1).abs() <= 8.0 * ulp(sp.t_end) && c.iter == ev.iter1, "manual step {k} leads to t = {:e}, the run to {:e}", c.t, ev.t1);
                cx.count("manual_steps", 1);
            }
        }
        Ok(st.len() > 1)
    });
}

// ------------------------------------------------------------------------------------------------ C12
pub fn c12(rep: &Rep) {
    rep.rule("runs that cannot continue: iteration limits, dt_min above the CFL width (from the start or later), states without finite step, invalid initial states, and failures injected into the flux scheme or the time integrator at a random call (error, NaN, infinity, negative or zero density or pressure); several file outputs. control: step control driven below dt_min, no attempt after a rejected one may be narrower. The files are compared with those of the same run without the fault. Non-trivial: the run failed after writing its outputs.");
    rep.family("faults", rep.n(6000, 80_000), if rep.thorough { 250.0 } else { 16.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let mut sp = easy(r, 25.0);
        if r.chance(0.4) {
            sp.flux = Flux::Kt(limiter_tvd(r));
        }
        sp.rkf.asc = r.chance(0.2);
        sp.n_out = *r.pick(&[0, 1, 2, 3, 5, 9, 10, 12, 100]);
        let (e, s) = (sp.e(), sp.s);
        let nout = r.range(1, 3);
        for k in 0..nout {
            let mut o = out_any(r, e, &dir.path(&format!("o{k}")), "x");
            o.should_clear_out_folder = true;
            if k == 0 {
                o = file_out(&dir.path("o0"), "x", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec());
            }
            sp.outputs.push(o);
        }
        // reference run
        let mut sim = make(&sp)?;
        let nat = cfl_dt(sp.phys, sp.gamma, &sim.prim(), &sp.cs, s, sp.dx(), sp.cfl);
        ctl(|c| {
            c.log_steps = true;
            c.step_limit = 2000;
        });
        let r0 = sim.run();
        let (st0, calls0, steps0) = (take_steps(), ctl(|c| c.flux_calls), ctl(|c| c.step_calls));
        if r0.is_err() || steps0 == 0 {
            return Ok(false);
        }
        let ref_tree = tree(&dir.0);
        drop(sim);
        // the same with a fault
        reset();
        let mut bad = sp.clone();
        let what = r.below(9);
        let mut must_fail = true;
        let (mut act, mut sact) = (None, None);
        let call = (r.u64() % calls0.max(1)) as u64;
        let cell = (r.below(e), r.range(2, s - 3));
        let label;
        match what {
            0 => {
                bad.iter_max = r.range(1, st0.len());
                label = format!("iter_max={}", bad.iter_max);
            },
            1 => {
                let k = r.below(st0.len());
                // just above the width of some step that was not cut short by an output
                bad.dt_min = (nat * r.log10(0.01, 3.0)).max(st0[k].dt * 1.01);
                must_fail = bad.dt_min > nat * 1.0001;
                if bad.dt_min > 50.0 * (sp.t_end - sp.t0) {
                    return Ok(false);
                }
                label = format!("dt_min={:e}", bad.dt_min);
            },
            2 => {
                // nothing moves and nothing sounds
                bad.phys = Phys::Iso;
                if sp.phys != Phys::Iso {
                    return Ok(false);
                }
                bad.cs = vec![0.0; s];
                (0..s).for_each(|i| bad.prim[s + i] = 0.0);
                label = "no finite step".into();
            },
            3 => {
                let v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0]);
                let j = if v == -1.0 { *r.pick(&[0, e - 1]) } else { cell.0 };
                if v == -1.0 && j == 1 {
                    return Ok(false);
                }
                bad.prim[j * s + cell.1] = v;
                label = format!("initial prim[{j},{}]={v}", cell.1);
            },
            4 => {
                act = Some((call, Act::Err));
                label = format!("flux error at call {call}");
            },
            5 => {
                let v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                act = Some((call, Act::Set { j: cell.0, i: cell.1, v }));
                label = format!("dflux[{cell:?}]={v} at call {call}");
                // a vanishing tableau weight could in principle hide it: decided below by what is seen
            },
            6 => {
                act = Some((call, Act::Set { j: if sp.phys == Phys::Adi { *r.pick(&[0, 2]) } else { 0 }, i: cell.1, v: r.log10(3.0, 30.0) / nat }));
                must_fail = false;
                label = format!("huge dflux at call {call}");
            },
            7 => {
                sact = Some((r.u64() % steps0, StepAct::ErrBefore));
                label = format!("step error before step {:?}", sact.as_ref().map(|x| x.0));
            },
            _ => {
                sact = Some((r.u64() % steps0, StepAct::ErrAfter));
                label = format!("step error after step {:?}", sact.as_ref().map(|x| x.0));
            },
        }
        cx.desc = format!("fault: {label}; {}", bad.describe());
        cx.count(&format!("kind_{what}"), 1);
        for o in &sp.outputs {
            let _ = fs::remove_dir_all(&o.folder_name);
        }
        let mut sim = match make(&bad) {
            Ok(s) => s,
            Err(m) => return Err(format!("initialisation already fails: {m}")),
        };
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 4000;
            c.flux_act = act;
            c.step_act = sact;
        });
        let v0 = vals(&*sim);
        let res = sim.run();
        let st = take_steps();
        if ctl(|c| c.limit_hit) {
            req!(what == 6, "the run has not ended after 4000 steps");
            return Ok(false);
        }
        let acted = ctl(|c| c.acted);
        let got = tree(&dir.0);
        let txt = rows(&out_path(&sp.outputs[0], sp.n_out, 0))?;
        if res.is_ok() {
            req!(!must_fail || (what >= 4 && !acted), "the run reports success");
            req!(txt.iter().all(|x| x.kind != "err"), "a successful run has an error dump");
            return Ok(false);
        }
        // exactly one output more than the regular ones, marked as error dump
        let n = txt.len();
        req!(n >= 2, "the failing run left {n} outputs: the initial one and the error dump are missing");
        req!(txt[n - 1].kind == "err", "the last output of the failing run is marked {:?}", txt[n - 1].kind);
        req!(txt[..n - 1].iter().all(|x| x.kind != "err"), "more than one error dump: {txt:?}");
        // nothing happens after the failing step
        let fails = st.iter().filter(|x| !x.ok).count();
        if what == 0 {
            req!(st.len() == bad.iter_max, "{} steps were taken with iter_max = {}", st.len(), bad.iter_max);
        } else {
            req!(fails <= 1 && st.iter().position(|x| !x.ok).map_or(true, |k| k + 1 == st.len()), "the run went on after a failing step");
        }
        // regular outputs: as many as were due
        let t = sim.time();
        let dur = sp.t_end - sp.t0;
        if what == 1 || what == 2 || what == 3 || bad.n_out == 0 {
            if bad.n_out == 0 || what > 1 || must_fail {
                req!(n == 2, "{} outputs instead of the initial one and the error dump", n);
            }
        } else {
            // the step that fails is not followed by a regular output
            let before = st.last().map_or(sp.t0, |x| if what == 7 { x.t1 } else { x.t0 });
            let due = 1 + (1..=bad.n_out).filter(|k| sp.t0 + *k as f64 * dur / bad.n_out as f64 <= before + 1e-9 * dur / bad.n_out as f64).count();
            req!(n == due + 1, "{} outputs before the error dump instead of {due} (failed after t = {before:e})", n - 1);
        }
        // the dump shows the state as it was left behind, and every output got it under the next number
        let mut v1 = vals(&*sim);
        req!(txt[n - 1].t == t.t && txt[n - 1].iter == t.iter, "the error dump shows t = {:e}, iter = {}; the clock t = {:e}, iter = {}", txt[n - 1].t, txt[n - 1].iter, t.t, t.iter);
        v1.kind = "err".into();
        // that is the state in which the time solver left it (an injected failure may leave none on record)
        if what != 7 {
            let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
            let c = sim.vars(Dir::Cent);
            match st.last() {
                Some(x) => req!(same(&c.prim, &x.prim) && same(&c.cons, &x.cons) && same(&c.cs, &x.cs), "after the failure the state is not the one in which the last step left it"),
                None => return Err("the run failed before its first step".into()),
            }
            cx.count("dump_compared_with_last_step", 1);
        }
        let mesh = sim.mesh();
        let mut expected_files = 0;
        for (k, o) in sp.outputs.iter().enumerate() {
            let rel = |p: PathBuf| p.strip_prefix(&dir.0).unwrap().to_path_buf();
            let want = block(o, false, &v1, &mesh, s);
            match o.string_conversion_mode {
                ToStringConversionMode::Vector => {
                    for q in 0..n {
                        let p = rel(out_path(o, sp.n_out, q));
                        let f = match got.get(&p) {
                            Some(Node::File(b)) => b.clone(),
                            x => return Err(format!("output {k}: {} is missing after the failure ({:?})", p.display(), x.map(kind))),
                        };
                        if q == n - 1 {
                            req!(f == want.as_bytes(), "output {k}: the error dump does not show the last state");
                        } else if q == 0 {
                            req!(f == block(o, true, &v0, &mesh, s).as_bytes(), "output {k}: the initial output was changed");
                        } else if ![1, 2, 3, 6].contains(&what) {
                            req!(ref_tree.get(&p) == Some(&Node::File(f)), "output {k}: {} differs from the run without failure", p.display());
                        }
                    }
                    expected_files += n;
                },
                ToStringConversionMode::Scalar => {
                    let p = rel(out_path(o, sp.n_out, 0));
                    let f = match got.get(&p) {
                        Some(Node::File(b)) => b.clone(),
                        _ => return Err(format!("output {k}: {} is missing after the failure", p.display())),
                    };
                    req!(f.ends_with(want.as_bytes()), "output {k}: the error dump does not show the last state");
                    let head = &f[..f.len() - want.len()];
                    req!(head.iter().filter(|c| **c == b'\n').count() == n, "output {k} has another number of rows than output 0");
                    if ![1, 2, 3, 6].contains(&what) {
                        if let Some(Node::File(g)) = ref_tree.get(&p) {
                            req!(g.starts_with(head), "output {k}: earlier rows differ from the run without failure");
                        }
                    }
                    expected_files += 1;
                },
            }
            expected_files += o.should_print_metadata as usize;
        }
        let files = got.values().filter(|x| matches!(x, Node::File(_))).count();
        req!(files == expected_files, "{files} files instead of {expected_files} after the failure");
        cx.count("failing_runs_checked", 1);
        cx.count("outputs_before_dump", n as u64 - 1);
        Ok(true)
    });
    // step control that is driven below dt_min
    rep.family("control", rep.n(4000, 60_000), if rep.thorough { 60.0 } else { 5.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 15.0);
        while !tableau(sp.rkf.rkf_mode).embedded {
            sp.rkf = rkf(r, false);
        }
        sp.rkf.asc = true;
        sp.rkf.asc_relative_tolerance = r.log10(-6.0, -1.0);
        sp.rkf.asc_absolute_tolerance = r.log10(-4.0, 0.0);
        sp.rkf.asc_timestep_friction = r.uni(0.001, 0.1);
        // close below the CFL width
        sp.dt_min = sp.cfl * sp.dx() / speed(&sp) * r.log10(-1.5, -0.02);
        sp.n_out = r.range(1, 3);
        sp.outputs.push(file_out(&dir.path("o0"), "x", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec()));
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_stages = true;
            c.log_steps = true;
            c.step_limit = 15;
            c.call_limit = 40_000;
        });
        let res = sim.run();
        if ctl(|c| c.limit_hit && c.step_calls <= 15) {
            return Err("a single step does not end".into());
        }
        let (st, sg) = (take_steps(), take_stages());
        let gave_up = matches!(&res, Err(m) if m.contains("dt_min"));
        let mut retries = 0;
        for (ev, att) in st.iter().zip(asc_errors(&sp, &st, &sg)) {
            let n = if !ev.ok && gave_up { att.len() } else { att.len().saturating_sub(1) };
            for (k, (dt, _)) in att.iter().enumerate().take(n).skip(1) {
                if dt.is_nan() {
                    continue;
                }
                retries += 1;
                req!(*dt >= sp.dt_min * (1.0 - 1e-6), "step {}: attempt {k} goes on with width {dt:e}, below dt_min = {:e}", ev.iter1, sp.dt_min);
            }
        }
        if res.is_err() {
            let txt = rows(&out_path(&sp.outputs[0], sp.n_out, 0))?;
            let n = txt.len();
            req!(n >= 2 && txt[n - 1].kind == "err" && txt[..n - 1].iter().all(|x| x.kind != "err"), "the failing run left {txt:?}");
            cx.count("given_up", gave_up as u64);
        }
        cx.count("retries", retries);
        Ok(gave_up || retries > 0)
    });
    // states without signals, with a flux scheme and an integrator that have no difficulty with them
    rep.family("no_signal", rep.n(1500, 20_000), if rep.thorough { 40.0 } else { 3.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let mut sp = easy(r, 25.0);
        if sp.phys != Phys::Iso {
            return Ok(false);
        }
        let s = sp.s;
        sp.flux = Flux::Ode;
        sp.rkf.asc = r.chance(0.2);
        sp.bc = (Bc::NoGrad, Bc::NoGrad);
        sp.cs = vec![0.0; s];
        (0..s).for_each(|i| sp.prim[s + i] = if r.chance(0.5) { 0.0 } else { -0.0 });
        sp.n_out = *r.pick(&[0, 1, 2, 5]);
        sp.outputs.push(file_out(&dir.path("o0"), "x", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec()));
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        ctl(|c| {
            c.log_steps = true;
            c.step_limit = 100;
            c.ode = Some(std::rc::Rc::new(|_, d| d.fill(0.0)));
        });
        let res = sim.run();
        let lim = ctl(|c| c.limit_hit);
        req!(res.is_err() && !lim, "nothing moves in this state, there is no finite CFL time step, but the run went on ({} steps)", take_steps().len());
        let txt = rows(&out_path(&sp.outputs[0], sp.n_out, 0))?;
        req!(txt.len() == 2 && txt[0].kind != "err" && txt[1].kind == "err", "the outputs are not the initial one and the error dump: {txt:?}");
        cx.count("states_without_signal", 1);
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C13
fn odd_value(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => r.sign() * r.log10(-320.0, -290.0),
        3 => r.sign() * r.log10(290.0, 308.0),
        4 => r.sign() * f64::MAX,
        5 => r.sign() * f64::MIN_POSITIVE,
        6 => r.sign() * 9.9999999999,
        7 => r.sign() * (1.0 - f64::EPSILON / 2.0),
        8 => r.sign() * (r.below(2000) as f64 + 0.5),
        9 => f64::from_bits(r.u64() & 0xffef_ffff_ffff_ffff | 0),
        _ => r.sign() * r.log10(-8.0, 8.0),
    }
}
pub fn c13(rep: &Rep) {
    rep.rule("contents: simulations whose state and clock are set to arbitrary values are written to one to four files with random columns, formats, precisions and ghost cell settings, several times; every byte is compared with an independent formatter. runs: in whole runs every output is compared with the state recorded after the step it names. Non-trivial: at least one block compared.");
    rep.family("contents", rep.n(20_000, 250_000), if rep.thorough { 200.0 } else { 14.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let ph = phys(r);
        let (e, s) = (ph.e(), sized(r, &[6, 7, 8, 11, 16, 33]));
        let (prim, cs) = data(r, ph, s, Kind::Uniform, MILD, 1.0, 1.0);
        let mut sp = Spec { phys: ph, s, xi: interval(r, s), prim, cs, n_out: *r.pick(&[0, 1, 5, 9, 10, 100]), ..Default::default() };
        for k in 0..r.range(1, 4) {
            let f = if r.chance(0.5) { "f" } else { "name.with dots" };
            let slash = if r.chance(0.3) { "/" } else { "" };
            let o = out_any(r, e, &format!("{}{slash}", dir.path(&format!("o{k}"))), f);
            sp.outputs.push(o);
        }
        cx.desc = format!("{:?} S={s} xi={:?} N={} outputs: {:?}", ph, sp.xi, sp.n_out, sp.outputs);
        let mut sim = make(&sp)?;
        let mesh = sim.mesh();
        let mut scalar: Vec<String> = vec![String::new(); sp.outputs.len()];
        let wild = r.chance(0.7);
        let mut kind = "init".to_string();
        for k in 0..r.range(1, 4) {
            if wild {
                let p: Vec<f64> = (0..e * s).map(|_| odd_value(r)).collect();
                let c: Vec<f64> = (0..e * s).map(|_| odd_value(r)).collect();
                let a: Vec<f64> = (0..s).map(|_| odd_value(r)).collect();
                sim.set_prim(Dir::Cent, &p);
                sim.set_cons(Dir::Cent, &c);
                sim.set_cs(Dir::Cent, &a);
            }
            let t = sim.ts();
            t.t = odd_value(r);
            t.dt = odd_value(r);
            t.iter = if r.chance(0.2) { r.u64() as usize } else { r.below(100_000) };
            if r.chance(0.5) {
                let (d, n) = [(DtKind::Init, "init"), (DtKind::Cfl, "cfl"), (DtKind::ErrorDump, "err")][r.below(3)];
                t.dt_kind = d;
                kind = n.to_string();
            }
            let mut v = vals(&*sim);
            v.kind = kind.clone();
            sim.write_now().map_err(|m| format!("writing output {k} failed: {m}"))?;
            for (q, o) in sp.outputs.iter().enumerate() {
                let want = block(o, k == 0, &v, &mesh, s);
                let f = out_path(o, sp.n_out, k);
                let got = fs::read(&f).map_err(|x| format!("{}: {x}", f.display()))?;
                let want = if o.string_conversion_mode == ToStringConversionMode::Scalar {
                    scalar[q] += &want;
                    scalar[q].clone()
                } else {
                    want
                };
                if got != want.as_bytes() {
                    let g = String::from_utf8_lossy(&got).to_string();
                    let l = g.lines().zip(want.lines()).position(|(a, b)| a != b);
                    let (a, b) = l.map_or(("", ""), |l| (g.lines().nth(l).unwrap(), want.lines().nth(l).unwrap()));
                    return Err(format!("{} ({:?}): line {l:?} of {} (expected {}) is {a:?} instead of {b:?}", f.display(), o, g.lines().count(), want.lines().count()));
                }
                cx.count("blocks", 1);
                cx.count("values", (want.lines().count() * o.data_names.len()) as u64);
            }
        }
        Ok(true)
    });
    rep.family("runs", rep.n(3000, 40_000), if rep.thorough { 150.0 } else { 10.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let lim = *r.pick(&[MILD, MED]);
        let mut sp = problem(r, lim, 15.0);
        sp.n_out = r.range(0, 6);
        let e = sp.e();
        for k in 0..r.range(1, 3) {
            let o = out_any(r, e, &dir.path(&format!("o{k}")), "x");
            sp.outputs.push(o);
        }
        sp.outputs.push(file_out(&dir.path("times"), "x", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec()));
        cx.desc = format!("{} outputs: {:?}", sp.describe(), sp.outputs);
        let mut sim = make(&sp)?;
        let v0 = vals(&*sim);
        let mesh = sim.mesh();
        ctl(|c| {
            c.log_steps = true;
            c.keep_cons = true;
            c.step_limit = 300;
        });
        let res = sim.run();
        let st = take_steps();
        let rw = rows(&out_path(sp.outputs.last().unwrap(), sp.n_out, 0))?;
        let mut seen = 0;
        let mut scalar: Vec<String> = vec![String::new(); sp.outputs.len()];
        for (k, x) in rw.iter().enumerate() {
            let mut v = if x.iter == 0 {
                v0.clone()
            } else if let Some(ev) = st.get(x.iter - 1) {
                Vals { prim: ev.prim.clone(), cons: ev.cons.clone(), cs: ev.cs.clone(), t: ev.t1, iter: ev.iter1, dt: ev.dt, kind: "cfl".into() }
            } else {
                return Err(format!("output {k} claims iteration {} of {}", x.iter, st.len()));
            };
            if x.kind == "err" {
                req!(res.is_err() && k + 1 == rw.len(), "unexpected error dump");
                v = vals(&*sim);
            }
            req!(x.kind == if k == 0 { "init" } else if x.kind == "err" { "err" } else { "cfl" }, "output {k} is marked {:?}", x.kind);
            v.kind = x.kind.clone();
            for (q, o) in sp.outputs.iter().enumerate() {
                let want = block(o, k == 0, &v, &mesh, sp.s);
                let f = out_path(o, sp.n_out, k);
                let got = fs::read(&f).map_err(|x| format!("{}: {x}", f.display()))?;
                if o.string_conversion_mode == ToStringConversionMode::Scalar {
                    scalar[q] += &want;
                    req!(got.starts_with(scalar[q].as_bytes()), "{}: row {k} is not the state of step {}", f.display(), x.iter);
                } else {
                    req!(got == want.as_bytes(), "{} does not show the state of step {}", f.display(), x.iter);
                }
                seen += 1;
            }
        }
        cx.count("run_blocks", seen);
        Ok(seen > 0)
    });
}

// ------------------------------------------------------------------------------------------------ C14
const FILE_NAMES: &[&str] = &["f", "output", "name.with.dots", "with space", "UPPER_lower", "42", "a_1"];
pub fn c14(rep: &Rep) {
    rep.rule("histories of one to three whole runs into the same folders (output counts growing and shrinking through powers of ten, folders with and without trailing slash, nested, new or filled with other files, cleared or not, several outputs in one folder): after each run the directory tree is compared with the expected set of files; names sort by output time; metadata reproduces the configuration; nothing is left of longer predecessors. During the runs the files are photographed before every step: earlier files and rows never change. Non-trivial: more than one output file or run.");
    rep.family("runs", rep.n(4000, 60_000), if rep.thorough { 250.0 } else { 16.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let nf = r.range(1, 2);
        let folders: Vec<String> = (0..nf)
            .map(|k| {
                let base = *r.pick(&["o", "deep/er/o", "with space/o", "d.ot/o"]);
                format!("{}{k}{}", dir.path(base), if r.chance(0.3) { "/" } else { "" })
            })
            .collect();
        let mut model = Tree::new();
        // something is there already
        for f in &folders {
            if r.chance(0.5) {
                fs::create_dir_all(f).unwrap();
                for n in ["old.csv", "f_0.csv.bak", "sub/x"] {
                    if r.chance(0.5) {
                        let p = Path::new(f).join(n);
                        fs::create_dir_all(p.parent().unwrap()).unwrap();
                        fs::write(&p, b"old contents\n").unwrap();
                    }
                }
            }
        }
        for (p, n) in tree(&dir.0) {
            model.insert(p, n);
        }
        let runs = r.range(1, 3);
        let mut desc = String::new();
        let mut files_seen = 0;
        for run in 0..runs {
            let mut sp = easy(r, 12.0);
            sp.n_out = *r.pick(&[0, 1, 2, 3, 8, 9, 10, 11, 12, 25, 99, 100, 101, 999, 1000, 1001]);
            if sp.n_out > 101 && !r.chance(0.1) {
                sp.n_out %= 100;
            }
            if sp.s > 54 {
                sp.n_out %= 13;
            }
            let nout = r.range(1, 3);
            let mut used: Vec<(usize, String)> = vec![];
            for _ in 0..nout {
                let k = r.below(nf);
                let name = r.pick(FILE_NAMES).to_string();
                if used.contains(&(k, name.clone())) {
                    continue;
                }
                let mut o = out_any(r, sp.e(), &folders[k], &name);
                // a later output that clears the folder of an earlier one only acts before anything is written
                o.should_clear_out_folder = r.chance(0.3);
                o.should_print_metadata = r.chance(0.5);
                used.push((k, name));
                sp.outputs.push(o);
            }
            desc = format!("{desc} run {run}: {} {:?};", sp.head(), sp.outputs);
            cx.desc = desc.clone();
            // model: clearing and creation
            let rel = |p: &Path| p.strip_prefix(&dir.0).unwrap().to_path_buf();
            for o in &sp.outputs {
                let f = rel(Path::new(&o.folder_name));
                if o.should_clear_out_folder {
                    model.retain(|p, _| !p.starts_with(&f));
                }
                for a in f.ancestors() {
                    if !a.as_os_str().is_empty() {
                        model.entry(a.to_path_buf()).or_insert(Node::Dir);
                    }
                }
            }
            let mut sim = make(&sp)?;
            for o in &sp.outputs {
                if o.should_print_metadata {
                    let p = meta_path(o);
                    let txt = fs::read_to_string(&p).map_err(|e| format!("metadata {}: {e}", p.display()))?;
                    let got: serde_json::Value = serde_json::from_str(&txt).map_err(|e| format!("metadata {} is not JSON: {e}", p.display()))?;
                    let want = expected_metadata(&sp);
                    if got != want {
                        return Err(format!("metadata {} does not reproduce the configuration: {}", p.display(), json_diff(&want, &got, "")));
                    }
                    model.insert(rel(&p), Node::File(txt.into_bytes()));
                    cx.count("metadata_files", 1);
                }
            }
            if let Some(d) = diff_tree(&model, &tree(&dir.0)) {
                return Err(format!("after initialising run {run}: {d}"));
            }
            // photograph the folder before every step
            let v0 = vals(&*sim);
            let mesh = sim.mesh();
            let shots: Rc<std::cell::RefCell<Vec<Tree>>> = Default::default();
            let photo = r.chance(0.3) && sp.n_out <= 12;
            if photo {
                let (sh, d) = (shots.clone(), dir.0.clone());
                ctl(|c| c.on_step = Some(Rc::new(move |_| sh.borrow_mut().push(tree(&d)))));
            }
            ctl(|c| c.step_limit = 4000);
            sim.run().map_err(|m| format!("run {run} failed: {m}"))?;
            let got = tree(&dir.0);
            reset();
            let mut texts: Vec<Vec<Vec<u8>>> = vec![];
            for o in &sp.outputs {
                let mut files = vec![];
                let ks = if o.string_conversion_mode == ToStringConversionMode::Scalar { 1 } else { sp.n_out + 1 };
                let rows_per = if o.string_conversion_mode == ToStringConversionMode::Scalar {
                    sp.n_out + 1
                } else if o.should_print_ghostcells {
                    sp.s
                } else {
                    sp.s - 4
                };
                for k in 0..ks {
                    let p = rel(&out_path(o, sp.n_out, k));
                    match got.get(&p) {
                        Some(Node::File(b)) => {
                            let n = b.iter().filter(|c| **c == b'\n').count();
                            req!(n == rows_per + 1 && b.last() == Some(&b'\n'), "run {run}: {} has {n} lines instead of {}", p.display(), rows_per + 1);
                            req!(b.starts_with(header(o).as_bytes()), "run {run}: {} does not start with its header", p.display());
                            let h = header(o);
                            let body = String::from_utf8_lossy(&b[h.len()..]).to_string();
                            req!(!body.contains(h.trim_end()), "run {run}: {} has several headers", p.display());
                            if k == 0 {
                                let w = block(o, true, &v0, &mesh, sp.s);
                                req!(b.starts_with(w.as_bytes()), "run {run}: {} does not start with the initial output", p.display());
                            }
                            files.push(b.clone());
                            model.insert(p, Node::File(b.clone()));
                        },
                        x => return Err(format!("run {run}: {} is missing ({:?})", p.display(), x.map(kind))),
                    }
                    files_seen += 1;
                }
                // names sort like the output times
                let mut names: Vec<PathBuf> = (0..ks).map(|k| out_path(o, sp.n_out, k)).collect();
                let orig = names.clone();
                names.sort();
                req!(names == orig, "file names do not sort chronologically");
                if ks > 1 && o.data_names.contains(&DataName::Iter) {
                    let c = o.data_names.iter().position(|d| *d == DataName::Iter).unwrap();
                    let it: Vec<i64> = files
                        .iter()
                        .map(|b| {
                            let l = String::from_utf8_lossy(b).lines().nth(1).unwrap_or("").to_string();
                            let f: Vec<&str> = if o.formatting_mode == FormattingMode::CSV { l.split(',').collect() } else { l.split_whitespace().collect() };
                            f.get(c).and_then(|v| v.parse().ok()).unwrap_or(-1)
                        })
                        .collect();
                    req!(it.windows(2).all(|w| w[0] < w[1]) && it[0] == 0, "run {run}: the iterations in the numbered files are {it:?}");
                }
                texts.push(files);
            }
            if let Some(d) = diff_tree(&model, &got) {
                return Err(format!("after run {run}: {d}"));
            }
            for w in shots.borrow().iter() {
                for (o, fin) in sp.outputs.iter().zip(&texts) {
                    for (k, f) in fin.iter().enumerate() {
                        if let Some(Node::File(b)) = w.get(&rel(&out_path(o, sp.n_out, k))) {
                            // not cleared and not yet written: a file of an earlier run
                            let stale = !o.should_clear_out_folder && !f.starts_with(b);
                            if o.string_conversion_mode == ToStringConversionMode::Scalar {
                                req!(f.starts_with(b), "rows written before were altered later in run {run}");
                            } else if !stale {
                                req!(f == b, "file {k} was altered later in run {run}");
                            }
                        }
                    }
                }
                cx.count("photographs", 1);
            }
        }
        cx.count("files", files_seen as u64);
        Ok(files_seen > 1 || runs > 1)
    });
}
pub fn json_diff(a: &serde_json::Value, b: &serde_json::Value, at: &str) -> String {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return format!("{at}/{k} is missing"),
                    Some(w) if w != v => return json_diff(v, w, &format!("{at}/{k}")),
                    _ => {},
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map_or("equal".into(), |k| format!("{at}/{k} is extra"))
        },
        _ => format!("{at}: {b} instead of {a}"),
    }
}
fn bc_json(b: &Bc) -> serde_json::Value {
    match b {
        Bc::NoGrad => serde_json::json!("NoGradients"),
        Bc::Custom(v) => serde_json::json!({"Custom": v.iter().map(|(j, m)| serde_json::json!([j, format!("{m:?}")])).collect::<Vec<_>>()}),
    }
}
fn num(x: f64) -> serde_json::Value {
    if x.is_finite() {
        serde_json::json!(x)
    } else {
        serde_json::Value::Null
    }
}
/// the metadata a configuration should produce, written down by hand
pub fn expected_metadata(sp: &Spec) -> serde_json::Value {
    use serde_json::json;
    json!({
        "print_banner": sp.banner,
        "mesh_config": {"mode": "Cartesian", "xi_in": num(sp.xi.0), "xi_out": num(sp.xi.1)},
        "physics_config": {"adiabatic_index": num(sp.gamma), "units_mode": format!("{:?}", sp.units)},
        "boundary_condition_west": bc_json(&sp.bc.0),
        "boundary_condition_east": bc_json(&sp.bc.1),
        "numerics_config": {
            "numflux_config": match sp.flux {
                Flux::Hll | Flux::Ode => json!("Hll"),
                Flux::Kt(LimiterMode::Monocent(p)) => json!({"Kt": {"limiter_mode": {"Monocent": num(p)}}}),
                Flux::Kt(m) => json!({"Kt": {"limiter_mode": format!("{m:?}")}}),
            },
            "time_integration_config": {"Rkf": {
                "rkf_mode": format!("{:?}", sp.rkf.rkf_mode), "asc": sp.rkf.asc,
                "asc_relative_tolerance": num(sp.rkf.asc_relative_tolerance),
                "asc_absolute_tolerance": num(sp.rkf.asc_absolute_tolerance),
                "asc_timestep_friction": num(sp.rkf.asc_timestep_friction)}},
            "iter_max": sp.iter_max, "t0": num(sp.t0), "t_end": num(sp.t_end), "dt_min": num(sp.dt_min),
            "dt_max": num(sp.dt_max), "dt_cfl_param": num(sp.cfl),
        },
        "output_counter_max": sp.n_out,
        "writer_config": sp.outputs.iter().map(|o| json!({
            "stream_mode": format!("{:?}", o.stream_mode), "formatting_mode": format!("{:?}", o.formatting_mode),
            "string_conversion_mode": format!("{:?}", o.string_conversion_mode), "folder_name": o.folder_name,
            "should_clear_out_folder": o.should_clear_out_folder, "file_name": o.file_name, "precision": o.precision,
            "should_print_ghostcells": o.should_print_ghostcells, "should_print_metadata": o.should_print_metadata,
            "data_names": o.data_names.iter().map(|d| match d {
                DataName::Prim(j) => json!({"Prim": j}),
                DataName::Cons(j) => json!({"Cons": j}),
                x => json!(format!("{x:?}")),
            }).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

// ------------------------------------------------------------------------------------------------ C16
/// fills a directory with files, folders and links
fn plant(r: &mut Rng, p: &Path, depth: usize, links: &[PathBuf]) {
    fs::create_dir_all(p).unwrap();
    for k in 0..r.range(0, 4) {
        let q = p.join(["a", "b.csv", "c", "_0", "keep"][k]);
        match r.below(4) {
            0 if depth > 0 => plant(r, &q, depth - 1, links),
            1 if !links.is_empty() => {
                let _ = symlink(r.pick(links), &q);
            },
            _ => {
                let body = format!("contents {}\n", r.below(1000));
                let _ = fs::write(&q, body);
                if r.chance(0.2) {
                    let _ = fs::set_permissions(&q, fs::Permissions::from_mode(0o444));
                }
            },
        }
    }
}
pub fn c16(rep: &Rep) {
    rep.rule("random directory trees (siblings with similar names, nested output folders, symbolic links to files and folders outside, read-only files, output folders that are themselves links) and random sets of file and stdout outputs, with and without clearing, absolute and relative names; rejected configurations of every kind. The whole tree is compared with a model of the allowed changes after initialisation and after a run. Non-trivial: something existed that had to survive.");
    rep.family("trees", rep.n(8000, 100_000), if rep.thorough { 250.0 } else { 14.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let root = dir.0.join("root");
        fs::create_dir_all(&root).unwrap();
        let outside = dir.0.join("outside");
        plant(r, &outside, 2, &[]);
        fs::write(outside.join("precious"), b"precious\n").unwrap();
        let links = vec![outside.clone(), outside.join("precious"), PathBuf::from("../../outside"), PathBuf::from("dangling")];
        // candidate folders
        let cand = ["out", "out2", "out/inner", "ou", "other/out", "new/er"];
        for c in cand {
            if r.chance(0.6) && c != "new/er" {
                let l: &[PathBuf] = if r.chance(0.6) { &links } else { &[] };
                plant(r, &root.join(c), 2, l);
            }
        }
        let linked = root.join("linked");
        let has_link = r.chance(0.3) && symlink(&outside, &linked).is_ok();
        let relative = r.chance(0.3);
        let base = if relative {
            // the working directory is the scratch directory itself
            format!("{}-{}/root", cx.family, cx.idx)
        } else {
            root.to_str().unwrap().to_string()
        };
        let mut sp = easy(r, 8.0);
        sp.n_out = r.range(0, 3);
        let nout = r.range(1, 3);
        let mut used = vec![];
        for k in 0..nout {
            let f = if has_link && r.chance(0.3) { "linked" } else { *r.pick(&cand) };
            let slash = if r.chance(0.3) { "/" } else { "" };
            let mut o = out_any(r, sp.e(), &format!("{base}/{f}{slash}"), &format!("res{k}"));
            o.should_clear_out_folder = r.chance(0.5);
            // a link with a trailing slash names the folder behind it: which of the two is meant is not specified
            if f == "linked" {
                o.folder_name = format!("{base}/{f}");
            }
            used.push(f.to_string());
            sp.outputs.push(o);
        }
        // stdout outputs ignore their folder, even when it exists and clearing is requested
        if r.chance(0.3) {
            let f = *r.pick(&cand);
            let mut o = out_any(r, sp.e(), &format!("{base}/{f}"), "nothing");
            o.stream_mode = StreamMode::Stdout;
            o.should_clear_out_folder = true;
            o.should_print_metadata = false;
            let at = r.below(sp.outputs.len() + 1);
            sp.outputs.insert(at, o);
        }
        let before = tree(&dir.0);
        let reject = r.chance(0.3);
        cx.desc = format!("{:?} reject={reject} link={has_link} before: {:?}", sp.outputs, before.iter().map(|(p, n)| format!("{}:{}", p.display(), kind(n))).collect::<Vec<_>>());
        cx.count("entries_watched", before.len() as u64);
        if reject {
            let how = r.below(8);
            let mut fx = sp.flux;
            match how {
                0 => sp.xi = (2.0, 1.0),
                1 => sp.gamma = 2.5,
                2 => sp.t_end = sp.t0,
                3 => sp.dt_max = -1.0,
                4 => sp.cfl = f64::NAN,
                5 => sp.iter_max = 0,
                6 => {
                    // the last output is the bad one
                    let mut o = out_any(r, sp.e(), &format!("{base}/out"), "bad");
                    o.string_conversion_mode = ToStringConversionMode::Scalar;
                    o.data_names = vec![DataName::T, DataName::XiCent];
                    sp.outputs.push(o);
                },
                _ => {
                    // a scheme that does not match the type
                    fx = Flux::Kt(LimiterMode::MinMod);
                },
            }
            INIT.with(|c| *c.borrow_mut() = Some(InitData { prim: sp.prim.clone(), cs: sp.cs.clone(), ..Default::default() }));
            let x = make_cfg(sp.phys, fx, sp.s, &sp.config());
            req!(x.is_err(), "an inconsistent configuration (kind {how}) was accepted");
            cx.count("rejected", 1);
            if let Some(d) = diff_tree(&before, &tree(&dir.0)) {
                return Err(format!("a rejected configuration changed the disk: {d}"));
            }
            return Ok(!before.is_empty());
        }
        // model
        let mut m = before.clone();
        let rel = |p: &Path| -> PathBuf {
            let s = p.to_str().unwrap().trim_end_matches('/').replacen(&base, "root", 1);
            PathBuf::from(s)
        };
        // paths through the link land outside, as long as the link is there
        let mut broken = false;
        let mut linkgone = false;
        let files = || sp.outputs.iter().filter(|o| o.stream_mode == StreamMode::File);
        // everything is cleared before anything is created
        for o in files().filter(|o| o.should_clear_out_folder) {
            let f = rel(Path::new(&o.folder_name));
            m.retain(|p, _| !p.starts_with(&f));
            linkgone |= Path::new("root/linked").starts_with(&f);
        }
        for o in files() {
            let f = rel(Path::new(&o.folder_name));
            if f == Path::new("root/linked") && !linkgone {
                continue;
            }
            for a in f.ancestors().collect::<Vec<_>>().into_iter().rev() {
                if a.as_os_str().is_empty() {
                    continue;
                }
                match m.get(a) {
                    None => {
                        m.insert(a.to_path_buf(), Node::Dir);
                    },
                    Some(Node::Dir) => {},
                    // a file or a link is in the way
                    _ => broken = true,
                }
            }
        }
        let via = |p: &Path| -> PathBuf {
            if !linkgone {
                if let Ok(x) = p.strip_prefix("root/linked") {
                    return Path::new("outside").join(x);
                }
            }
            p.to_path_buf()
        };
        let res = make(&sp);
        let after = tree(&dir.0);
        if broken {
            // something else is in the way: whatever happens, nothing outside the cleared folders may change
            let cleared: Vec<PathBuf> = sp.outputs.iter().filter(|o| o.stream_mode == StreamMode::File && o.should_clear_out_folder).map(|o| rel(Path::new(&o.folder_name))).collect();
            for (p, n) in &before {
                if !cleared.iter().any(|c| p.starts_with(c)) {
                    req!(after.get(p) == Some(n), "{} was changed although it is not in a folder to be cleared", p.display());
                }
            }
            cx.count("something_in_the_way", 1);
            return Ok(true);
        }
        let mut sim = res.map_err(|e| format!("initialisation failed: {e}"))?;
        for o in sp.outputs.iter().filter(|o| o.stream_mode == StreamMode::File && o.should_print_metadata) {
            let p = via(&rel(&meta_path(o)));
            let f = after.get(&p).cloned().ok_or(format!("metadata {} is missing", p.display()))?;
            m.insert(p, f);
        }
        if let Some(d) = diff_tree(&m, &after) {
            return Err(format!("after initialisation: {d}"));
        }
        sim.run().map_err(|e| format!("the run failed: {e}"))?;
        let end = tree(&dir.0);
        for o in sp.outputs.iter().filter(|o| o.stream_mode == StreamMode::File) {
            let ks = if o.string_conversion_mode == ToStringConversionMode::Scalar { 1 } else { sp.n_out + 1 };
            for k in 0..ks {
                let p = via(&rel(&out_path(o, sp.n_out, k)));
                let f = end.get(&p).cloned().ok_or(format!("{} is missing", p.display()))?;
                m.insert(p, f);
            }
        }
        if let Some(d) = diff_tree(&m, &end) {
            return Err(format!("after the run: {d}"));
        }
        cx.count("accepted", 1);
        Ok(before.len() > 3)
    });
}

// ------------------------------------------------------------------------------------------------ C17
fn odd(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => -r.log10(-5.0, 5.0),
        6 => f64::MIN_POSITIVE,
        7 => -f64::MIN_POSITIVE,
        8 => f64::MAX,
        _ => r.log10(-5.0, 5.0),
    }
}
pub fn c17(rep: &Rep) {
    rep.rule("configurations with any number of fields set to boundary, negative, NaN or infinite values and any number of outputs with broken rules, judged by an independent rule set; rejected ones must return an error and leave the (populated) folders alone, accepted ones must initialise and take steps without a panic. Default configurations are accepted. Non-trivial: every case; both verdicts are counted.");
    rep.family("rules", rep.n(40_000, 500_000), if rep.thorough { 250.0 } else { 14.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let mut sp = easy(r, 5.0);
        let e = sp.e();
        let with_outputs = r.chance(0.4);
        let mut broken: Vec<String> = vec![];
        // whether initialisation may fail for reasons that are no configuration rule (the mesh itself is not finite)
        let mut unclear = false;
        let many = if r.chance(0.3) { r.range(2, 4) } else { r.below(2) };
        for _ in 0..many {
            match r.below(16) {
                0 => {
                    let (a, b) = (odd(r), odd(r));
                    sp.xi = match r.below(4) {
                        0 => (sp.xi.1, sp.xi.0),
                        1 => (sp.xi.0, sp.xi.0),
                        2 => (a, sp.xi.1),
                        _ => (sp.xi.0, b),
                    };
                },
                1 => {
                    sp.gamma = match r.below(6) {
                        0 => 1.0,
                        1 => 2.0,
                        2 => 1.0 + f64::EPSILON,
                        3 => 2.0 - f64::EPSILON,
                        _ => odd(r),
                    }
                },
                2 => sp.iter_max = r.below(3),
                3 => sp.t0 = if r.chance(0.3) { sp.t_end } else { odd(r) },
                4 => sp.t_end = if r.chance(0.3) { sp.t0 } else { odd(r) },
                5 => sp.dt_min = odd(r),
                6 => sp.dt_max = odd(r),
                7 => sp.cfl = odd(r),
                8 => sp.rkf.asc_relative_tolerance = odd(r),
                9 => sp.rkf.asc_absolute_tolerance = odd(r),
                10 => sp.rkf.asc_timestep_friction = odd(r),
                11 | 12 => {
                    let p = match r.below(4) {
                        0 => 1.0,
                        1 => 1.0 + f64::EPSILON,
                        2 => 2.0,
                        _ => odd(r),
                    };
                    sp.flux = Flux::Kt(LimiterMode::Monocent(p));
                },
                13 => sp.rkf.asc = true,
                _ => sp.n_out = r.below(3),
            }
        }
        let nout = if with_outputs { r.range(0, 3) } else { 0 };
        for k in 0..nout {
            let mut o = out_any(r, e, &dir.path(&format!("o{k}")), "x");
            o.should_clear_out_folder = r.chance(0.7);
            match r.below(10) {
                0 => o.folder_name = "".into(),
                1 => o.file_name = "".into(),
                2 => o.data_names = vec![],
                3 => {
                    o.string_conversion_mode = ToStringConversionMode::Scalar;
                    let at = r.below(o.data_names.len() + 1);
                    o.data_names.insert(at, *r.pick(&[DataName::XiCent, DataName::XiEast, DataName::XiWest, DataName::Prim(0), DataName::Cons(1), DataName::CSound]));
                },
                4 => {
                    o.stream_mode = StreamMode::Stdout;
                    if r.chance(0.5) {
                        o.folder_name = "".into();
                        o.file_name = "".into();
                    }
                },
                _ => {},
            }
            if o.stream_mode == StreamMode::Stdout {
                o.should_print_metadata = false;
            }
            sp.outputs.push(o);
            // an existing folder with something in it
            let f = dir.0.join(format!("o{k}"));
            fs::create_dir_all(&f).unwrap();
            fs::write(f.join("old"), b"old").unwrap();
        }
        // the rules
        let pos = |x: f64| x > 0.0;
        let mut rule = |ok: bool, name: &str| {
            if !ok {
                broken.push(name.to_string());
            }
        };
        rule(sp.xi.0 < sp.xi.1, "xi_in < xi_out");
        rule(sp.gamma > 1.0 && sp.gamma < 2.0, "1 < adiabatic_index < 2");
        rule(sp.iter_max > 0, "iter_max > 0");
        rule(sp.t0 >= 0.0 && sp.t_end > sp.t0, "0 <= t0 < t_end");
        rule(pos(sp.dt_min), "dt_min > 0");
        rule(pos(sp.dt_max), "dt_max > 0");
        rule(pos(sp.cfl), "dt_cfl_param > 0");
        rule(pos(sp.rkf.asc_relative_tolerance), "asc_relative_tolerance > 0");
        rule(pos(sp.rkf.asc_absolute_tolerance), "asc_absolute_tolerance > 0");
        rule(pos(sp.rkf.asc_timestep_friction), "asc_timestep_friction > 0");
        if let Flux::Kt(LimiterMode::Monocent(p)) = sp.flux {
            rule(p > 1.0, "Monocent p > 1");
        }
        for (k, o) in sp.outputs.iter().enumerate() {
            if o.stream_mode == StreamMode::File {
                rule(!o.folder_name.is_empty(), &format!("folder name of output {k}"));
                rule(!o.file_name.is_empty(), &format!("file name of output {k}"));
            }
            rule(!o.data_names.is_empty(), &format!("columns of output {k}"));
            if o.string_conversion_mode == ToStringConversionMode::Scalar {
                rule(
                    o.data_names.iter().all(|d| matches!(d, DataName::T | DataName::Dt | DataName::Iter | DataName::DtKind)),
                    &format!("no vectors in scalar output {k}"),
                );
            }
        }
        // the type of the scheme and its configuration
        let mut fx = sp.flux;
        if r.chance(0.1) {
            fx = match sp.flux {
                Flux::Kt(_) => Flux::Hll,
                _ => Flux::Kt(LimiterMode::MinMod),
            };
            rule(false, "scheme matches the configuration");
        }
        drop(rule);
        if sp.xi.0 < sp.xi.1 {
            let len = sp.xi.1 - sp.xi.0;
            let dx = len / (sp.s - 4) as f64;
            // cells that cannot be told apart, coordinates or inverses that are not finite
            if !len.is_finite() || !(dx > 1e-300) || dx < 1e-10 * sp.xi.0.abs().max(sp.xi.1.abs()) || dx * dx == 0.0 || !(dx * dx).is_finite() || hits_zero(sp.xi, sp.s) {
                unclear = true;
            }
            for i in 0..2 * sp.s + 1 {
                let x = sp.xi.0 + dx * (0.5 * i as f64 - 2.0);
                if !x.recip().is_finite() {
                    unclear = true;
                }
            }
        }
        cx.desc = format!("{} iter_max={} broken={broken:?} unclear={unclear} type={fx:?} asc_tol=({:e},{:e},{:e}) outputs: {:?}", sp.head(), sp.iter_max, sp.rkf.asc_relative_tolerance, sp.rkf.asc_absolute_tolerance, sp.rkf.asc_timestep_friction, sp.outputs);
        let before = tree(&dir.0);
        INIT.with(|c| *c.borrow_mut() = Some(InitData { prim: sp.prim.clone(), cs: sp.cs.clone(), ..Default::default() }));
        let res = make_cfg(sp.phys, fx, sp.s, &sp.config());
        match res {
            Err(m) => {
                if unclear && broken.is_empty() {
                    return Ok(false);
                }
                req!(!broken.is_empty(), "a configuration that keeps all rules was rejected: {m}");
                if let Some(d) = diff_tree(&before, &tree(&dir.0)) {
                    return Err(format!("a rejected configuration changed the disk: {d}"));
                }
                cx.count("rejected", 1);
                for b in broken.iter().filter(|_| broken.len() == 1) {
                    cx.count(&format!("only: {b}"), 1);
                }
            },
            Ok(mut sim) => {
                req!(broken.is_empty(), "a configuration that breaks a rule was accepted: {broken:?}");
                cx.count("accepted", 1);
                ctl(|c| c.step_limit = 12);
                let _ = sim.run();
                for _ in 0..2 {
                    let _ = sim.step();
                }
            },
        }
        Ok(true)
    });
    rep.family("defaults", rep.n(200, 1000), 10.0, |r, cx| {
        let dir = CaseDir::new(cx);
        let t_end = r.log10(-3.0, 0.0);
        let (ph, kt) = (phys(r), r.chance(0.5));
        let (f, n) = (dir.path("a/b"), "def");
        let mut cfg = match (ph, kt) {
            (Phys::Adi, false) => CorriesConfig::default_riemann_test::<Hll<3, 54>, 3, 54>(t_end, &f, n),
            (Phys::Adi, true) => CorriesConfig::default_riemann_test::<Kt<3, 54>, 3, 54>(t_end, &f, n),
            (Phys::Iso, false) => CorriesConfig::default_riemann_test::<Hll<2, 54>, 2, 54>(t_end, &f, n),
            (Phys::Iso, true) => CorriesConfig::default_riemann_test::<Kt<2, 54>, 2, 54>(t_end, &f, n),
        };
        req!(cfg.numerics_config.t_end == t_end && cfg.numerics_config.t0 == 0.0, "the default configuration ends at {:e}", cfg.numerics_config.t_end);
        req!(matches!(cfg.numerics_config.numflux_config, NumFluxConfig::Kt { .. }) == kt, "the default configuration selects another scheme");
        req!(cfg.mesh_config.xi_in < cfg.mesh_config.xi_out, "bad default mesh");
        req!(cfg.writer_config.len() == 2 && cfg.writer_config[1].folder_name == f && cfg.writer_config[1].file_name == n, "bad default outputs");
        cfg.writer_config.remove(0);
        cx.desc = format!("{ph:?} kt={kt} t_end={t_end:e}");
        let kind = *r.pick(&[Kind::Uniform, Kind::Smooth]);
        let (prim, cs) = data(r, ph, 54, kind, MILD, 1.0, 1.0);
        INIT.with(|c| *c.borrow_mut() = Some(InitData { prim, cs, ..Default::default() }));
        let fx = if kt { Flux::Kt(LimiterMode::VanLeer) } else { Flux::Hll };
        let mut sim = make_cfg(ph, fx, 54, &cfg).map_err(|m| format!("a default configuration was rejected: {m}"))?;
        sim.run().map_err(|m| format!("a run with the default configuration failed: {m}"))?;
        req!((sim.time().t - t_end).abs() <= 1e-12 * t_end + 1e-13, "it ended at {:e}", sim.time().t);
        req!(tree(Path::new(&f)).len() == 3, "it left {} files", tree(Path::new(&f)).len());
        Ok(true)
    });
}
