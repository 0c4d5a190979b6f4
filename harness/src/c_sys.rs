//! C22 and C23: determinism, thread safety
use crate::{c_io::*, gen::*, mon::*, rep::*, rng::Rng, sim::*, util::*};
use corries::prelude::*;
use std::{
    fs,
    path::Path,
    process::{Command, Stdio},
    rc::Rc,
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Barrier, OnceLock,
    },
};

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h.rotate_left(23) ^ x;
    crate::rng::splitmix(&mut z)
}
fn mix_f(h: u64, v: &[f64]) -> u64 {
    v.iter().fold(h, |h, x| mix(h, if x.is_nan() { u64::MAX } else { x.to_bits() }))
}
/// everything a user can see of a run
#[derive(Clone, Debug, PartialEq)]
struct Trace {
    ok: bool,
    outputs: usize,
    /// one hash per step, of time, step width and all fields
    steps: Vec<u64>,
    end: u64,
    limit: bool,
}
impl Trace {
    fn line(&self) -> String {
        format!("{} {} {} {:x}", self.ok, self.outputs, self.steps.len(), self.steps.iter().fold(self.end, |h, x| mix(h, *x)))
    }
    fn differs(&self, o: &Trace) -> Option<String> {
        if self == o {
            return None;
        }
        let k = self.steps.iter().zip(&o.steps).position(|(a, b)| a != b);
        Some(match k {
            Some(k) => format!("step {k} differs"),
            None => format!("{} steps, {} outputs, success {} and {} steps, {} outputs, success {}", self.steps.len(), self.outputs, self.ok, o.steps.len(), o.outputs, o.ok),
        })
    }
}
const LIMIT: u64 = 600;
/// runs a problem in the calling thread
fn trace(sp: &Spec, on_step: Option<Rc<dyn Fn(u64)>>) -> Result<Trace, String> {
    crate::mon::reset();
    let mut sim = make(sp)?;
    ctl(|c| {
        c.log_steps = true;
        c.keep_cons = true;
        c.step_limit = LIMIT;
        c.call_limit = 20_000;
        c.on_step = on_step;
    });
    let ok = sim.run().is_ok();
    let st = take_steps();
    let v = sim.vars(Dir::Cent);
    let t = sim.time();
    let lim = ctl(|c| c.limit_hit);
    crate::mon::reset();
    let one = |s: &StepEv| {
        let h = mix_f(mix(s.iter1 as u64, s.ok as u64), &[s.t0, s.t1, s.dt, s.t_next]);
        mix_f(mix_f(mix_f(h, &s.cons), &s.prim), &s.cs)
    };
    let end = mix_f(mix_f(mix_f(mix_f(t.iter as u64, &[t.t, t.dt]), &v.prim), &v.cons), &v.eig);
    Ok(Trace { ok, outputs: sim.output_counter(), steps: st.iter().map(one).collect(), end, limit: lim })
}
/// steps a simulation by hand; usable where several simulations share a thread
fn manual(sim: &mut dyn Sim, n: usize) -> u64 {
    let mut h = 0;
    for _ in 0..n {
        h = mix(h, manual_step(sim));
    }
    h
}
fn manual_step(sim: &mut dyn Sim) -> u64 {
    let ok = sim.step().is_ok();
    let t = sim.time();
    let v = sim.vars(Dir::Cent);
    mix_f(mix_f(mix_f(mix(ok as u64, t.iter as u64), &[t.t, t.dt]), &v.prim), &v.cons)
}
struct Mover(Box<dyn Sim>);
// SAFETY: none of the boxed simulations holds anything that belongs to a thread
unsafe impl Send for Mover {}

fn problem22(r: &mut Rng, sizes: &[usize], steps: f64) -> Spec {
    let ph = phys(r);
    let s = *r.pick(sizes);
    let l = *r.pick(&[MILD, MED, MED, WILD]);
    let mut sp = problem_on(r, ph, s, l, steps);
    sp.flux = flux_any(r);
    if r.chance(0.45) {
        sp.rkf = rkf(r, true);
    }
    if r.chance(0.3) {
        sp.units = UnitsMode::CGS;
    }
    if r.chance(0.1) {
        sp.dt_max = 0.3 * sp.cfl * sp.dx() / speed(&sp);
    }
    sp.n_out = r.below(6);
    sp
}
const SZ: &[usize] = &[6, 11, 33, 54, 54, 104, 104, 204, 404];
fn with_outputs(r: &mut Rng, sp: &mut Spec, dir: &Path, n: usize) {
    let e = sp.e();
    sp.outputs = (0..n)
        .map(|k| {
            let f = dir.join(format!("o{k}"));
            let mut o = out_any(r, e, f.to_str().unwrap(), "data");
            if r.chance(0.25) {
                o.stream_mode = StreamMode::Stdout;
            }
            o
        })
        .collect();
    sp.banner = r.chance(0.5);
}
/// cvm trace DIR hash...: one line per problem, from the global thread pool (RAYON_NUM_THREADS)
pub fn child(a: &[String]) -> i32 {
    let f = |x: &String| {
        let h = u64::from_str_radix(x, 16).unwrap();
        let dir = Path::new(&a[2]).join(x);
        let r = guarded(|| with_files(&spec_of(h, &dir), &dir, |sp| trace(sp, None)));
        match r {
            Ok(Ok((t, files))) => eprintln!("T {x} {} {files:x} {}", t.line(), t.limit),
            Ok(Err(m)) => eprintln!("T {x} refused {}", m.replace('\n', " ")),
            Err(m) => eprintln!("T {x} panic {}", m.replace('\n', " ")),
        }
    };
    a[3..].iter().for_each(f);
    0
}
fn spec_of(h: u64, dir: &Path) -> Spec {
    let mut r = Rng::new(h);
    let big = r.chance(0.03);
    let steps = if big { 8.0 } else { 25.0 };
    let mut sp = problem22(&mut r, if big { &[1004] } else { SZ }, steps);
    if r.chance(0.5) {
        let n = r.range(1, 3);
        with_outputs(&mut r, &mut sp, dir, n);
    }
    sp
}
/// runs in an empty directory, removed afterwards; returns a hash of what was left in it
fn with_files<X>(sp: &Spec, dir: &Path, f: impl FnOnce(&Spec) -> Result<X, String>) -> Result<(X, u64), String> {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let x = f(sp);
    let t = tree(dir);
    let _ = fs::remove_dir_all(dir);
    let h = t.iter().fold(0, |h, (p, n)| {
        let b = match n {
            Node::File(b) => {
                // the metadata names the folders
                let s = String::from_utf8_lossy(b).replace(dir.parent().unwrap().to_str().unwrap(), "");
                crate::rng::hash_bytes(1, s.as_bytes())
            },
            _ => 2,
        };
        mix(mix(h, crate::rng::hash_bytes(3, p.to_string_lossy().as_bytes())), b)
    });
    Ok((x?, h))
}
fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    P.get_or_init(|| [1, 2, 3, 5, 8, 16].iter().map(|&n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(64 << 20).build().unwrap())).collect())
}
fn spawn_trace(exe: &str, dir: &Path, threads: usize, hs: &[u64]) -> Result<Vec<String>, String> {
    let _ = fs::create_dir_all(dir);
    let o = Command::new(exe)
        .arg("trace")
        .arg(dir)
        .args(hs.iter().map(|h| format!("{h:x}")))
        .env("RAYON_NUM_THREADS", threads.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| format!("cannot start {exe}: {e}"))?;
    let text = String::from_utf8_lossy(&o.stderr).to_string();
    if !o.status.success() {
        return Err(format!("the process died ({}): {text:.600}", o.status));
    }
    Ok(text.lines().filter(|l| l.starts_with("T ")).map(|l| l.to_string()).collect())
}

// ------------------------------------------------------------------------------------------------ C22
pub fn c22(rep: &Rep, alt: Option<String>) {
    rep.rule("Every run is recorded as one hash per step over time, step width and the bits of all fields, plus the hash of its files. threads: the same problem on pools of 1, 2, 3, 5, 8 and 16 worker threads. outputs: without outputs, with each output alone, with all together, reversed order. repeat: a sequence of different problems with repetitions in one process. concurrent: 2-8 different simulations at the same time in one pool, with random pauses, also as tasks of one pool and moved between threads after every step. process: fresh processes with different thread counts, of the normal build and of the build without the validation feature, compared with this process (the latter for successful runs). Non-trivial: at least one step was compared.");
    let th = rep.thorough;
    rep.family_threads("threads", rep.n(250, 4000), if th { 400.0 } else { 25.0 }, 1, |r, cx| {
        let big = r.chance(0.06);
        let sp = problem22(r, if big { &[1004] } else { SZ }, if big { 6.0 } else { 25.0 });
        cx.desc = sp.describe();
        let Ok(a) = trace(&sp, None) else {
            cx.count("refused", 1);
            return Ok(false);
        };
        for (n, p) in pools() {
            let mut b = p.install(|| trace(&sp, None))?;
            if let Some(d) = a.differs(&b) {
                b = p.install(|| trace(&sp, None))?;
                return Err(format!("with {n} worker threads: {d} (again: {:?})", a.differs(&b)));
            }
            cx.count("runs_compared", 1);
            cx.count("steps_compared", b.steps.len() as u64);
        }
        Ok(!a.steps.is_empty())
    });
    rep.family("outputs", rep.n(1500, 20_000), if th { 300.0 } else { 20.0 }, |r, cx| {
        let mut sp = problem22(r, &[6, 7, 11, 33, 54], 20.0);
        let cd = CaseDir::new(cx);
        cx.desc = sp.describe();
        let Ok(a) = trace(&sp, None) else {
            cx.count("refused", 1);
            return Ok(false);
        };
        let n = r.range(1, 4);
        with_outputs(r, &mut sp, &cd.0, n);
        let all = sp.outputs.clone();
        let run = |cx: &mut Cx, o: Vec<OutputConfig>| -> Result<Tree, String> {
            let mut q = sp.clone();
            let _ = fs::remove_dir_all(&cd.0);
            fs::create_dir_all(&cd.0).unwrap();
            let names = format!("{:?}", o.iter().map(|o| o.folder_name.rsplit('/').next().unwrap().to_string()).collect::<Vec<_>>());
            q.outputs = o;
            let b = trace(&q, None)?;
            if let Some(d) = a.differs(&b) {
                return Err(format!("with the outputs {names}: {d}"));
            }
            cx.count("runs_compared", 1);
            let mut t = tree(&cd.0);
            // the metadata lists all outputs
            t.retain(|p, _| !p.to_string_lossy().ends_with("_metadata.json"));
            Ok(t)
        };
        let full = run(cx, all.clone())?;
        let mut rev = all.clone();
        rev.reverse();
        req!(full == run(cx, rev)?, "the files depend on the order of the outputs");
        req!(full == run(cx, all.clone())?, "the files of a repeated run differ");
        for (k, o) in all.iter().enumerate() {
            let alone = run(cx, vec![o.clone()])?;
            let here: Tree = full.iter().filter(|(p, _)| p.starts_with(format!("o{k}"))).map(|(p, n)| (p.clone(), n.clone())).collect();
            req!(alone == here, "the files of output {k} depend on the other outputs: {:?}", diff_tree(&here, &alone));
            cx.count("files_compared", here.len() as u64);
        }
        Ok(!a.steps.is_empty())
    });
    rep.family("repeat", rep.n(400, 6000), if th { 300.0 } else { 20.0 }, |r, cx| {
        let k = r.range(2, 4);
        let mut sps: Vec<Spec> = (0..k).map(|_| problem22(r, SZ, 15.0)).collect();
        // problems that only differ in one setting are easily confused
        let mut q = sps[0].clone();
        match r.below(6) {
            0 => q.gamma = gamma(r),
            1 => q.cfl *= 0.7,
            2 => q.rkf.rkf_mode = mode(r),
            3 => q.xi = (q.xi.0, q.xi.1 + 0.25 * (q.xi.1 - q.xi.0)),
            4 => q.flux = if q.flux == Flux::Hll { Flux::Kt(limiter_any(r)) } else { Flux::Kt(limiter_any(r)) },
            _ => q.prim[2] *= 1.25,
        }
        sps.push(q);
        cx.desc = sps.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" / ");
        let mut first: Vec<Option<Trace>> = vec![None; sps.len()];
        let mut order: Vec<usize> = (0..sps.len()).chain((0..5).map(|_| r.below(sps.len()))).collect();
        r.shuffle(&mut order);
        let mut kept: Vec<Box<dyn Sim>> = vec![];
        for (n, i) in order.iter().enumerate() {
            let t = match trace(&sps[*i], None) {
                Ok(t) => t,
                Err(_) => continue,
            };
            cx.count("runs", 1);
            match &first[*i] {
                None => first[*i] = Some(t),
                Some(f) => {
                    if let Some(d) = f.differs(&t) {
                        return Err(format!("problem {i} as run {n} of the sequence {order:?}: {d}"));
                    }
                    cx.count("runs_compared", 1);
                },
            }
            // others stay alive meanwhile
            if r.chance(0.4) {
                kept.extend(make(&sps[*i]));
                crate::mon::reset();
            }
        }
        Ok(true)
    });
    rep.family_threads("concurrent", rep.n(250, 4000), if th { 400.0 } else { 25.0 }, 1, |r, cx| {
        let k = r.range(2, 8);
        let same = r.chance(0.25);
        let mut sps: Vec<Spec> = (0..k).map(|_| problem22(r, SZ, 20.0)).collect();
        if same {
            // equal sizes and systems: whatever is shared by type is shared by all of them
            let (ph, s) = (sps[0].phys, sps[0].s);
            sps = (0..k).map(|_| problem_on(r, ph, s, MED, 20.0)).collect();
        }
        cx.desc = sps.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" / ");
        let mut want = vec![];
        for s in &sps {
            let Ok(t) = trace(s, None) else {
                cx.count("refused", 1);
                return Ok(false);
            };
            want.push(t);
        }
        let cd = CaseDir::new(cx);
        let outs = r.chance(0.3);
        let mut with = sps.clone();
        if outs {
            for (n, s) in with.iter_mut().enumerate() {
                let d = cd.0.join(format!("s{n}"));
                let n_out = r.range(1, 2);
                with_outputs(r, s, &d, n_out);
            }
        }
        let seeds: Vec<u64> = sps.iter().map(|_| r.u64()).collect();
        let bar = Barrier::new(k);
        let active = AtomicUsize::new(0);
        let shared = AtomicUsize::new(0);
        let got: Vec<Result<Trace, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = with
                .iter()
                .zip(&seeds)
                .map(|(s, seed)| {
                    let (bar, active, shared) = (&bar, &active, &shared);
                    sc.spawn(move || {
                        // the hook has to be 'static; the counters outlive the scope
                        let (a, b): (&'static AtomicUsize, &'static AtomicUsize) = unsafe { (&*(active as *const _), &*(shared as *const _)) };
                        let rr = std::cell::RefCell::new(Rng::new(*seed));
                        let hook: Rc<dyn Fn(u64)> = Rc::new(move |_| {
                            if a.load(SeqCst) > 1 {
                                b.fetch_add(1, SeqCst);
                            }
                            let mut r = rr.borrow_mut();
                            match r.below(20) {
                                0 => std::thread::sleep(std::time::Duration::from_micros(r.below(300) as u64)),
                                1..=3 => std::thread::yield_now(),
                                _ => {},
                            }
                        });
                        bar.wait();
                        active.fetch_add(1, SeqCst);
                        // from threads outside: every parallel loop is handed to the global pool
                        let t = guarded(|| trace(s, Some(hook)));
                        active.fetch_sub(1, SeqCst);
                        t.unwrap_or_else(Err)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panicked".into()))).collect()
        });
        for (n, (w, g)) in want.iter().zip(&got).enumerate() {
            match g {
                Err(m) => return Err(format!("simulation {n} of {k} concurrent ones failed: {m}")),
                Ok(g) => {
                    if let Some(d) = w.differs(g) {
                        return Err(format!("simulation {n} of {k} concurrent ones: {d}"));
                    }
                },
            }
        }
        cx.count("simulations", k as u64);
        cx.count("steps_while_others_ran", shared.load(SeqCst) as u64);
        Ok(shared.load(SeqCst) > 0)
    });
    rep.family_threads("tasks", rep.n(200, 3000), if th { 200.0 } else { 20.0 }, 1, |r, cx| {
        let k = r.range(2, 8);
        let n = r.range(3, 15);
        let sps: Vec<Spec> = (0..k).map(|_| problem22(r, SZ, 40.0)).collect();
        cx.desc = sps.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" / ");
        let mut want = vec![];
        let mut sims = vec![];
        for s in &sps {
            want.push(manual(&mut *make(s)?, n));
            sims.push(Mover(make(s)?));
        }
        let (_, pool) = &pools()[r.range(1, 5)];
        let mut got = vec![0u64; k];
        if r.chance(0.5) {
            // tasks of one pool: a worker that waits for a loop of one simulation may step another one meanwhile
            pool.scope(|sc| {
                for (g, m) in got.iter_mut().zip(sims) {
                    sc.spawn(move |_| {
                        let mut m = m;
                        let q: &mut Mover = &mut m;
                        *g = manual(&mut *q.0, n);
                    });
                }
            });
            cx.count("as_tasks", k as u64);
        } else {
            // every step in another thread, all simulations at the same time
            for _ in 0..n {
                sims = std::thread::scope(|sc| {
                    let hs: Vec<_> = sims
                        .into_iter()
                        .zip(got.iter_mut())
                        .map(|(mut m, g)| {
                            sc.spawn(move || {
                                let q: &mut Mover = &mut m;
                                *g = mix(*g, manual_step(&mut *q.0));
                                m
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("a step panicked")).collect()
                });
            }
            cx.count("moved_between_threads", (k * n) as u64);
        }
        for i in 0..k {
            req!(want[i] == got[i], "simulation {i} of {k}: the states after {n} steps differ");
        }
        Ok(true)
    });
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    rep.family("process", rep.n(100, 2000), if th { 500.0 } else { 40.0 }, |r, cx| {
        let cd = CaseDir::new(cx);
        let hs: Vec<u64> = (0..12).map(|_| r.u64()).collect();
        cx.desc = format!("{hs:x?}");
        let mut want = vec![];
        for h in &hs {
            let dir = cd.0.join("p").join(format!("{h:x}"));
            let x = with_files(&spec_of(*h, &dir), &dir, |sp| trace(sp, None));
            want.push(match x {
                Ok((t, f)) => (t.ok, format!("T {h:x} {} {f:x} {}", t.line(), t.limit)),
                Err(m) => (false, format!("T {h:x} refused {}", m.replace('\n', " "))),
            });
        }
        for (name, e, threads) in [("normal", Some(&exe), *r.pick(&[1usize, 2, 3, 8])), ("no validation", alt.as_ref(), *r.pick(&[1usize, 2, 8]))] {
            let Some(e) = e else { continue };
            // a different history
            let mut ord: Vec<usize> = (0..hs.len()).collect();
            r.shuffle(&mut ord);
            let hh: Vec<u64> = ord.iter().map(|i| hs[*i]).collect();
            let got = spawn_trace(e, &cd.0.join("p"), threads, &hh)?;
            req!(got.len() == hs.len(), "{name} build: {} results for {} problems", got.len(), hs.len());
            for (l, i) in got.iter().zip(&ord) {
                let (ok, w) = &want[*i];
                if name != "normal" && !ok {
                    continue;
                }
                if w != l {
                    let dir = cd.0.join("p");
                    return Err(format!("another process ({name} build, {threads} threads) gives\n  {l}\ninstead of\n  {w}\nfor {}", spec_of(hs[*i], &dir).describe()));
                }
                cx.count(&format!("runs_compared, {name} build"), 1);
            }
        }
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C23
/// whether a type is Send / Sync, decided by the compiler (the more specific method wins if its bound holds)
macro_rules! probe {
    ($name:ident, $bound:ident) => {
        pub mod $name {
            pub struct P<T: ?Sized>(pub std::marker::PhantomData<T>);
            pub trait No {
                fn v(&self) -> bool {
                    false
                }
            }
            impl<T: ?Sized> No for &P<T> {}
            pub trait Yes {
                fn v(&self) -> bool {
                    true
                }
            }
            impl<T: ?Sized + $bound> Yes for P<T> {}
        }
    };
}
probe!(send_probe, Send);
probe!(sync_probe, Sync);
macro_rules! is_send {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use send_probe::{No, Yes};
        (&send_probe::P::<$t>(std::marker::PhantomData)).v()
    }};
}
macro_rules! is_sync {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use sync_probe::{No, Yes};
        (&sync_probe::P::<$t>(std::marker::PhantomData)).v()
    }};
}
/// user-supplied parts: X decides how far they can be shared
pub struct UserFlux<X>(#[allow(dead_code)] X);
impl<X: Default, const E: usize, const S: usize> NumFlux<E, S> for UserFlux<X> {
    fn new(_: &NumFluxConfig, _: &corries::mesh::Mesh<S>) -> color_eyre::Result<Self> {
        Ok(Self(X::default()))
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(&mut self, d: &mut ndarray::Array2<f64>, _: &mut State<P, E, S>, _: &corries::mesh::Mesh<S>) -> color_eyre::Result<()> {
        d.fill(0.0);
        Ok(())
    }
}
pub struct UserTime<X>(#[allow(dead_code)] X);
impl<X: Default, P: Physics<E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for UserTime<X> {
    fn new(_: &CorriesConfig) -> color_eyre::Result<Self> {
        Ok(Self(X::default()))
    }
    fn next_solution<N: NumFlux<E, S>>(&mut self, _: &mut corries::timestep::TimeStep, _: &mut State<P, E, S>, _: &mut Rhs<N, E, S>, _: &corries::mesh::Mesh<S>) -> color_eyre::Result<()> {
        Ok(())
    }
}
type NeitherT = Rc<u8>;
type SendOnly = std::cell::Cell<u8>;
/// shared, but not sent to other threads
#[derive(Default)]
pub struct SyncOnly(#[allow(dead_code)] std::marker::PhantomData<std::sync::MutexGuard<'static, u8>>);
/// for all types that own user-supplied parts: (name, wrongly sent, wrongly shared)
fn type_table() -> Vec<(String, bool, bool)> {
    let mut v = vec![];
    macro_rules! row {
        ($what:expr, $t:ty, $send:expr, $sync:expr) => {
            v.push((format!("{} with {}", stringify!($t), $what), is_send!($t) && !$send, is_sync!($t) && !$sync));
        };
    }
    macro_rules! parts {
        ($P:ident, $E:literal) => {
            parts!(@ $P, $E, "parts that are neither Send nor Sync", NeitherT, false, false);
            parts!(@ $P, $E, "parts that are Send only", SendOnly, true, false);
            parts!(@ $P, $E, "parts that are Sync only", SyncOnly, false, true);
        };
        (@ $P:ident, $E:literal, $w:expr, $X:ty, $a:expr, $b:expr) => {
            row!($w, Rhs<UserFlux<$X>, $E, 8>, $a, $b);
            row!($w, Solver<$P<8>, UserFlux<$X>, RungeKuttaFehlberg<$P<8>, $E, 8>, $E, 8>, $a, $b);
            row!($w, Solver<$P<8>, Hll<$E, 8>, UserTime<$X>, $E, 8>, $a, $b);
            row!($w, Solver<$P<8>, UserFlux<u8>, UserTime<$X>, $E, 8>, $a, $b);
            row!($w, Solver<$P<8>, UserFlux<$X>, UserTime<u8>, $E, 8>, $a, $b);
            row!($w, CorriesComponents<$P<8>, UserFlux<$X>, RungeKuttaFehlberg<$P<8>, $E, 8>, $E, 8>, $a, $b);
            row!($w, CorriesComponents<$P<8>, Kt<$E, 8>, UserTime<$X>, $E, 8>, $a, $b);
        };
    }
    parts!(Euler1DAdiabatic, 3);
    parts!(Euler1DIsot, 2);
    v
}
#[derive(Clone, Copy)]
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
/// `f` in `n` threads at the same time, each with the shared value; all have to return the same
fn in_threads<T, X: PartialEq + Send>(n: usize, what: &str, v: &T, f: impl Fn(&T) -> X + Sync) -> Result<X, String> {
    let sh = Share(v);
    let (sh, f) = (&sh, &f);
    let bar = &Barrier::new(n);
    let f = Share(f);
    let mut r: Vec<X> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let f = &f;
                sc.spawn(move || {
                    bar.wait();
                    (f.get())(sh.get())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<X>, _>>().map_err(|_| format!("{what}: a thread panicked"))
    })?;
    let x = r.pop().unwrap();
    if r.iter().all(|y| *y == x) {
        Ok(x)
    } else {
        Err(format!("{what}: threads that share a value see different results"))
    }
}
macro_rules! share_case {
    ($sp:expr, $cx:expr, $P:ident, $N:ident, $E:literal, $S:literal, $T:expr) => {{
        type P = $P<$S>;
        type N = $N<$E, $S>;
        type T = RungeKuttaFehlberg<P, $E, $S>;
        let (sp, cx, n): (&Spec, &mut Cx, usize) = ($sp, $cx, $T);
        let cfg = sp.config();
        let data = InitData { prim: sp.prim.clone(), cs: sp.cs.clone(), ..Default::default() };
        let init = || -> Result<CorriesComponents<P, N, T, $E, $S>, String> {
            INIT.with(|c| *c.borrow_mut() = Some(data.clone()));
            es(cfg.init_corries::<P, N, T, $E, $S>(tl_init::<P, N, T, $E, $S>))
        };
        // a simulation that runs in another thread than the one it was made in
        let one = |c: CorriesComponents<P, N, T, $E, $S>| -> u64 {
            let mut c = c;
            let ok = c.run_corries().is_ok();
            let u = &c.0.cent;
            mix_f(mix_f(ok as u64, u.prim.as_slice().unwrap_or(&[])), &[c.1.timestep.t, c.1.timestep.dt])
        };
        if is_send!(CorriesComponents<P, N, T, $E, $S>) {
            let want = one(init()?);
            let sims: Vec<Share<CorriesComponents<P, N, T, $E, $S>>> = (0..n).map(|_| init().map(Share)).collect::<Result<_, _>>()?;
            let f = Share(&one);
            let got: Vec<u64> = std::thread::scope(|sc| {
                let hs: Vec<_> = sims.into_iter().map(|s| { let f = &f; sc.spawn(move || { let s = s; let Share(c) = s; (f.get())(c) }) }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
            });
            req!(got.iter().all(|g| *g == want), "simulations moved to other threads: {got:x?} instead of {want:x}");
            cx.count("simulations_moved", n as u64);
        }
        let mut c = init()?;
        for _ in 0..2 {
            let _ = c.1.next_solution(&mut c.0, &c.2);
        }
        let (u, sol, mesh, writer) = &c;
        if is_sync!(corries::mesh::Mesh<$S>) && is_sync!(State<P, $E, $S>) {
            in_threads(n, "mesh and state", &(u, mesh), |x| {
                let (u, mesh) = *x;
                let mut h = mix_f(0, &[u.calc_dt_cfl(0.3, mesh).unwrap_or(-1.0)]);
                let mut w = State::<P, $E, $S>::new(&PhysicsConfig { adiabatic_index: u.cent.gamma, units_mode: UnitsMode::SI });
                w.assign(u);
                for v in [&u.west, &u.cent, &u.east, &w.cent] {
                    for a in [P::rho_prim(v), P::rho_cons(v), P::xi_vel(v), P::xi_mom(v), P::eta_vel(v), P::pressure(v), P::energy(v), v.eigen_min(), v.eigen_max(), v.zero_vec()] {
                        h = a.iter().fold(h, |h, y| mix_f(h, &[*y]));
                    }
                }
                // every thread with its own solver on the shared mesh
                if let Ok(mut s) = Solver::<P, N, T, $E, $S>::new(&cfg_of(sp), mesh) {
                    for _ in 0..2 {
                        let ok = s.next_solution(&mut w, mesh).is_ok();
                        h = mix_f(mix(h, ok as u64), &[s.timestep.t]);
                    }
                    h = w.cent.prim.iter().fold(h, |h, y| mix_f(h, &[*y]));
                }
                h
            })?;
            cx.count("threads_sharing_mesh_and_state", n as u64);
        }
        if is_sync!(Solver<P, N, T, $E, $S>) && is_sync!(Writer) {
            in_threads(n, "solver, writer, variables", &(sol, writer, u, mesh), |x| {
                let (sol, w, u, mesh) = *x;
                let mut h = mix_f(w.output_counter as u64, &[sol.timestep.t, sol.timestep.dt, sol.timestep.t_next_output]);
                h = sol.rhs.full_rhs.iter().fold(h, |h, y| mix_f(h, &[*y]));
                let mut w2 = w.clone();
                let ok = w2.update_data(&u.cent, &sol.timestep, mesh).is_ok();
                mix(mix(h, ok as u64), w2.outputs.len() as u64 + w2.meta_data.len() as u64)
            })?;
            cx.count("threads_sharing_solver_and_writer", n as u64);
        }
        if is_sync!(CorriesConfig) {
            let d = Share(&data);
            let d = &d;
            in_threads(n, "configuration", &cfg, |cfg| {
                INIT.with(|c| *c.borrow_mut() = Some((*d.get()).clone()));
                match cfg.init_corries::<P, N, T, $E, $S>(tl_init::<P, N, T, $E, $S>) {
                    Ok(mut c) => {
                        let ok = c.run_corries().is_ok();
                        mix_f(mix(1, ok as u64), &[c.1.timestep.t])
                    },
                    Err(_) => 0,
                }
            })?;
            cx.count("threads_sharing_a_configuration", n as u64);
        }
        if is_sync!(Units) {
            in_threads(n, "units", &Units::new(UnitsMode::CGS), |u| u.convert_mass_to_si(u.convert_length_to_si(3.0)).to_bits())?;
        }
    }};
}
fn cfg_of(sp: &Spec) -> CorriesConfig {
    let mut q = sp.clone();
    q.outputs.clear();
    q.banner = false;
    q.config()
}
fn problem23(r: &mut Rng, small: bool) -> Spec {
    let ph = phys(r);
    let s = if small { 8 } else { *r.pick(&[8usize, 104]) };
    let mut sp = problem_on(r, ph, s, MED, if small { 3.0 } else { 10.0 });
    sp.flux = flux_any(r);
    sp.rkf = rkf(r, false);
    sp.rkf.asc = r.chance(0.4);
    sp.n_out = r.range(1, 2);
    if r.chance(0.3) {
        sp.iter_max = r.range(1, 3);
    }
    let e = sp.e();
    let n = r.range(1, 3);
    sp.outputs = (0..n)
        .map(|_| {
            let mut o = out_any(r, e, "", "");
            o.stream_mode = StreamMode::Stdout;
            o
        })
        .collect();
    sp.banner = r.chance(0.3);
    sp
}
fn share(sp: &Spec, cx: &mut Cx, n: usize) -> Verdict {
    cx.desc = sp.describe();
    match (sp.phys, sp.flux, sp.s) {
        (Phys::Adi, Flux::Hll, 8) => share_case!(sp, cx, Euler1DAdiabatic, Hll, 3, 8, n),
        (Phys::Adi, _, 8) => share_case!(sp, cx, Euler1DAdiabatic, Kt, 3, 8, n),
        (Phys::Iso, Flux::Hll, 8) => share_case!(sp, cx, Euler1DIsot, Hll, 2, 8, n),
        (Phys::Iso, _, 8) => share_case!(sp, cx, Euler1DIsot, Kt, 2, 8, n),
        (Phys::Adi, Flux::Hll, _) => share_case!(sp, cx, Euler1DAdiabatic, Hll, 3, 104, n),
        (Phys::Adi, _, _) => share_case!(sp, cx, Euler1DAdiabatic, Kt, 3, 104, n),
        (Phys::Iso, Flux::Hll, _) => share_case!(sp, cx, Euler1DIsot, Hll, 2, 104, n),
        (Phys::Iso, _, _) => share_case!(sp, cx, Euler1DIsot, Kt, 2, 104, n),
    }
    Ok(true)
}
pub fn c23(rep: &Rep) {
    rep.rule("types: for every type that owns user-supplied parts the compiler is asked whether it is Send and Sync, with parts that are neither, only Send, or only Sync. sharing: simulations are moved to other threads, and meshes, states, solvers, writers, configurations and units (as far as they are Sync) are used by several threads at the same time, in small pools; all threads have to see the same. The same workload, and samples of the workloads of the other checks, run under ThreadSanitizer, AddressSanitizer and Miri. Non-trivial: every case.");
    rep.family("types", 1, 5.0, |_, cx| {
        let t = type_table();
        for (name, send, sync) in &t {
            req!(!send, "{name}: can be sent to another thread although its parts cannot");
            req!(!sync, "{name}: can be shared between threads although its parts cannot");
        }
        cx.count("types_probed", 2 * t.len() as u64);
        // the probes themselves
        req!(is_send!(u8) && is_sync!(u8) && !is_send!(NeitherT) && !is_sync!(NeitherT) && is_send!(SendOnly) && !is_sync!(SendOnly) && !is_send!(SyncOnly) && is_sync!(SyncOnly), "the probes do not work");
        cx.count("sendable_with_thread_safe_parts", is_send!(CorriesComponents<Euler1DIsot<8>, UserFlux<u8>, UserTime<u8>, 2, 8>) as u64);
        Ok(true)
    });
    rep.family_threads("sharing", rep.n(400, 6000), if rep.thorough { 150.0 } else { 20.0 }, 1, |r, cx| {
        let sp = problem23(r, false);
        let n = r.range(2, 4);
        share(&sp, cx, n)
    });
}
/// the workloads for the interpreter: tiny, no files, no child processes; kinds that end in errors are run without the
/// aliasing model, which the error type of a dependency does not obey
pub const UB_KINDS: usize = 9;
pub fn ub(kind: usize, seed: u64) {
    let mut r = Rng::new(crate::rng::hash_bytes(seed, &kind.to_le_bytes()));
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let mut cx = Cx::default();
    let v = guarded(|| ub_case(kind, &mut r, &mut cx));
    println!("UB-END kind={kind} seed={seed} held={:?} {}", v, cx.counters.iter().map(|(k, n)| format!("{k}={n}")).collect::<Vec<_>>().join(","));
}
fn ub_case(kind: usize, r: &mut Rng, cx: &mut Cx) -> Verdict {
    let ph = if kind % 2 == 0 { Phys::Adi } else { Phys::Iso };
    let s = *r.pick(&[6usize, 7, 8]);
    let mut sp = problem_on(r, ph, s, MILD, 1.5);
    sp.flux = if kind < 2 || r.chance(0.5) { Flux::Hll } else { Flux::Kt(limiter_any(r)) };
    if kind == 2 || kind == 3 {
        sp.flux = Flux::Kt(limiter_any(r));
    }
    sp.rkf.rkf_mode = RKFMode::RK1;
    sp.rkf.asc = false;
    sp.n_out = 1;
    let e = sp.e();
    let stdout = |r: &mut Rng, scalar: bool| {
        let mut o = out_any(r, e, "", "");
        o.stream_mode = StreamMode::Stdout;
        o.string_conversion_mode = if scalar { ToStringConversionMode::Scalar } else { ToStringConversionMode::Vector };
        o.data_names = names_any(r, e, scalar);
        o.should_print_metadata = false;
        o
    };
    match kind {
        // whole runs with concurrent outputs
        0..=3 => {
            sp.outputs = vec![stdout(r, true), stdout(r, false)];
            let mut sim = make(&sp)?;
            ctl(|c| c.log_steps = true);
            sim.run()?;
            cx.count("steps", take_steps().len() as u64);
            cx.count("runs", 1);
        },
        // other integrators
        4 => {
            for asc in [false, true] {
                let mut q = sp.clone();
                q.rkf = rkf(r, asc);
                let mut sim = make(&q)?;
                let _ = sim.step();
                cx.count("flux_evaluations", ctl(|c| c.flux_calls));
                crate::mon::reset();
            }
        },
        // boundary conditions of all kinds on all sets of variables
        5 => {
            for k in 0..4 {
                let mut q = sp.clone();
                q.xi = (3.0, 4.0);
                q.bc = (Bc::Custom((0..e).map(|j| (j, BCMODES[(j + k) % BCMODES.len()])).collect()), Bc::Custom((0..e).map(|j| (j, BCMODES[(j + k + 3) % BCMODES.len()])).collect()));
                let mut sim = make(&q)?;
                for d in [Dir::West, Dir::Cent, Dir::East] {
                    for op in [Op::VarsFromPrim, Op::VarsFromCons, Op::Flux, Op::Derived] {
                        sim.upd(d, op);
                        cx.count("updates", 1);
                    }
                }
                sim.init_west_east();
                let _ = sim.calc_dt(0.3);
                let _ = sim.copy(Dir::West, true);
                let _ = sim.copy(Dir::Cent, false);
                crate::mon::reset();
            }
        },
        // simultaneous simulations that change threads
        6 => {
            let want = manual(&mut *make(&sp)?, 2);
            let mut sims = vec![Mover(make(&sp)?), Mover(make(&sp)?)];
            let mut got = [0u64; 2];
            for _ in 0..2 {
                sims = std::thread::scope(|sc| {
                    let hs: Vec<_> = sims
                        .into_iter()
                        .zip(got.iter_mut())
                        .map(|(mut m, g)| {
                            sc.spawn(move || {
                                let q: &mut Mover = &mut m;
                                *g = mix(*g, manual_step(&mut *q.0));
                                m
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("a step panicked")).collect()
                });
                cx.count("simultaneous_steps", 2);
            }
            req!(got == [want; 2], "the states differ");
        },
        // shared values
        7 => {
            sp = problem_on(r, ph, 8, MILD, 0.6);
            sp.rkf.rkf_mode = RKFMode::RK1;
            sp.flux = if r.chance(0.5) { Flux::Hll } else { Flux::Kt(limiter_any(r)) };
            sp.n_out = 1;
            sp.outputs = vec![stdout(r, true)];
            share(&sp, cx, 2)?;
        },
        // runs that end in an error
        _ => {
            let mut q = sp.clone();
            q.outputs = vec![stdout(r, true), stdout(r, false)];
            match r.below(3) {
                0 => q.iter_max = 1,
                1 => q.dt_min = 1e9,
                _ => {},
            }
            let mut sim = make(&q)?;
            let at = r.below(2) as u64;
            ctl(|c| c.flux_act = Some((at, Act::Set { j: 0, i: 3, v: f64::NAN })));
            cx.count("refused", sim.run().is_err() as u64);
            q.xi = (2.0, 1.0);
            cx.count("refused", make(&q).is_err() as u64);
        },
    }
    Ok(true)
}
