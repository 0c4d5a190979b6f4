//! Monitors by interposition: wrapper types for the public `NumFlux` and `TimeSolver` traits which
//! delegate to the real implementations and record what goes in and out.
use color_eyre::{eyre::bail, Result};
use corries::{mesh::Mesh, prelude::*, timestep::TimeStep};
use ndarray::Array2;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Debug)]
pub struct StepEv {
    pub iter0: usize,
    pub iter1: usize,
    pub t0: f64,
    pub t1: f64,
    pub dt: f64,
    pub t_next: f64,
    pub ok: bool,
    pub flux_calls: u64,
    /// conserved quantities after the step (if `keep_cons`)
    pub cons: Vec<f64>,
    pub prim: Vec<f64>,
    pub cs: Vec<f64>,
}
#[derive(Clone, Debug)]
pub struct StageEv {
    pub step: u64,
    pub cons: Vec<f64>,
    pub rhs: Vec<f64>,
    pub ok: bool,
}
#[derive(Clone, Debug)]
pub enum Act {
    /// the flux scheme reports an error
    Err,
    /// overwrite one entry of the flux divergence
    Set { j: usize, i: usize, v: f64 },
    /// overwrite one entry such that a forward Euler step of width `time.dt` reaches the target value of cons
    Reach { j: usize, i: usize, target: f64 },
    /// as `Reach`, but the target is given for the pressure (adiabatic; last equation)
    ReachP { i: usize, p: f64, gamma: f64 },
}
#[derive(Clone, Debug)]
pub enum StepAct {
    ErrBefore,
    ErrAfter,
}
type OdeFn = Rc<dyn Fn(&Array2<f64>, &mut Array2<f64>)>;
type StepFn = Rc<dyn Fn(u64)>;
#[derive(Default)]
pub struct Ctl {
    pub log_steps: bool,
    pub keep_cons: bool,
    pub log_stages: bool,
    /// 0 = unlimited
    pub step_limit: u64,
    pub call_limit: u64,
    pub limit_hit: bool,
    pub step_calls: u64,
    pub flux_calls: u64,
    pub steps: Vec<StepEv>,
    pub stages: Vec<StageEv>,
    pub flux_act: Option<(u64, Act)>,
    pub step_act: Option<(u64, StepAct)>,
    pub cur_dt: f64,
    pub ode: Option<OdeFn>,
    /// called before step k = 0, 1, ...
    pub on_step: Option<StepFn>,
    pub acted: bool,
}
thread_local! {
    pub static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
    pub static INIT: RefCell<Option<InitData>> = RefCell::new(None);
}
#[derive(Clone, Debug, Default)]
pub struct InitData {
    pub prim: Vec<f64>,
    pub cs: Vec<f64>,
    pub fail: Option<String>,
    pub calls: u64,
    /// whether the state handed to the init function was all zero, and whether its shapes were right
    pub fresh: bool,
    pub mesh_xi: Vec<f64>,
}
pub fn reset() {
    CTL.with(|c| *c.borrow_mut() = Ctl::default());
    INIT.with(|c| *c.borrow_mut() = None);
}
pub fn ctl<R>(f: impl FnOnce(&mut Ctl) -> R) -> R {
    CTL.with(|c| f(&mut c.borrow_mut()))
}

pub struct MonFlux<N>(pub N);
impl<N: NumFlux<E, S>, const E: usize, const S: usize> NumFlux<E, S> for MonFlux<N> {
    fn new(c: &NumFluxConfig, mesh: &Mesh<S>) -> Result<Self> {
        Ok(Self(N::new(c, mesh)?))
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let (call, stop, log, act, dt, step) = ctl(|c| {
            let k = c.flux_calls;
            c.flux_calls += 1;
            let stop = c.call_limit > 0 && k >= c.call_limit;
            if stop {
                c.limit_hit = true;
            }
            (k, stop, c.log_stages, c.flux_act.clone(), c.cur_dt, c.step_calls)
        });
        if stop {
            bail!("cvm: limit of flux evaluations reached");
        }
        let cons: Vec<f64> = if log { u.cent.cons.iter().copied().collect() } else { vec![] };
        let r = self.0.calc_dflux_dxi(dflux_dxi, u, mesh);
        let mut res = r;
        if let Some((k, a)) = act {
            if k == call {
                ctl(|c| c.acted = true);
                match a {
                    Act::Err => res = Err(color_eyre::eyre::eyre!("cvm: injected flux failure")),
                    Act::Set { j, i, v } => dflux_dxi[[j, i]] = v,
                    Act::Reach { j, i, target } => dflux_dxi[[j, i]] = (u.cent.cons[[j, i]] - target) / dt,
                    Act::ReachP { i, p, gamma } => {
                        // E = p/(g-1) + m^2/(2 rho), momentum and density of this cell are kept
                        let (rho, m) = (u.cent.cons[[0, i]], u.cent.cons[[1, i]]);
                        let e = p / (gamma - 1.0) + 0.5 * m * m / rho;
                        dflux_dxi[[0, i]] = 0.0;
                        dflux_dxi[[1, i]] = 0.0;
                        dflux_dxi[[E - 1, i]] = (u.cent.cons[[E - 1, i]] - e) / dt;
                    },
                }
            }
        }
        if log {
            ctl(|c| {
                c.stages.push(StageEv { step, cons, rhs: dflux_dxi.iter().copied().collect(), ok: res.is_ok() })
            });
        }
        res
    }
}

/// A right-hand side given by a function of the harness: turns the time integrator into an ODE solver.
pub struct OdeFlux;
impl<const E: usize, const S: usize> NumFlux<E, S> for OdeFlux {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> {
        Ok(Self)
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        _: &Mesh<S>,
    ) -> Result<()> {
        let f = ctl(|c| c.ode.clone()).expect("no ode set");
        f(&u.cent.cons, dflux_dxi);
        Ok(())
    }
}

pub struct MonTime<T>(pub T);
impl<P: Physics<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for MonTime<T> {
    fn new(c: &CorriesConfig) -> Result<Self> {
        Ok(Self(T::new(c)?))
    }
    fn next_solution<N: NumFlux<E, S>>(
        &mut self,
        time: &mut TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let (k, stop, act, calls0) = ctl(|c| {
            let k = c.step_calls;
            c.step_calls += 1;
            let stop = c.step_limit > 0 && k >= c.step_limit;
            if stop {
                c.limit_hit = true;
            }
            (k, stop, c.step_act.clone(), c.flux_calls)
        });
        if stop {
            bail!("cvm: limit of steps reached");
        }
        if let Some(f) = ctl(|c| c.on_step.clone()) {
            f(k);
        }
        let act = act.filter(|(n, _)| *n == k).map(|(_, a)| a);
        if let Some(StepAct::ErrBefore) = act {
            ctl(|c| c.acted = true);
            bail!("cvm: injected step failure");
        }
        let (iter0, t0) = (time.iter, time.t);
        let mut r = self.0.next_solution(time, u, rhs, mesh);
        if let Some(StepAct::ErrAfter) = act {
            ctl(|c| c.acted = true);
            r = Err(color_eyre::eyre::eyre!("cvm: injected step failure"));
        }
        ctl(|c| {
            if c.log_steps {
                let keep = c.keep_cons;
                c.steps.push(StepEv {
                    iter0,
                    iter1: time.iter,
                    t0,
                    t1: time.t,
                    dt: time.dt,
                    t_next: time.t_next_output,
                    ok: r.is_ok(),
                    flux_calls: c.flux_calls - calls0,
                    cons: if keep { u.cent.cons.iter().copied().collect() } else { vec![] },
                    prim: if keep { u.cent.prim.iter().copied().collect() } else { vec![] },
                    cs: if keep { u.cent.c_sound.to_vec() } else { vec![] },
                })
            }
        });
        r
    }
}

/// init function that installs the primitive variables handed over in the thread-local `INIT`
pub fn tl_init<P, N, T, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    mesh: &Mesh<S>,
) -> Result<()>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    INIT.with(|c| {
        let mut g = c.borrow_mut();
        let d = g.as_mut().expect("no init data");
        d.calls += 1;
        let blank = State::<P, E, S>::new(&PhysicsConfig { units_mode: UnitsMode::SI, adiabatic_index: u.cent.gamma });
        d.fresh = u.cent.prim.dim() == (E, S)
            && u.cent.prim.iter().chain(u.cent.cons.iter()).all(|&x| x == 0.0)
            && u.west.gamma == u.cent.gamma
            && u.east.gamma == u.cent.gamma
            && [(&u.cent, &blank.cent), (&u.west, &blank.west), (&u.east, &blank.east)]
                .iter()
                .all(|(a, b)| a.prim == b.prim && a.cons == b.cons && a.c_sound == b.c_sound && a.eigen_vals == b.eigen_vals && a.flux == b.flux);
        d.mesh_xi = mesh.xi_cent.to_vec();
        if let Some(m) = &d.fail {
            bail!("{}", m);
        }
        for j in 0..E {
            for i in 0..S {
                u.cent.prim[[j, i]] = d.prim[j * S + i];
            }
        }
        if !d.cs.is_empty() {
            for i in 0..S {
                u.cent.c_sound[i] = d.cs[i];
            }
        }
        Ok(())
    })
}
