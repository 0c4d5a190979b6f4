//! A type-erased handle on a real simulation, so that the checks need not be generic.
use crate::mon::*;
use corries::{directions::Direction, variables::Variables, mesh::Mesh, prelude::*, timestep::TimeStep};
use ndarray::Array2;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Phys {
    Adi,
    Iso,
}
impl Phys {
    pub fn e(self) -> usize {
        match self {
            Phys::Adi => 3,
            Phys::Iso => 2,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flux {
    Hll,
    Kt(LimiterMode),
    Ode,
}
pub type BcVec = Vec<(usize, CustomBoundaryMode)>;
#[derive(Clone, Debug, PartialEq)]
pub enum Bc {
    NoGrad,
    Custom(BcVec),
}
impl Bc {
    pub fn mode(&self) -> BoundaryMode {
        match self {
            Bc::NoGrad => BoundaryMode::NoGradients,
            Bc::Custom(v) => BoundaryMode::Custom(v.clone()),
        }
    }
}
/// a complete problem
#[derive(Clone, Debug)]
pub struct Spec {
    pub phys: Phys,
    pub flux: Flux,
    pub rkf: RkfConfig,
    pub s: usize,
    pub xi: (f64, f64),
    pub gamma: f64,
    pub bc: (Bc, Bc),
    pub t0: f64,
    pub t_end: f64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub cfl: f64,
    pub iter_max: usize,
    pub n_out: usize,
    pub banner: bool,
    pub outputs: Vec<OutputConfig>,
    pub units: UnitsMode,
    /// row-major E x S
    pub prim: Vec<f64>,
    /// isothermal only, length S
    pub cs: Vec<f64>,
}
impl Default for Spec {
    fn default() -> Self {
        Self {
            phys: Phys::Adi,
            flux: Flux::Hll,
            rkf: RkfConfig { rkf_mode: RKFMode::SSPRK3, ..Default::default() },
            s: 54,
            xi: (1.0, 2.0),
            gamma: 1.4,
            bc: (Bc::NoGrad, Bc::NoGrad),
            t0: 0.0,
            t_end: 0.1,
            dt_min: 1e-12,
            dt_max: f64::MAX,
            cfl: 0.4,
            iter_max: usize::MAX - 2,
            n_out: 1,
            banner: false,
            outputs: vec![],
            units: UnitsMode::SI,
            prim: vec![],
            cs: vec![],
        }
    }
}
impl Spec {
    pub fn e(&self) -> usize {
        self.phys.e()
    }
    pub fn dx(&self) -> f64 {
        (self.xi.1 - self.xi.0) / (self.s - 4) as f64
    }
    /// centre of cell i
    pub fn x(&self, i: usize) -> f64 {
        self.xi.0 + self.dx() * (i as f64 - 2.0 + 0.5)
    }
    pub fn config(&self) -> CorriesConfig {
        CorriesConfig {
            print_banner: self.banner,
            mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: self.xi.0, xi_out: self.xi.1 },
            physics_config: PhysicsConfig { adiabatic_index: self.gamma, units_mode: self.units.clone() },
            boundary_condition_west: self.bc.0.mode(),
            boundary_condition_east: self.bc.1.mode(),
            numerics_config: NumericsConfig {
                numflux_config: match self.flux {
                    Flux::Hll | Flux::Ode => NumFluxConfig::Hll,
                    Flux::Kt(m) => NumFluxConfig::Kt { limiter_mode: m },
                },
                time_integration_config: TimeIntegrationConfig::Rkf(self.rkf),
                iter_max: self.iter_max,
                t0: self.t0,
                t_end: self.t_end,
                dt_min: self.dt_min,
                dt_max: self.dt_max,
                dt_cfl_param: self.cfl,
            },
            output_counter_max: self.n_out,
            writer_config: self.outputs.clone(),
        }
    }
    /// everything but the fields, for reports
    pub fn head(&self) -> String {
        format!(
            "{:?}/{:?}/{:?} asc={} S={} xi=({:e},{:e}) g={:.4} bc={:?}|{:?} t=({:e},{:e}) cfl={} n_out={} dt_min={:e} dt_max={:e}",
            self.phys,
            self.flux,
            self.rkf.rkf_mode,
            if self.rkf.asc {
                format!("({:e},{:e},{})", self.rkf.asc_relative_tolerance, self.rkf.asc_absolute_tolerance, self.rkf.asc_timestep_friction)
            } else {
                "off".into()
            },
            self.s,
            self.xi.0,
            self.xi.1,
            self.gamma,
            self.bc.0,
            self.bc.1,
            self.t0,
            self.t_end,
            self.cfl,
            self.n_out,
            self.dt_min,
            self.dt_max
        )
    }
    pub fn describe(&self) -> String {
        let e = self.e();
        let n = self.s;
        let f = |j: usize| {
            let r = &self.prim[j * n..(j + 1) * n];
            if n <= 16 {
                format!("{:?}", r)
            } else {
                format!("[{:e} {:e} .. {:e} .. {:e}]", r[0], r[2], r[n / 2], r[n - 1])
            }
        };
        let h = crate::rng::hash_bytes(7, &self.prim.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        format!(
            "{} prim={} cs={} datahash={:x}",
            self.head(),
            if self.prim.is_empty() { "-".into() } else { (0..e).map(f).collect::<Vec<_>>().join(";") },
            self.cs.first().copied().unwrap_or(0.0),
            h
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    West,
    Cent,
    East,
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Prim,
    Cons,
    CSound,
    EigenVals,
    EigenMin,
    EigenMax,
    Derived,
    Flux,
    VarsFromPrim,
    VarsFromCons,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vars {
    pub prim: Vec<f64>,
    pub cons: Vec<f64>,
    pub cs: Vec<f64>,
    pub eig: Vec<f64>,
    pub flux: Vec<f64>,
    pub gamma: f64,
}
#[derive(Clone, Debug)]
pub struct MeshInfo {
    pub xi_cent: Vec<f64>,
    pub xi_west: Vec<f64>,
    pub xi_east: Vec<f64>,
    pub dxi: f64,
    pub ixi_in: usize,
    pub ixi_out: usize,
    pub cell_width: Vec<f64>,
}

pub trait Sim {
    fn e(&self) -> usize;
    fn s(&self) -> usize;
    fn vars(&self, d: Dir) -> Vars;
    fn prim(&self) -> Vec<f64>;
    fn cons(&self) -> Vec<f64>;
    fn set_prim(&mut self, d: Dir, v: &[f64]);
    fn set_cons(&mut self, d: Dir, v: &[f64]);
    fn set_cs(&mut self, d: Dir, v: &[f64]);
    fn upd(&mut self, d: Dir, op: Op);
    fn init_west_east(&mut self);
    fn step(&mut self) -> Result<(), String>;
    fn run(&mut self) -> Result<(), String>;
    fn ts(&mut self) -> &mut TimeStep;
    fn time(&self) -> TimeStep;
    /// boundary conditions, derived quantities and flux divergence of the current conserved quantities
    fn rhs_update(&mut self) -> Result<Vec<f64>, String>;
    /// the bare flux scheme on the current state, into a buffer holding `d0`; a separate object from the solver's
    fn raw_flux(&mut self, d0: &[f64]) -> Result<Vec<f64>, String>;
    fn full_rhs(&self) -> Vec<f64>;
    fn mesh(&self) -> MeshInfo;
    fn calc_dt(&mut self, cfl: f64) -> Result<f64, String>;
    fn output_counter(&self) -> usize;
    fn write_now(&mut self) -> Result<(), String>;
    /// the equation system's own validation of the cell centres
    fn validate(&self) -> Result<(), String>;
    /// the rows which the equation system names, and the extreme eigenvalues
    fn views(&self, d: Dir) -> Vec<Vec<f64>>;
    /// (west, cent, east) of a new state to which this one, or one direction of it, was assigned
    fn copy(&self, d: Dir, only: bool) -> [Vars; 3];
}
fn vars_of<const E: usize, const S: usize>(v: &Variables<E, S>) -> Vars {
    Vars {
        prim: v.prim.iter().copied().collect(),
        cons: v.cons.iter().copied().collect(),
        cs: v.c_sound.to_vec(),
        eig: v.eigen_vals.iter().copied().collect(),
        flux: v.flux.iter().copied().collect(),
        gamma: v.gamma,
    }
}

pub struct Comp<P, N, T, const E: usize, const S: usize>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    pub c: CorriesComponents<P, N, T, E, S>,
    pub n2: N,
}
pub fn es<X>(r: color_eyre::Result<X>) -> Result<X, String> {
    r.map_err(|e| {
        let mut s = format!("{e:#}");
        if s.len() > 900 {
            s.truncate(900);
        }
        s
    })
}
fn arr(v: &[f64], e: usize, s: usize) -> Array2<f64> {
    Array2::from_shape_vec((e, s), v.to_vec()).unwrap()
}
macro_rules! at {
    ($self:ident, $d:expr) => {
        match $d {
            Dir::West => &mut $self.c.0.west,
            Dir::Cent => &mut $self.c.0.cent,
            Dir::East => &mut $self.c.0.east,
        }
    };
}
const W: u8 = Direction::West as u8;
const C: u8 = Direction::Cent as u8;
const EA: u8 = Direction::East as u8;
macro_rules! updd {
    ($self:ident, $d:expr, $op:expr) => {{
        let (u, sol, mesh, _) = &mut $self.c;
        match $op {
            Op::Prim => u.update_prim_d::<$d>(),
            Op::Cons => u.update_cons_d::<$d>(),
            Op::CSound => u.update_c_sound_d::<$d>(),
            Op::EigenVals => u.update_eigen_vals_d::<$d>(),
            Op::EigenMin => u.update_eigen_vals_min_d::<$d>(),
            Op::EigenMax => u.update_eigen_vals_max_d::<$d>(),
            Op::Derived => u.update_derived_variables_d::<$d>(),
            Op::Flux => u.update_flux_d::<$d>(),
            Op::VarsFromPrim => {
                u.update_vars_from_prim_d::<$d>(&mut sol.rhs.boundary_west, &mut sol.rhs.boundary_east, mesh)
            },
            Op::VarsFromCons => {
                u.update_vars_from_cons_d::<$d>(&mut sol.rhs.boundary_west, &mut sol.rhs.boundary_east, mesh)
            },
        }
    }};
}
impl<P, N, T, const E: usize, const S: usize> Sim for Comp<P, N, T, E, S>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    fn e(&self) -> usize {
        E
    }
    fn s(&self) -> usize {
        S
    }
    fn vars(&self, d: Dir) -> Vars {
        let v = match d {
            Dir::West => &self.c.0.west,
            Dir::Cent => &self.c.0.cent,
            Dir::East => &self.c.0.east,
        };
        vars_of(v)
    }
    fn prim(&self) -> Vec<f64> {
        self.c.0.cent.prim.iter().copied().collect()
    }
    fn cons(&self) -> Vec<f64> {
        self.c.0.cent.cons.iter().copied().collect()
    }
    fn set_prim(&mut self, d: Dir, v: &[f64]) {
        at!(self, d).prim.assign(&arr(v, E, S));
    }
    fn set_cons(&mut self, d: Dir, v: &[f64]) {
        at!(self, d).cons.assign(&arr(v, E, S));
    }
    fn set_cs(&mut self, d: Dir, v: &[f64]) {
        for (a, b) in at!(self, d).c_sound.iter_mut().zip(v) {
            *a = *b;
        }
    }
    fn upd(&mut self, d: Dir, op: Op) {
        match d {
            Dir::West => updd!(self, W, op),
            Dir::Cent => updd!(self, C, op),
            Dir::East => updd!(self, EA, op),
        }
    }
    fn init_west_east(&mut self) {
        self.c.0.init_west_east();
    }
    fn step(&mut self) -> Result<(), String> {
        es(self.c.1.next_solution(&mut self.c.0, &self.c.2))
    }
    fn run(&mut self) -> Result<(), String> {
        es(self.c.run_corries())
    }
    fn ts(&mut self) -> &mut TimeStep {
        &mut self.c.1.timestep
    }
    fn time(&self) -> TimeStep {
        self.c.1.timestep.clone()
    }
    fn rhs_update(&mut self) -> Result<Vec<f64>, String> {
        let (u, sol, mesh, _) = &mut self.c;
        es(sol.rhs.update(u, mesh))?;
        Ok(sol.rhs.full_rhs.iter().copied().collect())
    }
    fn raw_flux(&mut self, d0: &[f64]) -> Result<Vec<f64>, String> {
        let mut d = arr(d0, E, S);
        es(self.n2.calc_dflux_dxi(&mut d, &mut self.c.0, &self.c.2))?;
        Ok(d.iter().copied().collect())
    }
    fn full_rhs(&self) -> Vec<f64> {
        self.c.1.rhs.full_rhs.iter().copied().collect()
    }
    fn mesh(&self) -> MeshInfo {
        let m: &Mesh<S> = &self.c.2;
        MeshInfo {
            xi_cent: m.xi_cent.to_vec(),
            xi_west: m.xi_west.to_vec(),
            xi_east: m.xi_east.to_vec(),
            dxi: m.dxi,
            ixi_in: m.ixi_in,
            ixi_out: m.ixi_out,
            cell_width: m.cell_width.to_vec(),
        }
    }
    fn calc_dt(&mut self, cfl: f64) -> Result<f64, String> {
        es(self.c.0.calc_dt_cfl(cfl, &self.c.2))
    }
    fn output_counter(&self) -> usize {
        self.c.3.output_counter
    }
    fn write_now(&mut self) -> Result<(), String> {
        let (u, sol, mesh, w) = &mut self.c;
        es(w.update_data(&u.cent, &sol.timestep, mesh))?;
        es(w.write_output())
    }
    fn validate(&self) -> Result<(), String> {
        es(P::validate(&self.c.0.cent))
    }
    fn views(&self, d: Dir) -> Vec<Vec<f64>> {
        let v = match d {
            Dir::West => &self.c.0.west,
            Dir::Cent => &self.c.0.cent,
            Dir::East => &self.c.0.east,
        };
        vec![
            P::rho_prim(v).to_vec(),
            P::rho_cons(v).to_vec(),
            P::xi_vel(v).to_vec(),
            P::xi_mom(v).to_vec(),
            P::eta_vel(v).to_vec(),
            P::eta_mom(v).to_vec(),
            P::pressure(v).to_vec(),
            P::energy(v).to_vec(),
            v.eigen_min().to_vec(),
            v.eigen_max().to_vec(),
        ]
    }
    fn copy(&self, d: Dir, only: bool) -> [Vars; 3] {
        let u = &self.c.0;
        let mut n = State::<P, E, S>::new(&PhysicsConfig { adiabatic_index: u.cent.gamma, units_mode: UnitsMode::SI });
        match (only, d) {
            (false, _) => n.assign(u),
            (true, Dir::West) => n.assign_vars_d::<W>(u),
            (true, Dir::Cent) => n.assign_vars(u),
            (true, Dir::East) => n.assign_vars_d::<EA>(u),
        }
        [vars_of(&n.west), vars_of(&n.cent), vars_of(&n.east)]
    }
}

pub fn build<P, N, T, const E: usize, const S: usize>(
    cfg: &CorriesConfig,
    init: corries::initfuncs::InitFn<P, N, T, E, S>,
) -> Result<Comp<P, N, T, E, S>, String>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    let c = es(cfg.init_corries::<P, N, T, E, S>(init))?;
    let n2 = es(N::new(&cfg.numerics_config.numflux_config, &c.2))?;
    Ok(Comp { c, n2 })
}

pub const SIZES: &[usize] = &[6, 7, 8, 11, 16, 33, 54, 104, 204, 404, 1004];
macro_rules! sizes {
    ($s:expr, $S:ident, $body:block) => {
        sizes!(@ $s, $S, $body, 6, 7, 8, 11, 16, 33, 54, 104, 204, 404, 1004)
    };
    (@ $s:expr, $S:ident, $body:block, $($n:literal),*) => {
        match $s {
            $($n => { const $S: usize = $n; $body })*
            other => panic!("size {other} is not instantiated"),
        }
    };
}
/// the init function is invoked with the fields of the spec
pub fn make(spec: &Spec) -> Result<Box<dyn Sim>, String> {
    let cfg = spec.config();
    INIT.with(|c| *c.borrow_mut() = Some(InitData { prim: spec.prim.clone(), cs: spec.cs.clone(), ..Default::default() }));
    make_cfg(spec.phys, spec.flux, spec.s, &cfg)
}
/// as `make`, with a given configuration and the thread-local INIT already set
pub fn make_cfg(phys: Phys, flux: Flux, s: usize, cfg: &CorriesConfig) -> Result<Box<dyn Sim>, String> {
    sizes!(s, S, {
        match (phys, flux) {
            (Phys::Adi, Flux::Hll) => mk::<Euler1DAdiabatic<S>, MonFlux<Hll<3, S>>, 3, S>(cfg),
            (Phys::Iso, Flux::Hll) => mk::<Euler1DIsot<S>, MonFlux<Hll<2, S>>, 2, S>(cfg),
            (Phys::Adi, Flux::Kt(_)) => mk::<Euler1DAdiabatic<S>, MonFlux<Kt<3, S>>, 3, S>(cfg),
            (Phys::Iso, Flux::Kt(_)) => mk::<Euler1DIsot<S>, MonFlux<Kt<2, S>>, 2, S>(cfg),
            (Phys::Adi, Flux::Ode) => mk::<Euler1DAdiabatic<S>, MonFlux<OdeFlux>, 3, S>(cfg),
            (Phys::Iso, Flux::Ode) => mk::<Euler1DIsot<S>, MonFlux<OdeFlux>, 2, S>(cfg),
        }
    })
}
fn mk<P, N, const E: usize, const S: usize>(cfg: &CorriesConfig) -> Result<Box<dyn Sim>, String>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S> + 'static,
{
    type T<P, const E: usize, const S: usize> = MonTime<RungeKuttaFehlberg<P, E, S>>;
    Ok(Box::new(build::<P, N, T<P, E, S>, E, S>(cfg, tl_init::<P, N, T<P, E, S>, E, S>)?))
}
