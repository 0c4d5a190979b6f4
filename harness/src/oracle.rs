//! Independent reference implementations: physics relations, boundary conditions, numerical fluxes, limiters,
//! Runge-Kutta tableaus, exact Riemann solutions. Written from the documentation and the literature; nothing in
//! here calls the code under test.
use crate::sim::*;
use corries::prelude::*;

pub const NONE: f64 = f64::NAN;

/// conserved quantities of one cell
pub fn to_cons(phys: Phys, g: f64, p: &[f64]) -> Vec<f64> {
    match phys {
        Phys::Adi => vec![p[0], p[0] * p[1], p[2] / (g - 1.0) + 0.5 * p[0] * p[1] * p[1]],
        Phys::Iso => vec![p[0], p[0] * p[1]],
    }
}
pub fn to_prim(phys: Phys, g: f64, c: &[f64]) -> Vec<f64> {
    match phys {
        Phys::Adi => {
            let v = c[1] / c[0];
            vec![c[0], v, (g - 1.0) * (c[2] - 0.5 * c[1] * v)]
        },
        Phys::Iso => vec![c[0], c[1] / c[0]],
    }
}
pub fn pressure(phys: Phys, p: &[f64], cs: f64) -> f64 {
    match phys {
        Phys::Adi => p[2],
        Phys::Iso => p[0] * cs * cs,
    }
}
pub fn sound(phys: Phys, g: f64, p: &[f64], cs: f64) -> f64 {
    match phys {
        Phys::Adi => (g * p[2] / p[0]).sqrt(),
        Phys::Iso => cs,
    }
}
/// physical flux of one cell
pub fn flux(phys: Phys, g: f64, p: &[f64], cs: f64) -> Vec<f64> {
    let (r, v) = (p[0], p[1]);
    let pr = pressure(phys, p, cs);
    match phys {
        Phys::Adi => {
            let e = pr / (g - 1.0) + 0.5 * r * v * v;
            vec![r * v, r * v * v + pr, v * (e + pr)]
        },
        Phys::Iso => vec![r * v, r * v * v + pr],
    }
}

/// column i of a row-major E x S field
pub fn col(a: &[f64], e: usize, s: usize, i: usize) -> Vec<f64> {
    (0..e).map(|j| a[j * s + i]).collect()
}
pub fn set_col(a: &mut [f64], s: usize, i: usize, v: &[f64]) {
    for (j, x) in v.iter().enumerate() {
        a[j * s + i] = *x;
    }
}
pub fn cons_of(phys: Phys, g: f64, prim: &[f64], s: usize) -> Vec<f64> {
    let e = phys.e();
    let mut c = vec![0.0; e * s];
    for i in 0..s {
        set_col(&mut c, s, i, &to_cons(phys, g, &col(prim, e, s, i)));
    }
    c
}
pub fn prim_of(phys: Phys, g: f64, cons: &[f64], s: usize) -> Vec<f64> {
    let e = phys.e();
    let mut c = vec![0.0; e * s];
    for i in 0..s {
        set_col(&mut c, s, i, &to_prim(phys, g, &col(cons, e, s, i)));
    }
    c
}

/// one end: cells are addressed by their distance from the boundary: d = 0, 1 are interior (0 next to the boundary),
/// d = -1, -2 are the ghost cells, -2 being the outermost
fn apply_end(p: &mut [f64], x: &[f64], west: bool, mode: CustomBoundaryMode) {
    let n = p.len();
    let ix = |d: i64| -> usize {
        let k = d + 2;
        if west {
            k as usize
        } else {
            n - 1 - k as usize
        }
    };
    let p0 = p[ix(0)];
    let p1 = p[ix(1)];
    let copy = [p0, p0];
    let extra = [2.0 * p0 - p1, 3.0 * p0 - 2.0 * p1];
    let refl = [-p0, -p1];
    // inflow = velocity directed into the domain (towards larger d)
    let into = if west { p0.is_sign_positive() } else { p0.is_sign_negative() };
    let g = match mode {
        CustomBoundaryMode::NoGradients => copy,
        CustomBoundaryMode::Extrapolate => extra,
        CustomBoundaryMode::Reflecting => refl,
        CustomBoundaryMode::NearZero => [1e-10 * p0, 1e-10 * p0],
        CustomBoundaryMode::OutflowNoGradients => {
            if into {
                refl
            } else {
                copy
            }
        },
        CustomBoundaryMode::OutFlowExtrapolate => {
            if into {
                refl
            } else {
                extra
            }
        },
        CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler => {
            // q ~ xi^(-1/2)
            [p0 / (x[ix(-1)] / x[ix(0)]).sqrt(), p0 / (x[ix(-2)] / x[ix(0)]).sqrt()]
        },
    };
    p[ix(-1)] = g[0];
    p[ix(-2)] = g[1];
}
pub fn apply_bc(bc: &(Bc, Bc), prim: &mut [f64], e: usize, s: usize, x: &[f64]) {
    for (west, b) in [(true, &bc.0), (false, &bc.1)] {
        match b {
            Bc::NoGrad => {
                for j in 0..e {
                    apply_end(&mut prim[j * s..(j + 1) * s], x, west, CustomBoundaryMode::NoGradients);
                }
            },
            Bc::Custom(l) => {
                for (j, m) in l {
                    apply_end(&mut prim[j * s..(j + 1) * s], x, west, *m);
                }
            },
        }
    }
}

/// documented slopes: a backward, b forward difference
pub fn limiter(m: LimiterMode, a: f64, b: f64) -> f64 {
    let same = (a > 0.0 && b > 0.0) || (a < 0.0 && b < 0.0);
    let sg = if a > 0.0 { 1.0 } else { -1.0 };
    match m {
        LimiterMode::NoLimiter => 0.5 * (a + b),
        LimiterMode::MinMod => {
            if same {
                sg * a.abs().min(b.abs())
            } else {
                0.0
            }
        },
        LimiterMode::Superbee => {
            if same {
                sg * a.abs().min(b.abs()).min(0.5 * a.abs().max(b.abs()))
            } else {
                0.0
            }
        },
        LimiterMode::Monocent(p) => {
            if same {
                sg * (p * a.abs()).min(p * b.abs()).min(0.5 * (a + b).abs())
            } else {
                0.0
            }
        },
        LimiterMode::VanLeer => {
            if same {
                // 2ab/(a+b) without under- or overflow
                let (s, l) = if a.abs() < b.abs() { (a, b) } else { (b, a) };
                2.0 * s / (1.0 + s / l)
            } else {
                0.0
            }
        },
    }
}

/// face fluxes of one scheme; face i lies between cells i and i+1, valid for i in 1..=s-3
pub struct Faces {
    pub f: Vec<Vec<f64>>,
    /// magnitude of the terms which enter each face flux: sets the rounding error
    pub scale: Vec<Vec<f64>>,
    /// false where the reference itself is ill conditioned (non-positive or cancelled face pressure, ...)
    pub ok: Vec<bool>,
}
fn riemann(phys: Phys, g: f64, l: (&[f64], f64), r: (&[f64], f64)) -> (Vec<f64>, Vec<f64>, bool) {
    let e = phys.e();
    let (cl, cr) = (sound(phys, g, l.0, l.1), sound(phys, g, r.0, r.1));
    let lo = 0f64.min(l.0[1] - cl).min(r.0[1] - cr);
    let hi = 0f64.max(l.0[1] + cl).max(r.0[1] + cr);
    let (fl, fr) = (flux(phys, g, l.0, l.1), flux(phys, g, r.0, r.1));
    let (ul, ur) = (to_cons(phys, g, l.0), to_cons(phys, g, r.0));
    let w = hi - lo;
    let mut f = vec![0.0; e];
    let mut sc = vec![0.0; e];
    for j in 0..e {
        f[j] = (hi * fl[j] - lo * fr[j] + lo * hi * (ur[j] - ul[j])) / w;
        sc[j] = (hi * fl[j].abs() - lo * fr[j].abs() - lo * hi * (ur[j].abs() + ul[j].abs())) / w;
    }
    // mass flux scale in terms of rho * speed etc. so that cancellation inside a term is covered too
    let sp = hi.max(-lo);
    for j in 0..e {
        sc[j] += sp * (ul[j].abs() + ur[j].abs());
    }
    let m = pressure(phys, l.0, l.1).abs() + pressure(phys, r.0, r.1).abs();
    sc[1] += m;
    let ok = w > 0.0 && f.iter().all(|x| x.is_finite());
    (f, sc, ok)
}
/// all face fluxes of a state whose ghost cells are filled
pub fn faces(phys: Phys, fx: Flux, g: f64, prim: &[f64], cs: &[f64], s: usize) -> Faces {
    let e = phys.e();
    let c0 = |i: usize| if cs.is_empty() { 0.0 } else { cs[i] };
    let mut out = Faces { f: vec![vec![NONE; e]; s], scale: vec![vec![0.0; e]; s], ok: vec![false; s] };
    let cells: Vec<Vec<f64>> = (0..s).map(|i| col(prim, e, s, i)).collect();
    match fx {
        Flux::Hll => {
            for i in 1..=s - 3 {
                let (f, sc, ok) = riemann(phys, g, (&cells[i], c0(i)), (&cells[i + 1], c0(i + 1)));
                out.f[i] = f;
                out.scale[i] = sc;
                out.ok[i] = ok;
            }
        },
        Flux::Kt(m) => {
            let cons = cons_of(phys, g, prim, s);
            let (w, ea) = reconstruct(m, &cons, e, s);
            for i in 1..=s - 3 {
                let l = to_prim(phys, g, &col(&ea, e, s, i));
                let r = to_prim(phys, g, &col(&w, e, s, i + 1));
                let (f, sc, mut ok) = riemann(phys, g, (&l, c0(i)), (&r, c0(i + 1)));
                for q in [&l, &r] {
                    if !(q[0] > 0.0) {
                        ok = false;
                    }
                    if phys == Phys::Adi && !(q[2] > 1e-5 * 0.5 * q[0] * q[1] * q[1]) {
                        ok = false;
                    }
                }
                for (a, i) in [(&ea, i), (&w, i + 1)] {
                    // strong cancellation between the cell mean and the slope
                    for j in [0usize, e - 1] {
                        if j == 0 || phys == Phys::Adi {
                            if a[j * s + i].abs() < 1e-4 * cons[j * s + i].abs() {
                                ok = false;
                            }
                        }
                    }
                }
                out.f[i] = f;
                out.scale[i] = sc;
                out.ok[i] = ok;
            }
        },
        Flux::Ode => unreachable!(),
    }
    out
}
/// west and east face values, valid for cells 1..=s-2
pub fn reconstruct(m: LimiterMode, cons: &[f64], e: usize, s: usize) -> (Vec<f64>, Vec<f64>) {
    let mut w = vec![NONE; e * s];
    let mut ea = vec![NONE; e * s];
    for j in 0..e {
        let u = &cons[j * s..(j + 1) * s];
        for i in 1..s - 1 {
            let sl = limiter(m, u[i] - u[i - 1], u[i + 1] - u[i]);
            w[j * s + i] = u[i] - 0.5 * sl;
            ea[j * s + i] = u[i] + 0.5 * sl;
        }
    }
    (w, ea)
}

pub struct Tableau {
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    pub bl: Vec<f64>,
    pub c: Vec<f64>,
    pub order: usize,
    pub embedded: bool,
}
/// literature coefficients
pub fn tableau(m: RKFMode) -> Tableau {
    let t = |a: &[&[f64]], b: &[f64], bl: &[f64], order: usize| {
        let n = b.len();
        let mut aa = vec![vec![0.0; n]; n];
        for (q, r) in a.iter().enumerate() {
            for (p, x) in r.iter().enumerate() {
                aa[q + 1][p] = *x;
            }
        }
        let c = aa.iter().map(|r| r.iter().sum()).collect();
        Tableau { a: aa, b: b.to_vec(), bl: bl.to_vec(), c, order, embedded: !bl.is_empty() }
    };
    match m {
        RKFMode::RK1 => t(&[], &[1.0], &[], 1),
        RKFMode::RK2 => t(&[&[0.5]], &[0.0, 1.0], &[], 2),
        RKFMode::RK3 => {
            t(&[&[0.5], &[-1.0, 2.0]], &[1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0], &[0.0, 1.0, 0.0], 3)
        },
        RKFMode::RK4 => t(
            &[&[0.5], &[0.0, 0.5], &[0.0, 0.0, 1.0]],
            &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
            &[],
            4,
        ),
        RKFMode::Heun2 => t(&[&[1.0]], &[0.5, 0.5], &[1.0, 0.0], 2),
        RKFMode::RKF12 => t(
            &[&[0.5], &[1.0 / 256.0, 255.0 / 256.0]],
            &[1.0 / 512.0, 255.0 / 256.0, 1.0 / 512.0],
            &[1.0 / 256.0, 255.0 / 256.0, 0.0],
            2,
        ),
        RKFMode::RKF45 => t(
            &[
                &[1.0 / 4.0],
                &[3.0 / 32.0, 9.0 / 32.0],
                &[1932.0 / 2197.0, -7200.0 / 2197.0, 7296.0 / 2197.0],
                &[439.0 / 216.0, -8.0, 3680.0 / 513.0, -845.0 / 4104.0],
                &[-8.0 / 27.0, 2.0, -3544.0 / 2565.0, 1859.0 / 4104.0, -11.0 / 40.0],
            ],
            &[16.0 / 135.0, 0.0, 6656.0 / 12825.0, 28561.0 / 56430.0, -9.0 / 50.0, 2.0 / 55.0],
            &[25.0 / 216.0, 0.0, 1408.0 / 2565.0, 2197.0 / 4104.0, -1.0 / 5.0, 0.0],
            5,
        ),
        RKFMode::SSPRK3 => {
            t(&[&[1.0], &[0.25, 0.25]], &[1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0], &[0.5, 0.5, 0.0], 3)
        },
        // Ruuth's SSPRK(5,4) with the embedded pair of Conde, Fekete & Shadid; five published digits
        RKFMode::SSPRK5 => t(
            &[
                &[0.36717],
                &[0.26802, 0.31720],
                &[0.11606, 0.13735, 0.18816],
                &[0.11212, 0.13269, 0.18178, 0.41980],
            ],
            &[0.17279, 0.094505, 0.12947, 0.29899, 0.30424],
            &[0.12293, 0.31981, -0.15316, 0.31887, 0.39155],
            4,
        ),
    }
}
pub const MODES: &[RKFMode] = &[
    RKFMode::RK1,
    RKFMode::RK2,
    RKFMode::RK3,
    RKFMode::RK4,
    RKFMode::Heun2,
    RKFMode::RKF12,
    RKFMode::RKF45,
    RKFMode::SSPRK3,
    RKFMode::SSPRK5,
];

/// the largest step the CFL condition allows, over all cells
pub fn cfl_dt(phys: Phys, g: f64, prim: &[f64], cs: &[f64], s: usize, dx: f64, cfl: f64) -> f64 {
    let e = phys.e();
    let mut m = 0.0f64;
    for i in 0..s {
        let p = col(prim, e, s, i);
        let c = sound(phys, g, &p, if cs.is_empty() { 0.0 } else { cs[i] });
        let a = p[1].abs() + c;
        if a.is_nan() {
            return f64::NAN;
        }
        m = m.max(a);
    }
    cfl * dx / m
}

/// exact solution of a Riemann problem; `w(xi)` samples (rho, v, p) at similarity coordinate x/t
pub struct Riemann {
    phys: Phys,
    g: f64,
    cs: f64,
    l: (f64, f64, f64),
    r: (f64, f64, f64),
    pub ps: f64,
    pub us: f64,
    rl: f64,
    rr: f64,
}
impl Riemann {
    /// None if a vacuum forms
    pub fn new(phys: Phys, g: f64, cs: f64, l: (f64, f64, f64), r: (f64, f64, f64)) -> Option<Self> {
        // curve: (du/dp curve value, density behind the wave) for star pressure p
        let fk = |p: f64, k: (f64, f64, f64)| -> (f64, f64) {
            match phys {
                Phys::Adi => {
                    let c = (g * k.2 / k.0).sqrt();
                    if p > k.2 {
                        let a = 2.0 / ((g + 1.0) * k.0);
                        let b = (g - 1.0) / (g + 1.0) * k.2;
                        let q = (p - k.2) * (a / (p + b)).sqrt();
                        let m = (g - 1.0) / (g + 1.0);
                        let z = p / k.2;
                        (q, k.0 * (z + m) / (m * z + 1.0))
                    } else {
                        let z = p / k.2;
                        (2.0 * c / (g - 1.0) * (z.powf((g - 1.0) / (2.0 * g)) - 1.0), k.0 * z.powf(1.0 / g))
                    }
                },
                Phys::Iso => {
                    let rho = p / (cs * cs);
                    if rho > k.0 {
                        (cs * (rho - k.0) / (rho * k.0).sqrt(), rho)
                    } else {
                        (cs * (rho / k.0).ln(), rho)
                    }
                },
            }
        };
        let du = r.1 - l.1;
        let f = |p: f64| fk(p, l).0 + fk(p, r).0 + du;
        let pm = l.2.max(r.2);
        let mut lo = pm * 1e-12;
        if f(lo) > 0.0 {
            return None;
        }
        let mut hi = pm;
        while f(hi) < 0.0 {
            hi *= 2.0;
            if hi > 1e300 {
                return None;
            }
        }
        for _ in 0..200 {
            let m = (lo * hi).sqrt();
            if f(m) < 0.0 {
                lo = m;
            } else {
                hi = m;
            }
        }
        let ps = (lo * hi).sqrt();
        let (a, rl) = fk(ps, l);
        let (b, rr) = fk(ps, r);
        Some(Self { phys, g, cs, l, r, ps, us: 0.5 * (l.1 + r.1) + 0.5 * (b - a), rl, rr })
    }
    pub fn w(&self, x: f64) -> (f64, f64, f64) {
        if x <= self.us {
            self.side(x, self.l, self.rl, 1.0)
        } else {
            let m = (self.r.0, -self.r.1, self.r.2);
            let (r, v, p) = self.side(-x, m, self.rr, -1.0);
            (r, -v, p)
        }
    }
    // left side of the contact; `sg` mirrors the star velocity
    fn side(&self, x: f64, k: (f64, f64, f64), rs: f64, sg: f64) -> (f64, f64, f64) {
        let us = sg * self.us;
        let (g, ps) = (self.g, self.ps);
        match self.phys {
            Phys::Adi => {
                let c = (g * k.2 / k.0).sqrt();
                if ps > k.2 {
                    let s = k.1 - c * ((g + 1.0) / (2.0 * g) * ps / k.2 + (g - 1.0) / (2.0 * g)).sqrt();
                    if x < s {
                        k
                    } else {
                        (rs, us, ps)
                    }
                } else {
                    let cst = (g * ps / rs).sqrt();
                    if x < k.1 - c {
                        k
                    } else if x > us - cst {
                        (rs, us, ps)
                    } else {
                        let v = 2.0 / (g + 1.0) * (c + 0.5 * (g - 1.0) * k.1 + x);
                        let cc = v - x;
                        let rho = k.0 * (cc / c).powf(2.0 / (g - 1.0));
                        (rho, v, k.2 * (cc / c).powf(2.0 * g / (g - 1.0)))
                    }
                }
            },
            Phys::Iso => {
                let c = self.cs;
                if rs > k.0 {
                    let s = k.1 - c * (rs / k.0).sqrt();
                    if x < s {
                        k
                    } else {
                        (rs, us, rs * c * c)
                    }
                } else if x < k.1 - c {
                    k
                } else if x > us - c {
                    (rs, us, rs * c * c)
                } else {
                    let v = x + c;
                    let rho = k.0 * ((k.1 - v) / c).exp();
                    (rho, v, rho * c * c)
                }
            },
        }
    }
}
