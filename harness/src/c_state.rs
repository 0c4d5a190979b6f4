//! C18-C21, C24, C26: boundary conditions, variables, validity, mesh, units, initialisation
use crate::{gen::*, mon::*, oracle::*, rep::*, rng::Rng, sim::*, util::*};
use color_eyre::{eyre::ensure, Result};
use ndarray::Array1;
use corries::{check_finite_arrayd, check_finite_double, check_positive_arrayd, check_positive_double};
use corries::{initfuncs::*, prelude::*, variables::Variables};

const EPS: f64 = f64::EPSILON;
fn xs_of(m: &MeshInfo) -> Vec<f64> {
    m.xi_cent.clone()
}
/// any mode for any equation, sometimes none or the same equation twice
fn bc_any(r: &mut Rng, e: usize) -> Bc {
    if r.chance(0.1) {
        return Bc::NoGrad;
    }
    let mut v = vec![];
    for j in 0..e {
        if r.chance(0.85) {
            v.push((j, *r.pick(BCMODES)));
        }
    }
    if r.chance(0.1) && !v.is_empty() {
        let k = r.below(v.len());
        v.push((v[k].0, *r.pick(BCMODES)));
    }
    r.shuffle(&mut v);
    Bc::Custom(v)
}
/// Are primitive, conservative and derived quantities of all cells consistent? `cs0`: prescribed sound speeds of
/// isothermal flow
fn consistent(ph: Phys, g: f64, v: &Vars, cs0: &[f64], s: usize, cells: std::ops::Range<usize>, eig: bool) -> Result<f64, String> {
    let e = ph.e();
    let mut worst = 0.0f64;
    req!(v.gamma == g, "the adiabatic index is {} instead of {g}", v.gamma);
    for i in cells {
        let p = col(&v.prim, e, s, i);
        let c = col(&v.cons, e, s, i);
        if p.iter().chain(&c).any(|x| !x.is_finite()) {
            return Err(format!("cell {i} is not finite: prim {p:?}, cons {c:?}"));
        }
        let w = to_cons(ph, g, &p);
        for j in 0..e {
            // scale of the terms of the sum
            let sc = if j == 2 { (p[2] / (g - 1.0)).abs() + 0.5 * (p[0] * p[1] * p[1]).abs() } else { w[j].abs() };
            let err = (c[j] - w[j]).abs() / (EPS * sc + 1e-300);
            worst = worst.max(err);
            req!(err <= 16.0, "cell {i}: cons_{j} = {:e}, but the primitive variables {p:?} give {:e}", c[j], w[j]);
        }
        let cs = match ph {
            Phys::Adi => (g * p[2] / p[0]).sqrt(),
            Phys::Iso => cs0[i],
        };
        if ph == Phys::Iso {
            req!(v.cs[i] == cs, "cell {i}: the sound speed changed from {cs:e} to {:e}", v.cs[i]);
        } else if cs.is_finite() {
            let err = (v.cs[i] - cs).abs() / (EPS * cs.abs() + 1e-300);
            req!(err <= 16.0, "cell {i}: c_sound = {:e}, but {p:?} with gamma = {g} gives {cs:e}", v.cs[i]);
        }
        if eig && v.cs[i].is_finite() {
            for j in 0..e {
                let l = if j == 0 { p[1] - v.cs[i] } else if j == e - 1 { p[1] + v.cs[i] } else { p[1] };
                let err = (v.eig[j * s + i] - l).abs() / (EPS * (p[1].abs() + v.cs[i].abs()) + 1e-300);
                req!(err <= 8.0, "cell {i}: eigenvalue {j} is {:e} instead of {l:e}", v.eig[j * s + i]);
            }
        }
    }
    Ok(worst)
}
/// largest ghost cell deviation from the boundary conditions, in units of the rounding error
fn ghosts(bc: &(Bc, Bc), before: &[f64], after: &[f64], e: usize, s: usize, x: &[f64]) -> Result<f64, String> {
    let mut w = before.to_vec();
    apply_bc(bc, &mut w, e, s, x);
    let mut worst = 0.0f64;
    for j in 0..e {
        for i in 0..s {
            let (a, b) = (after[j * s + i], w[j * s + i]);
            let ghost = i < 2 || i >= s - 2;
            let set = |b: &Bc| match b {
                Bc::NoGrad => true,
                Bc::Custom(l) => l.iter().any(|(k, _)| *k == j),
            };
            if !ghost || !set(if i < 2 { &bc.0 } else { &bc.1 }) {
                req!(a.to_bits() == b.to_bits(), "prim_{j} of cell {i} was changed from {b:e} to {a:e} ({})", if ghost { "no condition is configured for it" } else { "it is an interior cell" });
                continue;
            }
            let n = if i < 2 { [2, 3] } else { [s - 3, s - 4] };
            let sc = n.iter().map(|k| before[j * s + k].abs()).fold(0.0, f64::max);
            // near zero values are relative to the neighbour
            let sc = if b.abs() < 1e-6 * sc { b.abs() } else { 6.0 * sc };
            if a.is_nan() && b.is_nan() {
                continue;
            }
            // the power laws amplify the rounding of coordinates close to zero
            let kepler = match if i < 2 { &bc.0 } else { &bc.1 } {
                Bc::NoGrad => false,
                Bc::Custom(l) => l.iter().any(|(k, m)| *k == j && matches!(m, CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler)),
            };
            let amp = if kepler {
                let far = x.iter().map(|x| x.abs()).fold(0.0, f64::max);
                far / x[i].abs().min(x[n[0]].abs())
            } else {
                0.0
            };
            let sc = if kepler { sc.max(b.abs()) } else { sc };
            let err = (a - b).abs() / (EPS * sc * (1.0 + amp) + 1e-300);
            worst = worst.max(err);
            req!(err <= 8.0, "ghost cell {i} of prim_{j} is {a:e} instead of {b:e}");
        }
    }
    Ok(worst)
}

// ------------------------------------------------------------------------------------------------ C18
pub fn c18(rep: &Rep) {
    rep.rule("direct: random fields (any sign, contrast up to 1e12, ghost cells full of garbage) on random meshes under random sets of modes (equations without a mode, repeated equations, any order), applied to all three sets of variables, from primitive and from conservative values; the result is compared with an independent implementation, which also mirrors the two ends. runs: after every step of a run the ghost cells have to satisfy the conditions for the interior of that moment. Non-trivial: every case.");
    rep.family("direct", rep.n(400_000, 4_000_000), if rep.thorough { 250.0 } else { 12.0 }, |r, cx| {
        let ph = phys(r);
        let (e, s) = (ph.e(), sized(r, &[6, 7, 8, 11, 16, 33]));
        let (prim0, cs) = data(r, ph, s, Kind::Uniform, MILD, 1.0, 1.0);
        let mut sp = Spec { phys: ph, s, xi: interval(r, s), gamma: gamma(r), bc: (bc_any(r, e), bc_any(r, e)), prim: prim0, cs, ..Default::default() };
        if r.chance(0.3) {
            // positive coordinates, also in the ghost cells: Keplerian laws make sense
            let lo = r.uni(1.0, 3.0);
            sp.xi = (lo, lo + r.uni(0.1, 2.0));
        }
        let x = xs(&sp);
        // Keplerian laws need coordinates of one sign, outflow a definite direction
        let kepler_ok = |w: bool| {
            let k = if w { [0, 1, 2] } else { [s - 1, s - 2, s - 3] };
            k.iter().all(|i| x[*i] > 0.0) || k.iter().all(|i| x[*i] < 0.0)
        };
        for w in [true, false] {
            let ok = kepler_ok(w);
            let b = if w { &mut sp.bc.0 } else { &mut sp.bc.1 };
            if let Bc::Custom(v) = b {
                for m in v.iter_mut() {
                    if !ok && matches!(m.1, CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler) {
                        m.1 = CustomBoundaryMode::NoGradients;
                    }
                    cx.count(&format!("{:?}", m.1), 1);
                }
            }
        }
        let mut sim = make(&sp)?;
        let wide = r.uni(0.0, 6.0);
        let mut prim: Vec<f64> = (0..e * s)
            .map(|k| {
                let a = r.log10(-wide, wide);
                if k / s == 1 || r.chance(0.1) {
                    r.sign() * a
                } else {
                    a
                }
            })
            .collect();
        // ghost cells keep whatever was there: something recognisable
        for j in 0..e {
            for i in [0, 1, s - 2, s - 1] {
                prim[j * s + i] = (j + 1) as f64 * 1000.0 + i as f64 + 0.25;
            }
        }
        let d = *r.pick(&[Dir::Cent, Dir::Cent, Dir::West, Dir::East]);
        let from_cons = r.chance(0.4);
        if from_cons {
            // realisable states only
            for i in 0..s {
                prim[i] = prim[i].abs();
                if e == 3 {
                    prim[2 * s + i] = prim[2 * s + i].abs().max(1e-3 * prim[i] * prim[s + i] * prim[s + i]);
                }
            }
        }
        let others: Vec<Vars> = [Dir::Cent, Dir::West, Dir::East].iter().filter(|q| **q != d).map(|q| sim.vars(*q)).collect();
        let mut before = prim.clone();
        if from_cons {
            sim.set_cons(d, &cons_of(ph, sp.gamma, &prim, s));
            sim.upd(d, Op::Prim);
            before = sim.vars(d).prim;
            // whatever the primitive variables were, they are overwritten
            let junk: Vec<f64> = (0..e * s).map(|_| r.uni(1.0, 2.0)).collect();
            sim.set_prim(d, &junk);
            sim.upd(d, Op::VarsFromCons);
        } else {
            sim.set_prim(d, &prim);
            sim.upd(d, Op::VarsFromPrim);
        }
        cx.desc = format!("{d:?} from_cons={from_cons} {} prim={prim:?}", sp.head());
        // a velocity of exactly zero has no direction
        for (w, b) in [(true, &sp.bc.0), (false, &sp.bc.1)] {
            if let Bc::Custom(v) = b {
                if v.iter().any(|(j, m)| matches!(m, CustomBoundaryMode::OutflowNoGradients | CustomBoundaryMode::OutFlowExtrapolate) && before[j * s + if w { 2 } else { s - 3 }] == 0.0) {
                    return Ok(false);
                }
            }
        }
        let v = sim.vars(d);
        let m = ghosts(&sp.bc, &before, &v.prim, e, s, &x)?;
        cx.max("deviation in units of rounding", m);
        consistent(ph, sp.gamma, &v, &v.cs, s, 0..s, true).map_err(|m| format!("after applying the boundary conditions: {m}"))?;
        for (q, o) in [Dir::Cent, Dir::West, Dir::East].iter().filter(|q| **q != d).zip(&others) {
            req!(same(&sim.vars(*q), o), "updating {d:?} changed {q:?}");
        }
        Ok(true)
    });
    rep.family("runs", rep.n(150_000, 1_500_000), if rep.thorough { 150.0 } else { 8.0 }, |r, cx| {
        let mut sp = problem(r, MED, 12.0);
        let (e, s) = (sp.e(), sp.s);
        if r.chance(0.5) {
            sp.bc = (bc_any(r, e), bc_any(r, e));
        }
        if matches!(sp.flux, Flux::Kt(_)) && r.chance(0.3) {
            sp.flux = Flux::Hll;
        }
        sp.rkf.asc = r.chance(0.3);
        // positive coordinates for the Keplerian modes
        let len = sp.xi.1 - sp.xi.0;
        sp.xi = (len, 2.0 * len);
        if s < 8 {
            sp.xi = (3.0 * len, 4.0 * len);
        }
        let x = xs(&sp);
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let mut n = 0;
        for k in 0..12 {
            let v = sim.vars(Dir::Cent);
            if sp.prim.iter().any(|x| !x.is_finite()) {
                break;
            }
            // unconfigured equations: compare with themselves
            let m = ghosts_now(&sp.bc, &v.prim, e, s, &x).map_err(|m| format!("after {k} steps: {m}"))?;
            cx.max("deviation in units of rounding", m);
            n += 1;
            if sim.step().is_err() {
                break;
            }
        }
        cx.count("states", n);
        Ok(n > 1)
    });
}
/// as `ghosts`, for a state that is supposed to be the result already
fn ghosts_now(bc: &(Bc, Bc), prim: &[f64], e: usize, s: usize, x: &[f64]) -> Result<f64, String> {
    if let Some(k) = [(true, &bc.0), (false, &bc.1)].iter().find_map(|(w, b)| match b {
        Bc::Custom(v) => v.iter().find(|(j, m)| matches!(m, CustomBoundaryMode::OutflowNoGradients | CustomBoundaryMode::OutFlowExtrapolate) && prim[j * s + if *w { 2 } else { s - 3 }] == 0.0),
        _ => None,
    }) {
        let _ = k;
        return Ok(0.0);
    }
    ghosts(bc, prim, prim, e, s, x)
}
fn same(a: &Vars, b: &Vars) -> bool {
    bits_eq(&a.prim, &b.prim) && bits_eq(&a.cons, &b.cons) && bits_eq(&a.cs, &b.cs) && bits_eq(&a.eig, &b.eig) && bits_eq(&a.flux, &b.flux) && a.gamma == b.gamma
}

// ------------------------------------------------------------------------------------------------ C19
const OPS: &[Op] = &[Op::Prim, Op::Cons, Op::CSound, Op::EigenVals, Op::EigenMin, Op::EigenMax, Op::Derived, Op::Flux];
pub fn c19(rep: &Rep) {
    rep.rule("convert: single operations on variables filled with random values (density and pressure over 24 decades, Mach numbers up to 1e4), in random sequences on all three sets: each result is compared with the documented relations, and everything the operation does not own has to stay bit-identical; round trips. steps: all cells of the centre variables after initialisation and after every step of runs with all schemes, boundary conditions and step control, including outputs and sound speeds that vary in space for isothermal flow. views: named rows, copies and assignments. Non-trivial: every finite case.");
    rep.family("convert", rep.n(500_000, 6_000_000), if rep.thorough { 250.0 } else { 12.0 }, |r, cx| {
        let ph = phys(r);
        let (e, s) = (ph.e(), sized(r, &[6, 7, 8, 11]));
        let (p0, c0) = data(r, ph, s, Kind::Uniform, MILD, 1.0, 1.0);
        let sp = Spec { phys: ph, s, xi: interval(r, s), gamma: gamma(r), prim: p0, cs: c0, ..Default::default() };
        let g = sp.gamma;
        let mut sim = make(&sp)?;
        let wide = *r.pick(&[0.5, 2.0, 6.0, 12.0]);
        let mut prim = vec![0.0; e * s];
        let mut cs = vec![0.0; s];
        for i in 0..s {
            let (rho, p) = (r.log10(-wide, wide), r.log10(-wide, wide));
            let c = (g * p / rho).sqrt();
            let v = if r.chance(0.1) { 0.0 } else { r.sign() * c * r.log10(-6.0, 4.0) };
            prim[i] = rho;
            prim[s + i] = v;
            if e == 3 {
                prim[2 * s + i] = p;
            }
            cs[i] = c;
        }
        let d = *r.pick(&[Dir::Cent, Dir::West, Dir::East]);
        // every array is filled with something of its own
        sim.set_prim(d, &prim);
        let junk: Vec<f64> = (0..e * s).map(|_| r.log10(-3.0, 3.0)).collect();
        sim.set_cons(d, &junk);
        sim.set_cs(d, &cs);
        cx.desc = format!("{d:?} {:?} g={g} prim={prim:?} cs={cs:?}", ph);
        let mut realisable = false; // whether cons belongs to a state
        for _ in 0..r.range(2, 8) {
            let op = *r.pick(OPS);
            if matches!(op, Op::Prim) && !realisable {
                continue;
            }
            let b = sim.vars(d);
            let others: Vec<Vars> = [Dir::Cent, Dir::West, Dir::East].iter().filter(|q| **q != d).map(|q| sim.vars(*q)).collect();
            sim.upd(d, op);
            let a = sim.vars(d);
            cx.count(&format!("{op:?}"), 1);
            let owns = |o: &str| match op {
                Op::Prim => o == "prim",
                Op::Cons => o == "cons",
                Op::CSound => o == "cs" && ph == Phys::Adi,
                Op::EigenVals | Op::EigenMin | Op::EigenMax => o == "eig",
                Op::Derived => o == "eig" || (o == "cs" && ph == Phys::Adi),
                _ => o == "flux",
            };
            for (o, x, y) in [("prim", &a.prim, &b.prim), ("cons", &a.cons, &b.cons), ("cs", &a.cs, &b.cs), ("eig", &a.eig, &b.eig), ("flux", &a.flux, &b.flux)] {
                req!(owns(o) || bits_eq(x, y), "{op:?} changed {o}");
            }
            for (q, o) in [Dir::Cent, Dir::West, Dir::East].iter().filter(|q| **q != d).zip(&others) {
                req!(same(&sim.vars(*q), o), "{op:?} on {d:?} changed {q:?}");
            }
            for i in 0..s {
                let p = col(&b.prim, e, s, i);
                match op {
                    Op::Cons => {
                        let w = to_cons(ph, g, &p);
                        for j in 0..e {
                            let err = (a.cons[j * s + i] - w[j]).abs() / (EPS * w[j].abs() + 1e-300);
                            cx.max("cons, units of rounding", err);
                            req!(err <= 16.0, "cell {i}: cons_{j} of {p:?} is {:e} instead of {:e}", a.cons[j * s + i], w[j]);
                        }
                    },
                    Op::Prim => {
                        // the way back: cons was made from prim
                        let c = col(&b.cons, e, s, i);
                        let w = to_prim(ph, g, &c);
                        for j in 0..e {
                            let sc = if j == 2 { (g - 1.0) * (c[2].abs() + 0.5 * c[1] * c[1] / c[0]) } else { w[j].abs() };
                            let err = (a.prim[j * s + i] - w[j]).abs() / (EPS * sc + 1e-300);
                            req!(err <= 16.0, "cell {i}: prim_{j} of {c:?} is {:e} instead of {:e}", a.prim[j * s + i], w[j]);
                            let err = (a.prim[j * s + i] - prim[j * s + i]).abs() / (EPS * sc.max(prim[j * s + i].abs()) + 1e-300);
                            cx.max("round trip, units of rounding", err);
                            req!(err <= 64.0, "cell {i}: converting prim_{j} = {:e} there and back gives {:e}", prim[j * s + i], a.prim[j * s + i]);
                        }
                    },
                    Op::CSound | Op::Derived if ph == Phys::Adi => {
                        let w = (g * p[2] / p[0]).sqrt();
                        if w.is_finite() {
                            req!((a.cs[i] - w).abs() <= 16.0 * EPS * w, "cell {i}: c_sound of {p:?} is {:e} instead of {w:e}", a.cs[i]);
                        }
                    },
                    _ => {},
                }
                let c = a.cs[i];
                let l = |j: usize| if j == 0 { p[1] - c } else if j == e - 1 { p[1] + c } else { p[1] };
                for j in 0..e {
                    let x = a.eig[j * s + i];
                    let mine = match op {
                        Op::EigenVals | Op::Derived => true,
                        Op::EigenMin => j == 0,
                        Op::EigenMax => j == e - 1,
                        _ => false,
                    };
                    if mine && c.is_finite() {
                        req!((x - l(j)).abs() <= 4.0 * EPS * (p[1].abs() + c), "cell {i}: eigenvalue {j} after {op:?} is {x:e} instead of {:e}", l(j));
                    } else if !mine {
                        req!(x.to_bits() == b.eig[j * s + i].to_bits(), "{op:?} changed eigenvalue {j}");
                    }
                }
                if matches!(op, Op::Flux) && realisable {
                    let w = flux(ph, g, &p, b.cs[i]);
                    for j in 0..e {
                        let sc = match j {
                            0 => w[0].abs(),
                            1 => (p[0] * p[1] * p[1]).abs() + pressure(ph, &p, b.cs[i]).abs(),
                            _ => w[2].abs(),
                        };
                        let err = (a.flux[j * s + i] - w[j]).abs() / (EPS * sc + 1e-300);
                        cx.max("flux, units of rounding", err);
                        req!(err <= 64.0, "cell {i}: flux_{j} of {p:?} (c = {:e}) is {:e} instead of {:e}", b.cs[i], a.flux[j * s + i], w[j]);
                    }
                }
            }
            if matches!(op, Op::Cons) {
                realisable = true;
            }
            if matches!(op, Op::Prim) {
                // rounding has moved the primitive variables a little: the next comparison starts from them
                sim.set_prim(d, &prim);
            }
        }
        Ok(true)
    });
    rep.family("steps", rep.n(30_000, 300_000), if rep.thorough { 200.0 } else { 8.0 }, |r, cx| {
        let l = if r.chance(0.3) { WILD } else { MED };
        let mut sp = problem(r, l, 12.0);
        let (e, s) = (sp.e(), sp.s);
        sp.rkf.asc = r.chance(0.3);
        if sp.phys == Phys::Iso && r.chance(0.5) {
            // sound speeds that vary in space belong to the user
            for i in 0..s {
                sp.cs[i] *= r.uni(0.7, 1.4);
            }
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let (mut n, mut err) = (0, false);
        for k in 0..12 {
            let v = sim.vars(Dir::Cent);
            let w = consistent(sp.phys, sp.gamma, &v, &sp.cs, s, 0..s, true).map_err(|m| format!("after {k} steps: {m}"))?;
            cx.max("cons, units of rounding", w);
            if sp.phys == Phys::Iso {
                for d in [Dir::West, Dir::East] {
                    req!(bits_eq(&sim.vars(d).cs, &sp.cs), "the sound speeds of {d:?} changed after {k} steps");
                }
            }
            for d in [Dir::West, Dir::East] {
                req!(sim.vars(d).gamma == sp.gamma, "the adiabatic index of {d:?} changed");
            }
            n += 1;
            if sim.step().is_err() {
                err = true;
                break;
            }
        }
        let _ = e;
        cx.count("states", n);
        cx.count("runs_ended_by_error", err as u64);
        Ok(n > 1)
    });
    rep.family("views", rep.n(3000, 20_000), 4.0, |r, cx| {
        let mut sp = problem(r, MED, 5.0);
        sp.n_out = 1;
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let _ = sim.step();
        let (e, s) = (sp.e(), sp.s);
        for d in [Dir::Cent, Dir::West, Dir::East] {
            let v = sim.vars(d);
            let row = |a: &Vec<f64>, j: usize| a[j * s..(j + 1) * s].to_vec();
            let zero = vec![0.0; s];
            let want = vec![
                ("density", row(&v.prim, 0)),
                ("mass", row(&v.cons, 0)),
                ("velocity", row(&v.prim, 1)),
                ("momentum", row(&v.cons, 1)),
                ("transverse velocity", zero.clone()),
                ("transverse momentum", zero.clone()),
                ("pressure", if e == 3 { row(&v.prim, 2) } else { zero.clone() }),
                ("energy", if e == 3 { row(&v.cons, 2) } else { zero.clone() }),
                ("smallest eigenvalue", row(&v.eig, 0)),
                ("largest eigenvalue", row(&v.eig, e - 1)),
            ];
            let got = sim.views(d);
            for ((n, w), g) in want.iter().zip(&got) {
                req!(bits_eq(w, g), "the view on the {n} of {d:?} shows something else");
            }
        }
        for (d, only) in [(Dir::Cent, false), (Dir::Cent, true), (Dir::West, true), (Dir::East, true)] {
            let c = sim.copy(d, only);
            for (q, v) in [Dir::West, Dir::Cent, Dir::East].iter().zip(&c) {
                let w = sim.vars(*q);
                if !only || *q == d {
                    req!(bits_eq(&v.prim, &w.prim) && bits_eq(&v.cons, &w.cons) && bits_eq(&v.cs, &w.cs), "assigning {} did not copy {q:?}", if only { "one direction" } else { "a state" });
                } else {
                    req!(v.prim.iter().chain(&v.cons).all(|x| *x == 0.0), "assigning {d:?} changed {q:?}");
                }
            }
        }
        Ok(true)
    });
}

// ------------------------------------------------------------------------------------------------ C20
fn valid(ph: Phys, prim: &[f64], cons: &[f64], s: usize) -> Result<(), String> {
    for (n, a) in [("prim", prim), ("cons", cons)] {
        if let Some(k) = a.iter().position(|x| !x.is_finite()) {
            return Err(format!("{n}_{} of cell {} is {}", k / s, k % s, a[k]));
        }
    }
    for i in 0..s {
        if !(prim[i] > 0.0) {
            return Err(format!("the density of cell {i} is {:e}", prim[i]));
        }
        if ph == Phys::Adi && !(prim[2 * s + i] > 0.0) {
            return Err(format!("the pressure of cell {i} is {:e}", prim[2 * s + i]));
        }
    }
    Ok(())
}
pub fn c20(rep: &Rep) {
    rep.rule("inject: one entry of the flux divergence is overwritten at a random evaluation such that density, pressure or another quantity becomes exactly zero, slightly negative, NaN or infinite in a chosen cell at the end of a forward Euler step or in the middle of a higher order one. hostile: problems with strong jumps, near vacuum, CFL parameters up to 20, extrapolating or reflecting conditions on density and pressure, unlimited reconstruction. direct: validation of states with chosen defects. macros: the public check macros with flaws at any position of any argument. Whenever success is reported the state is inspected, whenever the injected state is not admissible an error is required. Non-trivial: a step was taken or refused.");
    rep.family("inject", rep.n(120_000, 1_500_000), if rep.thorough { 200.0 } else { 8.0 }, |r, cx| {
        let mut sp = problem(r, MILD, 30.0);
        let (e, s, ph) = (sp.e(), sp.s, sp.phys);
        let euler = r.chance(0.7);
        if euler {
            sp.rkf.rkf_mode = RKFMode::RK1;
        }
        sp.dt_max = 0.5 * sp.cfl * sp.dx() / speed(&sp);
        // a step width that is known in advance
        sp.cfl *= 4.0;
        sp.bc = (Bc::NoGrad, Bc::NoGrad);
        sp.n_out = 1;
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let warm = r.below(4);
        for _ in 0..warm {
            if sim.step().is_err() {
                return Ok(false);
            }
        }
        let dt = sp.dt_max;
        let i = r.range(2, s - 3);
        let calls = ctl(|c| c.flux_calls);
        let at = calls + if euler { 0 } else { r.below(tableau(sp.rkf.rkf_mode).b.len()) as u64 };
        let v0 = sim.vars(Dir::Cent);
        let (rho, p) = (v0.prim[i], if e == 3 { v0.prim[2 * s + i] } else { 1.0 });
        let tiny = |r: &mut Rng, m: f64| *r.pick(&[0.0, -1e-300, -1e-12, -1e-3, -1.0]) * m;
        let mut must = euler;
        let act = match r.below(5) {
            0 => Act::Reach { j: 0, i, target: tiny(r, rho) },
            1 if e == 3 => Act::ReachP { i, p: -p * *r.pick(&[1e-3, 1e-6, 1.0, 100.0]), gamma: sp.gamma },
            2 => Act::Set { j: r.below(e), i, v: *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) },
            3 if e == 3 => Act::Reach { j: 2, i, target: tiny(r, v0.cons[2 * s + i]) },
            _ => {
                // admissible, but extreme
                must = false;
                Act::Reach { j: 0, i, target: rho * r.log10(-6.0, 6.0) }
            },
        };
        let label = format!("{act:?}");
        ctl(|c| {
            c.cur_dt = dt;
            c.flux_act = Some((at, act.clone()));
        });
        // a density of exactly zero is only reached up to rounding
        if let (true, Act::Reach { j, target, .. }) = (must, &act) {
            if *target >= -1e-9 * v0.cons[j * s + i].abs() {
                must = false;
            }
        }
        cx.desc = format!("{label} at evaluation {} after {warm} steps; {}", at - calls, cx.desc);
        let res = sim.step();
        let hit = ctl(|c| c.acted);
        match &res {
            Ok(()) => {
                let v = sim.vars(Dir::Cent);
                valid(ph, &v.prim, &v.cons, s).map_err(|m| format!("the step reports success, but {m}"))?;
                cx.count("successful_steps_inspected", 1);
                req!(!(must && hit), "the step reports success although the injected state is not admissible");
            },
            Err(_) => cx.count("refused", 1),
        }
        if must {
            cx.count("not_admissible_by_construction", 1);
        }
        Ok(hit)
    });
    rep.family("hostile", rep.n(60_000, 700_000), if rep.thorough { 200.0 } else { 8.0 }, |r, cx| {
        let mut sp = problem(r, WILD, 20.0);
        let (e, s, ph) = (sp.e(), sp.s, sp.phys);
        sp.flux = match r.below(3) {
            0 => Flux::Hll,
            _ => Flux::Kt(limiter_any(r)),
        };
        sp.cfl = *r.pick(&[0.4, 0.9, 1.0, 1.5, 2.0, 5.0, 20.0]);
        sp.rkf.asc = r.chance(0.3);
        for w in [true, false] {
            if r.chance(0.4) {
                let b = bc_any(r, e);
                if w {
                    sp.bc.0 = b
                } else {
                    sp.bc.1 = b
                }
            }
        }
        sp.t_end *= 10.0;
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        for k in 0..15 {
            ctl(|c| c.call_limit = c.flux_calls + 2000);
            if sim.step().is_err() {
                cx.count("runs_refused", 1);
                break;
            }
            let v = sim.vars(Dir::Cent);
            valid(ph, &v.prim, &v.cons, s).map_err(|m| format!("step {k} reports success, but {m}"))?;
            cx.count("successful_steps_inspected", 1);
        }
        Ok(true)
    });
    rep.family("direct", rep.n(100_000, 500_000), 4.0, |r, cx| {
        let ph = phys(r);
        let (e, s) = (ph.e(), sized(r, &[6, 7, 8, 11]));
        let (prim, cs) = data(r, ph, s, Kind::Cells, MED, 1.0, 1.0);
        let sp = Spec { phys: ph, s, xi: interval(r, s), gamma: gamma(r), prim: prim.clone(), cs, ..Default::default() };
        let mut sim = make(&sp)?;
        let v = sim.vars(Dir::Cent);
        let (mut p, mut c) = (v.prim, v.cons);
        for _ in 0..r.below(3) {
            let k = r.below(e * s);
            let x = *r.pick(&[0.0, -0.0, -1e-300, 1e-300, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE]);
            if r.chance(0.6) {
                p[k] = x;
            } else {
                c[k] = x;
            }
        }
        sim.set_prim(Dir::Cent, &p);
        sim.set_cons(Dir::Cent, &c);
        cx.desc = format!("{ph:?} prim={p:?} cons={c:?}");
        let want = valid(ph, &p, &c, s);
        let got = sim.validate();
        // finiteness is checked elsewhere; a density or pressure that is not > 0 has to be refused here
        let bad = (0..s).find(|&i| !(p[i] > 0.0) || (e == 3 && !(p[2 * s + i] > 0.0)));
        match (&bad, &want, &got) {
            (Some(i), _, Ok(())) => return Err(format!("validation accepts the state, but density or pressure of cell {i} is not positive")),
            (_, Ok(()), Err(g)) => return Err(format!("validation refuses an admissible state: {g}")),
            _ => {},
        }
        cx.count(if want.is_ok() { "accepted" } else { "refused" }, 1);
        Ok(true)
    });
    // the public macros that validation is made of, with the flaw in any argument and at any position
    rep.family("macros", rep.n(60_000, 400_000), 4.0, |r, cx| {
        let n = r.range(1, 40);
        let k = r.range(1, 4);
        let mut v: Vec<Array1<f64>> = (0..4).map(|_| Array1::from_iter((0..n).map(|_| r.log10(-300.0, 300.0)))).collect();
        let mut d: Vec<f64> = (0..4).map(|_| r.log10(-300.0, 300.0)).collect();
        for _ in 0..r.below(3) {
            let x = *r.pick(&[0.0, -0.0, -1e-300, f64::MIN_POSITIVE, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]);
            let q = r.below(k);
            v[q][r.below(n)] = x;
            d[q] = x;
        }
        cx.desc = format!("{:?}", &v[..k]);
        let s = Fields { a: v[0].clone(), b: v[1].clone(), c: v[2].clone(), d: v[3].clone(), w: d[0], x: d[1], y: d[2], z: d[3] };
        let all = |f: &dyn Fn(&f64) -> bool| (v[..k].iter().all(|x| x.iter().all(f)), d[..k].iter().all(f));
        let (fa, fd) = all(&|x| x.is_finite());
        let (pa, pd) = all(&|x| *x > 0.0);
        for (what, got, want) in [
            ("check_finite_arrayd", s.finite_arrays(k), fa),
            ("check_finite_double", s.finite_doubles(k), fd),
            ("check_positive_arrayd", s.positive_arrays(k), pa),
            ("check_positive_double", s.positive_doubles(k), pd),
        ] {
            for (form, g) in [("fields", got.0), ("expressions", got.1)] {
                req!(g == want, "{what}! with {k} {form} {} {d:?} (arrays: see case)", if g { "accepts" } else { "refuses" });
                cx.count("macro_verdicts", 1);
            }
        }
        Ok(true)
    });
}
struct Fields {
    a: Array1<f64>,
    b: Array1<f64>,
    c: Array1<f64>,
    d: Array1<f64>,
    w: f64,
    x: f64,
    y: f64,
    z: f64,
}
/// one method per macro: verdicts for the form with fields and the form with expressions
macro_rules! verdicts {
    ($name:ident, $m:ident, $p:ident, $q:ident, $u:ident, $v:ident) => {
        fn $name(&self, n: usize) -> (bool, bool) {
            fn fields(s: &Fields, n: usize) -> Result<()> {
                match n {
                    1 => {
                        $m!(s.$p);
                    },
                    2 => {
                        $m!(s.$p, s.$q);
                    },
                    3 => {
                        $m!(s.$p, s.$q, s.$u);
                    },
                    _ => {
                        $m!(s.$p, s.$q, s.$u, s.$v);
                    },
                }
                Ok(())
            }
            fn exprs(s: &Fields, n: usize) -> Result<()> {
                let (p, q, u, v) = (&s.$p, &s.$q, &s.$u, &s.$v);
                match n {
                    1 => {
                        $m!(p.clone());
                    },
                    2 => {
                        $m!(p.clone(), q.clone());
                    },
                    3 => {
                        $m!(p.clone(), q.clone(), u.clone());
                    },
                    _ => {
                        $m!(p.clone(), q.clone(), u.clone(), v.clone());
                    },
                }
                Ok(())
            }
            (fields(self, n).is_ok(), exprs(self, n).is_ok())
        }
    };
}
impl Fields {
    verdicts!(finite_arrays, check_finite_arrayd, a, b, c, d);
    verdicts!(positive_arrays, check_positive_arrayd, a, b, c, d);
    verdicts!(finite_doubles, check_finite_double, w, x, y, z);
    verdicts!(positive_doubles, check_positive_double, w, x, y, z);
}

// ------------------------------------------------------------------------------------------------ C21
fn mesh_case<const S: usize>(xi: (f64, f64), cx: &mut Cx) -> Verdict {
    let m = match Mesh::<S>::new(&MeshConfig { mode: MeshMode::Cartesian, xi_in: xi.0, xi_out: xi.1 }) {
        Ok(m) => m,
        Err(e) => {
            // the inverse coordinates of the mesh have to be finite
            let dx = (xi.1 - xi.0) / (S - 4) as f64;
            // the inverse of the coordinates, of the width and of its square exist up to 1e-308
            let near = (0..=2 * S).any(|k| (xi.0 + dx * (0.5 * k as f64 - 2.0)).abs() < 8.0 * EPS * xi.0.abs().max(xi.1.abs()) + 1e-300);
            // cells narrower than the distance of neighbouring numbers cannot be represented
            let near = near || dx < 16.0 * EPS * xi.0.abs().max(xi.1.abs());
            req!(near || !(dx * dx).is_finite() || dx < 1e-300, "a mesh of {S} cells on {xi:?} was refused: {e:#}");
            cx.count("refused", 1);
            return Ok(false);
        },
    };
    let n = S - 4;
    let (a, b) = (xi.0, xi.1);
    let dx = (b - a) / n as f64;
    // rounding error of a coordinate
    let far = a.abs().max(b.abs()) + 3.0 * dx;
    let u = 4.0 * EPS * far;
    let near = |x: f64, y: f64| (x - y).abs() <= u;
    let rel = |x: f64, y: f64| (x - y).abs() <= 8.0 * EPS * y.abs();
    req!(m.n_all == S && m.n_comp == n && m.n_gc == 2, "cells: {} = {} + 2 * {}", m.n_all, m.n_comp, m.n_gc);
    req!(m.imin == 0 && m.imax == S - 1 && m.ixi_in == 2 && m.ixi_out == S - 3, "indices {} {} {} {}", m.imin, m.ixi_in, m.ixi_out, m.imax);
    req!(m.xi_in == a && m.xi_out == b, "ends ({:e},{:e})", m.xi_in, m.xi_out);
    req!(m.is_linear && !m.is_logarithmic, "a Cartesian mesh is not linear");
    req!(rel(m.dxi, dx), "dxi = {:e} instead of {dx:e}", m.dxi);
    req!(near(m.xi_west[m.ixi_in], a), "the first interior cell begins at {:e}", m.xi_west[2]);
    req!(near(m.xi_east[m.ixi_out], b), "the last interior cell ends at {:e}", m.xi_east[S - 3]);
    for (name, l) in [
        ("xi_cent", m.xi_cent.len()), ("xi_west", m.xi_west.len()), ("xi_east", m.xi_east.len()), ("cell_width", m.cell_width.len()),
        ("volume", m.volume.len()), ("sqrt_g", m.sqrt_g.len()), ("area_west", m.area_west.len()), ("area_east", m.area_east.len()),
    ] {
        req!(l == S, "{name} has {l} entries");
    }
    let mut vol = 0.0;
    for i in 0..S {
        let x = a + dx * (i as f64 - 2.0);
        req!(near(m.xi_west[i], x), "cell {i} begins at {:e} instead of {x:e}", m.xi_west[i]);
        req!(near(m.xi_east[i], x + dx), "cell {i} ends at {:e} instead of {:e}", m.xi_east[i], x + dx);
        req!(near(m.xi_cent[i], x + 0.5 * dx), "cell {i} is centred at {:e} instead of {:e}", m.xi_cent[i], x + 0.5 * dx);
        if i > 0 {
            req!(near(m.xi_west[i], m.xi_east[i - 1]), "there is a gap between cells {} and {i}: {:e}, {:e}", i - 1, m.xi_east[i - 1], m.xi_west[i]);
            if dx > 16.0 * u {
                req!(m.xi_west[i] > m.xi_west[i - 1] && m.xi_cent[i] > m.xi_east[i - 1] && m.xi_cent[i] < m.xi_east[i], "cells {} and {i} are not in order", i - 1);
            }
        }
        req!((m.cell_width[i] - dx).abs() <= 2.0 * u, "cell {i} is {:e} wide instead of {dx:e}", m.cell_width[i]);
        req!(rel(m.cell_width_inv[i], 1.0 / m.cell_width[i]), "cell {i}: the inverse of the width {:e} is {:e}", m.cell_width[i], m.cell_width_inv[i]);
        for (name, v, inv) in [("cent", &m.xi_cent, &m.xi_cent_inv), ("west", &m.xi_west, &m.xi_west_inv), ("east", &m.xi_east, &m.xi_east_inv)] {
            req!(rel(inv[i], 1.0 / v[i]), "cell {i}: the inverse of xi_{name} = {:e} is {:e}", v[i], inv[i]);
        }
        for (name, h) in [
            ("h_xi_cent", &m.h_xi_cent), ("h_xi_west", &m.h_xi_west), ("h_xi_east", &m.h_xi_east),
            ("h_eta_cent", &m.h_eta_cent), ("h_eta_west", &m.h_eta_west), ("h_eta_east", &m.h_eta_east),
            ("h_phi_cent", &m.h_phi_cent), ("h_phi_west", &m.h_phi_west), ("h_phi_east", &m.h_phi_east),
        ] {
            req!(h[i] == 1.0, "{name} of cell {i} is {:e} on a Cartesian mesh", h[i]);
        }
        let g = m.h_xi_cent[i] * m.h_eta_cent[i] * m.h_phi_cent[i];
        req!(rel(m.sqrt_g[i], g), "sqrt_g of cell {i} is {:e} instead of {g:e}", m.sqrt_g[i]);
        req!(rel(m.line_xi[i], m.h_xi_cent[i] * m.dxi) && rel(m.line_xi_inv[i], 1.0 / m.line_xi[i]), "the line element of cell {i} is {:e}, inverse {:e}", m.line_xi[i], m.line_xi_inv[i]);
        let da = m.deta * m.dphi;
        for (name, h, ar, d) in [
            ("west", m.h_eta_west[i] * m.h_phi_west[i], m.area_west[i], m.d_area_xi_deta_dphi_west[i]),
            ("east", m.h_eta_east[i] * m.h_phi_east[i], m.area_east[i], m.d_area_xi_deta_dphi_east[i]),
        ] {
            req!(rel(ar, h * da) && rel(d, ar / da), "the {name} face of cell {i} has the area {ar:e} (per angle {d:e}) instead of {:e}", h * da);
        }
        let w = g * m.dxi * da;
        req!(rel(m.volume[i], w), "the volume of cell {i} is {:e} instead of {w:e}", m.volume[i]);
        req!(rel(m.deta_dphi_d_volume[i], da / m.volume[i]), "the inverse volume of cell {i} is {:e}", m.deta_dphi_d_volume[i]);
        let ac = m.cell_width[i] * m.cell_width[i];
        req!((m.area_cell[i] - ac).abs() <= 16.0 * EPS * ac + 4.0 * u * m.cell_width[i].abs(), "the area of cell {i} is {:e} instead of {ac:e}", m.area_cell[i]);
        req!(m.cexe[i] == 0.0 && m.cpxp[i] == 0.0, "a Cartesian mesh has the curvature terms {:e}, {:e}", m.cexe[i], m.cpxp[i]);
        for (p, q) in [(&m.cexe, &m.minus_cexe), (&m.cpxp, &m.minus_cpxp), (&m.cxex, &m.minus_cxex), (&m.cpep, &m.minus_cpep), (&m.cxpx, &m.minus_cxpx), (&m.cepe, &m.minus_cepe)] {
            req!(p[i] == -q[i], "a negative coefficient of cell {i} is {:e} for {:e}", q[i], p[i]);
        }
        if (2..S - 2).contains(&i) {
            vol += m.volume[i];
        }
    }
    let whole = (b - a) * m.deta * m.dphi;
    req!((vol - whole).abs() <= 4.0 * EPS * S as f64 * whole.abs(), "the interior cells have the volume {vol:e} instead of {whole:e}");
    cx.count("cells", S as u64);
    Ok(true)
}
pub fn c21(rep: &Rep) {
    rep.rule("meshes of 5 to 5004 cells on intervals of either sign, widths from 1e-12 of the coordinate to 1e150, also touching zero from both sides; all fields of the mesh are checked against the documented relations. In runs of other checks the same coordinates are compared with what is written to files. Non-trivial: the mesh was accepted.");
    rep.family("meshes", rep.n(200_000, 2_000_000), if rep.thorough { 200.0 } else { 10.0 }, |r, cx| {
        let k = r.below(12);
        let len = match r.below(5) {
            0 => 1.0,
            1 => r.log10(-3.0, 3.0),
            2 => r.log10(-140.0, 140.0),
            3 => r.range(1, 1000) as f64,
            _ => r.uni(0.1, 10.0),
        };
        let lo = match r.below(8) {
            0 => 1.0,
            1 => len * r.log10(0.0, 11.0) * r.sign(),
            2 => -len,
            3 => -0.5 * len,
            4 => -r.f() * len,
            5 => 0.0,
            6 => -len * r.uni(1.0, 2.0),
            _ => r.uni(0.01, 5.0) * len,
        };
        let xi = (lo, lo + len);
        if !(xi.0 < xi.1) {
            return Ok(false);
        }
        cx.desc = format!("size {k} on ({:e}, {:e})", xi.0, xi.1);
        match k {
            0 => mesh_case::<5>(xi, cx),
            1 => mesh_case::<6>(xi, cx),
            2 => mesh_case::<7>(xi, cx),
            3 => mesh_case::<8>(xi, cx),
            4 => mesh_case::<14>(xi, cx),
            5 => mesh_case::<53>(xi, cx),
            6 => mesh_case::<54>(xi, cx),
            7 => mesh_case::<104>(xi, cx),
            8 => mesh_case::<333>(xi, cx),
            9 if r.chance(0.3) => mesh_case::<1004>(xi, cx),
            10 if r.chance(0.1) => mesh_case::<5004>(xi, cx),
            _ => mesh_case::<9>(xi, cx),
        }
    });
}

// ------------------------------------------------------------------------------------------------ C24
pub fn c24(rep: &Rep) {
    rep.rule("all conversions of values between 1e-300 and 1e305, zero and both signs, in both unit systems, compared with exact decimal factors; round trips and comparisons between the two systems for the same physical quantity. Non-trivial: every non-zero value.");
    rep.family("values", rep.n(1_000_000, 20_000_000), if rep.thorough { 60.0 } else { 5.0 }, |r, cx| {
        let x = match r.below(10) {
            0 => r.sign() * 1.0,
            1 => r.below(1000) as f64,
            2 => r.sign() * r.log10(-300.0, 305.0),
            3 => 0.0,
            _ => r.sign() * r.log10(-20.0, 20.0),
        };
        let (si, cgs) = (Units::new(UnitsMode::SI), Units::new(UnitsMode::CGS));
        cx.desc = format!("{x:e}");
        let chk = |name: &str, got: f64, want: f64| -> Result<(), String> {
            req!((got - want).abs() <= 4.0 * EPS * want.abs(), "{name} of {x:e} is {got:e} instead of {want:e}");
            Ok(())
        };
        chk("SI length to SI", si.convert_length_to_si(x), x)?;
        chk("SI time to SI", si.convert_time_to_si(x), x)?;
        chk("SI mass to SI", si.convert_mass_to_si(x), x)?;
        chk("SI length to CGS", si.convert_length_to_cgs(x), x * 100.0)?;
        chk("SI time to CGS", si.convert_time_to_cgs(x), x)?;
        chk("SI mass to CGS", si.convert_mass_to_cgs(x), x * 1000.0)?;
        chk("CGS length to SI", cgs.convert_length_to_si(x), x / 100.0)?;
        chk("CGS time to SI", cgs.convert_time_to_si(x), x)?;
        chk("CGS mass to SI", cgs.convert_mass_to_si(x), x / 1000.0)?;
        chk("CGS length to CGS", cgs.convert_length_to_cgs(x), x)?;
        chk("CGS time to CGS", cgs.convert_time_to_cgs(x), x)?;
        chk("CGS mass to CGS", cgs.convert_mass_to_cgs(x), x)?;
        chk("length there and back", cgs.convert_length_to_si(si.convert_length_to_cgs(x)), x)?;
        chk("mass there and back", cgs.convert_mass_to_si(si.convert_mass_to_cgs(x)), x)?;
        chk("length back and there", si.convert_length_to_cgs(cgs.convert_length_to_si(x)), x)?;
        chk("mass back and there", si.convert_mass_to_cgs(cgs.convert_mass_to_si(x)), x)?;
        chk("default length to SI", Units::default().convert_length_to_si(x), x)?;
        cx.count("conversions", 17);
        Ok(x != 0.0)
    });
}

// ------------------------------------------------------------------------------------------------ C26
/// an equation system the supplied initialisers know nothing about
pub struct Other<P>(std::marker::PhantomData<P>);
impl<P: Physics<E, S>, const E: usize, const S: usize> Physics<E, S> for Other<P> {
    const NUM_EQ: usize = P::NUM_EQ;
    const IS_ADIABATIC: bool = P::IS_ADIABATIC;
    const JRHO: usize = P::JRHO;
    const JXI: usize = P::JXI;
    const JETA: usize = P::JETA;
    const JPRESSURE: usize = P::JPRESSURE;
    fn new() -> Self {
        Self(std::marker::PhantomData)
    }
    fn name() -> String {
        "Other".into()
    }
    fn update_prim(v: &mut Variables<E, S>) {
        P::update_prim(v)
    }
    fn update_cons(v: &mut Variables<E, S>) {
        P::update_cons(v)
    }
    fn update_flux(v: &mut Variables<E, S>) {
        P::update_flux(v)
    }
    fn validate(v: &Variables<E, S>) -> color_eyre::Result<()> {
        P::validate(v)
    }
}
type Rk<P, const E: usize, const S: usize> = RungeKuttaFehlberg<P, E, S>;
/// runs one of the supplied initialisers; Ok(prim, cons, c_sound, west and east prim)
#[allow(clippy::type_complexity)]
fn supplied<P, N, const E: usize, const S: usize>(cfg: &CorriesConfig, f: InitFn<P, N, Rk<P, E, S>, E, S>) -> Result<(Vec<f64>, Vec<f64>, Vec<f64>, [Vec<f64>; 2]), String>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let (u, _, _, _) = es(cfg.init_corries::<P, N, Rk<P, E, S>, E, S>(f))?;
    let v = |a: &ndarray::Array2<f64>| a.iter().copied().collect::<Vec<f64>>();
    Ok((v(&u.cent.prim), v(&u.cent.cons), u.cent.c_sound.to_vec(), [v(&u.west.prim), v(&u.east.prim)]))
}
thread_local! {
    /// what a supplied initialiser left behind, before the ghost cells were filled
    static LEFT: std::cell::RefCell<(Vec<f64>, Vec<f64>)> = const { std::cell::RefCell::new((vec![], vec![])) };
}
macro_rules! recorded {
    ($name:ident, $f:ident) => {
        fn $name<P, N, T, const E: usize, const S: usize>(u: &mut State<P, E, S>, solver: &mut Solver<P, N, T, E, S>, mesh: &Mesh<S>) -> color_eyre::Result<()>
        where
            P: Physics<E, S> + 'static,
            N: NumFlux<E, S>,
            T: TimeSolver<P, E, S>,
        {
            $f(u, solver, mesh)?;
            LEFT.with(|l| *l.borrow_mut() = (u.cent.prim.iter().copied().collect(), u.cent.c_sound.to_vec()));
            Ok(())
        }
    };
}
recorded!(sod_rec, init_sod);
recorded!(noh_rec, init_noh);
fn shock_tubes<const S: usize>(sp: &Spec, noh: bool, kt: bool, cx: &mut Cx) -> Verdict {
    let cfg = sp.config();
    macro_rules! go {
        ($p:ty, $e:literal) => {
            match (noh, kt) {
                (true, false) => supplied::<$p, Hll<$e, S>, $e, S>(&cfg, noh_rec),
                (true, true) => supplied::<$p, Kt<$e, S>, $e, S>(&cfg, noh_rec),
                (false, false) => supplied::<$p, Hll<$e, S>, $e, S>(&cfg, sod_rec),
                (false, true) => supplied::<$p, Kt<$e, S>, $e, S>(&cfg, sod_rec),
            }
        };
    }
    let adi = sp.phys == Phys::Adi;
    let other = sp.n_out == 7;
    let res = match (adi, other) {
        (true, false) => go!(Euler1DAdiabatic<S>, 3),
        (false, false) => go!(Euler1DIsot<S>, 2),
        (true, true) => go!(Other<Euler1DAdiabatic<S>>, 3),
        (false, true) => go!(Other<Euler1DIsot<S>>, 2),
    };
    if other || (!noh && !adi) {
        cx.count("unsupported_systems_refused", 1);
        req!(res.is_err(), "the initialiser accepts an equation system it does not support");
        return Ok(true);
    }
    let (p, c, cs, we) = res.map_err(|m| format!("the initialiser failed: {m}"))?;
    let e = sp.e();
    let (own, own_cs) = LEFT.with(|l| l.borrow().clone());
    req!(own.len() == e * S, "the initialiser has left no state");
    for i in 0..S {
        let left = i < S / 2;
        let w: Vec<f64> = match (noh, adi) {
            (true, true) => vec![1.0, if left { 1.0 } else { -1.0 }, 1e-5],
            (true, false) => vec![1.0, if left { 1.0 } else { -1.0 }],
            _ if left => vec![1.0, 0.0, 1.0],
            _ => vec![0.125, 0.0, 0.1],
        };
        let g = col(&p, e, S, i);
        req!(g.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 4.0 * EPS * b.abs()), "cell {i} of {S} is {g:?} instead of {w:?}");
        let h = col(&own, e, S, i);
        req!(h.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 4.0 * EPS * b.abs()), "the initialiser itself sets cell {i} of {S} to {h:?} instead of {w:?}");
        req!(adi || (own_cs[i] - 1.0).abs() <= 4.0 * EPS, "the initialiser itself sets c_sound of cell {i} to {:e}", own_cs[i]);
        let k = to_cons(sp.phys, sp.gamma, &w);
        req!(col(&c, e, S, i).iter().zip(&k).all(|(a, b)| (a - b).abs() <= 16.0 * EPS * b.abs()), "cons of cell {i} of {S} is {:?} instead of {k:?}", col(&c, e, S, i));
        let a = sound(sp.phys, sp.gamma, &w, 1.0);
        req!((cs[i] - a).abs() <= 16.0 * EPS * a, "c_sound of cell {i} is {:e} instead of {a:e}", cs[i]);
        for f in &we {
            req!(col(f, e, S, i).iter().zip(&g).all(|(a, b)| a == b), "a face of cell {i} is {:?}", col(f, e, S, i));
        }
    }
    cx.count("supplied_states", 1);
    Ok(true)
}
pub fn c26(rep: &Rep) {
    rep.rule("init: random problems with random boundary conditions; the init function counts its calls and inspects what it is given, afterwards every cell of all three sets of variables, the clock and the output counter are checked. errors: init functions that fail. supplied: the Sod and Noh initialisers for 12 mesh sizes (even and odd), both schemes, both systems and unknown systems. Non-trivial: every case.");
    rep.family("init", rep.n(150_000, 1_500_000), if rep.thorough { 150.0 } else { 8.0 }, |r, cx| {
        let l = if r.chance(0.3) { WILD } else { MED };
        let mut sp = problem(r, l, 5.0);
        let (e, s, ph) = (sp.e(), sp.s, sp.phys);
        sp.t0 = if r.chance(0.5) { 0.0 } else { r.log10(-3.0, 3.0) };
        sp.t_end += sp.t0;
        if r.chance(0.5) {
            sp.bc = (bc_any(r, e), bc_any(r, e));
            let len = sp.xi.1 - sp.xi.0;
            sp.xi = (3.0 * len, 4.0 * len);
        }
        if ph == Phys::Iso {
            for i in 0..s {
                sp.cs[i] *= r.uni(0.7, 1.4);
            }
        }
        if r.chance(0.4) {
            // any units
            let (a, b) = (r.log10(-60.0, 60.0), r.log10(-60.0, 60.0));
            for i in 0..s {
                sp.prim[i] *= a;
                sp.prim[s + i] *= b;
                if ph == Phys::Adi {
                    sp.prim[2 * s + i] *= a * b * b;
                } else {
                    sp.cs[i] *= b;
                }
            }
        }
        cx.desc = sp.describe();
        let mut sim = make(&sp)?;
        let d = INIT.with(|c| c.borrow().clone()).ok_or("the init function was never called")?;
        req!(d.calls == 1, "the init function was called {} times", d.calls);
        req!(d.fresh, "the init function was not given a fresh state");
        let m = sim.mesh();
        req!(bits_eq(&d.mesh_xi, &m.xi_cent), "the init function was given another mesh");
        let x = xs_of(&m);
        let v = sim.vars(Dir::Cent);
        // a direction of flow is needed for outflow conditions
        ghosts_init(&sp, &v.prim, &x)?;
        let fin = v.prim.iter().all(|x| x.is_finite());
        if fin {
            consistent(ph, sp.gamma, &v, &sp.cs, s, 0..s, true)?;
        }
        for q in [Dir::West, Dir::East] {
            let w = sim.vars(q);
            req!(bits_eq(&w.prim, &v.prim) && bits_eq(&w.cons, &v.cons) && bits_eq(&w.cs, &v.cs), "the {q:?} values are not those of the cells");
            req!(w.gamma == sp.gamma, "gamma of {q:?}");
        }
        let t = sim.time();
        req!(t.t == sp.t0 && t.iter == 0 && sim.output_counter() == 0, "the clock starts at t = {:e}, iter = {}, output {}", t.t, t.iter, sim.output_counter());
        req!(sim.full_rhs().iter().all(|x| *x == 0.0), "the right-hand side is not empty");
        // and it is a state from which one can start
        if fin && r.chance(0.2) {
            let _ = sim.step();
        }
        cx.count("states", 1);
        Ok(true)
    });
    rep.family("errors", rep.n(8000, 40_000), 4.0, |r, cx| {
        let sp = problem(r, MED, 5.0);
        let msg = format!("refused because of {:x}", r.u64());
        cx.desc = format!("{msg} {}", sp.head());
        INIT.with(|c| *c.borrow_mut() = Some(InitData { prim: sp.prim.clone(), cs: sp.cs.clone(), fail: Some(msg.clone()), ..Default::default() }));
        match make_cfg(sp.phys, sp.flux, sp.s, &sp.config()) {
            Ok(_) => Err("the failure of the init function was not reported".into()),
            Err(m) => {
                req!(m.trim_end().ends_with(&msg), "the failure {msg:?} was reported as {m:?}");
                let n = INIT.with(|c| c.borrow().as_ref().map_or(0, |d| d.calls));
                req!(n == 1, "the failing init function was called {n} times");
                Ok(true)
            },
        }
    });
    rep.family("supplied", rep.n(6000, 30_000), 5.0, |r, cx| {
        let kt = r.chance(0.5);
        let noh = r.chance(0.5);
        let k = r.below(12);
        let sp = Spec {
            phys: phys(r),
            flux: if kt { Flux::Kt(LimiterMode::MinMod) } else { Flux::Hll },
            gamma: gamma(r),
            xi: (r.uni(1.0, 2.0), r.uni(3.0, 4.0)),
            n_out: if r.chance(0.15) { 7 } else { 1 },
            ..Default::default()
        };
        cx.desc = format!("size {k} noh={noh} kt={kt} unknown={} {:?} g={}", sp.n_out == 7, sp.phys, sp.gamma);
        match k {
            0 => shock_tubes::<6>(&sp, noh, kt, cx),
            1 => shock_tubes::<7>(&sp, noh, kt, cx),
            2 => shock_tubes::<8>(&sp, noh, kt, cx),
            3 => shock_tubes::<9>(&sp, noh, kt, cx),
            4 => shock_tubes::<13>(&sp, noh, kt, cx),
            5 => shock_tubes::<50>(&sp, noh, kt, cx),
            6 => shock_tubes::<51>(&sp, noh, kt, cx),
            7 => shock_tubes::<100>(&sp, noh, kt, cx),
            8 => shock_tubes::<101>(&sp, noh, kt, cx),
            9 => shock_tubes::<202>(&sp, noh, kt, cx),
            10 => shock_tubes::<303>(&sp, noh, kt, cx),
            _ => shock_tubes::<1001>(&sp, noh, kt, cx),
        }
    });
}
fn ghosts_init(sp: &Spec, after: &[f64], x: &[f64]) -> Result<(), String> {
    let s = sp.s;
    for (w, b) in [(true, &sp.bc.0), (false, &sp.bc.1)] {
        if let Bc::Custom(v) = b {
            if v.iter().any(|(j, m)| matches!(m, CustomBoundaryMode::OutflowNoGradients | CustomBoundaryMode::OutFlowExtrapolate) && sp.prim[j * s + if w { 2 } else { s - 3 }] == 0.0) {
                return Ok(());
            }
        }
    }
    ghosts(&sp.bc, &sp.prim, after, sp.e(), s, x).map(|_| ())
}
