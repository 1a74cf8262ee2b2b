use communication::{MetaOptions, SimulationModel};
use heat::glazing::Glazing;
use heat::heat_model::ThermalModel;
use vpharness::bld::*;
use vpharness::*;

/// tau, reflectance front, back
type G = [f64; 3];
/// reflected, transmitted, absorbed by each layer: what arrives at each face, solved as a linear system
fn net(g: &[G]) -> (f64, f64, Vec<f64>) {
    let n = g.len();
    // unknowns: F_i (at the front of i), B_i (at the back of i)
    let m = 2 * n;
    let mut a = vec![vec![0.; m + 1]; m];
    for i in 0..n {
        a[i][i] = 1.;
        if i == 0 {
            a[i][m] = 1.;
        } else {
            a[i][i - 1] -= g[i - 1][0];
            a[i][n + i - 1] -= g[i - 1][2];
        }
        a[n + i][n + i] = 1.;
        if i + 1 < n {
            a[n + i][n + i + 1] -= g[i + 1][0];
            a[n + i][i + 1] -= g[i + 1][1];
        }
    }
    for c in 0..m {
        let p = (c..m).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        for r in 0..m {
            if r != c {
                let q = a[r][c] / a[c][c];
                for k in c..=m {
                    a[r][k] -= q * a[c][k];
                }
            }
        }
    }
    let x: Vec<f64> = (0..m).map(|i| a[i][m] / a[i][i]).collect();
    let ab = (0..n).map(|i| (1. - g[i][0] - g[i][1]) * x[i] + (1. - g[i][0] - g[i][2]) * x[n + i]).collect();
    (g[0][1] + g[0][0] * x[n], g[n - 1][0] * x[n - 1], ab)
}
fn rl(c: &mut Ctx) -> G {
    match c.rng.int(0, 6) {
        0 => [0., c.rng.f() * 0.99, c.rng.f() * 0.99],
        1 => {
            let t = c.rng.f() * 0.9 + 0.05;
            [t, 0., (1. - t) * c.rng.f()]
        }
        2 => {
            let t = c.rng.f();
            [t, (1. - t) * 0.97, (1. - t) * c.rng.f()]
        }
        _ => {
            let t = c.rng.f();
            [t, (1. - t) * c.rng.f(), (1. - t) * c.rng.f()]
        }
    }
}
fn mk(g: &[G]) -> Vec<Glazing> {
    g.iter().map(|x| Glazing::new(x[0], x[1], x[2])).collect()
}
fn main() {
    run("H02", |c| {
        for _ in 0..c.n(3000, 30000) {
            let n = c.rng.int(1, 7);
            let g: Vec<G> = (0..n).map(|_| rl(c)).collect();
            let s = g.clone();
            c.case("stack", move || format!("layers (tau, front, back) {:?}", g), move || {
                let v = mk(&s);
                let (r, t, ab) = net(&s);
                for (x, y) in v.iter().zip(&s) {
                    expect("tau", x.tau(), y[0], 0., 0.)?;
                    expect("rho_front", x.rho_front(), y[1], 0., 0.)?;
                    expect("rho_back", x.rho_back(), y[2], 0., 0.)?;
                    expect("alpha_front", x.alpha_front(), 1. - y[0] - y[1], 1e-12, 1e-12)?;
                    expect("alpha_back", x.alpha_back(), 1. - y[0] - y[2], 1e-12, 1e-12)?;
                }
                let a = Glazing::alphas(&v);
                ensure(a.len() == s.len(), || format!("{} absorptances for {} layers", a.len(), s.len()))?;
                for i in 0..a.len() {
                    expect(&format!("absorbed by layer {}", i), a[i], ab[i], 1e-8, 1e-9)?;
                    ensure(a[i] > -1e-9, || format!("layer {} absorbs {}", i, a[i]))?;
                }
                let w = Glazing::combine_layers(&v);
                expect("transmitted", w.tau(), t, 1e-8, 1e-9)?;
                expect("reflected", w.rho_front(), r, 1e-8, 1e-9)?;
                let rev: Vec<G> = s.iter().rev().map(|x| [x[0], x[2], x[1]]).collect();
                expect("reflected at the back", w.rho_back(), net(&rev).0, 1e-8, 1e-9)?;
                expect("balance", a.iter().sum::<f64>() + w.tau() + w.rho_front(), 1., 1e-9, 1e-9)?;
                if s.len() == 2 {
                    expect("combined_tau", v[0].combined_tau(&v[1]), t, 1e-8, 1e-9)?;
                    expect("combined_rho_front", v[0].combined_rho_front(&v[1]), r, 1e-8, 1e-9)?;
                    expect("combined_rho_back", v[0].combined_rho_back(&v[1]), net(&rev).0, 1e-8, 1e-9)?;
                    let (x, y) = v[0].combined_alphas(&v[1]);
                    expect("combined_alphas.0", x, ab[0], 1e-8, 1e-9)?;
                    expect("combined_alphas.1", y, ab[1], 1e-8, 1e-9)?;
                }
                Ok(())
            });
        }
        // the layers of a construction
        for _ in 0..c.n(150, 1500) {
            let r = &mut c.rng;
            let mut w = wall(r, 0);
            w.front = Bnd::Out;
            w.back = Bnd::Out;
            let nrm = |r: &mut Rng| {
                let mut s = solid(r);
                if let Lay::Solid { rho, .. } = &mut s {
                    *rho = 1500.;
                }
                s
            };
            w.layers = match r.int(0, 8) {
                0 => layers(r),
                1 => vec![glass(r), cavity(r), nrm(r), nrm(r)],
                2 => vec![nrm(r), cavity(r), glass(r)],
                3 => vec![nrm(r), nrm(r), cavity(r), glass(r), cavity(r), glass(r)],
                4 => vec![Lay::Solid { d: 0.006, k: 1., rho: 2500., cp: 840., tau: 0.9, a: [0.1, 0.1], e: [0.84, 0.84] }],
                5 => {
                    let t = r.int(1, 99) as f64 / 100.;
                    vec![Lay::Solid { d: 0.006, k: 1., rho: 2500., cp: 840., tau: t, a: [1. - t, (100. - t * 100.).round() / 100.], e: [0.84, 0.84] }, cavity(r), glass(r)]
                }
                _ => {
                    let n = r.int(1, 5);
                    let mut v = vec![glass(r)];
                    for _ in 1..n {
                        v.push(cavity(r));
                        v.push(glass(r));
                    }
                    v
                }
            };
            let d = Desc { vols: vec![], walls: vec![w], ..Default::default() };
            let dd = d.clone();
            c.case("construction", move || format!("{:?}", dd.walls[0].layers), move || {
                let w = &d.walls[0];
                let (m, mut h) = build(&d, no_inf);
                let mo = MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. };
                let t = ThermalModel::new(&mo, (), &m, &mut h, 4)?;
                let (fa, ba, ne) = if w.window {
                    let s = &t.fenestrations[0];
                    (s.front_alphas.clone(), s.back_alphas.clone(), s.discretization.n_elements.clone())
                } else {
                    let s = &t.surfaces[0];
                    (s.front_alphas.clone(), s.back_alphas.clone(), s.discretization.n_elements.clone())
                };
                // first node of each layer
                let nl = w.layers.len();
                let mut first = vec![0];
                for i in 0..nl {
                    first.push(first[i] + ne[i].max(1));
                }
                let nn = first[nl] + 1;
                for (side, al) in [("front", &fa), ("back", &ba)] {
                    let order: Vec<usize> = if side == "front" { (0..nl).collect() } else { (0..nl).rev().collect() };
                    let mut g: Vec<G> = vec![];
                    let mut at = vec![];
                    for i in order {
                        if let Lay::Solid { tau, a, .. } = &w.layers[i] {
                            let (x, y) = if side == "front" { (a[0], a[1]) } else { (a[1], a[0]) };
                            g.push([*tau, (1. - tau - x).max(0.), (1. - tau - y).max(0.)]);
                            at.push((i, *tau));
                            if *tau == 0. {
                                break;
                            }
                        }
                    }
                    let (.., ab) = net(&g);
                    let mut exp = vec![0.; nn];
                    for (k, (i, tau)) in at.iter().enumerate() {
                        let (lo, hi) = (first[*i], first[*i + 1]);
                        if *tau > 0. {
                            for q in lo..=hi {
                                exp[q] += ab[k] / (hi - lo + 1) as f64;
                            }
                        } else {
                            exp[if side == "front" { lo } else { hi }] += ab[k];
                        }
                    }
                    ensure(al.size() == (nn, 1), || format!("{} alphas of size {:?}, {} nodes", side, al.size(), nn))?;
                    for q in 0..nn {
                        expect(&format!("light on the {} absorbed at node {}", side, q), al.get(q, 0)?, exp[q], 1e-8, 1e-9)?;
                    }
                }
                Ok(())
            });
        }
    });
}
