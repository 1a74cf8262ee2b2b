//! walls: discretization and marching, against an independent calculation
use communication::{MetaOptions, SimulationModel};
use heat::discretization::{Discretization, UValue};
use heat::heat_model::ThermalModel;
use heat::surface::{rk4, ChunkMemory};
use calendar::Date;
use model::SurfaceTrait;
use vpharness::bld::*;
use vpharness::geo::*;
use vpharness::*;
use weather::SyntheticWeather;
use schedule::ScheduleConstant;

fn slope(k: &[Vec<f64>], x: &[f64], q: &[f64]) -> Vec<f64> {
    k.iter().zip(q).map(|(r, q)| r.iter().zip(x).map(|(a, b)| a * b).sum::<f64>() + q).collect()
}
fn adv(x: &[f64], k: &[f64], h: f64) -> Vec<f64> {
    x.iter().zip(k).map(|(a, b)| a + h * b).collect()
}
fn rk(k: &[Vec<f64>], x: &[f64], q: &[f64]) -> Vec<f64> {
    let a = slope(k, x, q);
    let b = slope(k, &adv(x, &a, 0.5), q);
    let c = slope(k, &adv(x, &b, 0.5), q);
    let d = slope(k, &adv(x, &c, 1.), q);
    (0..x.len()).map(|i| x[i] + (a[i] + 2. * b[i] + 2. * c[i] + d[i]) / 6.).collect()
}
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().partial_cmp(&a[*y][i].abs()).unwrap()).unwrap();
        a.swap(i, p);
        b.swap(i, p);
        for r in 0..n {
            if r != i {
                let f = a[r][i] / a[i][i];
                for c in 0..n {
                    a[r][c] -= f * a[i][c];
                }
                b[r] -= f * b[i];
            }
        }
    }
    (0..n).map(|i| b[i] / a[i][i]).collect()
}
fn runs(mass: &[f64], m: bool) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    for (i, x) in mass.iter().enumerate() {
        if (*x >= 1e-5) == m {
            match v.last_mut() {
                Some(l) if l.1 == i => l.1 = i + 1,
                _ => v.push((i, i + 1)),
            }
        }
    }
    v
}
#[derive(Clone, Debug)]
struct March {
    d: Desc,
    t0: Vec<f64>,
    h: [f64; 2],
    ta: [f64; 2],
    sun: [f64; 2],
    dt: f64,
}

fn main() {
    run("H04", |c| {
        // one step of the integration
        for _ in 0..c.n(3000, 30000) {
            let r = &mut c.rng;
            let n = r.int(1, 9);
            let k: Vec<Vec<f64>> = (0..n).map(|i: usize| (0..n).map(|j: usize| if i.abs_diff(j) <= 1 { r.range(-1.5, 1.5) } else { 0. }).collect()).collect();
            let x: Vec<f64> = (0..n).map(|_| r.range(-20., 40.)).collect();
            let q: Vec<f64> = (0..n).map(|_| r.range(-10., 10.)).collect();
            let (k2, x2, q2) = (k.clone(), x.clone(), q.clone());
            c.case("rk4", move || format!("K {:?}, T {:?}, q {:?}", k2, x2, q2), move || {
                let mut m = ChunkMemory::with_capacity(n);
                for i in 0..n {
                    for j in 0..n {
                        if i.abs_diff(j) <= 1 {
                            m.k.set(i, j, k[i][j])?;
                        }
                    }
                }
                m.temps.copy_from_slice(&x);
                m.q.copy_from_slice(&q);
                m.aux.fill(7.);
                m.k3.fill(-3.);
                rk4(&mut m)?;
                for (i, e) in rk(&k, &x, &q).iter().enumerate() {
                    expect(&format!("temperature {}", i), m.temps[i], *e, 1e-9, 1e-9)?;
                }
                Ok(())
            });
        }
        // the layers of a wall
        for _ in 0..c.n(2000, 20000) {
            let r = &mut c.rng;
            let mut w = wall(r, 0);
            w.front = Bnd::Out;
            w.back = Bnd::Out;
            w.layers = match r.int(0, 4) {
                0 => layers(r),
                1 => vec![solid(r), cavity(r), solid(r), cavity(r), solid(r)],
                2 => vec![glass(r), cavity(r), solid(r), solid(r)],
                _ => (0..r.int(1, 6)).map(|_| solid(r)).collect(),
            };
            let (mdt, mdx, min_dt) = (r.range(60., 3600.), r.range(0.005, 0.1), r.range(20., 300.));
            let (height, angle) = (r.range(0.3, 3.), r.range(0., 3.1));
            let d = Desc { vols: vec![], walls: vec![w], ..Default::default() };
            let dd = d.clone();
            c.case("layers", move || format!("{:?} dt {} max_dx {} min_dt {} height {} angle {}", dd.walls[0].layers, mdt, mdx, min_dt, height, angle), move || {
                let (m, _h) = build(&d, no_inf);
                let co = m.get_construction("constr 0")?;
                let s = Discretization::new(&co, &m, mdt, mdx, min_dt, height, angle)?;
                let la = &d.walls[0].layers;
                ensure(s.n_elements.len() == la.len(), || format!("{} layers, {} n_elements", la.len(), s.n_elements.len()))?;
                let n = s.tstep_subdivision;
                let mut g = 0;
                let mut mass = vec![0.; s.segments.len()];
                for (i, l) in la.iter().enumerate() {
                    let e = s.n_elements[i];
                    let parts = e.max(1);
                    ensure(g + parts < s.segments.len(), || "too few segments".into())?;
                    match l {
                        Lay::Solid { d, k, rho, cp, .. } => {
                            if e > 0 {
                                let dx = d / e as f64;
                                ensure(n > 0, || "no subdivisions".into())?;
                                let dt = mdt / n as f64;
                                ensure(dx <= mdx * (1. + 1e-9), || format!("layer {}: dx {} > {}", i, dx, mdx))?;
                                ensure(dt >= min_dt * (1. - 1e-9), || format!("dt {} < {}", dt, min_dt))?;
                                let x = dt / (rho * cp * 0.05 * dx) + 2. * dt * k / (rho * cp * dx * dx);
                                ensure(x <= 0.5 + 1e-9, || format!("layer {}: eigenvalue -{}", i, x))?;
                            }
                            for j in 0..parts {
                                match &s.segments[g + j].1 {
                                    UValue::Solid(u) => expect(&format!("U of layer {}", i), *u, k * parts as f64 / d, 1e-9, 0.)?,
                                    _ => return Err(format!("layer {} is not solid", i)),
                                }
                                if e > 0 {
                                    mass[g + j] += rho * cp * d / parts as f64 / 2.;
                                    mass[g + j + 1] += rho * cp * d / parts as f64 / 2.;
                                }
                            }
                        }
                        Lay::Cavity { d, gas } => {
                            ensure(e == 0, || format!("cavity with {} elements", e))?;
                            let em = |l: &Lay, side: usize| match l {
                                Lay::Solid { e, .. } => e[side],
                                _ => 0.,
                            };
                            match &s.segments[g].1 {
                                UValue::Cavity(cv) => {
                                    expect("cavity thickness", cv.thickness, *d, 1e-12, 0.)?;
                                    expect("cavity height", cv.height, height, 1e-12, 0.)?;
                                    expect("cavity angle", cv.angle, angle, 1e-12, 1e-12)?;
                                    expect("cavity emissivity towards the previous layer", cv.eout, em(&la[i - 1], 1), 1e-12, 0.)?;
                                    expect("cavity emissivity towards the next layer", cv.ein, em(&la[i + 1], 0), 1e-12, 0.)?;
                                    let gs = [heat::gas::AIR, heat::gas::ARGON, heat::gas::KRYPTON, heat::gas::XENON];
                                    let want = &gs[*gas];
                                    expect("gas mass", cv.gas.thermal_conductivity(290.), want.thermal_conductivity(290.), 1e-12, 0.)?;
                                }
                                _ => return Err(format!("layer {} is not a cavity", i)),
                            }
                        }
                    }
                    g += parts;
                }
                ensure(g + 1 == s.segments.len(), || format!("{} segments, {} expected", s.segments.len(), g + 1))?;
                for (i, x) in mass.iter().enumerate() {
                    expect(&format!("mass of node {}", i), s.segments[i].0, *x, 1e-9, 1e-9)?;
                }
                let (a, b) = s.get_chunks();
                ensure(a == runs(&mass, true), || format!("massive chunks {:?}, masses {:?}", a, mass))?;
                ensure(b == runs(&mass, false), || format!("no-mass chunks {:?}, masses {:?}", b, mass))?;
                Ok(())
            });
        }
        // a wall between two temperatures
        for it in 0..c.n(3000, 30000) {
            let r = &mut c.rng;
            let mut w = wall(r, 0);
            let ta = [r.range(-10., 40.), r.range(-10., 40.)];
            w.front = Bnd::Amb(ta[0]);
            w.back = Bnd::Amb(ta[1]);
            w.layers = (0..r.int(1, 5)).map(|_| solid(r)).collect();
            if it % 4 == 0 {
                w.layers = vec![solid(r), cavity(r), solid(r)];
            }
            let d = Desc { vols: vec![], walls: vec![w], ..Default::default() };
            let sun = |r: &mut Rng| match r.int(0, 6) {
                0 => 0.,
                1 => -r.range(1., 200.),
                2 => f64::NAN,
                _ => r.range(0., 900.),
            };
            let k = March { t0: (0..200).map(|_| r.range(5., 35.)).collect(), h: [r.range(8., 30.), r.range(8., 30.)], ta, sun: [sun(r), sun(r)], dt: r.range(5., 60.), d };
            let kk = k.clone();
            c.case("march", move || format!("{:?}", March { t0: kk.t0[..20].to_vec(), ..kk.clone() }), move || {
                let w = &k.d.walls[0];
                let (m, mut h) = build(&k.d, no_inf);
                let mo = MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. };
                let mut t = ThermalModel::new(&mo, (), &m, &mut h, 4)?;
                t.dt = k.dt.min(t.dt);
                t.dt_subdivisions = 1;
                let dt = t.dt;
                let mut st = h.take_values().unwrap();
                let (i0, i1);
                if w.window {
                    t.fenestrations[0].front_hs = Some(k.h[0]);
                    t.fenestrations[0].back_hs = Some(k.h[1]);
                    let s = &m.fenestrations[0];
                    s.set_front_incident_solar_irradiance(&mut st, k.sun[0])?;
                    s.set_back_incident_solar_irradiance(&mut st, k.sun[1])?;
                    (i0, i1) = (s.first_node_temperature_index().unwrap(), s.last_node_temperature_index().unwrap());
                } else {
                    t.surfaces[0].front_hs = Some(k.h[0]);
                    t.surfaces[0].back_hs = Some(k.h[1]);
                    let s = &m.surfaces[0];
                    s.set_front_incident_solar_irradiance(&mut st, k.sun[0])?;
                    s.set_back_incident_solar_irradiance(&mut st, k.sun[1])?;
                    (i0, i1) = (s.first_node_temperature_index().unwrap(), s.last_node_temperature_index().unwrap());
                }
                let n = i1 - i0 + 1;
                let old: Vec<f64> = k.t0.iter().take(n).cloned().collect();
                for i in 0..n {
                    st[i0 + i] = old[i];
                }
                let (seg, fa, ba) = if w.window {
                    let s = &t.fenestrations[0];
                    (s.discretization.segments.clone(), s.front_alphas.clone(), s.back_alphas.clone())
                } else {
                    let s = &t.surfaces[0];
                    (s.discretization.segments.clone(), s.front_alphas.clone(), s.back_alphas.clone())
                };
                ensure(seg.len() == n, || format!("{} nodes, {} temperatures", seg.len(), n))?;
                let mass: Vec<f64> = seg.iter().map(|x| x.0).collect();
                let cav = seg.iter().any(|x| matches!(x.1, UValue::Cavity(_)));
                let mut mem = t.allocate_memory(&st)?;
                let we = SyntheticWeather { dry_bulb_temperature: Box::new(ScheduleConstant::new(10.)), wind_speed: Box::new(ScheduleConstant::new(2.)), wind_direction: Box::new(ScheduleConstant::new(0.)), ..Default::default() };
                t.march(Date { month: 4, day: 3, hour: 10. }, &we, &m, &mut st, &mut mem)?;
                let new: Vec<f64> = (0..n).map(|i| st[i0 + i]).collect();
                let em = |i: usize, s: usize| match &w.layers[i] {
                    Lay::Solid { e, .. } => e[s],
                    _ => 0.,
                };
                let pos = |x: f64| if x > 0. { x } else { 0. };
                let sun: Vec<f64> = (0..n).map(|i| fa.get(i, 0).unwrap() * pos(k.sun[0]) + ba.get(i, 0).unwrap() * pos(k.sun[1])).collect();
                let rad = [(em(0, 0), k.ta[0], old[0]), (em(w.layers.len() - 1, 1), k.ta[1], old[n - 1])].map(|(e, a, b)| 4. * e * 5.670374419e-8 * (273.15 + (a + b) / 2.).powi(3));
                let u = |g: usize, t: &[f64]| seg[g].1.u_value(t[g], t[g + 1]);
                // rates of change of the nodes of a chunk: K x + q, with the neighbours and the radiating ends as in `t`
                let net = |a: usize, b: usize, t: &[f64], implicit: bool| -> (Vec<Vec<f64>>, Vec<f64>) {
                    let l = b - a;
                    let mut kk = vec![vec![0.; l]; l];
                    let mut q: Vec<f64> = (a..b).map(|i| sun[i]).collect();
                    for g in 0..n - 1 {
                        let x = u(g, t);
                        for (me, other) in [(g, g + 1), (g + 1, g)] {
                            if me >= a && me < b {
                                kk[me - a][me - a] -= x;
                                if other >= a && other < b {
                                    kk[me - a][other - a] += x;
                                } else {
                                    q[me - a] += x * t[other];
                                }
                            }
                        }
                    }
                    for (i, s) in [(0, 0), (n - 1, 1)] {
                        if i >= a && i < b {
                            kk[i - a][i - a] -= k.h[s];
                            q[i - a] += k.h[s] * k.ta[s] + rad[s] * k.ta[s];
                            if implicit {
                                kk[i - a][i - a] -= rad[s];
                            } else {
                                q[i - a] -= rad[s] * t[i];
                            }
                        }
                    }
                    (kk, q)
                };
                // nodes without mass: in equilibrium with their neighbours
                let mut cur = old.clone();
                for (a, b) in runs(&mass, false) {
                    if !cav {
                        let (kk, q) = net(a, b, &cur, true);
                        let e = solve(kk, q.iter().map(|x| -x).collect());
                        for i in a..b {
                            expect(&format!("no-mass node {}", i), new[i], e[i - a], 0., 0.05 * (b - a) as f64)?;
                        }
                    }
                    for i in a..b {
                        cur[i] = new[i];
                    }
                }
                // the others: one step from where they were
                let after = cur.clone();
                for (a, b) in runs(&mass, true) {
                    let mut at = after.clone();
                    // chunks before this one have moved
                    for i in 0..a {
                        at[i] = new[i];
                    }
                    let (mut kk, mut q) = net(a, b, &at, false);
                    for i in a..b {
                        for j in 0..b - a {
                            kk[i - a][j] *= dt / mass[i];
                        }
                        q[i - a] *= dt / mass[i];
                    }
                    let e = rk(&kk, &old[a..b], &q);
                    for i in a..b {
                        expect(&format!("massive node {}", i), new[i], e[i - a], 1e-8, 1e-7)?;
                    }
                }
                Ok(())
            });
        }
    });
}
