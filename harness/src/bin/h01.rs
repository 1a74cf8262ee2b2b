use heat::cavity::Cavity;
use heat::convection::ConvectionParams;
use heat::gas::{Gas, AIR, ARGON, KRYPTON, XENON};
use polynomial::{poly, Polynomial};
use std::f64::consts::PI;
use vpharness::*;

// ISO 15099, annex B: conductivity, viscosity, heat capacity (constant, linear) and molecular mass
const TABLE: [(&str, [f64; 7]); 4] = [
    ("air", [2.873e-3, 7.760e-5, 3.723e-6, 4.94e-8, 1002.7370, 1.2324e-2, 28.97]),
    ("argon", [2.285e-3, 5.149e-5, 3.379e-6, 6.451e-8, 521.9285, 0., 39.948]),
    ("krypton", [9.443e-4, 2.826e-5, 2.213e-6, 7.777e-8, 248.0907, 0., 83.8]),
    ("xenon", [4.538e-4, 1.723e-5, 1.069e-6, 7.414e-8, 158.3397, 0., 131.30]),
];
fn gas(i: usize) -> Gas {
    [AIR, ARGON, KRYPTON, XENON][i].clone()
}
fn props(i: usize, t: f64) -> (f64, f64, f64, f64) {
    let c = TABLE[i].1;
    (c[0] + c[1] * t, c[2] + c[3] * t, c[4] + c[5] * t, 101325. * c[6] / (8314.46261815324 * t))
}
fn iso43(ra: f64, g: f64) -> f64 {
    let p = |x: f64| if x > 0. { x } else { 0. };
    1. + 1.44 * p(1. - 1708. / (ra * g.cos())) * (1. - 1708. * (1.8 * g).sin().abs().powf(1.6) / (ra * g.cos())) + p((ra * g.cos() / 5830.).cbrt() - 1.)
}
fn iso45(ra: f64, a: f64) -> f64 {
    let g = 0.5 / (1. + (ra / 3160.).powf(20.6)).powf(0.1);
    let n1 = (1. + (0.0936 * ra.powf(0.314) / (1. + g)).powf(7.)).powf(1. / 7.);
    n1.max((0.104 + 0.175 / a) * ra.powf(0.283))
}
fn iso49(ra: f64, a: f64) -> f64 {
    let n1 = if ra <= 1e4 { 1. + 1.7596678e-10 * ra.powf(2.2984755) } else if ra < 5e4 { 0.028154 * ra.powf(0.4134) } else { 0.0673838 * ra.cbrt() };
    n1.max(0.242 * (ra / a).powf(0.272))
}
fn nu(ra: f64, deg: f64, a: f64) -> f64 {
    let g = deg.to_radians();
    if deg < 59.5 {
        iso43(ra, g)
    } else if deg < 60.5 {
        iso45(ra, a)
    } else if deg < 89.5 {
        iso45(ra, a) + (iso49(ra, a) - iso45(ra, a)) * (deg - 60.) / 30.
    } else if deg < 90.5 {
        iso49(ra, a)
    } else {
        1. + (iso49(ra, a) - 1.) * g.sin()
    }
}
fn rayleigh(i: usize, d: f64, tf: f64, tb: f64) -> f64 {
    if (tf - tb).abs() < 1e-10 {
        return 1e-7;
    }
    let t = (tf + tb) / 2. + 273.15;
    let (l, mu, cp, rho) = props(i, t);
    rho * rho * d * d * d * 9.81 * cp * (tf - tb).abs() / (t * mu * l)
}
fn conv(i: usize, h: f64, d: f64, deg: f64, tf: f64, tb: f64) -> f64 {
    let deg = if tf > tb { 180. - deg } else { deg };
    nu(rayleigh(i, d, tf, tb), deg, h / d) * props(i, (tf + tb) / 2. + 273.15).0 / d
}

fn main() {
    run("H01", |c| {
        for _ in 0..c.n(300, 20000) {
            let n = c.rng.int(0, 13);
            let co: Vec<f64> = (0..n).map(|_| c.rng.range(-5., 5.)).collect();
            let x = c.rng.range(-3., 3.);
            let k = co.clone();
            c.case("polynomial", || format!("coefficients {:?} at {}", co, x), || {
                let mut p = Polynomial::new();
                for (i, v) in k.iter().enumerate() {
                    ensure(p.len() == i && p.is_empty() == (i == 0), || format!("length {} after {} pushes", p.len(), i))?;
                    p.push(*v);
                }
                ensure(p.len() == k.len(), || format!("length {}", p.len()))?;
                let mut y = 0.;
                let mut m = 0.;
                for v in k.iter().rev() {
                    y = y * x + v;
                    m = m * x.abs() + v.abs();
                }
                expect("eval", p.eval(x), y, 1e-12, 1e-12 * m)?;
                let q: Polynomial = match k.len() {
                    1 => poly![k[0]],
                    2 => poly![k[0], k[1]],
                    3 => poly![k[0], k[1], k[2]],
                    _ => p,
                };
                expect("eval of poly!", q.eval(x), y, 1e-12, 1e-12 * m)?;
                if k.len() == 12 {
                    ensure(std::panic::catch_unwind(move || { let mut r = p; r.push(1.); }).is_err(), || "a thirteenth coefficient is accepted".into())?;
                }
                Ok(())
            });
        }
        for _ in 0..c.n(400, 30000) {
            let i = c.rng.int(0, 4);
            let t = c.rng.range(200., 400.);
            c.case("gas", || format!("{} at {} K", TABLE[i].0, t), || {
                let g = gas(i);
                let (l, mu, cp, rho) = props(i, t);
                expect("thermal conductivity", g.thermal_conductivity(t), l, 1e-9, 0.)?;
                expect("dynamic viscosity", g.dynamic_viscosity(t), mu, 1e-9, 0.)?;
                expect("heat capacity", g.heat_capacity(t), cp, 1e-9, 0.)?;
                expect("density", g.density(t), rho, 1e-9, 0.)?;
                expect("mass", g.mass(), TABLE[i].1[6], 1e-12, 0.)
            });
        }
        for k in 0..c.n(1500, 100000) {
            let i = c.rng.int(0, 4);
            let d = *c.rng.pick(&[0.006, 0.0127, 0.02, 0.05, 0.1, 0.3]);
            let h = c.rng.range(0.3, 3.);
            let deg = match k % 5 {
                0 => *c.rng.pick(&[0., 30., 60., 75., 90., 135., 180., 59.7, 60.3, 90.2]),
                1 => c.rng.range(0., 59.),
                2 => c.rng.range(61., 89.),
                3 => c.rng.range(91., 179.9),
                _ => c.rng.range(0., 180.),
            };
            let tb = c.rng.range(-20., 60.);
            let tf = match k % 3 { 0 => tb + c.rng.range(0., 60.), 1 => tb - c.rng.range(0., 60.), _ => if c.rng.bool() { tb } else { tb + c.rng.range(-1e-6, 1e-6) } };
            let near = |x: f64, y: f64| (x - y).abs() < 1e-6;
            let e = if tf > tb { 180. - deg } else { deg };
            if near(e, 59.5) || near(e, 60.5) || near(e, 89.5) || near(e, 90.5) {
                continue;
            }
            let (ein, eout) = (c.rng.range(0.02, 1.), c.rng.range(0.02, 1.));
            c.case("cavity", || format!("{} cavity {} m thick, {} m high, tilt {} degrees, front {} C, back {} C, emissivities {} and {}", TABLE[i].0, d, h, deg, tf, tb, eout, ein), || {
                let w = conv(i, h, d, deg, tf, tb);
                let g = gas(i).cavity_convection(h, d, deg.to_radians(), tf, tb);
                expect("cavity convection", g, w, 1e-6, 1e-9)?;
                let tm = (tf + tb) / 2. + 273.15;
                let r = 4. * 5.670374419e-8 * tm * tm * tm / (1. / ein + 1. / eout - 1.);
                let u = Cavity { thickness: d, height: h, gas: gas(i), eout, ein, angle: deg.to_radians() }.u_value(tf, tb);
                expect("U value", u, w + r, 1e-6, 1e-9)
            });
        }
        // the Rayleigh number at which the correlations for vertical cavities meet: the thickness is searched for
        for i in 0..4 {
            for (tf, tb) in [(20., 5.), (5., 20.), (40., 10.), (15.0, -7.0)] {
                for want in [1e4, 5e4] {
                    let (mut lo, mut hi) = (1e-3f64, 1.0f64);
                    for _ in 0..200 {
                        let m = 0.5 * (lo + hi);
                        if rayleigh(i, m, tf, tb) < want { lo = m } else { hi = m }
                    }
                    let mut d = lo;
                    for s in 0..400 {
                        d = if s == 0 { lo - 200. * f64::EPSILON * lo / 2. } else { f64::from_bits(d.to_bits() + 1) };
                        c.case("vertical cavity where correlations meet", || format!("{} cavity {:e} m thick, front {} C, back {} C", TABLE[i].0, d, tf, tb), || {
                            let w = conv(i, 1.0, d, 90., tf, tb);
                            let g = gas(i).cavity_convection(1.0, d, PI / 2., tf, tb);
                            // either correlation is right within rounding of the border
                            expect("cavity convection", g, w, 2e-2, 0.)
                        });
                    }
                }
            }
        }
        for k in 0..c.n(1500, 100000) {
            let p = ConvectionParams {
                air_temperature: c.rng.range(-20., 40.),
                air_speed: if k % 4 == 0 { 0. } else { c.rng.range(0., 15.) },
                rad_temperature: c.rng.range(-20., 40.),
                surface_temperature: c.rng.range(-20., 60.),
                roughness_index: c.rng.int(0, 6),
                cos_surface_tilt: match k % 3 { 0 => 0., 1 => c.rng.range(-1., 1.), _ => *c.rng.pick(&[-1., 1., 0.5, -0.5, 1e-4, -1e-4]) },
            };
            let p = if k % 7 == 0 { ConvectionParams { surface_temperature: p.air_temperature + c.rng.range(-1.5e-3, 1.5e-3), ..p } } else { p };
            let (area, per) = (c.rng.range(0.2, 50.), c.rng.range(1., 40.));
            let wind = c.rng.bool();
            c.case("convection", || format!("{:?}, area {}, perimeter {}, windward {}", p, area, per, wind), || {
                let d = p.air_temperature - p.surface_temperature;
                let t = p.cos_surface_tilt;
                let q = d.abs().cbrt();
                let n = if d.abs() < 1e-3 || t.abs() < 1e-3 { 1.31 * q } else if (d > 0.) == (t > 0.) { 9.482 * q / (7.238 - t.abs()) } else { 1.81 * q / (1.382 + t.abs()) };
                let n = n.max(0.1);
                expect("natural convection", p.get_tarp_natural_convection_coefficient(), n, 1e-9, 1e-12)?;
                let rf = [2.17, 1.67, 1.52, 1.13, 1.11, 1.0][p.roughness_index];
                let f = 2.537 * if wind { 1. } else { 0.5 } * rf * (per * p.air_speed / area).sqrt();
                expect("total convection", p.get_tarp_convection_coefficient(area, per, wind), n + f, 1e-9, 1e-12)
            });
        }
    });
}
