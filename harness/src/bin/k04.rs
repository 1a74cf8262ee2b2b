//! Perez, Ineichen, Seals, Michalsky and Stewart (1990), Perez, Seals and Michalsky (1993)
use geometry::Vector3D;
use std::f64::consts::PI;
use vpharness::*;
use weather::{Date, PerezSky, ReinhartSky, SkyUnits, Solar};

const DIR: [[f64; 4]; 8] = [
    [57.20, -4.55, -2.98, 117.12],
    [98.99, -3.46, -1.21, 12.38],
    [109.83, -4.90, -1.71, -8.81],
    [110.34, -5.84, -1.99, -4.56],
    [106.36, -3.97, -1.75, -6.16],
    [107.19, -1.25, -1.51, -26.73],
    [105.75, 0.77, -1.26, -34.44],
    [101.18, 1.58, -1.10, -8.29],
];
const DIF: [[f64; 4]; 8] = [
    [97.24, -0.46, 12.00, -8.91],
    [107.22, 1.15, 0.59, -3.95],
    [104.97, 2.96, -5.53, -8.77],
    [102.39, 5.59, -13.95, -13.90],
    [100.71, 5.94, -22.75, -23.74],
    [106.42, 3.83, -36.15, -28.83],
    [141.88, 1.90, -53.24, -14.03],
    [152.23, 0.35, -45.27, -7.98],
];
const PAR: [[f64; 20]; 8] = [
    [1.3525, -0.2576, -0.2690, -1.4366, -0.7670, 0.0007, 1.2734, -0.1233, 2.8000, 0.6004, 1.2375, 1.0000, 1.8734, 0.6297, 0.9738, 0.2809, 0.0356, -0.1246, -0.5718, 0.9938],
    [-1.2219, -0.7730, 1.4148, 1.1016, -0.2054, 0.0367, -3.9128, 0.9156, 6.9750, 0.1774, 6.4477, -0.1239, -1.5798, -0.5081, -1.7812, 0.1080, 0.2624, 0.0672, -0.2190, -0.4285],
    [-1.1000, -0.2515, 0.8952, 0.0156, 0.2782, -0.1812, -4.5000, 1.1766, 24.7219, -13.0812, -37.7000, 34.8438, -5.0000, 1.5218, 3.9229, -2.6204, -0.0156, 0.1597, 0.4199, -0.5562],
    [-0.5484, -0.6654, -0.2672, 0.7117, 0.7234, -0.6219, -5.6812, 2.6297, 33.3389, -18.3000, -62.2500, 52.0781, -3.5000, 0.0016, 1.1477, 0.1062, 0.4659, -0.3296, -0.0876, -0.0329],
    [-0.6000, -0.3566, -2.5000, 2.3250, 0.2937, 0.0496, -5.6812, 1.8415, 21.0000, -4.7656, -21.5906, 7.2492, -3.5000, -0.1554, 1.4062, 0.3988, 0.0032, 0.0766, -0.0656, -0.1294],
    [-1.0156, -0.3670, 1.0078, 1.4051, 0.2875, -0.5328, -3.8500, 3.3750, 14.0000, -0.9999, -7.1406, 7.5469, -3.4000, -0.1078, -1.0750, 1.5702, -0.0672, 0.4016, 0.3017, -0.4844],
    [-1.0000, 0.0211, 0.5025, -0.5119, -0.3000, 0.1922, 0.7023, -1.6317, 19.0000, -5.0000, 1.2438, -1.9094, -4.0000, 0.0250, 0.3844, 0.2656, 1.0468, -0.3788, -2.4517, 1.4656],
    [-1.0500, 0.0289, 0.4260, 0.3590, -0.3250, 0.1156, 0.7781, 0.0025, 31.0625, -14.5000, -46.1148, 55.3750, -7.2312, 0.4050, 13.3500, 0.6234, 1.5000, -0.6426, 1.8564, 0.5636],
];

const EDGES: [f64; 7] = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2];
fn cat(e: f64) -> usize {
    EDGES.iter().filter(|x| e >= **x).count()
}
fn near(e: f64) -> bool {
    EDGES.iter().any(|x| (x - e).abs() < 1e-9)
}
fn params(z: f64, eps: f64, d: f64) -> [f64; 5] {
    let t = PAR[cat(eps)];
    let d = if eps > 1.065 && eps < 2.8 { d.max(0.2) } else { d };
    let mut p = [0.; 5];
    for k in 0..5 {
        p[k] = t[4 * k] + t[4 * k + 1] * z + d * (t[4 * k + 2] + t[4 * k + 3] * z);
    }
    if cat(eps) == 0 {
        p[2] = ((d * (t[8] + t[9] * z)).powf(t[10])).exp() - t[11];
        p[3] = -(d * (t[12] + t[13] * z)).exp() + t[14] + d * t[15];
    }
    p
}
fn kasten(zen: f64) -> f64 {
    1. / (zen.cos() + 0.15 * (93.885 - zen * 180. / PI).powf(-1.253))
}

fn main() {
    run("K04", |c| {
        for _ in 0..c.n(30000, 600000) {
            let r = &mut c.rng;
            let eps = match r.int(0, 3) {
                0 => r.range(0.9, 1.3),
                1 => r.range(1., 3.),
                _ => r.range(1., 13.),
            };
            let (z, d, w, i) = (r.range(0., PI / 2.), r.range(0.01, 0.8), r.range(0.1, 7.), r.int(0, 7) as usize);
            let (dif, dir, m, e, t) = (r.range(0.1, 600.), r.range(0., 1000.), r.range(1., 38.), r.range(1300., 1420.), r.range(-30., 30.));
            c.case("parts", || format!("clearness={:?} zenith={:?} brightness={:?} water={:?} index={} diffuse={:?} direct={:?} mass={:?} extra={:?} dew={:?}", eps, z, d, w, i, dif, dir, m, e, t), || {
                let k = 1.041 * z * z * z;
                expect("clearness", PerezSky::sky_clearness(dif, dir, z), ((dif + dir) / dif + k) / (1. + k), 1e-9, 1e-9)?;
                expect("brightness", PerezSky::sky_brightness(dif, m, e), (dif * m / e).max(0.01), 1e-9, 1e-9)?;
                expect("water", PerezSky::precipitable_water_content(t), (0.07 * t - 0.075).exp(), 1e-9, 1e-9)?;
                for (n, x) in EDGES.iter().enumerate() {
                    ensure(PerezSky::clearness_category(*x) == n + 1, || format!("{} is in category {}", x, PerezSky::clearness_category(*x)))?;
                }
                ensure(PerezSky::clearness_category(eps) == cat(eps), || format!("{} is in category {}", eps, PerezSky::clearness_category(eps)))?;
                let q = DIR[i];
                expect("direct efficacy", PerezSky::direct_illuminance_ratio(w, z, d, i), (q[0] + q[1] * w + q[2] * (5.73 * z - 5.).exp() + q[3] * d).clamp(0., 9e9), 1e-9, 1e-7)?;
                let q = DIF[i];
                expect("diffuse efficacy", PerezSky::diffuse_illuminance_ratio(w, z.cos(), d, i), q[0] + q[1] * w + q[2] * z.cos() + q[3] * d.ln(), 1e-9, 1e-9)?;
                let (got, want) = (PerezSky::calc_params(z, eps, d), params(z, eps, d));
                for k in 0..5 {
                    expect(&format!("parameter {}", k), got[k], want[k], 1e-9, 1e-9)?;
                }
                Ok(())
            });
        }
        // the luminance of the sky: relative all-weather luminance, scaled to the diffuse radiation
        for _ in 0..c.n(2000, 40000) {
            let r = &mut c.rng;
            let rad = PI / 180.;
            let s = Solar::new(r.range(-60., 60.) * rad, r.range(-10., 10.) * rad, 0.);
            let date = Date { month: r.int(1, 12) as u8, day: r.int(2, 27) as u8, hour: r.range(7., 17.) };
            let (dif, dir, dew) = (r.range(1., 500.), if r.int(0, 3) == 0 { 0. } else { r.range(0., 900.) }, r.range(-20., 25.));
            let (a, h) = (r.range(0., 2. * PI), r.range(0., 1.));
            let visible = r.int(0, 1) == 0;
            // one case in eight looks straight at the sun, where the cosine of the angle to it may exceed one by rounding
            let look = match s.sun_position_from_standard_time(date) {
                Some(p) if r.int(0, 7) == 0 => p,
                _ => Vector3D::new((1. - h * h).sqrt() * a.sin(), (1. - h * h).sqrt() * a.cos(), h),
            };
            c.case("luminance", || format!("{:?} {:?} diffuse={:?} direct={:?} dew={:?} visible={} dir={}", s, date, dif, dir, dew, visible, look), || {
                let sun = match s.sun_position_from_standard_time(date) {
                    Some(p) => p,
                    None => return Ok(()),
                };
                let zen = sun.z.clamp(0., (3. * rad).cos()).acos();
                let n = s.unwrap_solar_time(weather::Time::Standard(date.day_of_year()));
                let delta = (dif * kasten(zen) / s.normal_extraterrestrial_radiation(n)).max(0.01);
                let k = 1.041 * zen * zen * zen;
                let eps = (((dif + dir) / dif + k) / (1. + k)).clamp(-9e9, 11.9);
                if near(eps) {
                    return Ok(());
                }
                let p = params(zen, eps, delta);
                let raw = |v: Vector3D| {
                    let cg = (sun * v).clamp(-1., 1.);
                    let x = (1. + p[0] * (p[1] / v.z.max(0.01)).exp()) * (1. + p[2] * (p[3] * cg.acos()).exp() + p[4] * cg * cg);
                    x
                };
                let f = |v: Vector3D| { let x = raw(v); if x.is_nan() { 0. } else { x } };
                // the exponential overflows only on skies that do not exist (strong diffuse radiation, sun on the horizon): machine
                // arithmetic, outside of what the property says
                if raw(look).is_infinite() {
                    return Ok(());
                }
                let rs = ReinhartSky::new(1);
                let total: f64 = (1..146).map(|i| f(rs.bin_dir(i)).max(0.) * rs.bin_solid_angle(i) * rs.bin_dir(i).z).sum();
                let q = DIF[cat(eps)];
                let eff = if visible { (q[0] + q[1] * (0.07 * dew - 0.075).exp() + q[2] * sun.z + q[3] * delta.ln()) / 179. } else { 1. };
                let want = if total > 1e-4 { f(look) * dif * eff / total } else { 0. };
                let units = if visible { SkyUnits::Visible } else { SkyUnits::Solar };
                let got = PerezSky::get_sky_func_standard_time(units, &s, date, dew, dif, dir)(look);
                expect("luminance", got, want, 1e-6, 1e-6)
            });
        }
    });
}
