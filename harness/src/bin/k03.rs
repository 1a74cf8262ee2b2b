use std::f64::consts::PI;
use geometry::Vector3D;
use vpharness::*;
use weather::{CurrentWeather, Date, PerezSky, ReinhartSky, SkyUnits, Solar};

const TREGENZA: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
/// (row, bin within the row, low altitude, high altitude, bins) of a patch other than ground and cap
fn patch(mf: usize, nbin: usize) -> (usize, usize, f64, f64, usize) {
    let h = PI / 2. / (7. * mf as f64 + 0.5);
    let mut first = 1;
    for row in 0..7 * mf {
        let n = TREGENZA[row / mf] * mf;
        if nbin < first + n {
            return (row, nbin - first, row as f64 * h, (row + 1) as f64 * h, n);
        }
        first += n;
    }
    unreachable!()
}
fn total(mf: usize) -> usize {
    144 * mf * mf + 2
}
/// Which patch has the direction? None: too close to an edge
fn find(mf: usize, d: Vector3D) -> Option<usize> {
    if d.z < 0. {
        return Some(0);
    }
    let h = PI / 2. / (7. * mf as f64 + 0.5);
    let alt = d.z.min(1.).asin();
    let row = (alt / h).floor() as usize;
    if (alt / h - (alt / h).round()).abs() < 1e-6 && alt / h > 0.5 {
        return None;
    }
    if row >= 7 * mf {
        return Some(total(mf) - 1);
    }
    let n = TREGENZA[row / mf] * mf;
    let first = 1 + (0..row).map(|r| TREGENZA[r / mf] * mf).sum::<usize>();
    let x = d.x.atan2(d.y).rem_euclid(2. * PI) / (2. * PI / n as f64) + 0.5;
    if (x - x.round()).abs() < 1e-6 {
        return None;
    }
    Some(first + x.floor() as usize % n)
}

fn main() {
    run("K03", |c| {
        for mf in 1..=c.n(8, 20) as usize {
            c.case("tiling", || format!("mf={}", mf), || {
                let r = ReinhartSky::new(mf);
                ensure(ReinhartSky::n_bins(mf) == total(mf), || format!("{} bins", ReinhartSky::n_bins(mf)))?;
                expect("ground", r.bin_solid_angle(0), 2. * PI, 1e-9, 1e-9)?;
                let mut sum = 0.;
                for i in 1..total(mf) {
                    let a = r.bin_solid_angle(i);
                    let d = r.bin_dir(i);
                    let want = if i + 1 == total(mf) {
                        2. * PI * (1. - (PI / 4. / (7. * mf as f64 + 0.5)).cos())
                    } else {
                        let (_, b, lo, hi, n) = patch(mf, i);
                        let (alt, azi) = ((lo + hi) / 2., 2. * PI * b as f64 / n as f64);
                        expect(&format!("bin {} x", i), d.x, alt.cos() * azi.sin(), 0., 1e-9)?;
                        expect(&format!("bin {} y", i), d.y, alt.cos() * azi.cos(), 0., 1e-9)?;
                        expect(&format!("bin {} z", i), d.z, alt.sin(), 0., 1e-9)?;
                        2. * PI * (hi.sin() - lo.sin()) / n as f64
                    };
                    expect(&format!("solid angle of bin {}", i), a, want, 1e-9, 1e-9)?;
                    let back = r.dir_to_bin(d);
                    ensure(back == i, || format!("the centre of bin {} is found in bin {}", i, back))?;
                    sum += a;
                }
                let d = r.bin_dir(total(mf) - 1);
                ensure((d.z - 1.).abs() < 1e-9, || format!("the cap is at {}", d))?;
                ensure(r.dir_to_bin(r.bin_dir(0)) == 0, || "the ground is not in its bin".into())?;
                expect("solid angle of the sky", sum, 2. * PI, 0., 1e-6)
            });
        }
        for _ in 0..c.n(20000, 400000) {
            let r = &mut c.rng;
            let mf = r.int(1, 6) as usize;
            let z: f64 = match r.int(0, 5) {
                0 => r.range(0.97, 1.),
                1 => r.range(0., 0.1),
                2 => r.range(-1., 0.),
                _ => r.range(0., 1.),
            };
            let a = r.range(-PI, PI);
            let h = (1. - z * z).sqrt();
            let d = Vector3D::new(h * a.sin(), h * a.cos(), z);
            c.case("find", || format!("mf={} dir={}", mf, d), || {
                let s = ReinhartSky::new(mf);
                let got = s.dir_to_bin(d);
                if let Some(want) = find(mf, d) {
                    ensure(got == want, || format!("found in bin {}, it is in {}", got, want))?;
                }
                Ok(())
            });
        }
        // the sky vector
        for _ in 0..c.n(1000, 10000) {
            let r = &mut c.rng;
            let mf = r.int(1, 3) as usize;
            let rad = PI / 180.;
            let s = Solar::new(r.range(-60., 60.) * rad, r.range(-10., 10.) * rad, 0.);
            let mk = |r: &mut Rng| {
                let date = Date { month: r.int(1, 12) as u8, day: r.int(2, 27) as u8, hour: r.range(0., 23.9) };
                CurrentWeather {
                    date,
                    dew_point_temperature: r.range(-20., 25.),
                    direct_normal_radiation: if r.int(0, 3) == 0 { 0. } else { r.range(0., 900.) },
                    diffuse_horizontal_radiation: if r.int(0, 5) == 0 { 0. } else { r.range(1., 500.) },
                    ..Default::default()
                }
            };
            let (w, w2) = (mk(r), mk(r));
            let albedo = r.range(0., 1.);
            let (sky, sun) = (r.int(0, 1) == 0, r.int(0, 1) == 0);
            c.case("sky vector", || format!("mf={} {:?} {:?} then {:?} albedo={:?} sky={} sun={}", mf, s, w2, w, albedo, sky, sun), || {
                let rs = ReinhartSky::new(mf);
                let n = total(mf);
                let v = PerezSky::gen_sky_vec(mf, &s, w.date, w, SkyUnits::Solar, albedo, sky, sun)?;
                let mut v2 = PerezSky::gen_sky_vec(mf, &s, w2.date, w2, SkyUnits::Solar, albedo, true, true)?;
                PerezSky::update_sky_vec(&mut v2, mf, &s, w.date, w, SkyUnits::Solar, albedo, sky, sun)?;
                let zero = PerezSky::gen_sky_vec(mf, &s, w.date, w, SkyUnits::Solar, albedo, sky, false)?;
                ensure(v.size() == (n, 1), || format!("{:?}", v.size()))?;
                let mut direct = 0.;
                for i in 0..n {
                    let x = v.get(i, 0)?;
                    ensure(x.is_finite(), || format!("bin {} is {}", i, x))?;
                    expect(&format!("bin {} of a vector that was used before", i), v2.get(i, 0)?, x, 1e-9, 1e-9)?;
                    direct += (x - zero.get(i, 0)?) * rs.bin_solid_angle(i);
                }
                let pos = s.sun_position_from_standard_time(w.date);
                let up = pos.is_some();
                let want = if sun && up && w.direct_normal_radiation > 1e-4 { w.direct_normal_radiation } else { 0. };
                expect("the sun's share", direct, want, 1e-6, 1e-6)?;
                if let (Some(p), true) = (pos, want > 0.) {
                    // four closest patches, the closer the more
                    let mut near: Vec<(f64, usize)> = (0..n).map(|i| (rs.bin_dir(i) * p, i)).collect();
                    near.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                    if near[3].0 - near[4].0 > 1e-9 {
                        let total: f64 = near[..4].iter().map(|x| 1. / (1.002 - x.0)).sum();
                        for (k, (d, i)) in near.iter().enumerate() {
                            let share = if k < 4 { want / (1.002 - d) / total / rs.bin_solid_angle(*i) } else { 0. };
                            expect(&format!("the sun's radiance in bin {}", i), v.get(*i, 0)? - zero.get(*i, 0)?, share, 1e-6, 1e-6)?;
                        }
                    }
                }
                if let Some(p) = pos {
                    let ground = albedo * (w.diffuse_horizontal_radiation + p.z * w.direct_normal_radiation) / PI;
                    if p.z > 0.2 {
                        expect("the ground's", zero.get(0, 0)?, ground, 1e-6, 1e-6)?;
                    }
                    if sky {
                        // the discretized sky sheds the diffuse radiation on the horizontal (patches are integrated at their centre)
                        let one = PerezSky::gen_sky_vec(1, &s, w.date, w, SkyUnits::Solar, albedo, true, false)?;
                        let r1 = ReinhartSky::new(1);
                        let mut neg = false;
                        let mut sum = 0.;
                        for i in 1..146 {
                            let x = one.get(i, 0)?;
                            neg |= x < 0.;
                            sum += x * r1.bin_solid_angle(i) * r1.bin_dir(i).z;
                        }
                        if !neg && sum > 0. {
                            expect("diffuse radiation on the horizontal", sum, w.diffuse_horizontal_radiation, 1e-6, 1e-6)?;
                        }
                    }
                } else {
                    for i in 0..n {
                        expect(&format!("bin {} at night", i), v.get(i, 0)?, 0., 0., 0.)?;
                    }
                }
                Ok(())
            });
        }
    });
}
