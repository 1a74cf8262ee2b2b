use std::f64::consts::PI;
use geometry::Vector3D;
use vpharness::*;
use weather::{CurrentWeather, Date, Location, Solar, Time, Weather};

fn b(n: f64) -> f64 {
    (n - 1.) * 2. * PI / 365.
}
fn eot(n: f64) -> f64 {
    let b = b(n);
    229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin())
}
fn extra(n: f64) -> f64 {
    let x = b(n);
    1367.7 * (1.00011 + 0.034221 * x.cos() + 0.00128 * x.sin() + 0.000719 * (2. * x).cos() + 0.000077 * (2. * x).sin())
}
fn ahead(lon: f64, mer: f64, n: f64) -> f64 {
    (4. * (mer - lon) * 180. / PI + eot(n)) / 1440.
}
fn zhang_huang(z: f64, w: &CurrentWeather, t3: f64) -> f64 {
    let cc = w.opaque_sky_cover;
    (1367.7 * z * (0.749833333 + 0.043947778 * cc - 0.28806125 * cc * cc + 0.016512222 * (w.dry_bulb_temperature - t3)
        - 0.0029925 * w.relative_humidity * 100. + 0.003777778 * w.wind_speed) - 5.949946667)
        .max(0.)
}
fn kasten(zen: f64) -> f64 {
    1. / (zen.cos() + 0.15 * (93.885 - zen * 180. / PI).powf(-1.253))
}
fn low(z: f64) -> bool {
    z.acos() > 80. * PI / 180.
}
fn disc(kt: f64, m: f64, e: f64) -> f64 {
    let p = |c: [f64; 4]| c[0] + kt * (c[1] + kt * (c[2] + kt * c[3]));
    let (a, b, c) = if kt > 0.6 {
        (p([-5.743, 21.77, -27.49, 11.56]), p([41.4, -118.5, 66.05, 31.9]), p([-47.01, 184.2, -222., 73.81]))
    } else {
        (p([0.512, -1.56, 2.286, -2.222]), p([0.37, 0.962, 0., 0.]), p([-0.28, 0.932, -2.048, 0.]))
    };
    let knc = 0.886 - 0.122 * m + 0.0121 * m * m - 0.000653 * m * m * m + 0.000014 * m * m * m * m;
    (e * (knc - (a + b * (c * m).exp()))).max(0.)
}
fn ktp(kt: f64, m: f64) -> f64 {
    kt / (1.031 * (-1.4 / (0.9 + 9.4 / m)).exp() + 0.1)
}
fn bin(x: f64, edges: &[f64]) -> usize {
    edges.iter().filter(|e| x > **e).count()
}
fn near(x: f64, edges: &[f64]) -> bool {
    edges.iter().any(|e| (x - e).abs() < 1e-9)
}
const KE: [f64; 5] = [0.24, 0.4, 0.56, 0.7, 0.8];
const DE: [f64; 5] = [0.015, 0.035, 0.07, 0.15, 0.3];
const ZE: [f64; 5] = [25., 40., 55., 70., 80.];
const WE: [f64; 3] = [1., 2., 3.];
/// None when the point is on the edge of a bin
fn perez(s: (f64, f64), z: f64, w: &CurrentWeather, next: Option<&CurrentWeather>, prev: Option<&CurrentWeather>) -> Option<f64> {
    let t = |w: &CurrentWeather| {
        let n = w.date.day_of_year();
        n + ahead(s.0, s.1, n)
    };
    let g = w.global_horizontal_radiation / z;
    if (z.acos() - 80. * PI / 180.).abs() < 1e-7 {
        return None;
    }
    if g <= 0. || low(z) {
        return Some(0.);
    }
    let m = kasten(z.acos()) * w.pressure / 101300.;
    let kt = |w: &CurrentWeather| w.global_horizontal_radiation / z / extra(t(w));
    let k = ktp(kt(w).clamp(0., 1.), m).clamp(0., 1.);
    let kn = next.map_or(k, |x| ktp(kt(x), m));
    let kp = prev.map_or(k, |x| ktp(kt(x), m));
    let dk = (0.5 * ((k - kn).abs() + (k - kp).abs())).clamp(0., 1.);
    let zen = z.acos() * 180. / PI;
    let water = (0.07 * w.dew_point_temperature - 0.075).exp();
    if near(k, &KE) || near(dk, &DE) || near(zen, &ZE) || near(water, &WE) || near(kt(w), &[0.6]) {
        return None;
    }
    let c = vpharness::perez_table::C[bin(k, &KE)][bin(zen, &ZE)][bin(dk, &DE) * 5 + bin(water, &WE)];
    Some(c * disc(kt(w).min(1.), m, extra(t(w))))
}
fn sky(r: &mut Rng, hour: f64, month: u8, day: u8) -> CurrentWeather {
    CurrentWeather {
        date: Date { month, day, hour },
        dry_bulb_temperature: r.range(-20., 40.),
        dew_point_temperature: r.range(-25., 28.),
        global_horizontal_radiation: if r.int(0, 6) == 0 { 0. } else { r.range(0., 1100.) },
        direct_normal_radiation: r.range(0., 900.),
        diffuse_horizontal_radiation: r.range(0., 500.),
        wind_speed: r.range(0., 20.),
        opaque_sky_cover: match r.int(0, 4) {
            0 => 0.,
            1 => 1.,
            _ => r.range(0., 1.),
        },
        relative_humidity: match r.int(0, 4) {
            0 => 1.,
            _ => r.range(0., 1.),
        },
        pressure: r.range(60000., 105000.),
        ..Default::default()
    }
}

fn main() {
    run("K02", |c| {
        for _ in 0..c.n(20000, 400000) {
            let r = &mut c.rng;
            let rad = PI / 180.;
            let (lat, lon) = (r.range(-65., 65.) * rad, r.range(-180., 180.) * rad);
            let mer = lon + r.range(-20., 20.) * rad;
            let s = Solar::new(lat, lon, mer);
            let z: f64 = match r.int(0, 4) {
                0 => r.range(0.001, 0.2),
                1 => r.range(0.9, 0.99999),
                _ => r.range(0.001, 1.),
            };
            let a = r.range(0., 2. * PI);
            let h = (1. - z * z).sqrt();
            let dir = Vector3D::new(h * a.cos(), h * a.sin(), z);
            let (mo, da, ho) = (r.int(1, 12) as u8, r.int(2, 27) as u8, r.range(1., 22.));
            let w = sky(r, ho, mo, da);
            let next = if r.int(0, 3) > 0 { Some(sky(r, ho + 1., mo, da)) } else { None };
            let prev = if r.int(0, 3) > 0 { Some(sky(r, ho - 1., mo, da)) } else { None };
            let t3 = sky(r, ho, mo, da);
            let n = w.date.day_of_year();
            let g = if r.int(0, 5) == 0 { 0. } else { r.range(0., 1500.) };
            let elev = r.range(0., 2500.);
            let inputs = format!("lat={:?} lon={:?} mer={:?} dir={} w={:?} next={:?} prev={:?} 3h={:?} g={:?} elevation={:?}", lat, lon, mer, dir, w, next, prev, t3.dry_bulb_temperature, g, elev);
            let sl = (lon, mer);
            c.case("models", || inputs.clone(), || {
                let zen = z.acos();
                expect("air mass", weather::solar::air_mass(zen), kasten(zen), 0., 1e-7)?;
                expect("global radiation", s.estimate_global_horizontal_radiation(dir, w.opaque_sky_cover, w.dry_bulb_temperature, t3.dry_bulb_temperature, w.wind_speed, w.relative_humidity), zhang_huang(z, &w, t3.dry_bulb_temperature), 1e-7, 1e-9)?;
                for t in [Time::Solar(n), Time::Standard(n)] {
                    let st = if let Time::Solar(_) = t { n } else { n + ahead(lon, mer, n) };
                    let e = extra(st);
                    expect("clearness", s.hourly_clearness_index(t, g), g / e, 1e-12, 1e-9)?;
                    let m = kasten(zen) * w.pressure / 101300.;
                    if (zen - 80. * rad).abs() > 1e-7 && (g / e - 0.6).abs() > 1e-9 {
                        let want = if g <= 0. || low(z) { 0. } else { disc((g / e).min(1.), m, e) };
                        expect("direct radiation (DISC)", s.disc_direct_solar(t, dir, g, w.pressure), want, 1e-4, 1e-6)?;
                    }
                    let hk = elev / 1000.;
                    let tb = 0.4237 - 0.00821 * (6. - hk) * (6. - hk) + (0.5055 + 0.00595 * (6.5 - hk) * (6.5 - hk)) * (-(0.2711 + 0.01858 * (2.5 - hk) * (2.5 - hk)) / z).exp();
                    expect("transmittance", s.beam_atmosphere_transmittance(dir, elev), tb, 1e-9, 1e-9)?;
                    expect("clear sky", s.clear_sky_global_horizontal_rad(t, dir, elev), e * (tb + 0.271 - 0.294 * tb) * z, 1e-6, 1e-9)?;
                }
                let k = g / 1400.;
                if !near(k, &[0.22, 0.8]) {
                    let want = if k <= 0.22 { 1. - 0.09 * k } else if k > 0.8 { 0.165 } else { 0.9511 - 0.1604 * k + 4.388 * k * k - 16.638 * k.powi(3) + 12.336 * k.powi(4) };
                    expect("diffuse fraction", s.diffuse_fraction(k), want, 1e-9, 1e-9)?;
                }
                Ok(())
            });
            c.case("perez", || inputs.clone(), || {
                if let Some(want) = perez(sl, z, &w, next.as_ref(), prev.as_ref()) {
                    expect("direct radiation (Perez)", s.perez_direct_normal_radiation(dir, w, next, prev), want, 1e-4, 1e-6)?;
                }
                Ok(())
            });
            c.case("from clouds", || inputs.clone(), || {
                let mut v = w;
                v.global_horizontal_radiation = zhang_huang(z, &w, t3.dry_bulb_temperature);
                if v.global_horizontal_radiation > 0. && v.global_horizontal_radiation < 1e-6 {
                    return Ok(());
                }
                let (dn, dh, gh) = s.direct_diffuse_from_cloud_generic(dir, w, next, prev, t3);
                ensure(dn >= 0. && dh >= 0. && gh >= 0., || format!("({}, {}, {}) is not a radiation", dn, dh, gh))?;
                expect("global", gh, v.global_horizontal_radiation, 1e-7, 1e-9)?;
                if let Some(want) = perez(sl, z, &v, next.as_ref(), prev.as_ref()) {
                    expect("direct", dn, want, 1e-4, 1e-6)?;
                    expect("diffuse", dh, (v.global_horizontal_radiation - want * z).max(0.), 1e-3, 1e-6)?;
                }
                Ok(())
            });
        }
        // Weather::fill_solar_radiation_data: line by line, from the data of the file
        for _ in 0..c.n(200, 4000) {
            let r = &mut c.rng;
            let rad = PI / 180.;
            let tz = r.int(0, 23) as i8 - 11;
            let lat = r.range(-60., 60.) * rad;
            let lon = (tz as f64 * 15. + r.range(-15., 15.)) * rad;
            let (mo, da) = (r.int(1, 12) as u8, r.int(2, 26) as u8);
            let len = r.int(1, 30);
            let start = r.int(0, 12);
            let data: Vec<CurrentWeather> = (0..len).map(|k| { let h = start + k; sky(r, (h % 24) as f64 + 0.5, mo, da + (h / 24) as u8) }).collect();
            let inputs = format!("tz={} lat={:?} lon={:?} data={:?}", tz, lat, lon, data);
            c.case("fill", || inputs.clone(), || {
                let location = Location { latitude: lat, longitude: lon, timezone: tz, ..Default::default() };
                let mut w = Weather { data: data.clone(), location };
                w.fill_solar_radiation_data()?;
                ensure(w.data.len() == data.len(), || "lines lost".into())?;
                let s = Solar::new(lat, -lon, -(tz as f64) * 15. * rad);
                for i in 0..data.len() {
                    let (got, old) = (w.data[i], data[i]);
                    let three = data[if i >= 3 { i - 3 } else { i }];
                    let want = match s.sun_position_from_standard_time(old.date) {
                        None => (0., 0., 0.),
                        Some(d) => s.direct_diffuse_from_cloud_generic(d, old, data.get(i + 1).copied(), if i > 0 { Some(data[i - 1]) } else { None }, three),
                    };
                    expect(&format!("line {}: direct", i), got.direct_normal_radiation, want.0, 1e-9, 1e-9)?;
                    expect(&format!("line {}: diffuse", i), got.diffuse_horizontal_radiation, want.1, 1e-9, 1e-9)?;
                    expect(&format!("line {}: global", i), got.global_horizontal_radiation, want.2, 1e-9, 1e-9)?;
                    let mut g = got;
                    g.direct_normal_radiation = old.direct_normal_radiation;
                    g.diffuse_horizontal_radiation = old.diffuse_horizontal_radiation;
                    g.global_horizontal_radiation = old.global_horizontal_radiation;
                    ensure(g == old, || format!("line {}: something else changed", i))?;
                }
                Ok(())
            });
        }
    });
}
