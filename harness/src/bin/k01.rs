use std::f64::consts::PI;
use vpharness::*;
use weather::{Date, Solar, Time};

fn b(n: f64) -> f64 {
    (n - 1.) * 2. * PI / 365.
}
fn eot(n: f64) -> f64 {
    let b = b(n);
    229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin())
}
fn decl(n: f64) -> f64 {
    let b = b(n);
    0.006918 - 0.399912 * b.cos() + 0.070257 * b.sin() - 0.006758 * (2. * b).cos() + 0.000907 * (2. * b).sin() - 0.002697 * (3. * b).cos() + 0.00148 * (3. * b).sin()
}
fn ahead(lon: f64, mer: f64, n: f64) -> f64 {
    (4. * (mer - lon) * 180. / PI + eot(n)) / 1440.
}
fn sun(lat: f64, n: f64) -> [f64; 3] {
    let w = ((n - n.floor()) * 24. - 12.) * 15. * PI / 180.;
    let d = decl(n);
    [-d.cos() * w.sin(), d.sin() * lat.cos() - d.cos() * w.cos() * lat.sin(), lat.cos() * d.cos() * w.cos() + lat.sin() * d.sin()]
}
fn place(r: &mut Rng) -> (f64, f64, f64) {
    let rad = PI / 180.;
    let lat = match r.int(0, 8) {
        0 => 0.,
        1 => 23.45,
        2 => -23.45,
        3 => r.range(66., 88.),
        4 => -r.range(66., 88.),
        _ => r.range(-66., 66.),
    };
    let lon = r.range(-180., 180.);
    let mer = match r.int(0, 2) {
        0 => lon,
        1 => (lon / 15.).round() * 15.,
        _ => lon + r.range(-40., 40.),
    };
    (lat * rad, lon * rad, mer * rad)
}
fn same_sun(got: Option<geometry::Vector3D>, w: [f64; 3]) -> Result<(), String> {
    if w[2].abs() < 1e-9 || (w[2] - 0.9999).abs() < 1e-9 {
        return Ok(());
    }
    match got {
        None => ensure(w[2] < 0., || format!("no sun, which is at {:?}", w)),
        Some(v) => {
            ensure(w[2] > 0., || format!("the sun is at {} but it is below the horizon: {:?}", v, w))?;
            let w = if w[2] > 0.9999 { [0., 0., 1.] } else { w };
            expect("east", v.x, w[0], 0., 2e-6)?;
            expect("north", v.y, w[1], 0., 2e-6)?;
            expect("up", v.z, w[2], 0., 2e-6)
        }
    }
}

fn main() {
    run("K01", |c| {
        for _ in 0..c.n(20000, 400000) {
            let r = &mut c.rng;
            let (lat, lon, mer) = place(r);
            let n = match r.int(0, 5) {
                0 => r.int(2, 363) as f64 + 0.5,
                1 => r.int(2, 363) as f64,
                2 => r.int(2, 363) as f64 + r.int(0, 23) as f64 / 24.,
                _ => r.range(1.5, 363.5),
            };
            let s = Solar::new(lat, lon, mer);
            let i = format!("lat={:?} lon={:?} meridian={:?} n={:?}", lat, lon, mer, n);
            c.case("time", || i.clone(), || {
                expect("equation of time", s.equation_of_time(n), eot(n), 1e-9, 1e-9)?;
                expect("declination", s.declination(n), decl(n), 1e-9, 1e-9)?;
                let x = b(n);
                let e = 1367.7 * (1.00011 + 0.034221 * x.cos() + 0.00128 * x.sin() + 0.000719 * (2. * x).cos() + 0.000077 * (2. * x).sin());
                expect("extraterrestrial radiation", s.normal_extraterrestrial_radiation(n), e, 1e-9, 0.)?;
                expect("difference of time", s.solar_standard_time_difference(n), ahead(lon, mer, n) * 1440., 1e-9, 1e-9)?;
                expect("solar time of a solar time", s.unwrap_solar_time(Time::Solar(n)), n, 0., 0.)?;
                expect("standard time of a standard time", s.unwrap_standard_time(Time::Standard(n)), n, 0., 0.)?;
                expect("solar time", s.unwrap_solar_time(Time::Standard(n)), n + ahead(lon, mer, n), 1e-9, 0.)?;
                expect("standard time", s.unwrap_standard_time(Time::Solar(n)), n - ahead(lon, mer, n), 1e-9, 0.)?;
                for t in [Time::Solar(n), Time::Standard(n)] {
                    let m = if let Time::Solar(_) = t { n } else { n + ahead(lon, mer, n) };
                    if (m - m.round()).abs() > 1e-9 {
                        expect("hour angle", s.hour_angle(t), ((m - m.floor()) * 24. - 12.) * 15. * PI / 180., 1e-7, 1e-9)?;
                    }
                }
                let k = -lat.tan() * decl(n).tan();
                if k.abs() < 1. {
                    let (a, z) = s.sunrise_sunset(n);
                    let h = k.acos() / (2. * PI);
                    match (a, z) {
                        (Time::Solar(a), Time::Solar(z)) => {
                            expect("sunrise", a, n.floor() + 0.5 - h, 1e-9, 0.)?;
                            expect("sunset", z, n.floor() + 0.5 + h, 1e-9, 0.)?;
                        }
                        _ => return Err("sunrise and sunset are not in solar time".into()),
                    }
                }
                Ok(())
            });
            c.case("position", || i.clone(), || {
                same_sun(s.sun_position(Time::Solar(n)), sun(lat, n))?;
                same_sun(s.sun_position(Time::Standard(n)), sun(lat, n + ahead(lon, mer, n)))
            });
            let r = &mut c.rng;
            let d = Date { month: r.int(1, 12) as u8, day: r.int(2, 27) as u8, hour: r.range(0., 23.99) };
            c.case("dates", || format!("{} {:?}", i, d), || {
                let n = d.day_of_year();
                same_sun(s.sun_position_from_solar_time(d), sun(lat, n))?;
                same_sun(s.sun_position_from_standard_time(d), sun(lat, n + ahead(lon, mer, n)))
            });
        }
    });
}
