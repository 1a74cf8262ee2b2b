use calendar::Date;
use schedule::ScheduleConstant;
use vpharness::*;
use weather::{CurrentWeather, Location, SyntheticWeather, Weather, WeatherTrait};

const CUM: [usize; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
fn at(d: usize, hour: f64) -> Date {
    let d = d % 365;
    let mut m = 11;
    while CUM[m] > d {
        m -= 1;
    }
    Date { month: m as u8 + 1, day: (d - CUM[m]) as u8 + 1, hour }
}
fn hrs(d: &Date) -> f64 {
    24. * (CUM[d.month as usize - 1] + d.day as usize - 1) as f64 + d.hour
}
fn fields(w: &CurrentWeather) -> [f64; 10] {
    [w.dry_bulb_temperature, w.dew_point_temperature, w.global_horizontal_radiation, w.direct_normal_radiation, w.diffuse_horizontal_radiation, w.wind_speed, w.wind_direction, w.opaque_sky_cover, w.relative_humidity, w.pressure]
}
const NAMES: [&str; 10] = ["dry_bulb_temperature", "dew_point_temperature", "global_horizontal_radiation", "direct_normal_radiation", "diffuse_horizontal_radiation", "wind_speed", "wind_direction", "opaque_sky_cover", "relative_humidity", "pressure"];
fn rec(r: &mut Rng, date: Date) -> CurrentWeather {
    CurrentWeather {
        date,
        dry_bulb_temperature: r.range(-20., 40.),
        dew_point_temperature: r.range(-20., 30.),
        global_horizontal_radiation: r.range(0., 1000.),
        direct_normal_radiation: r.range(0., 1000.),
        diffuse_horizontal_radiation: r.range(0., 500.),
        wind_speed: r.range(0., 20.),
        wind_direction: r.range(0., 6.28),
        horizontal_infrared_radiation_intensity: if r.int(0, 4) == 0 { None } else { Some(r.range(200., 500.)) },
        opaque_sky_cover: r.range(0., 1.),
        relative_humidity: r.range(0., 1.),
        pressure: r.range(90000., 105000.),
    }
}
fn lerp_ok(g: &CurrentWeather, a: &CurrentWeather, b: &CurrentWeather, x: f64, tol: f64) -> Result<(), String> {
    let (fa, fb, fg) = (fields(a), fields(b), fields(g));
    for i in 0..10 {
        let w = fa[i] + x * (fb[i] - fa[i]);
        expect(NAMES[i], fg[i], w, tol, tol * (fa[i].abs() + fb[i].abs() + 1e-3))?;
    }
    match (a.horizontal_infrared_radiation_intensity, b.horizontal_infrared_radiation_intensity, g.horizontal_infrared_radiation_intensity) {
        (Some(p), Some(q), Some(r)) => expect("horizontal_infrared", r, p + x * (q - p), tol, tol * (p + q)),
        (Some(_), Some(_), None) => Err("infrared lost".into()),
        (_, _, None) => Ok(()),
        (_, _, Some(_)) => Err("infrared made up".into()),
    }
}

fn main() {
    run("W01", |c| {
        for t in 0..c.n(400, 8000) {
            // a set of records in order of the year
            let n = match t % 6 {
                0 => 1,
                1 => 2,
                2 => c.rng.int(2, 6),
                3 => c.rng.int(2, 60),
                4 => 365,
                _ => if t % 60 == 5 { 8760 } else { c.rng.int(2, 30) },
            };
            let mut hs: Vec<f64> = match t % 6 {
                4 => (0..365).map(|i| 24. * i as f64).collect(),
                5 if n == 8760 => (0..8760).map(|i| i as f64 + 1. - 1e-6).collect(),
                _ => (0..n).map(|_| if c.rng.bool() { c.rng.int(0, 8760) as f64 } else { c.rng.range(0., 8759.9) }).collect(),
            };
            hs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            hs.dedup_by(|a, b| (*a - *b).abs() < 0.05);
            let n = hs.len();
            let data: Vec<CurrentWeather> = hs.iter().map(|h| rec(&mut c.rng, at((h / 24.) as usize, h % 24.))).collect();
            let w = Weather { data, location: Location::default() };
            for _ in 0..c.n(60, 200) {
                let q = match c.rng.int(0, 7) {
                    0 => hs[c.rng.int(0, n)],
                    1 => hs[n - 1] + (8760. - hs[n - 1]) * c.rng.f() * 0.999,
                    2 => hs[0] * c.rng.f(),
                    3 => 8759.99,
                    4 => 0.0,
                    _ => c.rng.range(0., 8760.),
                };
                let date = at((q / 24.) as usize, q % 24.);
                let h = hrs(&date);
                let exact = w.data.iter().position(|r| r.date == date);
                if exact.is_none() && w.data.iter().any(|r| (hrs(&r.date) - h).abs() < 1e-3) {
                    continue;
                }
                c.case("lookup", || format!("{} records at hours {:?}.., first record {:?}, last {:?}; date {:?}", n, &hs[..n.min(6)], w.data[0].date, w.data[n - 1].date, date), || {
                    let g = w.find_weather_line(date);
                    if let Some(i) = exact {
                        return ensure(g == w.data[i], || format!("date of record {} gives {:?}", i, g));
                    }
                    let i = w.data.iter().filter(|r| hrs(&r.date) < h).count();
                    let a = if i == 0 { &w.data[n - 1] } else { &w.data[i - 1] };
                    let b = if i == n { &w.data[0] } else { &w.data[i] };
                    let fwd = |p: f64, q: f64| (q - p).rem_euclid(8760.);
                    let span = if n == 1 { 8760. } else { fwd(hrs(&a.date), hrs(&b.date)) };
                    let x = fwd(hrs(&a.date), h) / span;
                    lerp_ok(&g, a, b, x, 1e-6)?;
                    if n > 1 {
                        let dd = (hrs(&g.date) - h).rem_euclid(8760.);
                        ensure(dd.min(8760. - dd) < 1e-3, || format!("the result is dated {:?}", g.date))?;
                    }
                    ensure(fields(&w.get_weather_data(date)) == fields(&g), || "get_weather_data differs".into())
                });
            }
            // sorting: a permutation in order
            if n < 100 {
                let mut sh = w.clone();
                for i in (1..n).rev() {
                    let j = c.rng.int(0, i + 1);
                    sh.data.swap(i, j);
                }
                c.case("sort", || format!("{} records shuffled (trial {})", n, t), || {
                    sh.sort_data();
                    ensure(sh.data == w.data, || "sorting does not restore the order of the year".into())
                });
                let k = c.rng.int(0, n + 1);
                let mut first = Weather { data: w.data[..k].to_vec(), location: Location::default() };
                let second = Weather { data: w.data[k..].to_vec(), location: Location::default() };
                c.case("concatenate", || format!("{} + {} records", k, n - k), || {
                    first += second;
                    ensure(first.data == w.data, || "concatenation loses or reorders records".into())
                });
            }
        }
        for _ in 0..c.n(20000, 200000) {
            let (h1, h2) = (c.rng.range(0., 8760.), c.rng.range(0., 8760.));
            let a = rec(&mut c.rng, at((h1 / 24.) as usize, h1 % 24.));
            let b = rec(&mut c.rng, at((h2 / 24.) as usize, h2 % 24.));
            let x = match c.rng.int(0, 6) {
                0 => 0.,
                1 => 1.,
                _ => c.rng.f(),
            };
            c.case("interpolate", || format!("{:?} {:?} x={:?}", a, b, x), || lerp_ok(&a.interpolate(&b, x), &a, &b, x, 1e-9));
        }
        // synthetic weather: each schedule reaches its own quantity, and only it
        for k in 0..12 {
            for v in [3.25, -7.5, 123.0] {
                c.case("synthetic", || format!("schedule number {} = {}", k, v), || {
                    let mut s = SyntheticWeather::default();
                    let b = || Box::new(ScheduleConstant::new(v));
                    let mut want = [0., 0., 0., 0., 0., 0., 0., 0., 0.5, 101300.];
                    match k {
                        0 => s.dry_bulb_temperature = b(),
                        1 => s.dew_point_temperature = b(),
                        2 => s.global_horizontal_radiation = b(),
                        3 => s.direct_normal_radiation = b(),
                        4 => s.diffuse_horizontal_radiation = b(),
                        5 => s.wind_speed = b(),
                        6 => s.wind_direction = b(),
                        7 => s.opaque_sky_cover = b(),
                        8 => s.relative_humidity = b(),
                        9 => s.pressure = b(),
                        10 => s.horizontal_infrared_radiation_intensity = b(),
                        _ => {}
                    }
                    if k < 10 {
                        want[k] = v;
                    }
                    let d = at(77, 3.5);
                    let g = s.get_weather_data(d);
                    ensure(fields(&g) == want, || format!("got {:?}", g))?;
                    ensure(g.date == d, || "date".into())?;
                    ensure(g.horizontal_infrared_radiation_intensity == if k == 10 { Some(v) } else { None }, || format!("infrared {:?}", g.horizontal_infrared_radiation_intensity))
                });
            }
        }
    });
}
