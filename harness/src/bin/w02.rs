use vpharness::*;
use weather::{EPWWeather, Weather};

fn num(r: &mut Rng, lo: f64, hi: f64) -> (String, f64) {
    let dec = r.int(0, 4);
    let s = format!("{:.*}", dec, r.range(lo, hi));
    let v = s.parse::<f64>().unwrap();
    (s, v)
}

fn main() {
    let dir = std::env::temp_dir().join(format!("vp_w02_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    run("W02", move |c| {
        for t in 0..c.n(250, 4000) {
            let nl = if t % 4 == 0 { "\r\n" } else { "\n" };
            let mut src = String::new();
            let lat = num(&mut c.rng, -89., 89.);
            let lon = num(&mut c.rng, -179., 179.);
            let tz = c.rng.int(0, 24) as i64 - 11;
            let el = num(&mut c.rng, 0., 3000.);
            let city = ["Santiago", "Wellington", "A B C", ""][c.rng.int(0, 4)];
            src.push_str(&format!("LOCATION,{},-,CHL,IWEC Data,855740,{},{},{}.0,{}{}", city, lat.0, lon.0, tz, el.0, nl));
            if c.rng.bool() {
                src.push_str(&format!("COMMENTS 1,\"a comment, with commas, and more\"{}", nl));
            }
            let ng = c.rng.int(0, 4);
            let mut ground: Vec<(f64, [Option<f64>; 3], Vec<f64>)> = vec![];
            src.push_str(&format!("GROUND TEMPERATURES,{}", ng));
            for _ in 0..ng {
                let d = num(&mut c.rng, 0.1, 5.);
                src.push_str(&format!(",{}", d.0));
                let mut o = [None; 3];
                for k in 0..3 {
                    if c.rng.int(0, 3) == 0 {
                        let x = num(&mut c.rng, 0.5, 2000.);
                        src.push_str(&format!(",{}", x.0));
                        o[k] = Some(x.1);
                    } else {
                        src.push(',');
                    }
                }
                let mut ts = vec![];
                for _ in 0..12 {
                    let x = num(&mut c.rng, -5., 30.);
                    src.push_str(&format!(",{}", x.0));
                    ts.push(x.1);
                }
                ground.push((d.1, o, ts));
            }
            src.push_str(nl);
            if c.rng.bool() {
                src.push_str(&format!("COMMENTS 2, -- some {{text}}{}", nl));
            }
            src.push_str(&format!("DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31{}", nl));
            let n = c.rng.int(1, 30);
            let mut rows: Vec<Vec<f64>> = vec![];
            for i in 0..n {
                let mut row: Vec<f64> = vec![1987., (1 + i % 12) as f64, (1 + (i * 7) % 28) as f64, (1 + i % 24) as f64, 60.];
                src.push_str(&format!("1987,{},{},{},60,C9C9*0?9A7", row[1], row[2], row[3]));
                let lim = [(-30., 45.), (-30., 30.), (0., 100.), (80000., 110000.), (0., 1400.), (0., 1400.), (100., 500.), (0., 1100.), (0., 1100.), (0., 600.), (0., 1e5), (0., 1e5), (0., 1e5), (0., 9000.), (0., 360.), (0., 30.), (0., 10.), (0., 10.), (0., 100.), (0., 70000.), (0., 9.), (0., 9e8), (0., 300.), (0., 1.), (0., 50.), (0., 88.), (0., 1.), (0., 10.), (0., 1.)];
                for (j, (a, b)) in lim.iter().enumerate() {
                    let x = if j == 14 && c.rng.int(0, 6) == 0 { ("999".to_string(), 999.) } else if j == 25 { let k = c.rng.int(0, 88); (k.to_string(), k as f64) } else { num(&mut c.rng, *a, *b) };
                    src.push_str(&format!(",{}", x.0));
                    row.push(x.1);
                }
                rows.push(row);
                if i + 1 < n || t % 3 != 0 {
                    src.push_str(nl);
                }
            }
            let path = d2.join("f.epw");
            std::fs::write(&path, &src).unwrap();
            let p = path.to_str().unwrap().to_string();
            c.case("epw", || format!("EPW text: {}", &src[..src.len().min(3000)]), || {
                let e = EPWWeather::from_file(p.clone())?;
                ensure(e.location.city == city && e.location.state == "-" && e.location.country == "CHL" && e.location.source == "IWEC Data" && e.location.wmo == "855740", || format!("location {:?}", e.location))?;
                expect("latitude", e.location.latitude, lat.1.to_radians(), 1e-12, 1e-12)?;
                expect("longitude", e.location.longitude, lon.1.to_radians(), 1e-12, 1e-12)?;
                ensure(e.location.timezone as i64 == tz, || format!("timezone {} instead of {}", e.location.timezone, tz))?;
                expect("elevation", e.location.elevation, el.1, 1e-12, 1e-12)?;
                ensure(e.ground_temperature.len() == ground.len(), || "number of ground temperature profiles".into())?;
                for (g, w) in e.ground_temperature.iter().zip(&ground) {
                    expect("depth", g.depth, w.0, 1e-12, 0.)?;
                    ensure([g.soil_conductivity, g.soil_density, g.soil_specific_heat] == w.1, || format!("soil {:?}", g))?;
                    ensure(g.average_monthly_temperature.to_vec() == w.2, || format!("ground temperatures {:?}, the file says {:?}", g.average_monthly_temperature, w.2))?;
                }
                ensure(e.data.len() == rows.len(), || format!("{} records read, the file has {}", e.data.len(), rows.len()))?;
                for (i, (l, r)) in e.data.iter().zip(&rows).enumerate() {
                    let got = [l.year as f64, l.month as f64, l.day as f64, l.hour, l.minute as f64, l.dry_bulb_temperature, l.dew_point_temperature, l.relative_humidity, l.atmospheric_station_pressure, l.extraterrestrial_horizontal_radiation, l.extraterrestrial_direct_normal_radiation, l.horizontal_infrared_radiation_intensity, l.global_horizontal_radiation, l.direct_normal_radiation, l.diffuse_horizontal_radiation, l.global_horizontal_illuminance, l.direct_normal_illuminance, l.diffuse_horizontal_illuminance, l.zenith_luminance, l.wind_direction, l.wind_speed, l.total_sky_cover, l.opaque_sky_cover, l.visibility, l.ceiling_height, l.present_weather_observation, l.present_weather_codes, l.precipitable_water, l.aerosol_optical_depth, l.snow_depth, l.last_day_since_last_snowfall as f64, l.albedo, l.liquid_precipitation_depth, l.liquid_precipitation_quantity];
                    for k in 0..34 {
                        // a missing wind direction (999) is read as 360 degrees
                        let w = if k == 19 { r[k].min(360.) } else { r[k] };
                        ensure(got[k] == w, || format!("record {} column {}: read {}, the file says {}", i, k, got[k], r[k]))?;
                    }
                }
                let lines = e.data.clone();
                let w: Weather = e.into();
                ensure(w.data.len() == lines.len(), || "records lost in the conversion".into())?;
                for (d, l) in w.data.iter().zip(&lines) {
                    ensure(d.date.month == l.month && d.date.day == l.day && d.date.hour < l.hour && d.date.hour > l.hour - 1e-4, || format!("date {:?}", d.date))?;
                    let g = [d.dry_bulb_temperature, d.dew_point_temperature, d.global_horizontal_radiation, d.direct_normal_radiation, d.diffuse_horizontal_radiation, d.wind_speed, d.wind_direction, d.opaque_sky_cover, d.relative_humidity, d.pressure, d.horizontal_infrared_radiation_intensity.unwrap_or(f64::NAN)];
                    let x = [l.dry_bulb_temperature, l.dew_point_temperature, l.global_horizontal_radiation, l.direct_normal_radiation, l.diffuse_horizontal_radiation, l.wind_speed, l.wind_direction.to_radians(), l.opaque_sky_cover / 10., l.relative_humidity / 100., l.atmospheric_station_pressure, l.horizontal_infrared_radiation_intensity];
                    for k in 0..11 {
                        expect(&format!("converted quantity {}", k), g[k], x[k], 1e-12, 1e-12)?;
                    }
                }
                Ok(())
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}
