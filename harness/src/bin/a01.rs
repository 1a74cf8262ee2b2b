use air::air_model::AirFlowModel;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use model::{Building, Infiltration, ShelterClass, SimulationStateElement as E, SiteDetails, TerrainClass};
use schedule::ScheduleConstant;
use vpharness::bld::*;
use vpharness::*;
use weather::SyntheticWeather;

#[derive(Debug, Clone)]
enum Inf {
    No,
    Const(f64),
    Blast(f64),
    Doe2(f64),
    Design([f64; 5]),
    /// area, storeys, shelter, stack, wind
    Leak(f64, Option<usize>, Option<usize>, Option<f64>, Option<f64>),
}
const TERR: [(TerrainClass, f64, f64); 5] =
    [(TerrainClass::Country, 0.14, 270.), (TerrainClass::Suburbs, 0.22, 370.), (TerrainClass::City, 0.33, 460.), (TerrainClass::Ocean, 0.10, 210.), (TerrainClass::Urban, 0.22, 370.)];
const WIND: [[f64; 3]; 5] = [[0.000319, 0.000420, 0.000494], [0.000246, 0.000325, 0.000382], [0.000172, 0.000231, 0.000271], [0.000104, 0.000137, 0.000161], [0.000032, 0.000042, 0.000049]];
fn shelter(i: usize) -> ShelterClass {
    match i {
        0 => ShelterClass::NoObstructions,
        1 => ShelterClass::IsolatedRural,
        2 => ShelterClass::Urban,
        3 => ShelterClass::LargeLotUrban,
        _ => ShelterClass::SmallLotUrban,
    }
}
fn coefs(n: Option<usize>, s: Option<usize>, cs: Option<f64>, cw: Option<f64>) -> Option<(f64, f64)> {
    let cs = match (cs, n) {
        (Some(c), _) => c,
        (None, Some(n)) if n > 0 => [0.000145, 0.00029, 0.000435][n.min(3) - 1],
        _ => return None,
    };
    let cw = match (cw, n, s) {
        (Some(c), _, _) => c,
        (None, Some(n), Some(s)) if n > 0 => WIND[s][n.min(3) - 1],
        _ => return None,
    };
    Some((cs, cw))
}
#[derive(Debug, Clone)]
struct Case {
    infs: Vec<Inf>,
    t: Vec<f64>,
    /// site details, terrain
    site: Option<Option<usize>>,
    steps: Vec<(f64, f64)>,
}
fn mk(k: &Case) -> Result<(model::Model, AirFlowModel, Vec<f64>), String> {
    let d = Desc { vols: k.t.iter().map(|_| 40.).collect(), ..Default::default() };
    let (mut m, mut h) = build(&d, |i, s, m| match k.infs[i].clone() {
        Inf::No => {}
        Inf::Const(flow) => drop(s.set_infiltration(Infiltration::Constant { flow })),
        Inf::Blast(flow) => drop(s.set_infiltration(Infiltration::Blast { flow })),
        Inf::Doe2(flow) => drop(s.set_infiltration(Infiltration::Doe2 { flow })),
        Inf::Design([a, b, c, d, phi]) => drop(s.set_infiltration(Infiltration::DesignFlowRate { a, b, c, d, phi })),
        Inf::Leak(area, n, sh, cs, cw) => {
            s.set_infiltration(Infiltration::EffectiveAirLeakageArea { area });
            let mut b = Building::new(format!("building {}", i));
            if let Some(n) = n {
                b.set_n_storeys(n);
            }
            if let Some(x) = sh {
                b.set_shelter_class(shelter(x));
            }
            if let Some(x) = cs {
                b.set_stack_coefficient(x);
            }
            if let Some(x) = cw {
                b.set_wind_coefficient(x);
            }
            m.add_building(b);
            s.set_building(format!("building {}", i));
        }
    });
    if let Some(t) = k.site {
        let mut s = SiteDetails::default();
        if let Some(t) = t {
            s.set_terrain(TERR[t].0);
        }
        m.site_details = Some(s);
    }
    for (i, s) in m.spaces.iter().enumerate() {
        if s.dry_bulb_temperature_index().is_none() {
            let a = h.push(E::SpaceDryBulbTemperature(i), k.t[i])?;
            s.set_dry_bulb_temperature_index(a)?;
        }
    }
    let mo = MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. };
    let a = AirFlowModel::new(&mo, (), &m, &mut h, 1)?;
    let mut st = h.take_values().ok_or("no values")?;
    for (i, s) in m.spaces.iter().enumerate() {
        s.set_dry_bulb_temperature(&mut st, k.t[i])?;
    }
    Ok((m, a, st))
}
fn main() {
    run("A01", |c| {
        for _ in 0..c.n(2000, 20000) {
            let r = &mut c.rng;
            let t = r.int(0, 5);
            let (h1, h2) = (r.range(0.01, 300.), r.range(0.5, 30.));
            let h = *r.pick(&[1., h1, h2]);
            c.case("terrain", move || format!("{:?} at {} m", TERR[t].0, h), move || {
                let e = 27f64.powf(0.14) * (h / TERR[t].2).powf(TERR[t].1);
                expect("wind speed modifier", TERR[t].0.wind_speed_modifier(h), e, 1e-9, 0.)?;
                let mut s = SiteDetails::default();
                s.set_terrain(TERR[t].0);
                expect("wind speed modifier of the site", s.wind_speed_modifier(h), e, 1e-9, 0.)
            });
        }
        for _ in 0..c.n(3000, 30000) {
            let r = &mut c.rng;
            let n = r.int(1, 5);
            let k = Case {
                infs: (0..n)
                    .map(|_| match r.int(0, 7) {
                        0 => Inf::No,
                        1 => Inf::Const(r.range(0., 1.)),
                        2 => Inf::Blast(r.range(0., 1.)),
                        3 => Inf::Doe2(r.range(0., 1.)),
                        4 => Inf::Design([r.range(0., 1.), r.range(0., 0.1), r.range(0., 0.3), r.range(0., 0.1), r.range(0., 1.)]),
                        _ => {
                            let o = |r: &mut Rng, a: f64| if r.int(0, 4) == 0 { Some(r.range(0., a)) } else { None };
                            let (x, y) = (r.int(0, 12), r.int(0, 10));
                            let (cs, cw) = (o(r, 1e-3), o(r, 1e-3));
                            Inf::Leak(r.range(0., 0.2), if x == 0 { None } else { Some((x - 1) % 5) }, if y > 4 && y < 9 { Some(y - 5) } else if y == 9 { None } else { Some(y % 5) }, cs, cw)
                        }
                    })
                    .collect(),
                t: (0..n).map(|_| r.range(5., 35.)).collect(),
                site: match r.int(0, 7) {
                    0 => None,
                    1 => Some(None),
                    x => Some(Some(x - 2)),
                },
                steps: (0..r.int(1, 4)).map(|_| (r.range(-20., 45.), if r.int(0, 6) == 0 { 0. } else { r.range(0., 20.) })).collect(),
            };
            let kk = k.clone();
            c.case("spaces", move || format!("{:?}", kk), move || {
                let bad = k.infs.iter().any(|x| matches!(x, Inf::Leak(_, n, s, cs, cw) if coefs(*n, *s, *cs, *cw).is_none()));
                // a building of zero storeys whose stack coefficient is given is not looked at
                if k.infs.iter().any(|x| matches!(x, Inf::Leak(_, Some(0), _, Some(_), None))) {
                    return Ok(());
                }
                let (m, a, mut st) = match mk(&k) {
                    Ok(x) => x,
                    Err(_) if bad => return Ok(()),
                    Err(e) => return Err(format!("AirFlowModel::new failed: {}", e)),
                };
                ensure(!bad, || "AirFlowModel::new accepted a building without the data the leakage needs".to_string())?;
                let (al, de) = match k.site {
                    Some(Some(t)) => (TERR[t].1, TERR[t].2),
                    _ => (0.22, 370.),
                };
                let modif = 27f64.powf(0.14) * (1. / de as f64).powf(al);
                for (i, (to, ws)) in k.steps.iter().enumerate() {
                    let w = SyntheticWeather {
                        dry_bulb_temperature: Box::new(ScheduleConstant::new(*to)),
                        wind_speed: Box::new(ScheduleConstant::new(*ws)),
                        ..Default::default()
                    };
                    let before = st.clone();
                    a.march(Date { month: 3, day: 4, hour: i as f64 }, &w, &m, &mut st, &mut ())?;
                    let mut touched = vec![];
                    for (j, s) in m.spaces.iter().enumerate() {
                        let dt = (k.t[j] - to).abs();
                        let v = ws * modif;
                        let f = |a: f64, b: f64, c: f64, d: f64, phi: f64| phi * (a + b * dt + c * v + d * v * v);
                        let e = match &k.infs[j] {
                            Inf::No => {
                                expect("infiltration of a space that has none", s.infiltration_volume(&st).unwrap_or(f64::NAN), 0., 0., 0.)?;
                                continue;
                            }
                            Inf::Const(x) => *x,
                            Inf::Blast(x) => f(0.606, 0.03636, 0.1177, 0., *x),
                            Inf::Doe2(x) => f(0., 0., 0.224, 0., *x),
                            Inf::Design([a, b, c, d, x]) => f(*a, *b, *c, *d, *x),
                            Inf::Leak(x, n, sh, cs, cw) => {
                                let (cs, cw) = coefs(*n, *sh, *cs, *cw).unwrap();
                                x * 10. * (cs * dt + cw * ws * ws).sqrt()
                            }
                        };
                        expect(&format!("infiltration volume of space {}", j), s.infiltration_volume(&st).unwrap_or(f64::NAN), e, 1e-9, 1e-12)?;
                        expect(&format!("infiltration temperature of space {}", j), s.infiltration_temperature(&st).unwrap_or(f64::NAN), *to, 1e-12, 0.)?;
                        touched.push(s.infiltration_volume_index().unwrap());
                        touched.push(s.infiltration_temperature_index().unwrap());
                    }
                    for x in 0..st.len() {
                        ensure(touched.contains(&x) || st[x] == before[x], || format!("the air flow changed state element {} that is not its own", x))?;
                    }
                }
                Ok(())
            });
        }
    });
}
