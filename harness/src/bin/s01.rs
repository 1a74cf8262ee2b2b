use model::{Fenestration, SimulationStateElement as E, SimulationStateHeader, Space, Surface};
use vpharness::*;

fn all(i: usize, j: usize) -> Vec<(E, u8)> {
    vec![
        (E::Clothing, 0),
        (E::FenestrationOpenFraction(i), 1), (E::HeatingCoolingPowerConsumption(i), 1), (E::LuminairePowerConsumption(i), 1),
        (E::SurfaceFrontConvectionCoefficient(i), 2), (E::SurfaceBackConvectionCoefficient(i), 2), (E::SurfaceFrontConvectiveHeatFlow(i), 2), (E::SurfaceBackConvectiveHeatFlow(i), 2),
        (E::SurfaceFrontSolarIrradiance(i), 2), (E::SurfaceBackSolarIrradiance(i), 2), (E::SurfaceFrontIRIrradiance(i), 2), (E::SurfaceBackIRIrradiance(i), 2),
        (E::FenestrationFrontConvectionCoefficient(i), 2), (E::FenestrationBackConvectionCoefficient(i), 2), (E::FenestrationFrontConvectiveHeatFlow(i), 2), (E::FenestrationBackConvectiveHeatFlow(i), 2),
        (E::FenestrationFrontSolarIrradiance(i), 2), (E::FenestrationBackSolarIrradiance(i), 2), (E::FenestrationFrontIRIrradiance(i), 2), (E::FenestrationBackIRIrradiance(i), 2),
        (E::SpaceDryBulbTemperature(i), 2), (E::SpaceInfiltrationVolume(i), 2), (E::SpaceInfiltrationTemperature(i), 2), (E::SpaceVentilationVolume(i), 2), (E::SpaceVentilationTemperature(i), 2),
        (E::SpaceAirExchangeVolume(i, j), 2), (E::SurfaceNodeTemperature(i, j), 2), (E::FenestrationNodeTemperature(i, j), 2),
    ]
}

macro_rules! fields {
    ($c:expr, $obj:expr, $name:expr, [$(($f:ident, $set:ident, $seti:ident, $geti:ident)),*]) => {{
        let n = [$(stringify!($f)),*].len();
        let mut perm: Vec<usize> = (0..n + 3).collect();
        for a in (1..perm.len()).rev() { let b = $c.rng.int(0, a + 1); perm.swap(a, b); }
        let state0: Vec<f64> = (0..n + 3).map(|_| $c.rng.range(-50., 50.)).collect();
        let v = $c.rng.range(100., 200.);
        let p2 = perm.clone();
        $c.case("getters and setters", || format!("{} with indices {:?}", $name, p2), || {
            let o = $obj;
            let mut k = 0;
            $(
                ensure(o.$geti().is_none() && o.$f(&state0).is_none(), || format!("{} has a value before it has an index", stringify!($f)))?;
                ensure(o.$set(&mut state0.clone(), 1.).is_err(), || format!("{} can be set before it has an index", stringify!($f)))?;
                o.$seti(perm[k])?;
                ensure(o.$geti() == Some(perm[k]), || format!("index of {}", stringify!($f)))?;
                ensure(o.$seti(perm[k]).is_err() && o.$seti(perm[k + 1]).is_err(), || format!("index of {} was given twice", stringify!($f)))?;
                ensure(o.$geti() == Some(perm[k]), || format!("index of {} changed", stringify!($f)))?;
                k += 1;
            )*
            k = 0;
            $(
                ensure(o.$f(&state0) == Some(state0[perm[k]]), || format!("{} reads {:?}", stringify!($f), o.$f(&state0)))?;
                let mut s = state0.clone();
                o.$set(&mut s, v)?;
                for i in 0..s.len() {
                    let w = if i == perm[k] { v } else { state0[i] };
                    ensure(s[i] == w, || format!("setting {} left {} at {}", stringify!($f), s[i], i))?;
                }
                k += 1;
            )*
            let _ = k;
            Ok(())
        });
    }};
}

fn main() {
    run("S01", |c| {
        for _ in 0..20 {
            let (i, j) = (c.rng.int(0, 1000), c.rng.int(0, 1000));
            for (e, k) in all(i, j) {
                c.case("class", || format!("{:?}", e), || {
                    ensure([e.is_personal(), e.is_operational(), e.is_physical()] == [k == 0, k == 1, k == 2], || "wrong class".into())
                });
            }
        }
        for t in 0..c.n(1500, 30000) {
            let n = c.rng.int(0, 40);
            let mut seq = vec![];
            let bias = c.rng.int(0, 4);
            for p in 0..n {
                let (i, j) = (c.rng.int(0, 5), c.rng.int(0, 5));
                let v = all(i, j);
                // mostly in order, sometimes not
                let lo = if bias < 3 { if p < n / 3 { 0 } else if p < 2 * n / 3 { 1 } else { 4 } } else { 0 };
                let hi = if bias < 3 { if p < n / 3 { 1 } else if p < 2 * n / 3 { 4 } else { v.len() } } else { v.len() };
                let x = if c.rng.int(0, 12) == 0 { c.rng.int(0, v.len()) } else { c.rng.int(lo, hi) };
                seq.push((v[x].0, v[x].1, c.rng.range(-100., 100.)));
            }
            let take_at = if t % 3 == 0 { c.rng.int(0, n + 1) } else { usize::MAX };
            let fill: Vec<f64> = (0..200).map(|_| c.rng.range(0., 1.)).collect();
            c.case("history", || format!("push {:?}, values taken before push {}", seq, take_at as i64), || {
                let mut h = SimulationStateHeader::default();
                let mut m: Vec<(E, u8, f64)> = vec![];
                let mut taken: Option<Vec<f64>> = None;
                for (p, (e, k, v)) in seq.iter().enumerate() {
                    if p == take_at {
                        taken = h.take_values();
                        ensure(taken == Some(m.iter().map(|x| x.2).collect()), || "taken values are not the pushed ones".into())?;
                    }
                    let ok = taken.is_none() && m.iter().all(|x| x.1 <= *k);
                    let r = h.push(*e, *v);
                    ensure(r.is_ok() == ok, || format!("push number {} of {:?} gave {:?}", p, e, r))?;
                    if ok {
                        ensure(r == Ok(m.len()), || format!("push number {} gave index {:?}", p, r))?;
                        m.push((*e, *k, *v));
                    }
                    ensure(h.len() == m.len() && h.is_empty() == m.is_empty() && h.elements.len() == m.len(), || format!("length after push {}", p))?;
                    ensure(h.n_individual() == m.iter().filter(|x| x.1 == 0).count() && h.n_operational() == m.iter().filter(|x| x.1 == 1).count(), || format!("counts after push {}", p))?;
                }
                for (i, x) in m.iter().enumerate() {
                    ensure(h[i] == x.0 && h.elements[i] == x.0, || format!("element {}", i))?;
                }
                if taken.is_none() {
                    ensure(h.take_values() == Some(m.iter().map(|x| x.2).collect()), || "values".into())?;
                }
                ensure(h.take_values().is_none(), || "values taken twice".into())?;
                let a: Vec<f64> = fill[..m.len()].to_vec();
                let b: Vec<f64> = fill[100..100 + m.len()].to_vec();
                for k in 0..3u8 {
                    let mut d = b.clone();
                    match k {
                        0 => h.copy_individual_state(&a, &mut d),
                        1 => h.copy_operational_state(&a, &mut d),
                        _ => h.copy_physical_state(&a, &mut d),
                    }
                    for i in 0..m.len() {
                        let w = if m[i].1 == k { a[i] } else { b[i] };
                        ensure(d[i] == w, || format!("copy of class {}: position {} of class {} is {} instead of {}", k, i, m[i].1, d[i], w))?;
                    }
                }
                Ok(())
            });
        }
        for _ in 0..c.n(200, 3000) {
            fields!(c, Space::new("s"), "space", [(dry_bulb_temperature, set_dry_bulb_temperature, set_dry_bulb_temperature_index, dry_bulb_temperature_index), (infiltration_volume, set_infiltration_volume, set_infiltration_volume_index, infiltration_volume_index), (infiltration_temperature, set_infiltration_temperature, set_infiltration_temperature_index, infiltration_temperature_index), (ventilation_volume, set_ventilation_volume, set_ventilation_volume_index, ventilation_volume_index), (ventilation_temperature, set_ventilation_temperature, set_ventilation_temperature_index, ventilation_temperature_index)]);
            let json = r#"{"name":"w","construction":"c","vertices":[0,0,0,1,0,0,1,1,0,0,1,0]}"#;
            fields!(c, serde_json::from_str::<Surface>(json).map_err(|e| e.to_string())?, "surface", [(first_node_temperature, set_first_node_temperature, set_first_node_temperature_index, first_node_temperature_index), (last_node_temperature, set_last_node_temperature, set_last_node_temperature_index, last_node_temperature_index), (front_convection_coefficient, set_front_convection_coefficient, set_front_convection_coefficient_index, front_convection_coefficient_index), (back_convection_coefficient, set_back_convection_coefficient, set_back_convection_coefficient_index, back_convection_coefficient_index), (front_convective_heat_flow, set_front_convective_heat_flow, set_front_convective_heat_flow_index, front_convective_heat_flow_index), (back_convective_heat_flow, set_back_convective_heat_flow, set_back_convective_heat_flow_index, back_convective_heat_flow_index), (front_incident_solar_irradiance, set_front_incident_solar_irradiance, set_front_incident_solar_irradiance_index, front_incident_solar_irradiance_index), (back_incident_solar_irradiance, set_back_incident_solar_irradiance, set_back_incident_solar_irradiance_index, back_incident_solar_irradiance_index), (front_ir_irradiance, set_front_ir_irradiance, set_front_ir_irradiance_index, front_ir_irradiance_index), (back_ir_irradiance, set_back_ir_irradiance, set_back_ir_irradiance_index, back_ir_irradiance_index)]);
            let json = r#"{"name":"w","construction":"c","vertices":[0,0,0,1,0,0,1,1,0,0,1,0]}"#;
            fields!(c, serde_json::from_str::<Fenestration>(json).map_err(|e| e.to_string())?, "fenestration", [(first_node_temperature, set_first_node_temperature, set_first_node_temperature_index, first_node_temperature_index), (open_fraction, set_open_fraction, set_open_fraction_index, open_fraction_index), (front_convection_coefficient, set_front_convection_coefficient, set_front_convection_coefficient_index, front_convection_coefficient_index), (back_convective_heat_flow, set_back_convective_heat_flow, set_back_convective_heat_flow_index, back_convective_heat_flow_index), (back_ir_irradiance, set_back_ir_irradiance, set_back_ir_irradiance_index, back_ir_irradiance_index), (front_incident_solar_irradiance, set_front_incident_solar_irradiance, set_front_incident_solar_irradiance_index, front_incident_solar_irradiance_index), (last_node_temperature, set_last_node_temperature, set_last_node_temperature_index, last_node_temperature_index)]);
        }
    });
}
