//! random buildings: spaces, constructions, surfaces and windows, built through the public API
use crate::geo::*;
use crate::Rng;
use geometry::{Loop3D, Polygon3D};
use model::hvac::{ElectricHeater, IdealHeaterCooler};
use model::substance::{gas::GasSpecification, Gas, Normal};
use model::{Boundary, Construction, Fenestration, FenestrationType, Infiltration, Luminaire, Material, Model, SimulationStateHeader, Space, Surface};

#[derive(Debug, Clone)]
pub enum Lay {
    /// thickness, conductivity, density, heat capacity, transmittance, solar absorptance (front, back), emissivity (front, back)
    Solid { d: f64, k: f64, rho: f64, cp: f64, tau: f64, a: [f64; 2], e: [f64; 2] },
    /// thickness, gas (air, argon, krypton, xenon)
    Cavity { d: f64, gas: usize },
}
#[derive(Debug, Clone, PartialEq)]
pub enum Bnd {
    Out,
    Zone(usize),
    Amb(f64),
    Adi,
}
#[derive(Debug, Clone)]
pub struct Wall {
    pub layers: Vec<Lay>,
    pub w: f64,
    pub h: f64,
    /// direction the front looks at
    pub az: f64,
    pub tilt: f64,
    pub z: f64,
    pub front: Bnd,
    pub back: Bnd,
    pub window: bool,
}
impl Wall {
    pub fn normal(&self) -> V3 {
        [self.tilt.sin() * self.az.sin(), self.tilt.sin() * self.az.cos(), self.tilt.cos()]
    }
    pub fn verts(&self) -> Vec<V3> {
        let n = self.normal();
        // u horizontal, v = n x u
        let u = [-self.az.cos(), self.az.sin(), 0.];
        let v = cross(n, u);
        let o = [0., 0., self.z];
        let q = |a: f64, b: f64| add(o, add(mul(u, a), mul(v, b)));
        vec![q(-self.w / 2., -self.h / 2.), q(self.w / 2., -self.h / 2.), q(self.w / 2., self.h / 2.), q(-self.w / 2., self.h / 2.)]
    }
    pub fn poly(&self) -> Polygon3D {
        let mut l = Loop3D::new();
        for x in self.verts() {
            l.push(p(x)).unwrap();
        }
        l.close().unwrap();
        Polygon3D::new(l).unwrap()
    }
    pub fn area(&self) -> f64 {
        self.w * self.h
    }
}
#[derive(Debug, Clone, Default)]
pub struct Desc {
    pub vols: Vec<f64>,
    pub walls: Vec<Wall>,
    /// space, ideal
    pub hvacs: Vec<(usize, bool)>,
    pub lums: Vec<usize>,
}
pub fn solid(r: &mut Rng) -> Lay {
    let mass = r.int(0, 3) > 0;
    Lay::Solid {
        d: r.range(0.005, 0.3),
        k: 10f64.powf(r.range(-1.6, 0.5)),
        rho: if mass { r.range(20., 2500.) } else { 1e-2 },
        cp: r.range(600., 2500.),
        tau: 0.,
        a: [r.range(0.05, 0.95), r.range(0.05, 0.95)],
        e: [r.range(0.1, 0.95), r.range(0.1, 0.95)],
    }
}
pub fn glass(r: &mut Rng) -> Lay {
    // some dark ones
    let tau = if r.int(0, 5) == 0 { 10f64.powf(r.range(-6., -1.)) } else { r.range(0.05, 0.85) };
    Lay::Solid {
        d: r.range(0.003, 0.012),
        k: r.range(0.8, 1.2),
        rho: 2500.,
        cp: 840.,
        tau,
        a: [r.range(0.0, 1.0) * (0.98 - tau), r.range(0.0, 1.0) * (0.98 - tau)],
        e: [r.range(0.1, 0.95), r.range(0.1, 0.95)],
    }
}
pub fn cavity(r: &mut Rng) -> Lay {
    Lay::Cavity { d: r.range(0.006, 0.05), gas: r.int(0, 4) as usize }
}
pub fn layers(r: &mut Rng) -> Vec<Lay> {
    match r.int(0, 4) {
        0 => vec![solid(r)],
        1 => (0..r.int(2, 5)).map(|_| solid(r)).collect(),
        2 => vec![solid(r), cavity(r), solid(r)],
        _ => {
            let n = r.int(1, 5);
            let mut v = vec![glass(r)];
            for _ in 1..n {
                v.push(cavity(r));
                v.push(glass(r));
            }
            v
        }
    }
}
pub fn wall(r: &mut Rng, nz: usize) -> Wall {
    let b = |r: &mut Rng| match r.int(0, 6) {
        0 => Bnd::Out,
        1 => Bnd::Amb(r.range(-10., 40.)),
        _ if nz > 0 => Bnd::Zone(r.int(0, nz)),
        _ => Bnd::Out,
    };
    let mut w = Wall {
        layers: layers(r),
        w: r.range(0.5, 6.),
        h: r.range(0.5, 4.),
        az: r.range(-3.1, 3.1),
        tilt: *r.pick(&[0., 0.4, 1., std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2, 2.5]),
        z: r.range(2., 20.),
        front: b(r),
        back: b(r),
        window: r.int(0, 4) == 0,
    };
    if r.int(0, 6) == 0 {
        w.back = Bnd::Adi;
    }
    w
}
pub fn bnd(b: &Bnd) -> Boundary {
    match b {
        Bnd::Out => Boundary::Outdoor,
        Bnd::Zone(i) => Boundary::Space { space: format!("space {}", i) },
        Bnd::Amb(t) => Boundary::AmbientTemperature { temperature: *t },
        Bnd::Adi => Boundary::Adiabatic,
    }
}
pub fn build(d: &Desc, inf: impl Fn(usize, &mut Space, &mut Model)) -> (Model, SimulationStateHeader) {
    let mut m = Model::default();
    for (i, v) in d.vols.iter().enumerate() {
        let mut s = Space::new(format!("space {}", i));
        s.set_volume(*v);
        inf(i, &mut s, &mut m);
        m.add_space(s);
    }
    for (i, w) in d.walls.iter().enumerate() {
        let mut c = Construction::new(format!("constr {}", i));
        for (j, l) in w.layers.iter().enumerate() {
            let n = format!("{}-{}", i, j);
            let th = match l {
                Lay::Solid { d, k, rho, cp, tau, a, e } => {
                    let mut s = Normal::new(n.clone());
                    s.set_thermal_conductivity(*k).set_density(*rho).set_specific_heat_capacity(*cp).set_solar_transmittance(*tau);
                    s.set_front_solar_absorbtance(a[0]).set_back_solar_absorbtance(a[1]).set_front_thermal_absorbtance(e[0]).set_back_thermal_absorbtance(e[1]);
                    m.add_substance(s.wrap());
                    *d
                }
                Lay::Cavity { d, gas } => {
                    let mut s = Gas::new(n.clone());
                    s.set_gas(match gas {
                        0 => GasSpecification::Air,
                        1 => GasSpecification::Argon,
                        2 => GasSpecification::Krypton,
                        _ => GasSpecification::Xenon,
                    });
                    m.add_substance(s.wrap());
                    *d
                }
            };
            m.add_material(Material::new(n.clone(), n.clone(), th));
            c.materials.push(n);
        }
        m.add_construction(c);
        if w.window {
            m.add_fenestration(Fenestration::new(format!("win {}", i), w.poly(), format!("constr {}", i), FenestrationType::Window, bnd(&w.front), bnd(&w.back))).unwrap();
        } else {
            m.add_surface(Surface::new(format!("surf {}", i), w.poly(), format!("constr {}", i), bnd(&w.front), bnd(&w.back))).unwrap();
        }
    }
    for (i, (s, ideal)) in d.hvacs.iter().enumerate() {
        if *ideal {
            let mut h = IdealHeaterCooler::new(format!("hvac {}", i));
            h.set_target_space(format!("space {}", s));
            m.add_hvac(h.wrap()).unwrap();
        } else {
            let mut h = ElectricHeater::new(format!("hvac {}", i));
            h.set_target_space(format!("space {}", s));
            m.add_hvac(h.wrap()).unwrap();
        }
    }
    for (i, s) in d.lums.iter().enumerate() {
        let mut l = Luminaire::new(format!("lum {}", i));
        l.set_target_space(format!("space {}", s));
        m.add_luminaire(l).unwrap();
    }
    let h = m.take_state().unwrap();
    (m, h)
}
pub fn no_inf(_: usize, _: &mut Space, _: &mut Model) {}
pub fn const_inf(i: usize, s: &mut Space, _: &mut Model) {
    if i % 2 == 0 {
        s.set_infiltration(Infiltration::Constant { flow: 0.05 });
    }
}
