//@include poly.inc
//@struct heat/src/gas.rs Gas
pub open spec fn gas_ok(g: Gas) -> bool { pok(g.thermal_conductivity) && pok(g.dynamic_viscosity) && pok(g.heat_capacity) }
/// the properties of the gas are physical at t kelvin
pub open spec fn gas_at(g: Gas, t: real) -> bool { gas_ok(g) && t > 0real && g.mass@ > 0real && pval(g.thermal_conductivity, t) > 0real && pval(g.dynamic_viscosity, t) > 0real && pval(g.heat_capacity, t) > 0real }
pub open spec fn kel(t: R) -> real { t@ + (27315real / 100real) }
/// ideal gas at one atmosphere
pub open spec fn rho_of(g: Gas, t: real) -> real { 101325real * g.mass@ / ((831446261815324real / 100000000000real) * t) }
pub proof fn pm(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn pm0(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }

//@fn heat/src/gas.rs in_kelvin (t)
ensures ret@ == kel(t),
//@endfn

//@fn heat/src/gas.rs Gas::thermal_conductivity (self, temp)
requires gas_ok(*self),
ensures ret@ == pval(self.thermal_conductivity, temp@),
//@endfn

//@fn heat/src/gas.rs Gas::dynamic_viscosity (self, temp)
requires gas_ok(*self),
ensures ret@ == pval(self.dynamic_viscosity, temp@),
//@endfn

//@fn heat/src/gas.rs Gas::heat_capacity (self, temp)
requires gas_ok(*self),
ensures ret@ == pval(self.heat_capacity, temp@),
//@endfn

//@fn heat/src/gas.rs Gas::mass (self)
ensures ret == self.mass,
//@endfn

//@fn heat/src/gas.rs Gas::density (self, temp)
requires temp@ > 0real,
ensures ret@ == rho_of(*self, temp@), self.mass@ > 0real ==> ret@ > 0real,
//@at end
proof { let r = 831446261815324real / 100000000000real; pm(r, temp@); if self.mass@ > 0real { pm(101325real, self.mass@); } }
//@endfn

