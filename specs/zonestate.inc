// spaces, equipment and surfaces: the getters that macros generate are assumed to give what is stored
use std::sync::Arc;
#[verifier::external_body] pub struct SimulationState { v: Vec<f64> }
#[verifier::external_body] pub struct Space { v: Vec<f64> }
#[verifier::external_body] pub struct IdealHeaterCooler { v: Vec<f64> }
#[verifier::external_body] pub struct ElectricHeater { v: Vec<f64> }
#[verifier::external_body] pub struct Luminaire { v: Vec<f64> }
#[verifier::external_body] pub struct Wall { v: Vec<f64> }
pub uninterp spec fn dry(w: Space, s: SimulationState) -> Option<R>;
pub uninterp spec fn inf_t(w: Space, s: SimulationState) -> Option<R>;
pub uninterp spec fn inf_v(w: Space, s: SimulationState) -> Option<R>;
pub uninterp spec fn vent_t(w: Space, s: SimulationState) -> Option<R>;
pub uninterp spec fn vent_v(w: Space, s: SimulationState) -> Option<R>;
impl Space {
    #[verifier::external_body] pub fn dry_bulb_temperature(&self, s: &SimulationState) -> (r: Option<R>) ensures r == dry(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn infiltration_temperature(&self, s: &SimulationState) -> (r: Option<R>) ensures r == inf_t(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn infiltration_volume(&self, s: &SimulationState) -> (r: Option<R>) ensures r == inf_v(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn ventilation_temperature(&self, s: &SimulationState) -> (r: Option<R>) ensures r == vent_t(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn ventilation_volume(&self, s: &SimulationState) -> (r: Option<R>) ensures r == vent_v(*self, *s) { unimplemented!() }
}
pub uninterp spec fn ideal_target(w: IdealHeaterCooler) -> bool;
pub uninterp spec fn electric_target(w: ElectricHeater) -> bool;
pub uninterp spec fn ideal_power(w: IdealHeaterCooler, s: SimulationState) -> Option<R>;
pub uninterp spec fn electric_power(w: ElectricHeater, s: SimulationState) -> Option<R>;
pub uninterp spec fn lum_power(w: Luminaire, s: SimulationState) -> Option<R>;
impl IdealHeaterCooler {
    #[verifier::external_body] pub fn target_space(&self) -> (r: Result<&String, String>) ensures r.is_ok() == ideal_target(*self) { unimplemented!() }
    #[verifier::external_body] pub fn heating_cooling_consumption(&self, s: &SimulationState) -> (r: Option<R>) ensures r == ideal_power(*self, *s) { unimplemented!() }
}
impl ElectricHeater {
    #[verifier::external_body] pub fn target_space(&self) -> (r: Result<&String, String>) ensures r.is_ok() == electric_target(*self) { unimplemented!() }
    #[verifier::external_body] pub fn heating_cooling_consumption(&self, s: &SimulationState) -> (r: Option<R>) ensures r == electric_power(*self, *s) { unimplemented!() }
}
impl Luminaire {
    #[verifier::external_body] pub fn power_consumption(&self, s: &SimulationState) -> (r: Option<R>) ensures r == lum_power(*self, *s) { unimplemented!() }
}
pub uninterp spec fn ir_f(w: Wall, s: SimulationState) -> real;
pub uninterp spec fn ir_b(w: Wall, s: SimulationState) -> real;
pub uninterp spec fn t_f(w: Wall, s: SimulationState) -> real;
pub uninterp spec fn t_b(w: Wall, s: SimulationState) -> real;
pub uninterp spec fn h_f(w: Wall, s: SimulationState) -> Option<R>;
pub uninterp spec fn h_b(w: Wall, s: SimulationState) -> Option<R>;
impl Wall {
    #[verifier::external_body] pub fn front_infrared_irradiance(&self, s: &SimulationState) -> (r: R) ensures r@ == ir_f(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn back_infrared_irradiance(&self, s: &SimulationState) -> (r: R) ensures r@ == ir_b(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn front_temperature(&self, s: &SimulationState) -> (r: R) ensures r@ == t_f(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn back_temperature(&self, s: &SimulationState) -> (r: R) ensures r@ == t_b(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn front_convection_coefficient(&self, s: &SimulationState) -> (r: Option<R>) ensures r == h_f(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn back_convection_coefficient(&self, s: &SimulationState) -> (r: Option<R>) ensures r == h_b(*self, *s) { unimplemented!() }
}
//@mono T=Wall
//@strip ThermalSurfaceData
pub type ThermalSurface = ThermalSurfaceData;
pub type ThermalFenestration = ThermalSurfaceData;
//@enum model/src/boundary.rs Boundary
//@struct heat/src/surface.rs ThermalSurfaceData only=parent,front_boundary,back_boundary,front_space_index,back_space_index,area,perimeter,normal,wind_speed_modifier,cos_tilt,front_hs,back_hs
//@enum heat/src/heating_cooling.rs ThermalHVAC
//@struct heat/src/luminaire.rs ThermalLuminaire
//@struct model/src/model.rs Model only=spaces
