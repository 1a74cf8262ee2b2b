//@struct heat/src/convection.rs ConvectionParams
/// TARP, natural convection, W/m2K
pub open spec fn tarp(p: ConvectionParams) -> real { natural(p.air_temperature@, p.surface_temperature@, p.cos_surface_tilt@) }
/// c: cosine of the tilt of the side away from the air (over 0: the air is below)
pub open spec fn natural(air: real, surface: real, c: real) -> real {
    let d = air - surface; let q = rpowf(rabs(d), 1real / 3real);
    rmax(1real / 10real, if rabs(d) < (1real / 1000real) || rabs(c) < (1real / 1000real) { (131real / 100real) * q }
      else if d * c > 0real { (9482real / 1000real) * q / ((7238real / 1000real) - rabs(c)) }
      else { (181real / 100real) * q / ((1382real / 1000real) + rabs(c)) })
}
pub open spec fn rough(i: int) -> real {
    if i == 0 { 217real / 100real } else if i == 1 { 167real / 100real } else if i == 2 { 152real / 100real } else if i == 3 { 113real / 100real } else if i == 4 { 111real / 100real } else { 1real }
}

//@fn heat/src/convection.rs ConvectionParams::get_tarp_natural_convection_coefficient (self)
requires -1real <= self.cos_surface_tilt@ <= 1real,
ensures ret@ == tarp(*self), ret@ >= 1real / 10real,
//@at end
proof { let d = self.air_temperature@ - self.surface_temperature@; let c = self.cos_surface_tilt@;
  assert(d * c > 0real <==> (d > 0real && c > 0real || d < 0real && c < 0real)) by(nonlinear_arith); }
//@endfn

//@fn heat/src/convection.rs ConvectionParams::get_tarp_convection_coefficient (self, area, perimeter, windward)
requires -1real <= self.cos_surface_tilt@ <= 1real, self.roughness_index < 6, area@ > 0real, perimeter@ >= 0real, self.air_speed@ >= 0real,
ensures ret@ == tarp(*self) + (2537real / 1000real) * (if windward { 1real } else { 5real / 10real }) * rough(self.roughness_index as int) * rsqrt(perimeter@ * self.air_speed@ / area@),
   ret@ >= 1real / 10real,
//@at end
proof { pm0(perimeter@, self.air_speed@); let q = perimeter@ * self.air_speed@ / area@; assert(q >= 0real); assert(wf@ > 0real && rf@ > 0real);
  pm(2537real / 1000real, wf@); pm((2537real / 1000real) * wf@, rf@); pm0((2537real / 1000real) * wf@ * rf@, rsqrt(q)); }
//@endfn
