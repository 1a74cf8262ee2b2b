//@include geo.inc
//@include date.inc
/// decided in D01
impl Date { #[verifier::external_body] pub fn day_of_year(&self) -> (ret: R) requires dayvalid(*self) ensures ret@ == doy(*self) { unimplemented!() } }
//@struct weather/src/current_weather.rs CurrentWeather
//@struct weather/src/solar/mod.rs Solar
//@enum weather/src/solar/mod.rs Time
//@map PI=r_pi()
//@map crate::PI=r_pi()
/// trigonometry of the reals
#[verifier::external_body] pub proof fn pythagoras(x: real) ensures rsin(x) * rsin(x) + rcos(x) * rcos(x) == 1real { }
#[verifier::external_body] pub proof fn sin_sign(x: real) ensures 0real <= x <= rpi() ==> rsin(x) >= 0real, -rpi() <= x <= 0real ==> rsin(x) <= 0real { }
#[verifier::external_body] pub proof fn cos_down(x: real, y: real) requires 0real <= x <= rpi(), 0real <= y <= rpi() ensures (x < y) == (rcos(x) > rcos(y)) { }
#[verifier::external_body] pub proof fn cos_even(x: real) ensures rcos(-x) == rcos(x) { }
#[verifier::external_body] pub proof fn cos_pos(x: real) requires rabs(x) < rpi() / 2real ensures rcos(x) > 0real { }
#[verifier::external_body] pub proof fn pi_is() ensures (314159265real / 100000000real) < rpi() < (314159266real / 100000000real) { }

pub open spec fn deg(x: real) -> real { x * 180real / rpi() }
/// the angle of the day of the year in the Fourier series of Spencer
pub open spec fn bday(n: real) -> real { (n - 1real) * 2real * rpi() / 365real }
/// minutes: Duffie and Beckman, 1.5.3
pub open spec fn eot(n: real) -> real {
  let b = bday(n);
  (2292real / 10real) * ((75real / 1000000real) + (1868real / 1000000real) * rcos(b) - (32077real / 1000000real) * rsin(b) - (14615real / 1000000real) * rcos(2real * b) - (4089real / 100000real) * rsin(2real * b))
}
pub open spec fn decl(n: real) -> real {
  let b = bday(n);
  (6918real / 1000000real) - (399912real / 1000000real) * rcos(b) + (70257real / 1000000real) * rsin(b) - (6758real / 1000000real) * rcos(2real * b)
    + (907real / 1000000real) * rsin(2real * b) - (2697real / 1000000real) * rcos(3real * b) + (1480real / 1000000real) * rsin(3real * b)
}
/// W/m2 on a plane that faces the sun beyond the atmosphere
pub open spec fn extra(n: real) -> real {
  let b = bday(n);
  (13677real / 10real) * ((1000110real / 1000000real) + (34221real / 1000000real) * rcos(b) + (1280real / 1000000real) * rsin(b) + (719real / 1000000real) * rcos(2real * b) + (77real / 1000000real) * rsin(2real * b))
}
/// minutes from standard to solar time
pub open spec fn ahead(s: Solar, n: real) -> real { 4real * deg(s.standard_meridian@ - s.longitude@) + eot(n) }
pub open spec fn solar_t(s: Solar, n: Time) -> real { match n { Time::Solar(t) => t@, Time::Standard(t) => t@ + ahead(s, t@) / 24real / 60real } }
pub open spec fn standard_t(s: Solar, n: Time) -> real { match n { Time::Solar(t) => t@ - ahead(s, t@) / 24real / 60real, Time::Standard(t) => t@ } }
pub open spec fn frac(n: real) -> real { n - rfloor(n) }
/// 15 degrees per hour from solar noon
pub open spec fn omega(n: real) -> real { (24real * frac(n) - 12real) * 15real * rpi() / 180real }
pub open spec fn half_day(s: Solar, n: real) -> real { deg(racos(-rtan(s.latitude@) * rtan(decl(n)))) / 15real }
/// X is East, Y is North, Z is up
pub open spec fn sun_at(s: Solar, n: real) -> V {
  let (p, d, w) = (s.latitude@, decl(n), omega(n));
  mkv(-rcos(d) * rsin(w), rsin(d) * rcos(p) - rcos(d) * rcos(w) * rsin(p), rcos(p) * rcos(d) * rcos(w) + rsin(p) * rsin(d))
}
/// between the polar circles
pub open spec fn ordinary(s: Solar, n: real) -> bool { rabs(s.latitude@) < rpi() / 2real && rabs(rtan(s.latitude@) * rtan(decl(n))) <= 1real }

//@fn weather/src/solar/mod.rs Solar::b (self, n)
ensures ret@ == bday(n@),
//@endfn
//@fn weather/src/solar/mod.rs Solar::equation_of_time (self, n)
ensures ret@ == eot(n@),
//@endfn
//@fn weather/src/solar/mod.rs Solar::declination (self, n)
ensures ret@ == decl(n@), rabs(ret@) < 1real,
//@endfn
//@fn weather/src/solar/mod.rs Solar::normal_extraterrestrial_radiation (self, n)
ensures ret@ == extra(n@), ret@ > 0real,
//@endfn
//@fn weather/src/solar/mod.rs Solar::solar_standard_time_difference (self, n)
ensures ret@ == ahead(*self, n@),
//@endfn
//@fn weather/src/solar/mod.rs Solar::unwrap_solar_time (self, n)
ensures ret@ == solar_t(*self, n),
//@endfn
//@fn weather/src/solar/mod.rs Solar::unwrap_standard_time (self, n)
ensures ret@ == standard_t(*self, n),
//@endfn
