//@struct calendar/src/date.rs Date
pub open spec fn cum(m: int) -> int {
    if m == 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
    else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334 }
}
pub open spec fn dim(m: int) -> int {
    if m == 2 { 28 } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub open spec fn dvalid(d: Date) -> bool {
    1 <= d.month <= 12 && 1 <= d.day <= dim(d.month as int) && 0real <= d.hour@ < 24real
}
pub open spec fn dayvalid(d: Date) -> bool { 1 <= d.month <= 12 && 1 <= d.day <= dim(d.month as int) }
/// whole days since January 1st
pub open spec fn diy(d: Date) -> int { cum(d.month as int) + d.day as int - 1 }
/// the day of the year, with decimals
pub open spec fn doy(d: Date) -> real { (diy(d) as real) + d.hour@ / 24real }
/// hours since the beginning of the year
pub open spec fn hrs(d: Date) -> real { 24real * (diy(d) as real) + d.hour@ }
/// b lies n hours after a, on the circular 365-day year
pub open spec fn after_hours(a: Date, b: Date, n: real) -> bool {
    exists|k: int| #[trigger] hrs_shift(a, n, k) == hrs(b)
}
pub open spec fn hrs_shift(a: Date, n: real, k: int) -> real { hrs(a) + n - 8760real * (k as real) }
// std's provided comparison operators, given `partial_cmp` (whose contract is proved below)
impl PartialEq for Date {
    #[verifier::external_body] fn eq(&self, o: &Date) -> (r: bool) ensures r == (self.month == o.month && self.day == o.day && self.hour@ == o.hour@) { unimplemented!() }
}
impl PartialOrd for Date {
    #[verifier::external_body] fn partial_cmp(&self, o: &Date) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &Date) -> (r: bool) ensures dvalid(*self) && dvalid(*o) ==> r == (doy(*self) < doy(*o)) { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &Date) -> (r: bool) ensures dvalid(*self) && dvalid(*o) ==> r == (doy(*self) <= doy(*o)) { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &Date) -> (r: bool) ensures dvalid(*self) && dvalid(*o) ==> r == (doy(*self) > doy(*o)) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &Date) -> (r: bool) ensures dvalid(*self) && dvalid(*o) ==> r == (doy(*self) >= doy(*o)) { unimplemented!() }
}
