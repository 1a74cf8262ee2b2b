#![allow(non_camel_case_types, unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unused_must_use, non_upper_case_globals)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
// ---- R: the Float of the code, read as a real number (assumption: machine arithmetic treated as
// mathematical; every operation below is exact; NaN and infinities are outside the domain).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { v: f64 }
impl R {
    pub uninterp spec fn view(&self) -> real;
}
#[verifier::external_body] pub fn vp_unreached<T>() -> (r: T) requires false { unimplemented!() }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub open spec fn rfloor(x: real) -> real { x.floor() as real }
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rtan(x: real) -> real;
pub uninterp spec fn racos(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rpowf(x: real, y: real) -> real;
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn reps() -> real;
pub uninterp spec fn rbig() -> real;
// f64 also takes a reference on the right
impl<'a> vstd::std_specs::ops::MulSpecImpl<R> for &'a R { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: R) -> bool { true } open spec fn mul_spec(self, o: R) -> R { arbitrary() } }
impl<'a> core::ops::Mul<R> for &'a R { type Output = R;
    #[verifier::external_body] fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<&R> for &'a R { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &R) -> bool { true } open spec fn mul_spec(self, o: &R) -> R { arbitrary() } }
impl<'a> core::ops::Mul<&R> for &'a R { type Output = R;
    #[verifier::external_body] fn mul(self, o: &R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> vstd::std_specs::ops::DivSpecImpl<R> for &'a R { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: R) -> bool { true } open spec fn div_spec(self, o: R) -> R { arbitrary() } }
impl<'a> core::ops::Div<R> for &'a R { type Output = R;
    #[verifier::external_body] fn div(self, o: R) -> (r: R) ensures o@ != 0real ==> (r@ == self@ / o@ && r@ * o@ == self@), (o@ > 0real && self@ > 0real) ==> r@ > 0real { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&R> for R { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &R) -> bool { true } open spec fn add_spec(self, o: &R) -> R { arbitrary() } }
impl core::ops::Add<&R> for R { type Output = R;
    #[verifier::external_body] fn add(self, o: &R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&R> for R { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &R) -> bool { true } open spec fn sub_spec(self, o: &R) -> R { arbitrary() } }
impl core::ops::Sub<&R> for R { type Output = R;
    #[verifier::external_body] fn sub(self, o: &R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&R> for R { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &R) -> bool { true } open spec fn mul_spec(self, o: &R) -> R { arbitrary() } }
impl core::ops::Mul<&R> for R { type Output = R;
    #[verifier::external_body] fn mul(self, o: &R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for R { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: R) -> bool { true } open spec fn add_spec(self, o: R) -> R { arbitrary() } }
impl core::ops::Add for R { type Output = R;
    #[verifier::external_body] fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for R { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: R) -> bool { true } open spec fn sub_spec(self, o: R) -> R { arbitrary() } }
impl core::ops::Sub for R { type Output = R;
    #[verifier::external_body] fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for R { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: R) -> bool { true } open spec fn mul_spec(self, o: R) -> R { arbitrary() } }
impl core::ops::Mul for R { type Output = R;
    #[verifier::external_body] fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for R { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: R) -> bool { true } open spec fn div_spec(self, o: R) -> R { arbitrary() } }
impl core::ops::Div for R { type Output = R;
    #[verifier::external_body] fn div(self, o: R) -> (r: R) ensures o@ != 0real ==> (r@ == self@ / o@ && r@ * o@ == self@),
        (o@ > 0real && self@ >= 0real) ==> r@ >= 0real, (o@ > 0real && self@ <= o@) ==> r@ <= 1real, (o@ > 0real && self@ > 0real) ==> r@ > 0real { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl for R { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, o: R) -> bool { true } open spec fn rem_spec(self, o: R) -> R { arbitrary() } }
impl core::ops::Rem for R { type Output = R;
    #[verifier::external_body] fn rem(self, o: R) -> (r: R)
        ensures (self@ >= 0real && o@ > 0real) ==> (0real <= r@ < o@ && r@ == self@ - o@ * rfloor(self@ / o@)) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for R { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> R { arbitrary() } }
impl core::ops::Neg for R { type Output = R;
    #[verifier::external_body] fn neg(self) -> (r: R) ensures r@ == -self@ { unimplemented!() } }
impl PartialEq for R {
    #[verifier::external_body] fn eq(&self, o: &R) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body] fn ne(&self, o: &R) -> (r: bool) ensures r == (self@ != o@) { unimplemented!() } }
impl PartialOrd for R {
    #[verifier::external_body] fn partial_cmp(&self, o: &R) -> (r: Option<Ordering>)
        ensures r == Some(if self@ < o@ { Ordering::Less } else if self@ > o@ { Ordering::Greater } else { Ordering::Equal }) { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &R) -> (r: bool) ensures r == (self@ < o@) { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &R) -> (r: bool) ensures r == (self@ <= o@) { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &R) -> (r: bool) ensures r == (self@ > o@) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &R) -> (r: bool) ensures r == (self@ >= o@) { unimplemented!() } }
impl R {
    #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r@ == rabs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: R) -> (r: R) ensures r@ == rmin(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: R) -> (r: R) ensures r@ == rmax(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: R) ensures r@ == rsqrt(self@), self@ >= 0real ==> (r@ >= 0real && r@ * r@ == self@) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: R) ensures r@ == rfloor(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: R) ensures r@ == -rfloor(-self@) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: R) ensures self@ >= 0real ==> r@ == rfloor(self@ + (1real/2real)) { unimplemented!() }
    #[verifier::external_body] pub fn powi2(self) -> (r: R) ensures r@ == self@ * self@ { unimplemented!() }
    #[verifier::external_body] pub fn powi3(self) -> (r: R) ensures r@ == self@ * self@ * self@ { unimplemented!() }
    #[verifier::external_body] pub fn powi4(self) -> (r: R) ensures r@ == self@ * self@ * self@ * self@ { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: R) ensures n >= 0 ==> r@ == rpow(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, n: R) -> (r: R) ensures r@ == rpowf(self@, n@), self@ > 0real ==> r@ > 0real, (self@ == 0real && n@ > 0real) ==> r@ == 0real { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: R) ensures r@ == rsin(self@), -1real <= r@ <= 1real { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: R) ensures r@ == rcos(self@), -1real <= r@ <= 1real, rabs(self@) < rpi() / 2real ==> r@ > 0real { unimplemented!() }
    #[verifier::external_body] pub fn tan(self) -> (r: R) ensures r@ == rtan(self@), rcos(self@) != 0real ==> r@ * rcos(self@) == rsin(self@) { unimplemented!() }
    #[verifier::external_body] pub fn acos(self) -> (r: R) ensures r@ == racos(self@), -1real <= self@ <= 1real ==> (0real <= r@ <= rpi() && rcos(r@) == self@) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, lo: R, hi: R) -> (r: R) requires lo@ <= hi@ ensures r@ == rmax(lo@, rmin(self@, hi@)) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: R) ensures r@ == rexp(self@), r@ > 0real { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: R) ensures r@ == rln(self@) { unimplemented!() }
    #[verifier::external_body] pub fn to_radians(self) -> (r: R) ensures r@ == self@ * rpi() / 180real { unimplemented!() }
    #[verifier::external_body] pub fn to_degrees(self) -> (r: R) ensures r@ == self@ * 180real / rpi() { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures !r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures self@ != 0real ==> r == (self@ < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn EPSILON() -> (r: R) ensures r@ == reps(), 0real < r@ < (1real / 1000000real) { unimplemented!() }
    #[verifier::external_body] pub fn MAX() -> (r: R) ensures r@ == rbig(), r@ > 1000000real { unimplemented!() }
    #[verifier::external_body] pub fn MIN() -> (r: R) ensures r@ == -rbig(), r@ < -1000000real { unimplemented!() }
    #[verifier::external_body] pub fn as_usize(self) -> (r: usize) ensures (0real <= self@ <= usize::MAX as real) ==> r as int == self@.floor() { unimplemented!() }
    #[verifier::external_body] pub fn as_u8(self) -> (r: u8) ensures (0real <= self@ <= 255real) ==> r as int == self@.floor() { unimplemented!() }
    #[verifier::external_body] pub fn as_i32(self) -> (r: i32) ensures (0real <= self@ <= 2147483647real) ==> r as int == self@.floor() { unimplemented!() }
    pub fn to_r(self) -> (r: R) ensures r == self { self }
    pub fn clone(&self) -> (r: R) ensures r == *self { *self }
}
#[verifier::external_body] pub fn r_pi() -> (r: R) ensures r@ == rpi(), (314159265real / 100000000real) < r@ < (314159266real / 100000000real) { unimplemented!() }
pub trait ToR: Sized { spec fn to_r_spec(self) -> real; fn to_r(self) -> (r: R) ensures r@ == self.to_r_spec(); }
impl ToR for usize { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u8 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u32 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for i32 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u64 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for i64 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
impl ToR for u16 { open spec fn to_r_spec(self) -> real { self as real } #[verifier::external_body] fn to_r(self) -> (r: R) { unimplemented!() } }
pub trait CastTo_usize: Sized { spec fn as_usize_pre(self) -> int; fn as_usize(self) -> (r: usize) ensures (usize::MIN <= self.as_usize_pre() <= usize::MAX) ==> r as int == self.as_usize_pre(); }
impl CastTo_usize for usize { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for u8 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for u32 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for i32 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for u64 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for i64 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
impl CastTo_usize for u16 { open spec fn as_usize_pre(self) -> int { self as int } #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() } }
pub trait CastTo_u8: Sized { spec fn as_u8_pre(self) -> int; fn as_u8(self) -> (r: u8) ensures (u8::MIN <= self.as_u8_pre() <= u8::MAX) ==> r as int == self.as_u8_pre(); }
impl CastTo_u8 for usize { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for u8 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for u32 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for i32 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for u64 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for i64 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
impl CastTo_u8 for u16 { open spec fn as_u8_pre(self) -> int { self as int } #[verifier::external_body] fn as_u8(self) -> (r: u8) { unimplemented!() } }
pub trait CastTo_i32: Sized { spec fn as_i32_pre(self) -> int; fn as_i32(self) -> (r: i32) ensures (i32::MIN <= self.as_i32_pre() <= i32::MAX) ==> r as int == self.as_i32_pre(); }
impl CastTo_i32 for usize { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for u8 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for u32 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for i32 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for u64 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for i64 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
impl CastTo_i32 for u16 { open spec fn as_i32_pre(self) -> int { self as int } #[verifier::external_body] fn as_i32(self) -> (r: i32) { unimplemented!() } }
pub trait CastTo_u32: Sized { spec fn as_u32_pre(self) -> int; fn as_u32(self) -> (r: u32) ensures (u32::MIN <= self.as_u32_pre() <= u32::MAX) ==> r as int == self.as_u32_pre(); }
impl CastTo_u32 for usize { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for u8 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for u32 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for i32 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for u64 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for i64 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }
impl CastTo_u32 for u16 { open spec fn as_u32_pre(self) -> int { self as int } #[verifier::external_body] fn as_u32(self) -> (r: u32) { unimplemented!() } }

// ---- lowering helpers
#[verifier::external_body] pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn vp_abort<T>() -> (r: T) ensures false { unimplemented!() }
pub fn vp_assert(c: bool) requires c { }
#[verifier::external_body] pub fn vp_string() -> (r: String) { unimplemented!() }
pub fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vp_range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b - a } else { 0int }) { if a <= b { b - a } else { 0 } }
/// number of items of step_by(s), s > 0, over n items
#[verifier::external_body] pub fn vp_steps(n: usize, s: usize) -> (r: usize) requires s > 0 ensures n == 0 ==> r == 0, n > 0 ==> (r > 0 && (r - 1) * s < n && n <= r * s) { unimplemented!() }
/// number of chunks of chunks_exact(s), s > 0, over n items
#[verifier::external_body] pub fn vp_chunks(n: usize, s: usize) -> (r: usize) requires s > 0 ensures r * s <= n, n < (r + 1) * s { unimplemented!() }
pub fn vp_ok_or<T>(x: Option<T>) -> (r: Result<T, String>)
    ensures x is Some ==> r == Ok::<T, String>(x->0), x is None ==> r is Err
{ match x { Some(v) => Ok(v), None => Err(vp_string()) } }
pub fn vp_map_err<T, E>(x: Result<T, E>) -> (r: Result<T, String>)
    ensures x is Ok ==> r == Ok::<T, String>(x->Ok_0), x is Err ==> r is Err
{ match x { Ok(v) => Ok(v), Err(_) => Err(vp_string()) } }
#[verifier::external_body] pub fn vp_vec_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
#[verifier::external_body] pub fn vp_vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
// std's slice copies
pub trait VpSlice<T> { spec fn vp_sq(&self) -> Seq<T>; fn vp_slice(&self) -> (r: &[T]) ensures r@ == self.vp_sq(); fn vp_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vp_sq(); }
impl<T> VpSlice<T> for Vec<T> { open spec fn vp_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_slice(&self) -> (r: &[T]) { unimplemented!() } #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VpSlice<T> for [T] { open spec fn vp_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_slice(&self) -> (r: &[T]) { unimplemented!() } #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
#[verifier::external_body] pub fn vp_sub<T>(a: &[T], lo: usize, hi: usize) -> (r: &[T]) requires lo <= hi <= a@.len() ensures r@ == a@.subrange(lo as int, hi as int) { unimplemented!() }
pub open spec fn vp_copied<T>(d0: Seq<T>, d1: Seq<T>, a: int, b: int, s: Seq<T>, c: int) -> bool {
    d1.len() == d0.len() && forall|i: int| 0 <= i < d0.len() ==> #[trigger] d1[i] == (if a <= i < b { s[c + i - a] } else { d0[i] })
}
pub trait VpCopy<T: Copy> { spec fn vp_cq(&self) -> Seq<T>;
    fn vp_copy_range(&mut self, a: usize, b: usize, s: &[T], c: usize, d: usize)
        requires a <= b <= old(self).vp_cq().len(), c <= d <= s@.len(), b - a == d - c,
        ensures vp_copied(old(self).vp_cq(), final(self).vp_cq(), a as int, b as int, s@, c as int); }
impl<T: Copy> VpCopy<T> for Vec<T> { open spec fn vp_cq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_copy_range(&mut self, a: usize, b: usize, s: &[T], c: usize, d: usize) { unimplemented!() } }
impl<T: Copy> VpCopy<T> for [T] { open spec fn vp_cq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_copy_range(&mut self, a: usize, b: usize, s: &[T], c: usize, d: usize) { unimplemented!() } }
/// slice::fill
pub trait VpFill<T: Copy> { spec fn vp_fq(&self) -> Seq<T>;
    fn vp_fill(&mut self, v: T) ensures final(self).vp_fq().len() == old(self).vp_fq().len(), forall|i: int| 0 <= i < old(self).vp_fq().len() ==> #[trigger] final(self).vp_fq()[i] == v; }
impl<T: Copy> VpFill<T> for Vec<T> { open spec fn vp_fq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_fill(&mut self, v: T) { unimplemented!() } }
/// Iterator::sum
pub trait VpZ: Sized { spec fn is_z(self) -> bool; fn vp_z() -> (r: Self) ensures r.is_z(); }
impl VpZ for usize { open spec fn is_z(self) -> bool { self == 0 } fn vp_z() -> (r: Self) { 0 } }
impl VpZ for R { open spec fn is_z(self) -> bool { self@ == 0real } #[verifier::external_body] fn vp_z() -> (r: Self) { unimplemented!() } }
pub fn vp_zero<T: VpZ>() -> (r: T) ensures r.is_z() { T::vp_z() }
pub fn vp_deref<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
} // verus!
