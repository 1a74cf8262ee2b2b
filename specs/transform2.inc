pub open spec fn vabs(v: V) -> V { mkv(rabs(v.x), rabs(v.y), rabs(v.z)) }
/// how far a ray is moved along its direction to account for the rounding error of its origin
pub open spec fn shift(d: V, e: V) -> real { if d.dot(d) > 0real { vabs(d).dot(e) / d.dot(d) } else { 0real } }
pub proof fn lemma_nn(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn lemma_shift(d: V, e: V) requires e.x >= 0real, e.y >= 0real, e.z >= 0real ensures shift(d, e) >= 0real
{ lemma_nn(rabs(d.x), e.x); lemma_nn(rabs(d.y), e.y); lemma_nn(rabs(d.z), e.z);
  let p = vabs(d).dot(e); let q = d.dot(d); if q > 0real { assert(p / q >= 0real) by (nonlinear_arith) requires p >= 0real, q > 0real; } }
pub open spec fn errs(m: [R; 16], p: V) -> V { appabs(m, p.x, p.y, p.z).times(gamma3()) }
pub open spec fn errs_in(m: [R; 16], p: V, e: V) -> V { appabs(m, e.x, e.y, e.z).times(1real + gamma3()).plus(errs(m, p)) }

//@fn geometry/src/transform.rs Transform::transform_pt_propagate_error (self, pt, error)
requires affine(self.elements),
ensures ret.0@ == t_pt(self, pt@), ret.1@ == errs_in(self.elements, pt@, error@),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_vec_propagate_error (self, vec, error)
ensures ret.0@ == t_vec(self, vec@), ret.1@ == errs_in(self.elements, vec@, error@),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_ray (self, ray)
requires affine(self.elements),
ensures ret.0.direction@ == t_vec(self, ray.direction@), ret.1@ == errs(self.elements, ray.origin@), ret.2@ == errs(self.elements, ray.direction@),
   ret.0.origin@ == t_pt(self, ray.origin@).plus(ret.0.direction@.times(shift(ret.0.direction@, ret.1@))), shift(ret.0.direction@, ret.1@) >= 0real,
//@at end
proof { lemma_errs(self.elements, ray.origin@); lemma_shift(vp_ret.0.direction@, vp_ret.1@); }
//@endfn
//@fn geometry/src/transform.rs Transform::transform_ray_propagate_error (self, ray, o_error_in, d_error_in)
requires affine(self.elements),
ensures ret.0.direction@ == t_vec(self, ray.direction@), ret.1@ == errs_in(self.elements, ray.origin@, o_error_in@), ret.2@ == errs_in(self.elements, ray.direction@, d_error_in@),
   ret.0.origin@ == t_pt(self, ray.origin@).plus(ret.0.direction@.times(shift(ret.0.direction@, ret.1@))), shift(ret.0.direction@, ret.1@) >= 0real,
//@at end
proof { lemma_errs(self.elements, ray.origin@); lemma_errs_in(self.elements, ray.origin@, o_error_in@); lemma_shift(vp_ret.0.direction@, vp_ret.1@); }
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_pt_propagate_error (self, pt, error)
requires affine(self.inv_elements),
ensures ret.0@ == i_pt(self, pt@), ret.1@ == errs_in(self.inv_elements, pt@, error@),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_vec_propagate_error (self, vec, error)
ensures ret.0@ == i_vec(self, vec@), ret.1@ == errs_in(self.inv_elements, vec@, error@),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_ray (self, ray)
requires affine(self.inv_elements),
ensures ret.0.direction@ == i_vec(self, ray.direction@), ret.1@ == errs(self.inv_elements, ray.origin@), ret.2@ == errs(self.inv_elements, ray.direction@),
   ret.0.origin@ == i_pt(self, ray.origin@).plus(ret.0.direction@.times(shift(ret.0.direction@, ret.1@))), shift(ret.0.direction@, ret.1@) >= 0real,
//@at end
proof { lemma_errs(self.inv_elements, ray.origin@); lemma_shift(vp_ret.0.direction@, vp_ret.1@); }
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_ray_propagate_error (self, ray, o_error_in, d_error_in)
requires affine(self.inv_elements),
ensures ret.0.direction@ == i_vec(self, ray.direction@), ret.1@ == errs_in(self.inv_elements, ray.origin@, o_error_in@), ret.2@ == errs_in(self.inv_elements, ray.direction@, d_error_in@),
   ret.0.origin@ == i_pt(self, ray.origin@).plus(ret.0.direction@.times(shift(ret.0.direction@, ret.1@))), shift(ret.0.direction@, ret.1@) >= 0real,
//@at end
proof { lemma_errs(self.inv_elements, ray.origin@); lemma_errs_in(self.inv_elements, ray.origin@, o_error_in@); lemma_shift(vp_ret.0.direction@, vp_ret.1@); }
//@endfn
pub proof fn lemma_gamma() ensures gamma3() >= 0real { axiom_eps(); let a = reps() / 2real * 3real; assert(a >= 0real && 1real - a > 0real); let b = 1real - a; assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b > 0real; }
/// the machine epsilon is positive and small (assumption, as in the contract of EPSILON)
#[verifier::external_body] pub proof fn axiom_eps() ensures 0real < reps() < (1real / 1000000real) {}
pub proof fn lemma_errs(m: [R; 16], p: V) ensures errs(m, p).x >= 0real, errs(m, p).y >= 0real, errs(m, p).z >= 0real
{ lemma_gamma(); let a = appabs(m, p.x, p.y, p.z); lemma_nn(a.x, gamma3()); lemma_nn(a.y, gamma3()); lemma_nn(a.z, gamma3()); }
pub proof fn lemma_errs_in(m: [R; 16], p: V, e: V) ensures errs_in(m, p, e).x >= 0real, errs_in(m, p, e).y >= 0real, errs_in(m, p, e).z >= 0real
{ lemma_gamma(); lemma_errs(m, p); let a = appabs(m, e.x, e.y, e.z); let g = 1real + gamma3(); lemma_nn(a.x, g); lemma_nn(a.y, g); lemma_nn(a.z, g); }
//@include bbox.inc
/// a linear function on an interval stays below the larger of its values at the ends
pub proof fn lemma_ends(m: real, x: real, a: real, b: real) requires a <= x <= b ensures m * x <= rmax(m * a, m * b), m * x >= rmin(m * a, m * b)
{ if m >= 0real { assert(m * a <= m * x <= m * b) by (nonlinear_arith) requires a <= x <= b, m >= 0real; } else { assert(m * a >= m * x >= m * b) by (nonlinear_arith) requires a <= x <= b, m < 0real; } }
pub open spec fn corner(b: &BBox3D, i: bool, j: bool, k: bool) -> V { mkv(if i { b.max@.x } else { b.min@.x }, if j { b.max@.y } else { b.min@.y }, if k { b.max@.z } else { b.min@.z }) }
/// if all the corners of a box go into another box, the whole box does
pub proof fn lemma_corners(m: [R; 16], b: &BBox3D, r: &BBox3D, p: V)
    requires inb(b, p), forall|i: bool, j: bool, k: bool| inb(r, app(m, #[trigger] corner(b, i, j, k))),
    ensures inb(r, app(m, p)),
{
    let (q0, q1) = (b.min@, b.max@);
    lemma_ends(m@[0]@, p.x, q0.x, q1.x); lemma_ends(m@[1]@, p.y, q0.y, q1.y); lemma_ends(m@[2]@, p.z, q0.z, q1.z);
    lemma_ends(m@[4]@, p.x, q0.x, q1.x); lemma_ends(m@[5]@, p.y, q0.y, q1.y); lemma_ends(m@[6]@, p.z, q0.z, q1.z);
    lemma_ends(m@[8]@, p.x, q0.x, q1.x); lemma_ends(m@[9]@, p.y, q0.y, q1.y); lemma_ends(m@[10]@, p.z, q0.z, q1.z);
    assert(inb(r, app(m, corner(b, false, false, false)))); assert(inb(r, app(m, corner(b, true, false, false))));
    assert(inb(r, app(m, corner(b, false, true, false)))); assert(inb(r, app(m, corner(b, true, true, false))));
    assert(inb(r, app(m, corner(b, false, false, true)))); assert(inb(r, app(m, corner(b, true, false, true))));
    assert(inb(r, app(m, corner(b, false, true, true)))); assert(inb(r, app(m, corner(b, true, true, true))));
}
//@fn geometry/src/transform.rs Transform::transform_bbox (self, bbox)
requires affine(self.elements),
ensures forall|p: V| #[trigger] inb(&bbox, p) ==> inb(&ret, t_pt(self, p)), bwf(&ret),
//@at start
hide(app); hide(inb); hide(bwf); hide(vmin); hide(vmax);
//@at end
proof { assert forall|p: V| #[trigger] inb(&bbox, p) implies inb(&vp_ret, t_pt(self, p)) by {
   assert forall|i: bool, j: bool, k: bool| inb(&vp_ret, app(self.elements, #[trigger] corner(&bbox, i, j, k))) by { if i { if j { if k {} else {} } else { if k {} else {} } } else { if j { if k {} else {} } else { if k {} else {} } } }
   lemma_corners(self.elements, &bbox, &vp_ret, p); } }
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_bbox (self, bbox)
requires affine(self.inv_elements),
ensures forall|p: V| #[trigger] inb(&bbox, p) ==> inb(&ret, i_pt(self, p)), bwf(&ret),
//@at start
hide(app); hide(inb); hide(bwf); hide(vmin); hide(vmax);
//@at end
proof { assert forall|p: V| #[trigger] inb(&bbox, p) implies inb(&vp_ret, i_pt(self, p)) by {
   assert forall|i: bool, j: bool, k: bool| inb(&vp_ret, app(self.inv_elements, #[trigger] corner(&bbox, i, j, k))) by { if i { if j { if k {} else {} } else { if k {} else {} } } else { if j { if k {} else {} } else { if k {} else {} } } }
   lemma_corners(self.inv_elements, &bbox, &vp_ret, p); } }
//@endfn
//@enum geometry/src/intersection.rs SurfaceSide
//@struct geometry/src/intersection.rs IntersectionInfo
//@fn geometry/src/intersection.rs IntersectionInfo::transform (self, transform)
requires affine(transform.elements),
ensures ret.p@ == t_pt(transform, self.p@), ret.dpdu@ == t_vec(transform, self.dpdu@), ret.dpdv@ == t_vec(transform, self.dpdv@), ret.normal@ == t_nor(transform, self.normal@), ret.side == self.side,
//@endfn
//@fn geometry/src/intersection.rs IntersectionInfo::inv_transform (self, transform)
requires affine(transform.inv_elements),
ensures ret.p@ == i_pt(transform, self.p@), ret.dpdu@ == i_vec(transform, self.dpdu@), ret.dpdv@ == i_vec(transform, self.dpdv@), ret.normal@ == i_nor(transform, self.normal@), ret.side == self.side,
//@endfn
