//@struct geometry/src/transform.rs Transform
pub open spec fn me(m: [R; 16], i: int, j: int) -> real { m@[4 * i + j]@ }
/// the last row is 0 0 0 1
pub open spec fn affine(m: [R; 16]) -> bool { m@[12]@ == 0real && m@[13]@ == 0real && m@[14]@ == 0real && m@[15]@ == 1real }
pub open spec fn lin(m: [R; 16], v: V) -> V {
    mkv(m@[0]@ * v.x + m@[1]@ * v.y + m@[2]@ * v.z, m@[4]@ * v.x + m@[5]@ * v.y + m@[6]@ * v.z, m@[8]@ * v.x + m@[9]@ * v.y + m@[10]@ * v.z)
}
pub open spec fn linT(m: [R; 16], v: V) -> V {
    mkv(m@[0]@ * v.x + m@[4]@ * v.y + m@[8]@ * v.z, m@[1]@ * v.x + m@[5]@ * v.y + m@[9]@ * v.z, m@[2]@ * v.x + m@[6]@ * v.y + m@[10]@ * v.z)
}
pub open spec fn app(m: [R; 16], v: V) -> V { lin(m, v).plus(mkv(m@[3]@, m@[7]@, m@[11]@)) }
/// bound of the rounding error of applying m (gamma(3) times this)
pub open spec fn appabs(m: [R; 16], x: real, y: real, z: real) -> V {
    mkv(rabs(m@[0]@ * x) + rabs(m@[1]@ * y) + rabs(m@[2]@ * z) + rabs(m@[3]@),
        rabs(m@[4]@ * x) + rabs(m@[5]@ * y) + rabs(m@[6]@ * z) + rabs(m@[7]@),
        rabs(m@[8]@ * x) + rabs(m@[9]@ * y) + rabs(m@[10]@ * z) + rabs(m@[11]@))
}
pub open spec fn undoes(b: [R; 16], a: [R; 16]) -> bool { forall|v: V| #[trigger] app(b, app(a, v)) == v }
/// a transform of the affine kind that its inverse undoes
pub open spec fn twf(t: &Transform) -> bool {
    affine(t.elements) && affine(t.inv_elements) && undoes(t.inv_elements, t.elements) && undoes(t.elements, t.inv_elements)
}
pub open spec fn same_map(a: [R; 16], b: [R; 16]) -> bool { forall|i: int| 0 <= i < 16 ==> (#[trigger] a@[i])@ == b@[i]@ }
/// how a point, a vector or a normal moves
pub open spec fn t_pt(t: &Transform, p: V) -> V { app(t.elements, p) }
pub open spec fn t_vec(t: &Transform, p: V) -> V { lin(t.elements, p) }
pub open spec fn t_nor(t: &Transform, p: V) -> V { linT(t.inv_elements, p) }
pub open spec fn i_pt(t: &Transform, p: V) -> V { app(t.inv_elements, p) }
pub open spec fn i_vec(t: &Transform, p: V) -> V { lin(t.inv_elements, p) }
pub open spec fn i_nor(t: &Transform, p: V) -> V { linT(t.elements, p) }
pub proof fn lemma_d3(m: real, a: real, b: real, c: real, x: real, y: real, z: real)
    ensures m * (a * x + b * y + c * z) == (m * a) * x + (m * b) * y + (m * c) * z
{ lemma_m3(m, a * x, b * y, c * z); lemma_as(m, a, x); lemma_as(m, b, y); lemma_as(m, c, z); }
pub proof fn lemma_m3(m: real, p: real, q: real, r: real) ensures m * (p + q + r) == m * p + m * q + m * r { assert(m * (p + q + r) == m * p + m * q + m * r) by (nonlinear_arith); }
pub proof fn lemma_as(m: real, a: real, x: real) ensures m * (a * x) == (m * a) * x { assert(m * (a * x) == (m * a) * x) by (nonlinear_arith); }
pub proof fn lemma_row(p: real, q: real, r: real, a0: real, a1: real, a2: real, b0: real, b1: real, b2: real, c0: real, c1: real, c2: real, x: real, y: real, z: real)
    ensures p * (a0 * x + a1 * y + a2 * z) + q * (b0 * x + b1 * y + b2 * z) + r * (c0 * x + c1 * y + c2 * z)
      == (p * a0 + q * b0 + r * c0) * x + (p * a1 + q * b1 + r * c1) * y + (p * a2 + q * b2 + r * c2) * z
{ lemma_d3(p, a0, a1, a2, x, y, z); lemma_d3(q, b0, b1, b2, x, y, z); lemma_d3(r, c0, c1, c2, x, y, z);
  lemma_s3(p * a0, q * b0, r * c0, x); lemma_s3(p * a1, q * b1, r * c1, y); lemma_s3(p * a2, q * b2, r * c2, z); }
pub proof fn lemma_s3(a: real, b: real, c: real, x: real) ensures (a + b + c) * x == a * x + b * x + c * x { assert((a + b + c) * x == a * x + b * x + c * x) by (nonlinear_arith); }
pub proof fn lemma_s4(m: real, a: real, b: real, c: real, d: real) ensures m * (a + b + c + d) == m * a + m * b + m * c + m * d { assert(m * (a + b + c + d) == m * a + m * b + m * c + m * d) by (nonlinear_arith); }
pub open spec fn is_prod(r: [R; 16], a: [R; 16], b: [R; 16]) -> bool {
    forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] me(r, i, j) == me(a, i, 0) * me(b, 0, j) + me(a, i, 1) * me(b, 1, j) + me(a, i, 2) * me(b, 2, j) + me(a, i, 3) * me(b, 3, j)
}
pub proof fn lemma_split(m: real, x: real, y: real) ensures m * (x + y) == m * x + m * y { assert(m * (x + y) == m * x + m * y) by (nonlinear_arith); }
/// the product of two matrices does one after the other
pub proof fn lemma_prod(r: [R; 16], a: [R; 16], b: [R; 16], v: V)
    requires is_prod(r, a, b), affine(a), affine(b),
    ensures app(r, v) == app(a, app(b, v)), lin(r, v) == lin(a, lin(b, v)), affine(r),
{
    let w = lin(b, v);
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] a@[4 * i])@ * w.x + a@[4 * i + 1]@ * w.y + a@[4 * i + 2]@ * w.z
       == me(r, i, 0) * v.x + me(r, i, 1) * v.y + me(r, i, 2) * v.z by {
        lemma_row(a@[4 * i]@, a@[4 * i + 1]@, a@[4 * i + 2]@, b@[0]@, b@[1]@, b@[2]@, b@[4]@, b@[5]@, b@[6]@, b@[8]@, b@[9]@, b@[10]@, v.x, v.y, v.z);
        assert(me(r, i, 0) == me(a, i, 0) * me(b, 0, 0) + me(a, i, 1) * me(b, 1, 0) + me(a, i, 2) * me(b, 2, 0) + me(a, i, 3) * me(b, 3, 0));
        assert(me(r, i, 1) == me(a, i, 0) * me(b, 0, 1) + me(a, i, 1) * me(b, 1, 1) + me(a, i, 2) * me(b, 2, 1) + me(a, i, 3) * me(b, 3, 1));
        assert(me(r, i, 2) == me(a, i, 0) * me(b, 0, 2) + me(a, i, 1) * me(b, 1, 2) + me(a, i, 2) * me(b, 2, 2) + me(a, i, 3) * me(b, 3, 2));
        assert(me(a, i, 3) * me(b, 3, 0) == 0real && me(a, i, 3) * me(b, 3, 1) == 0real && me(a, i, 3) * me(b, 3, 2) == 0real);
    }
    assert(me(r, 0, 0) == r@[0]@ && me(r, 0, 1) == r@[1]@ && me(r, 0, 2) == r@[2]@ && me(r, 0, 3) == r@[3]@);
    assert(me(r, 1, 0) == r@[4]@ && me(r, 1, 1) == r@[5]@ && me(r, 1, 2) == r@[6]@ && me(r, 1, 3) == r@[7]@);
    assert(me(r, 2, 0) == r@[8]@ && me(r, 2, 1) == r@[9]@ && me(r, 2, 2) == r@[10]@ && me(r, 2, 3) == r@[11]@);
    assert(me(r, 3, 0) == r@[12]@ && me(r, 3, 1) == r@[13]@ && me(r, 3, 2) == r@[14]@ && me(r, 3, 3) == r@[15]@);
    assert(a@[4 * 0int]@ == a@[0]@ && a@[4 * 1int]@ == a@[4]@ && a@[4 * 2int]@ == a@[8]@);
    let q = mkv(b@[3]@, b@[7]@, b@[11]@);
    let w2 = app(b, v);
    assert(w2 == w.plus(q));
    lemma_split(a@[0]@, w.x, q.x); lemma_split(a@[1]@, w.y, q.y); lemma_split(a@[2]@, w.z, q.z);
    lemma_split(a@[4]@, w.x, q.x); lemma_split(a@[5]@, w.y, q.y); lemma_split(a@[6]@, w.z, q.z);
    lemma_split(a@[8]@, w.x, q.x); lemma_split(a@[9]@, w.y, q.y); lemma_split(a@[10]@, w.z, q.z);
}
pub proof fn lemma_comp(r: [R; 16], ri: [R; 16], a: Transform, b: Transform)
    requires is_prod(r, a.elements, b.elements), is_prod(ri, b.inv_elements, a.inv_elements), twf(&a), twf(&b),
    ensures undoes(ri, r), undoes(r, ri), affine(r), affine(ri),
{
    lemma_prod(r, a.elements, b.elements, vzero()); lemma_prod(ri, b.inv_elements, a.inv_elements, vzero());
    assert forall|v: V| #[trigger] app(ri, app(r, v)) == v by {
        lemma_prod(r, a.elements, b.elements, v);
        lemma_prod(ri, b.inv_elements, a.inv_elements, app(r, v));
        let w = app(b.elements, v);
        assert(app(a.inv_elements, app(a.elements, w)) == w);
        assert(app(b.inv_elements, app(b.elements, v)) == v);
    }
    assert forall|v: V| #[trigger] app(r, app(ri, v)) == v by {
        lemma_prod(ri, b.inv_elements, a.inv_elements, v);
        lemma_prod(r, a.elements, b.elements, app(ri, v));
        let w = app(a.inv_elements, v);
        assert(app(b.elements, app(b.inv_elements, w)) == w);
        assert(app(a.elements, app(a.inv_elements, v)) == v);
    }
}
pub proof fn lemma_sub3(m: real, x: real, y: real) ensures m * (x - y) == m * x - m * y { assert(m * (x - y) == m * x - m * y) by (nonlinear_arith); }
/// differences of points move as vectors
pub proof fn lemma_lin_sub(m: [R; 16], a: V, b: V) ensures lin(m, a.minus(b)) == app(m, a).minus(app(m, b)), lin(m, a.minus(b)) == lin(m, a).minus(lin(m, b))
{
    lemma_sub3(m@[0]@, a.x, b.x); lemma_sub3(m@[1]@, a.y, b.y); lemma_sub3(m@[2]@, a.z, b.z);
    lemma_sub3(m@[4]@, a.x, b.x); lemma_sub3(m@[5]@, a.y, b.y); lemma_sub3(m@[6]@, a.z, b.z);
    lemma_sub3(m@[8]@, a.x, b.x); lemma_sub3(m@[9]@, a.y, b.y); lemma_sub3(m@[10]@, a.z, b.z);
}
pub proof fn lemma_undo_vec(b: [R; 16], a: [R; 16], v: V) requires undoes(b, a) ensures lin(b, lin(a, v)) == v
{
    let z = vzero();
    lemma_lin_sub(a, v, z); lemma_lin_sub(b, app(a, v), app(a, z));
    assert(v.minus(z) == v);
    assert(app(b, app(a, v)) == v); assert(app(b, app(a, z)) == z);
}
pub proof fn lemma_adj(m: [R; 16], n: V, w: V) ensures linT(m, n).dot(w) == n.dot(lin(m, w))
{
    lemma_row(n.x, n.y, n.z, m@[0]@, m@[1]@, m@[2]@, m@[4]@, m@[5]@, m@[6]@, m@[8]@, m@[9]@, m@[10]@, w.x, w.y, w.z);
    assert(n.x * m@[0]@ == m@[0]@ * n.x && n.y * m@[4]@ == m@[4]@ * n.y && n.z * m@[8]@ == m@[8]@ * n.z) by (nonlinear_arith);
    assert(n.x * m@[1]@ == m@[1]@ * n.x && n.y * m@[5]@ == m@[5]@ * n.y && n.z * m@[9]@ == m@[9]@ * n.z) by (nonlinear_arith);
    assert(n.x * m@[2]@ == m@[2]@ * n.x && n.y * m@[6]@ == m@[6]@ * n.y && n.z * m@[10]@ == m@[10]@ * n.z) by (nonlinear_arith);
}
/// the laws of a transform: what one does the inverse undoes, for points, vectors and normals; normals stay perpendicular to what they were perpendicular to
pub proof fn lemma_transform_laws(t: &Transform, p: V, n: V)
    requires twf(t),
    ensures i_pt(t, t_pt(t, p)) == p, t_pt(t, i_pt(t, p)) == p, i_vec(t, t_vec(t, p)) == p, t_vec(t, i_vec(t, p)) == p,
        t_nor(t, n).dot(t_vec(t, p)) == n.dot(p), i_nor(t, n).dot(i_vec(t, p)) == n.dot(p),
{
    lemma_undo_vec(t.inv_elements, t.elements, p); lemma_undo_vec(t.elements, t.inv_elements, p);
    lemma_adj(t.inv_elements, n, t_vec(t, p)); lemma_adj(t.elements, n, i_vec(t, p));
    assert(app(t.inv_elements, app(t.elements, p)) == p);
    assert(app(t.elements, app(t.inv_elements, p)) == p);
}
/// sin and cos (assumption): sin^2 + cos^2 == 1
#[verifier::external_body] pub proof fn axiom_trig(x: real) ensures rsin(x) * rsin(x) + rcos(x) * rcos(x) == 1real {}
pub open spec fn gamma3() -> real { (reps() / 2real * 3real) / (1real - reps() / 2real * 3real) }
//@fn geometry/src/transform.rs mul4x4point (matrix, pt)
requires affine(*matrix),
ensures ret@ == app(*matrix, pt@),
//@endfn
//@fn geometry/src/transform.rs mul4x4vec (matrix, vec)
ensures ret@ == lin(*matrix, vec@),
//@endfn
//@fn geometry/src/transform.rs mul4x4_abs (matrix, x, y, z)
ensures ret@ == appabs(*matrix, x@, y@, z@),
//@endfn
//@fn geometry/src/transform.rs mul4x4 (m1, m2)
ensures is_prod(ret, *m1, *m2),
//@at end
proof { assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies #[trigger] me(vp_ret, i, j) == me(*m1, i, 0) * me(*m2, 0, j) + me(*m1, i, 1) * me(*m2, 1, j) + me(*m1, i, 2) * me(*m2, 2, j) + me(*m1, i, 3) * me(*m2, 3, j) by {
   if i == 0 { if j == 0 {} else if j == 1 {} else if j == 2 {} else { assert(j == 3); } }
   else if i == 1 { if j == 0 {} else if j == 1 {} else if j == 2 {} else { assert(j == 3); } }
   else if i == 2 { if j == 0 {} else if j == 1 {} else if j == 2 {} else { assert(j == 3); } }
   else { assert(i == 3); if j == 0 {} else if j == 1 {} else if j == 2 {} else { assert(j == 3); } } } }
//@endfn
//@fn geometry/src/transform.rs Transform:MulAssign<Self>:mul_assign (self, other) as=vp_mul_assign
requires twf(old(self)), twf(&other),
ensures twf(final(self)), forall|v: V| #[trigger] app(final(self).elements, v) == app(old(self).elements, app(other.elements, v)),
   forall|v: V| #[trigger] app(final(self).inv_elements, v) == app(other.inv_elements, app(old(self).inv_elements, v)),
   forall|v: V| #[trigger] lin(final(self).elements, v) == lin(old(self).elements, lin(other.elements, v)),
//@at end
proof { lemma_comp(self.elements, self.inv_elements, *old(self), other);
  assert forall|v: V| #[trigger] app(self.elements, v) == app(old(self).elements, app(other.elements, v)) by { lemma_prod(self.elements, old(self).elements, other.elements, v); }
  assert forall|v: V| #[trigger] lin(self.elements, v) == lin(old(self).elements, lin(other.elements, v)) by { lemma_prod(self.elements, old(self).elements, other.elements, v); }
  assert forall|v: V| #[trigger] app(self.inv_elements, v) == app(other.inv_elements, app(old(self).inv_elements, v)) by { lemma_prod(self.inv_elements, other.inv_elements, old(self).inv_elements, v); } }
//@endfn
pub open spec fn idm(m: [R; 16]) -> bool {
    affine(m) && m@[0]@ == 1real && m@[1]@ == 0real && m@[2]@ == 0real && m@[3]@ == 0real && m@[4]@ == 0real && m@[5]@ == 1real && m@[6]@ == 0real && m@[7]@ == 0real
    && m@[8]@ == 0real && m@[9]@ == 0real && m@[10]@ == 1real && m@[11]@ == 0real
}
//@fn geometry/src/transform.rs Transform::new ()
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == v, forall|v: V| #[trigger] app(ret.inv_elements, v) == v, forall|v: V| #[trigger] lin(ret.elements, v) == v, idm(ret.elements), idm(ret.inv_elements),
//@loop 0
invariant elements@.len() == 16, $n == 4, forall|k: int| 0 <= k < 16 ==> (#[trigger] elements@[k])@ == (if k % 5 == 0 && k / 5 < $k { 1real } else { 0real }),
//@endfn
//@fn geometry/src/transform.rs Transform:Default:default () as=vp_default
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == v,
//@endfn
//@fn geometry/src/transform.rs Transform::translate (x, y, z)
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == v.plus(mkv(x@, y@, z@)), forall|v: V| #[trigger] lin(ret.elements, v) == v,
//@endfn
pub proof fn lemma_undo_scale(k: real, i: real, v: real) requires i * k == 1real ensures i * (k * v) == v, k * (i * v) == v
{ lemma_as(i, k, v); lemma_as(k, i, v); assert(k * i == i * k) by (nonlinear_arith); }
//@fn geometry/src/transform.rs Transform::scale (x, y, z)
requires x@ != 0real, y@ != 0real, z@ != 0real,
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == mkv(x@ * v.x, y@ * v.y, z@ * v.z), forall|v: V| #[trigger] lin(ret.elements, v) == app(ret.elements, v),
//@at end
proof { let (a, b) = (vp_ret.elements, vp_ret.inv_elements);
  assert forall|v: V| #[trigger] app(b, app(a, v)) == v by { lemma_undo_scale(x@, b@[0]@, v.x); lemma_undo_scale(y@, b@[5]@, v.y); lemma_undo_scale(z@, b@[10]@, v.z); }
  assert forall|v: V| #[trigger] app(a, app(b, v)) == v by { lemma_undo_scale(x@, b@[0]@, v.x); lemma_undo_scale(y@, b@[5]@, v.y); lemma_undo_scale(z@, b@[10]@, v.z); } }
//@endfn
pub proof fn lemma_rot(c: real, s: real, a: real, b: real) requires s * s + c * c == 1real
    ensures c * (c * a - s * b) + s * (s * a + c * b) == a, c * (s * a + c * b) - s * (c * a - s * b) == b, c * (c * a + s * b) - s * (c * b - s * a) == a, s * (c * a + s * b) + c * (c * b - s * a) == b
{
    lemma_sub3(c, c * a, s * b); lemma_split(s, s * a, c * b); lemma_split(c, c * a, s * b); lemma_sub3(s, s * a, c * b);
    lemma_split(c, s * a, c * b); lemma_sub3(s, c * a, s * b); lemma_split(s, c * a, s * b); lemma_sub3(s, c * b, s * a); lemma_sub3(c, c * b, s * a);
    lemma_as(c, c, a); lemma_as(c, s, b); lemma_as(s, s, a); lemma_as(s, c, b); lemma_as(c, s, a); lemma_as(c, c, b); lemma_as(s, c, a); lemma_as(s, s, b);
    assert(c * s == s * c) by (nonlinear_arith);
    assert((s * s + c * c) * a == (s * s) * a + (c * c) * a) by (nonlinear_arith);
    assert((s * s + c * c) * b == (s * s) * b + (c * c) * b) by (nonlinear_arith);
}
pub open spec fn d2r(d: real) -> real { d * rpi() / 180real }
pub proof fn lemma_negmul(s: real, a: real) ensures (-s) * a == -(s * a) { assert((-s) * a == -(s * a)) by (nonlinear_arith); }
//@fn geometry/src/transform.rs Transform::rotate_x (degrees)
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == mkv(v.x, rcos(d2r(degrees@)) * v.y - rsin(d2r(degrees@)) * v.z, rsin(d2r(degrees@)) * v.y + rcos(d2r(degrees@)) * v.z),
   forall|v: V| #[trigger] lin(ret.elements, v) == app(ret.elements, v),
//@at end
proof { let (a, b) = (vp_ret.elements, vp_ret.inv_elements); let (c, s) = (rcos(d2r(degrees@)), rsin(d2r(degrees@)));
  axiom_trig(d2r(degrees@));
  assert forall|v: V| #[trigger] app(a, v) == mkv(v.x, c * v.y - s * v.z, s * v.y + c * v.z) && lin(a, v) == app(a, v) by { lemma_negmul(s, v.z); }
  assert forall|v: V| #[trigger] app(b, v) == mkv(v.x, c * v.y + s * v.z, c * v.z - s * v.y) by { lemma_negmul(s, v.y); }
  assert forall|v: V| #[trigger] app(b, app(a, v)) == v by { lemma_rot(c, s, v.y, v.z); let w = app(a, v); assert(app(b, w) == mkv(w.x, c * w.y + s * w.z, c * w.z - s * w.y)); }
  assert forall|v: V| #[trigger] app(a, app(b, v)) == v by { lemma_rot(c, s, v.y, v.z); let w = app(b, v); assert(app(a, w) == mkv(w.x, c * w.y - s * w.z, s * w.y + c * w.z)); } }
//@endfn
//@fn geometry/src/transform.rs Transform::rotate_y (degrees)
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == mkv(rcos(d2r(degrees@)) * v.x + rsin(d2r(degrees@)) * v.z, v.y, rcos(d2r(degrees@)) * v.z - rsin(d2r(degrees@)) * v.x),
   forall|v: V| #[trigger] lin(ret.elements, v) == app(ret.elements, v),
//@at end
proof { let (a, b) = (vp_ret.elements, vp_ret.inv_elements); let (c, s) = (rcos(d2r(degrees@)), rsin(d2r(degrees@)));
  axiom_trig(d2r(degrees@));
  assert forall|v: V| #[trigger] app(a, v) == mkv(c * v.x + s * v.z, v.y, c * v.z - s * v.x) && lin(a, v) == app(a, v) by { lemma_negmul(s, v.x); }
  assert forall|v: V| #[trigger] app(b, v) == mkv(c * v.x - s * v.z, v.y, c * v.z + s * v.x) by { lemma_negmul(s, v.z); }
  assert forall|v: V| #[trigger] app(b, app(a, v)) == v by { lemma_rot(c, s, v.x, v.z); let w = app(a, v); assert(app(b, w) == mkv(c * w.x - s * w.z, w.y, c * w.z + s * w.x)); }
  assert forall|v: V| #[trigger] app(a, app(b, v)) == v by { lemma_rot(c, s, v.x, v.z); let w = app(b, v); assert(app(a, w) == mkv(c * w.x + s * w.z, w.y, c * w.z - s * w.x)); } }
//@endfn
//@fn geometry/src/transform.rs Transform::rotate_z (degrees)
ensures twf(&ret), forall|v: V| #[trigger] app(ret.elements, v) == mkv(rcos(d2r(degrees@)) * v.x - rsin(d2r(degrees@)) * v.y, rsin(d2r(degrees@)) * v.x + rcos(d2r(degrees@)) * v.y, v.z),
   forall|v: V| #[trigger] lin(ret.elements, v) == app(ret.elements, v),
//@at end
proof { let (a, b) = (vp_ret.elements, vp_ret.inv_elements); let (c, s) = (rcos(d2r(degrees@)), rsin(d2r(degrees@)));
  axiom_trig(d2r(degrees@));
  assert forall|v: V| #[trigger] app(a, v) == mkv(c * v.x - s * v.y, s * v.x + c * v.y, v.z) && lin(a, v) == app(a, v) by { lemma_negmul(s, v.y); }
  assert forall|v: V| #[trigger] app(b, v) == mkv(c * v.x + s * v.y, c * v.y - s * v.x, v.z) by { lemma_negmul(s, v.x); }
  assert forall|v: V| #[trigger] app(b, app(a, v)) == v by { lemma_rot(c, s, v.x, v.y); let w = app(a, v); assert(app(b, w) == mkv(c * w.x + s * w.y, c * w.y - s * w.x, w.z)); }
  assert forall|v: V| #[trigger] app(a, app(b, v)) == v by { lemma_rot(c, s, v.x, v.y); let w = app(b, v); assert(app(a, w) == mkv(c * w.x - s * w.y, s * w.x + c * w.y, w.z)); } }
//@endfn
pub open spec fn det3(m: [R; 16]) -> real {
    mkv(m@[0]@, m@[1]@, m@[2]@).dot(mkv(m@[4]@, m@[5]@, m@[6]@).cross(mkv(m@[8]@, m@[9]@, m@[10]@)))
}
pub proof fn lemma_mid(b: real, p: real, q: real) ensures b * (p - q) == -(b * (q - p)) { assert(b * (p - q) == -(b * (q - p))) by (nonlinear_arith); }
//@fn geometry/src/transform.rs Transform::changes_hands (self)
ensures ret == (det3(self.elements) < 0real),
//@at start
proof { let m = self.elements; lemma_mid(m@[1]@, m@[6]@ * m@[8]@, m@[4]@ * m@[10]@); }
//@endfn
//@fn geometry/src/transform.rs Transform::transform_pt (self, pt)
requires affine(self.elements),
ensures ret@ == t_pt(self, pt@),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_pt (self, pt)
requires affine(self.inv_elements),
ensures ret@ == i_pt(self, pt@),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_vec (self, vec)
ensures ret@ == t_vec(self, vec@),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_vec (self, vec)
ensures ret@ == i_vec(self, vec@),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_normal (self, vec)
ensures ret@ == t_nor(self, vec@),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_normal (self, vec)
ensures ret@ == i_nor(self, vec@),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_pt_with_error (self, pt)
requires affine(self.elements),
ensures ret.0@ == t_pt(self, pt@), ret.1@ == appabs(self.elements, pt@.x, pt@.y, pt@.z).times(gamma3()),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_pt_with_error (self, pt)
requires affine(self.inv_elements),
ensures ret.0@ == i_pt(self, pt@), ret.1@ == appabs(self.inv_elements, pt@.x, pt@.y, pt@.z).times(gamma3()),
//@endfn
//@fn geometry/src/transform.rs Transform::transform_vec_with_error (self, vec)
ensures ret.0@ == t_vec(self, vec@), ret.1@ == appabs(self.elements, vec@.x, vec@.y, vec@.z).times(gamma3()),
//@endfn
//@fn geometry/src/transform.rs Transform::inv_transform_vec_with_error (self, vec)
ensures ret.0@ == i_vec(self, vec@), ret.1@ == appabs(self.inv_elements, vec@.x, vec@.y, vec@.z).times(gamma3()),
//@endfn
