//@fn geometry/src/ray3d.rs Ray3D::project (self, t)
ensures ret@ == self.origin@.plus(self.direction@.times(t@)),
//@endfn
pub open spec fn going(r: &Ray3D, t: real) -> V { r.origin@.plus(r.direction@.times(t)) }
/// the point of the triangle's plane with coordinates u and v
pub open spec fn bary(a: V, b: V, c: V, u: real, v: real) -> V { a.plus(b.minus(a).times(u)).plus(c.minus(a).times(v)) }
pub open spec fn tdet(r: &Ray3D, a: V, b: V, c: V) -> real { b.minus(a).dot(r.direction@.cross(c.minus(a))) }
/// the ray's line meets the triangle's plane at exactly one place
pub proof fn lemma_hit(o: V, d: V, a: V, b: V, c: V, f: real, u: real, v: real, t: real)
    requires ({ let (e1, e2, s) = (b.minus(a), c.minus(a), o.minus(a)); let h = d.cross(e2); let q = s.cross(e1);
        e1.dot(h) != 0real && f == 1real / e1.dot(h) && u == f * s.dot(h) && v == f * d.dot(q) && t == f * e2.dot(q) }),
    ensures o.plus(d.times(t)) == bary(a, b, c, u, v)
{
    let (e1, e2, s) = (b.minus(a), c.minus(a), o.minus(a)); let h = d.cross(e2); let q = s.cross(e1); let det = e1.dot(h); let z = d.neg();
    assert(det * f == 1real) by (nonlinear_arith) requires det != 0real, f == 1real / det;
    assert(det * (f * s.dot(h)) == s.dot(h)) by (nonlinear_arith) requires det * f == 1real;
    assert(det * (f * d.dot(q)) == d.dot(q)) by (nonlinear_arith) requires det * f == 1real;
    assert(det * (f * e2.dot(q)) == e2.dot(q)) by (nonlinear_arith) requires det * f == 1real;
    lemma_negcross(e2, d); lemma_negcross(d, e1); lemma_triple(s, e1, d); lemma_triple(s, e1, e2);
    assert(e2.cross(z) == h);
    assert(z.cross(e1) == e1.cross(d)) by { lemma_negcross2(d, e1); }
    lemma_cramer3(e1, e2, z, s, det, u, v, t);
    let w = e1.times(u).plus(e2.times(v)).plus(z.times(t));
    lemma_negtimes(d, t);
    assert(o.x + d.x * t == a.x + e1.x * u + e2.x * v);
    assert(o.y + d.y * t == a.y + e1.y * u + e2.y * v);
    assert(o.z + d.z * t == a.z + e1.z * u + e2.z * v);
}
pub proof fn lemma_negtimes(d: V, t: real) ensures d.neg().times(t) == d.times(t).neg()
{ assert((-d.x) * t == -(d.x * t)) by (nonlinear_arith); assert((-d.y) * t == -(d.y * t)) by (nonlinear_arith); assert((-d.z) * t == -(d.z * t)) by (nonlinear_arith); }
pub proof fn lemma_np(a: real, b: real) ensures (-a) * b == -(a * b), a * (-b) == -(a * b) { assert((-a) * b == -(a * b)) by (nonlinear_arith); assert(a * (-b) == -(a * b)) by (nonlinear_arith); }
/// a x -b == b x a
pub proof fn lemma_negcross(a: V, b: V) ensures a.cross(b.neg()) == b.cross(a)
{ lemma_np(a.y, b.z); lemma_np(a.z, b.y); lemma_np(a.z, b.x); lemma_np(a.x, b.z); lemma_np(a.x, b.y); lemma_np(a.y, b.x); lemma_alc(a.y, b.z); lemma_alc(a.z, b.y); lemma_alc(a.z, b.x); lemma_alc(a.x, b.z); lemma_alc(a.x, b.y); lemma_alc(a.y, b.x); }
pub proof fn lemma_negcross2(a: V, b: V) ensures a.neg().cross(b) == b.cross(a)
{ lemma_np(a.y, b.z); lemma_np(a.z, b.y); lemma_np(a.z, b.x); lemma_np(a.x, b.z); lemma_np(a.x, b.y); lemma_np(a.y, b.x); lemma_alc(a.y, b.z); lemma_alc(a.z, b.y); lemma_alc(a.z, b.x); lemma_alc(a.x, b.z); lemma_alc(a.x, b.y); lemma_alc(a.y, b.x); }
pub proof fn lemma_perp4(a: V, b: V) ensures a.dot(a.cross(b)) == 0real, b.dot(a.cross(b)) == 0real, a.dot(b.cross(a)) == 0real, b.dot(b.cross(a)) == 0real { lemma_perp3(a, b); lemma_perp3(b, a); }
/// and there is no other place
pub proof fn lemma_only(o: V, d: V, a: V, b: V, c: V, f: real, u: real, v: real, t: real)
    requires o.plus(d.times(t)) == bary(a, b, c, u, v), ({ let (e1, e2, s) = (b.minus(a), c.minus(a), o.minus(a)); let h = d.cross(e2); e1.dot(h) != 0real && f == 1real / e1.dot(h) }),
    ensures ({ let (e1, e2, s) = (b.minus(a), c.minus(a), o.minus(a)); let h = d.cross(e2); let q = s.cross(e1); u == f * s.dot(h) && v == f * d.dot(q) && t == f * e2.dot(q) }),
{
    let (e1, e2, s) = (b.minus(a), c.minus(a), o.minus(a)); let h = d.cross(e2); let q = s.cross(e1); let det = e1.dot(h);
    let (x, y, z) = (e1.times(u), e2.times(v), d.times(t));
    assert(s == x.plus(y).minus(z));
    lemma_split(h, x, y, z); lemma_split(e1.cross(d), x, y, z); lemma_split(e1.cross(e2), x, y, z);
    lemma_perp4(d, e2); lemma_perp4(e1, d); lemma_perp4(e1, e2);
    lemma_dot_times(e1, h, u); lemma_dot_times(e2, h, v); lemma_dot_times(d, h, t);
    lemma_dot_times(e1, e1.cross(d), u); lemma_dot_times(e2, e1.cross(d), v); lemma_dot_times(d, e1.cross(d), t);
    lemma_dot_times(e1, e1.cross(e2), u); lemma_dot_times(e2, e1.cross(e2), v); lemma_dot_times(d, e1.cross(e2), t);
    lemma_triple(s, e1, d); lemma_triple(s, e1, e2); lemma_triple(e2, e1, d); lemma_triple(d, e1, e2); lemma_triple(e1, d, e2);
    lemma_z0(u); lemma_z0(v); lemma_z0(t);
    assert(s.dot(h) == u * det && d.dot(q) == v * det && e2.dot(q) == t * det) by { lemma_np(t, det); }
    assert(det * f == 1real) by (nonlinear_arith) requires det != 0real, f == 1real / det;
    assert(f * (u * det) == u) by (nonlinear_arith) requires det * f == 1real;
    assert(f * (v * det) == v) by (nonlinear_arith) requires det * f == 1real;
    assert(f * (t * det) == t) by (nonlinear_arith) requires det * f == 1real;
}
pub proof fn lemma_z0(u: real) ensures u * 0real == 0real {}
pub proof fn lemma_split(h: V, x: V, y: V, z: V) ensures x.plus(y).minus(z).dot(h) == x.dot(h) + y.dot(h) - z.dot(h)
{ lemma_dot_minus(x.plus(y), z, h); lemma_comm(x.plus(y), h); lemma_dot_plus(h, x, y); lemma_comm(h, x); lemma_comm(h, y); }
