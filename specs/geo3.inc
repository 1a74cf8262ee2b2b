//@fn geometry/src/vector3d.rs Vector3D::normalize (self)
requires old(self)@.dot(old(self)@) > (1real / 100000000000000000000real),
ensures unit_of(final(self)@, old(self)@),
//@at start
let ghost q = self@.dot(self@); let ghost o = self@; proof { lemma_dot_nonneg(o); }
//@at end
proof { lemma_unit(final(self)@, o, l@, q, rsqrt(q)); }
//@endfn
/// n is o scaled to length one
pub open spec fn unit_of(n: V, o: V) -> bool { n.dot(n) == 1real && exists|k: real| k > 0real && k * k * o.dot(o) == 1real && n == #[trigger] o.times(k) }
pub proof fn lemma_unit(n: V, o: V, l: real, q: real, s: real) requires q == o.dot(o), q > 0real, s >= 0real, s * s == q, s != 0real ==> l == 1real / s, n == o.times(l) ensures unit_of(n, o)
{
    assert(s > 0real) by (nonlinear_arith) requires s >= 0real, s * s == q, q > 0real;
    assert(l > 0real && l * s == 1real) by (nonlinear_arith) requires s > 0real, l == 1real / s;
    assert(l * l * (s * s) == (l * s) * (l * s)) by (nonlinear_arith);
    assert(l * l * q == 1real);
    lemma_dot_times(o, o, l);
}
pub proof fn lemma_dot_times(a: V, b: V, l: real) ensures a.times(l).dot(b) == l * a.dot(b), a.dot(b.times(l)) == l * a.dot(b), a.times(l).dot(b.times(l)) == l * l * a.dot(b)
{
    lemma_as(a.x, b.x, l); lemma_as(a.y, b.y, l); lemma_as(a.z, b.z, l);
    let (p, q, r) = (a.x * b.x, a.y * b.y, a.z * b.z);
    assert(l * (p + q + r) == l * p + l * q + l * r) by (nonlinear_arith);
    assert(l * l * (p + q + r) == l * l * p + l * l * q + l * l * r) by (nonlinear_arith);
}
pub proof fn lemma_as(a: real, b: real, l: real) ensures (a * l) * b == l * (a * b), a * (b * l) == l * (a * b), (a * l) * (b * l) == l * l * (a * b)
{ assert((a * l) * b == l * (a * b)) by (nonlinear_arith); assert(a * (b * l) == l * (a * b)) by (nonlinear_arith); assert((a * l) * (b * l) == l * l * (a * b)) by (nonlinear_arith); }
//@fn geometry/src/vector3d.rs Vector3D::get_normalized (self)
requires self@.dot(self@) > (1real / 100000000000000000000real),
ensures unit_of(ret@, self@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::is_zero (self)
ensures ret == (rabs(self@.x) < tiny() && rabs(self@.y) < tiny() && rabs(self@.z) < tiny()),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::compare (self, p)
ensures ret == (rabs(self@.x - p@.x) < 1real / 100000real && rabs(self@.y - p@.y) < 1real / 100000real && rabs(self@.z - p@.z) < 1real / 100000real),
//@endfn
