#[verifier::external_body] pub proof fn axiom_eps() ensures 0real < reps() < (1real / 1000000real) {}
pub open spec fn dist2(a: V, b: V) -> real { a.minus(b).dot(a.minus(b)) }
pub open spec fn close(a: V, b: V) -> bool { dist2(a, b) <= 1real / 1000000real }
pub proof fn lemma_less(a: real, b: real) requires a >= 0real, b > 0real ensures (a < b) <==> (a * a < b * b) { if a < b { assert(a * a < b * b) by (nonlinear_arith) requires 0real <= a < b; } else { assert(a * a >= b * b) by (nonlinear_arith) requires a >= b, b > 0real; } }
pub open spec fn area2(a: V, b: V, c: V) -> real { let w = b.minus(a).cross(c.minus(b)); w.dot(w) }
pub proof fn lemma_times2(w: V, k: real, h: real) ensures w.times(k).times(h) == w.times(k * h)
{ assert((w.x * k) * h == w.x * (k * h)) by (nonlinear_arith); assert((w.y * k) * h == w.y * (k * h)) by (nonlinear_arith); assert((w.z * k) * h == w.z * (k * h)) by (nonlinear_arith); }
pub proof fn lemma_dot_minus(a: V, b: V, c: V) ensures a.minus(b).dot(c) == a.dot(c) - b.dot(c)
{ assert((a.x - b.x) * c.x == a.x * c.x - b.x * c.x) by (nonlinear_arith); assert((a.y - b.y) * c.y == a.y * c.y - b.y * c.y) by (nonlinear_arith); assert((a.z - b.z) * c.z == a.z * c.z - b.z * c.z) by (nonlinear_arith); }
pub proof fn lemma_dot_plus(c: V, a: V, b: V) ensures c.dot(a.plus(b)) == c.dot(a) + c.dot(b)
{ assert(c.x * (a.x + b.x) == c.x * a.x + c.x * b.x) by (nonlinear_arith); assert(c.y * (a.y + b.y) == c.y * a.y + c.y * b.y) by (nonlinear_arith); assert(c.z * (a.z + b.z) == c.z * a.z + c.z * b.z) by (nonlinear_arith); }
pub open spec fn colli(a: V, b: V, c: V) -> bool { close(a, b) || close(a, c) || close(b, c) || area2(a, b, c) < 1real / 10000000000real }
pub proof fn lemma_lin(e: real, a: real, t: real, b: real, s: real, d: real) ensures (e + a * t - b * s) * d == e * d + a * (t * d) - b * (s * d)
{ assert(a * t * d == a * (t * d)) by (nonlinear_arith); assert(b * s * d == b * (s * d)) by (nonlinear_arith); let (p, q) = (a * t, b * s); assert((e + p - q) * d == e * d + p * d - q * d) by (nonlinear_arith); }
pub proof fn lemma_dist(a: real, b: real, c: real) ensures a * (b - c) == a * b - a * c { assert(a * (b - c) == a * b - a * c) by (nonlinear_arith); }
pub proof fn lemma_rot(a: real, b: real, c: real) ensures a * (b * c) == c * (b * a), a * (b * c) == b * (a * c), a * (b * c) == c * (a * b), a * (b * c) == b * (c * a)
{ assert(a * (b * c) == c * (b * a)) by (nonlinear_arith); assert(b * a == a * b) by (nonlinear_arith); assert(a * c == c * a) by (nonlinear_arith); assert(a * (b * c) == b * (a * c)) by (nonlinear_arith); }
pub proof fn lemma_zero(a: real, b: real) requires a * b == 0real, b != 0real ensures a == 0real { assert(a == 0real) by (nonlinear_arith) requires a * b == 0real, b != 0real; }
pub proof fn lemma_comm(a: V, b: V) ensures a.dot(b) == b.dot(a) { assert(a.x * b.x == b.x * a.x && a.y * b.y == b.y * a.y && a.z * b.z == b.z * a.z) by (nonlinear_arith); }
pub proof fn lemma_perp3(a: V, b: V) ensures a.dot(a.cross(b)) == 0real, b.dot(a.cross(b)) == 0real
{
    assert(a.x * (a.y * b.z - a.z * b.y) + a.y * (a.z * b.x - a.x * b.z) + a.z * (a.x * b.y - a.y * b.x) == 0real) by (nonlinear_arith);
    assert(b.x * (a.y * b.z - a.z * b.y) + b.y * (a.z * b.x - a.x * b.z) + b.z * (a.x * b.y - a.y * b.x) == 0real) by (nonlinear_arith);
}
