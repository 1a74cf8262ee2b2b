pub proof fn lemma_nn(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn lemma_sqp(a: real, b: real) ensures (a * b) * (a * b) == (a * a) * (b * b), (a - b) * (a - b) == a * a - 2real * (a * b) + b * b, (a + b) * (a - b) == a * a - b * b, (a + b) * (a + b) == a * a + 2real * (a * b) + b * b
{ assert((a * b) * (a * b) == (a * a) * (b * b)) by (nonlinear_arith); assert((a - b) * (a - b) == a * a - 2real * (a * b) + b * b) by (nonlinear_arith); assert((a + b) * (a - b) == a * a - b * b) by (nonlinear_arith); assert((a + b) * (a + b) == a * a + 2real * (a * b) + b * b) by (nonlinear_arith); }
pub proof fn lemma_x4(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * d) * (c * b), (a * b) * (c * d) == (a * c) * (b * d) { assert((a * b) * (c * d) == (a * d) * (c * b)) by (nonlinear_arith); assert((a * b) * (c * d) == (a * c) * (b * d)) by (nonlinear_arith); }
/// |x cross y|^2 == |x|^2 |y|^2 - (x . y)^2
pub proof fn lemma_lagrange(x: V, y: V) ensures x.cross(y).dot(x.cross(y)) == x.dot(x) * y.dot(y) - x.dot(y) * x.dot(y)
{
    let (p, q, r) = (x.x * y.x, x.y * y.y, x.z * y.z);
    lemma_sqp(x.y * y.z, x.z * y.y); lemma_sqp(x.z * y.x, x.x * y.z); lemma_sqp(x.x * y.y, x.y * y.x);
    lemma_sqp(x.x, y.x); lemma_sqp(x.x, y.y); lemma_sqp(x.x, y.z); lemma_sqp(x.y, y.x); lemma_sqp(x.y, y.y); lemma_sqp(x.y, y.z); lemma_sqp(x.z, y.x); lemma_sqp(x.z, y.y); lemma_sqp(x.z, y.z);
    lemma_x4(x.y, y.z, x.z, y.y); lemma_x4(x.z, y.x, x.x, y.z); lemma_x4(x.x, y.y, x.y, y.x);
    lemma_alc(q, r); lemma_alc(p, r); lemma_alc(p, q);
    assert((p + q + r) * (p + q + r) == p * p + q * q + r * r + 2real * (p * q) + 2real * (q * r) + 2real * (p * r)) by (nonlinear_arith);
    let (a1, a2, a3, b1, b2, b3) = (x.x * x.x, x.y * x.y, x.z * x.z, y.x * y.x, y.y * y.y, y.z * y.z);
    lemma_sum3(a1 + a2 + a3, b1, b2, b3); lemma_sum3(b1, a1, a2, a3); lemma_sum3(b2, a1, a2, a3); lemma_sum3(b3, a1, a2, a3);
    lemma_alc(a1 + a2 + a3, b1); lemma_alc(a1 + a2 + a3, b2); lemma_alc(a1 + a2 + a3, b3);
    lemma_alc(a1, b1); lemma_alc(a1, b2); lemma_alc(a1, b3); lemma_alc(a2, b1); lemma_alc(a2, b2); lemma_alc(a2, b3); lemma_alc(a3, b1); lemma_alc(a3, b2); lemma_alc(a3, b3);
}
/// the area vector, from either side
pub proof fn lemma_twin(a: V, b: V, c: V) ensures b.minus(a).cross(c.minus(b)) == b.minus(a).cross(c.minus(a)), area2(a, b, c) == b.minus(a).dot(b.minus(a)) * c.minus(a).dot(c.minus(a)) - b.minus(a).dot(c.minus(a)) * b.minus(a).dot(c.minus(a)),
   dist2(b, c) == dist2(a, b) + dist2(c, a) - 2real * b.minus(a).dot(c.minus(a)), dist2(a, b) == b.minus(a).dot(b.minus(a)), dist2(c, a) == c.minus(a).dot(c.minus(a)),
{
    let (e, g, h) = (b.minus(a), c.minus(a), c.minus(b));
    lemma_dist(e.y, g.z, e.z); lemma_dist(e.z, g.y, e.y); lemma_dist(e.z, g.x, e.x); lemma_dist(e.x, g.z, e.z); lemma_dist(e.x, g.y, e.y); lemma_dist(e.y, g.x, e.x);
    lemma_alc(e.y, e.z); lemma_alc(e.x, e.z); lemma_alc(e.x, e.y);
    assert(h.x == g.x - e.x && h.y == g.y - e.y && h.z == g.z - e.z);
    lemma_lagrange(e, g);
    let k = b.minus(c); assert(k.x == e.x - g.x && k.y == e.y - g.y && k.z == e.z - g.z);
    lemma_sqp(e.x, g.x); lemma_sqp(e.y, g.y); lemma_sqp(e.z, g.z);
    let o = a.minus(b); assert(o.x == -e.x && o.y == -e.y && o.z == -e.z);
    lemma_np(e.x, -e.x); lemma_np(e.y, -e.y); lemma_np(e.z, -e.z); lemma_np(e.x, e.x); lemma_np(e.y, e.y); lemma_np(e.z, e.z);
}
/// Heron's formula
pub proof fn lemma_heron(x: real, y: real, z: real, p: real, q: real, r: real, g: real, w: real)
    requires x * x == p, y * y == q, z * z == r, q == p + r - 2real * g, w == p * r - g * g,
    ensures (x + y + z) * (y + z - x) * (z + x - y) * (x + y - z) == 4real * w, (z + y + x) * ((z + y + x) / 2real - x) * ((z + y + x) / 2real - y) * ((z + y + x) / 2real - z) / 2real == w / 4real,
{
    let (s, t) = (z + x, z - x);
    let (c1, c2, c3, c4) = (x + y + z, y + z - x, z + x - y, x + y - z);
    lemma_sqp(s, y); lemma_sqp(y, t); lemma_sqp(z, x);
    assert(c1 == s + y && c3 == s - y && c2 == y + t && c4 == y - t);
    assert(c1 * c3 == s * s - y * y); assert(c2 * c4 == y * y - t * t);
    let m = p + r - q; let d = 2real * (z * x);
    assert(c1 * c3 == m + d); assert(c2 * c4 == d - m);
    lemma_sqp(d, m); assert((m + d) * (d - m) == d * d - m * m);
    assert(d * d == 4real * (r * p)) by { let k = z * x; assert((2real * k) * (2real * k) == 4real * (k * k)) by (nonlinear_arith); }
    assert(m * m == 4real * (g * g)) by { assert(m == 2real * g); assert((2real * g) * (2real * g) == 4real * (g * g)) by (nonlinear_arith); }
    lemma_alc(r, p);
    assert((c1 * c3) * (c2 * c4) == 4real * w);
    assert(c1 * c2 * c3 * c4 == (c1 * c3) * (c2 * c4)) by (nonlinear_arith);
    let h = z + y + x;
    assert(h / 2real - x == c2 / 2real && h / 2real - y == c3 / 2real && h / 2real - z == c4 / 2real);
    lemma_halves(c1, c2, c3, c4);
}
pub proof fn lemma_halves(a: real, b: real, c: real, d: real) ensures a * (b / 2real) * (c / 2real) * (d / 2real) / 2real == a * b * c * d / 16real
{
    assert(a * (b / 2real) == a * b / 2real) by (nonlinear_arith); let p = a * b;
    assert((p / 2real) * (c / 2real) == p * c / 4real) by (nonlinear_arith); let q = p * c;
    assert((q / 4real) * (d / 2real) == q * d / 8real) by (nonlinear_arith);
}
