/// the triple product is cyclic
pub proof fn lemma_triple(a: V, b: V, c: V) ensures a.dot(b.cross(c)) == b.dot(c.cross(a)), a.dot(b.cross(c)) == c.dot(a.cross(b)), a.dot(b.cross(c)) == -a.dot(c.cross(b))
{
    lemma_t3(a.x, b.y, c.z); lemma_t3(a.x, b.z, c.y); lemma_t3(a.y, b.z, c.x); lemma_t3(a.y, b.x, c.z); lemma_t3(a.z, b.x, c.y); lemma_t3(a.z, b.y, c.x);
    lemma_dist(a.x, b.y * c.z, b.z * c.y); lemma_dist(a.y, b.z * c.x, b.x * c.z); lemma_dist(a.z, b.x * c.y, b.y * c.x);
    lemma_dist(b.x, c.y * a.z, c.z * a.y); lemma_dist(b.y, c.z * a.x, c.x * a.z); lemma_dist(b.z, c.x * a.y, c.y * a.x);
    lemma_dist(c.x, a.y * b.z, a.z * b.y); lemma_dist(c.y, a.z * b.x, a.x * b.z); lemma_dist(c.z, a.x * b.y, a.y * b.x);
    lemma_dist(a.x, c.y * b.z, c.z * b.y); lemma_dist(a.y, c.z * b.x, c.x * b.z); lemma_dist(a.z, c.x * b.y, c.y * b.x);
}
pub proof fn lemma_t3(a: real, b: real, c: real) ensures a * (b * c) == a * (c * b), a * (b * c) == b * (c * a), a * (b * c) == b * (a * c), a * (b * c) == c * (a * b), a * (b * c) == c * (b * a)
{ lemma_rot(a, b, c); assert(b * c == c * b) by (nonlinear_arith); assert(c * a == a * c) by (nonlinear_arith); assert(b * a == a * b) by (nonlinear_arith); }
pub open spec fn alien(x: V, y: V, z: V) -> bool {
    let (p, q, r) = (y.cross(z), z.cross(x), x.cross(y));
    x.x * p.y + y.x * q.y + z.x * r.y == 0real && x.x * p.z + y.x * q.z + z.x * r.z == 0real && x.y * p.x + y.y * q.x + z.y * r.x == 0real
    && x.y * p.z + y.y * q.z + z.y * r.z == 0real && x.z * p.x + y.z * q.x + z.z * r.x == 0real && x.z * p.y + y.z * q.y + z.z * r.y == 0real }
pub open spec fn laplace(x: V, y: V, z: V) -> bool {
    let (p, q, r) = (y.cross(z), z.cross(x), x.cross(y)); let d = x.dot(p);
    x.x * p.x + y.x * q.x + z.x * r.x == d && x.y * p.y + y.y * q.y + z.y * r.y == d && x.z * p.z + y.z * q.z + z.z * r.z == d }
pub proof fn lemma_al(a: real, b: real, c: real, d: real, e: real, f: real) ensures a * (c * f - d * e) + c * (e * b - f * a) + e * (a * d - b * c) == 0real, b * (c * f - d * e) + d * (e * b - f * a) + f * (a * d - b * c) == 0real
{
    lemma_dist(a, c * f, d * e); lemma_dist(c, e * b, f * a); lemma_dist(e, a * d, b * c); lemma_t3(a, c, f); lemma_t3(a, d, e); lemma_t3(c, e, b);
    lemma_dist(b, c * f, d * e); lemma_dist(d, e * b, f * a); lemma_dist(f, a * d, b * c); lemma_t3(b, c, f); lemma_t3(b, d, e); lemma_t3(d, f, a);
}
pub proof fn lemma_alien(x: V, y: V, z: V) ensures alien(x, y, z)
{ lemma_al(x.x, x.y, y.x, y.y, z.x, z.y); lemma_al(x.y, x.z, y.y, y.z, z.y, z.z); lemma_al(x.z, x.x, y.z, y.x, z.z, z.x); }
pub proof fn lemma_lap(a: real, b: real, g: real, c: real, d: real, h: real, e: real, f: real, i: real) ensures a * (d * i - h * f) + b * (h * e - c * i) + g * (c * f - d * e) == a * (d * i - h * f) + c * (f * g - i * b) + e * (b * h - g * d)
{
    lemma_dist(b, h * e, c * i); lemma_dist(g, c * f, d * e); lemma_dist(c, f * g, i * b); lemma_dist(e, b * h, g * d);
    lemma_t3(b, h, e); lemma_t3(b, c, i); lemma_t3(g, c, f); lemma_t3(g, d, e);
}
pub proof fn lemma_laplace(x: V, y: V, z: V) ensures laplace(x, y, z)
{ lemma_lap(x.x, x.y, x.z, y.x, y.y, y.z, z.x, z.y, z.z); lemma_lap(x.y, x.z, x.x, y.y, y.z, y.x, z.y, z.z, z.x); lemma_lap(x.z, x.x, x.y, y.z, y.x, y.y, z.z, z.x, z.y); }
/// Cramer's rule in space: s det = x (s . y x z) + y (s . z x x) + z (s . x x y)
pub proof fn lemma_cramer3(x: V, y: V, z: V, s: V, d: real, a: real, b: real, c: real) requires d == x.dot(y.cross(z)), d * a == s.dot(y.cross(z)), d * b == s.dot(z.cross(x)), d * c == s.dot(x.cross(y)), d != 0real
    ensures s == x.times(a).plus(y.times(b)).plus(z.times(c))
{
    lemma_alien(x, y, z); lemma_laplace(x, y, z);
    let (p, q, r) = (y.cross(z), z.cross(x), x.cross(y));
    lemma_row(x.x, y.x, z.x, p, q, r, s, d, a, b, c, s.x, s.y, s.z, p.x, q.x, r.x, p.y, q.y, r.y, p.z, q.z, r.z);
    lemma_row(x.y, y.y, z.y, p, q, r, s, d, a, b, c, s.y, s.z, s.x, p.y, q.y, r.y, p.z, q.z, r.z, p.x, q.x, r.x);
    lemma_row(x.z, y.z, z.z, p, q, r, s, d, a, b, c, s.z, s.x, s.y, p.z, q.z, r.z, p.x, q.x, r.x, p.y, q.y, r.y);
}
pub proof fn lemma_row(x: real, y: real, z: real, p: V, q: V, r: V, s: V, d: real, a: real, b: real, c: real, s1: real, s2: real, s3: real, p1: real, q1: real, r1: real, p2: real, q2: real, r2: real, p3: real, q3: real, r3: real)
    requires d != 0real, x * p1 + y * q1 + z * r1 == d, x * p2 + y * q2 + z * r2 == 0real, x * p3 + y * q3 + z * r3 == 0real,
        d * a == s1 * p1 + s2 * p2 + s3 * p3, d * b == s1 * q1 + s2 * q2 + s3 * q3, d * c == s1 * r1 + s2 * r2 + s3 * r3,
    ensures s1 == x * a + y * b + z * c
{
    lemma_sum3(x, s1 * p1, s2 * p2, s3 * p3); lemma_sum3(y, s1 * q1, s2 * q2, s3 * q3); lemma_sum3(z, s1 * r1, s2 * r2, s3 * r3);
    lemma_sum3(s1, x * p1, y * q1, z * r1); lemma_sum3(s2, x * p2, y * q2, z * r2); lemma_sum3(s3, x * p3, y * q3, z * r3);
    lemma_t3(x, s1, p1); lemma_t3(x, s2, p2); lemma_t3(x, s3, p3); lemma_t3(y, s1, q1); lemma_t3(y, s2, q2); lemma_t3(y, s3, q3); lemma_t3(z, s1, r1); lemma_t3(z, s2, r2); lemma_t3(z, s3, r3);
    assert(x * (d * a) + y * (d * b) + z * (d * c) == s1 * d);
    lemma_t3(x, d, a); lemma_t3(y, d, b); lemma_t3(z, d, c); lemma_sum3(d, x * a, y * b, z * c); lemma_dist(d, x * a + y * b + z * c, s1); lemma_alc(s1, d);
    lemma_zero(x * a + y * b + z * c - s1, d); lemma_alc(x * a + y * b + z * c - s1, d);
}
pub proof fn lemma_sum3(k: real, a: real, b: real, c: real) ensures k * (a + b + c) == k * a + k * b + k * c { assert(k * (a + b + c) == k * a + k * b + k * c) by (nonlinear_arith); }
pub proof fn lemma_alc(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
