//@include heron.inc
pub proof fn lemma_tp(e11: real, e12: real, e22: real, u: real, v: real, l1: real, l2: real, det: real, al: real, be: real)
    requires l1 == u * e11 + v * e12, l2 == u * e12 + v * e22, det == e11 * e22 - e12 * e12, det != 0real, al == (e22 * l1 - e12 * l2) / det, be == ((-e12) * l1 + e11 * l2) / det
    ensures al == u, be == v
{
    lemma_sum3(e22, u * e11, v * e12, 0real); lemma_sum3(e12, u * e12, v * e22, 0real); lemma_sum3(e12, u * e11, v * e12, 0real); lemma_sum3(e11, u * e12, v * e22, 0real);
    lemma_z0(e22); lemma_z0(e12); lemma_z0(e11); lemma_np(e12, l1);
    lemma_t3(e22, u, e11); lemma_t3(e22, v, e12); lemma_t3(e12, u, e12); lemma_t3(e12, v, e22); lemma_t3(e12, u, e11); lemma_t3(e12, v, e12); lemma_t3(e11, u, e12); lemma_t3(e11, v, e22);
    lemma_dist(u, e11 * e22, e12 * e12); lemma_dist(v, e11 * e22, e12 * e12);
    assert(e22 * l1 - e12 * l2 == u * det); assert((-e12) * l1 + e11 * l2 == v * det);
    assert(u * det / det == u) by (nonlinear_arith) requires det != 0real; assert(v * det / det == v) by (nonlinear_arith) requires det != 0real;
}
pub proof fn lemma_over(a: V, k: real, b: V) requires k != 0real ensures k * a.over(k).dot(b) == a.dot(b), a.over(k).times(k) == a
{
    assert(a.x / k * k == a.x) by (nonlinear_arith) requires k != 0real; assert(a.y / k * k == a.y) by (nonlinear_arith) requires k != 0real; assert(a.z / k * k == a.z) by (nonlinear_arith) requires k != 0real;
    lemma_dot_times(a.over(k), b, k);
}
pub proof fn lemma_circ(x: V, y: V, w: V, m: V) requires ({ let n = x.cross(y); n.dot(n) > 0real && w == n.cross(x).times(y.dot(y)).plus(y.cross(n).times(x.dot(x))) && m == w.over(2real * n.dot(n)) })
    ensures m.minus(x).dot(m.minus(x)) == m.dot(m), m.minus(y).dot(m.minus(y)) == m.dot(m), m.dot(x.cross(y)) == 0real
{
    let n = x.cross(y); let k = n.dot(n); let (p, q) = (n.cross(x), y.cross(n)); let (xx, yy) = (x.dot(x), y.dot(y));
    lemma_perp4(n, x); lemma_perp4(y, n); lemma_triple(x, y, n); lemma_triple(y, n, x);
    assert(x.dot(q) == k && y.dot(p) == k && x.dot(p) == 0real && y.dot(q) == 0real && n.dot(p) == 0real && n.dot(q) == 0real);
    lemma_dot_plus(x, p.times(yy), q.times(xx)); lemma_dot_plus(y, p.times(yy), q.times(xx)); lemma_dot_plus(n, p.times(yy), q.times(xx));
    lemma_dot_times(x, p, yy); lemma_dot_times(x, q, xx); lemma_dot_times(y, p, yy); lemma_dot_times(y, q, xx); lemma_dot_times(n, p, yy); lemma_dot_times(n, q, xx);
    lemma_z0(xx); lemma_z0(yy);
    assert(x.dot(w) == xx * k && y.dot(w) == yy * k && n.dot(w) == 0real);
    lemma_over(w, 2real * k, x); lemma_over(w, 2real * k, y); lemma_over(w, 2real * k, n); lemma_comm(w, x); lemma_comm(w, y); lemma_comm(w, n);
    let (mx, my, mn) = (m.dot(x), m.dot(y), m.dot(n));
    assert(mx * 2real == xx) by (nonlinear_arith) requires 2real * k * mx == xx * k, k > 0real;
    assert(my * 2real == yy) by (nonlinear_arith) requires 2real * k * my == yy * k, k > 0real;
    assert(mn == 0real) by (nonlinear_arith) requires 2real * k * mn == 0real, k > 0real;
    lemma_minus_sq(m, x); lemma_minus_sq(m, y);
}
pub proof fn lemma_minus_sq(a: V, b: V) ensures a.minus(b).dot(a.minus(b)) == a.dot(a) - 2real * a.dot(b) + b.dot(b) { lemma_sqp(a.x, b.x); lemma_sqp(a.y, b.y); lemma_sqp(a.z, b.z); }
pub proof fn lemma_quot(n: real, s: real, root: real, r: real) requires root >= 0real, root * root == s, s > 0real, root != 0real ==> r == n / root, n >= 0real ensures r >= 0real, r * r * s == n * n
{
    lemma_z0(root); assert(root > 0real); assert(r * root == n) by (nonlinear_arith) requires root > 0real, r == n / root;
    assert(r >= 0real) by (nonlinear_arith) requires root > 0real, r * root == n, n >= 0real;
    lemma_sqp(r, root);
}
