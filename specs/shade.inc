//@include side.inc
/// what is needed for a normal: edges and area that are not almost nothing
pub open spec fn proper(t: Triangle) -> bool { te1(t).dot(te1(t)) > 1real / 100000000000000000000real && te1(t).cross(te2(t)).dot(te1(t).cross(te2(t))) > 1real / 100000000000000000000real }
/// the frame of a hit: the triangle's normal turned against the ray, and two unit edges of the surface, right handed with the triangle's own normal
pub open spec fn frame_ok(i: &IntersectionInfo, t: Triangle, d: V) -> bool {
    let m = te1(t).cross(te2(t));
    &&& exists|n: V| #[trigger] unit_of(n, m) && (n.dot(d) < 0real ==> i.normal@ == n && i.side == SurfaceSide::Front && unit_of(i.dpdu@, te1(t)) && i.dpdv@ == n.cross(i.dpdu@))
        && (n.dot(d) > 0real ==> i.normal@ == n.times(-1real) && i.side == SurfaceSide::Back && unit_of(i.dpdv@, te1(t)) && i.dpdu@ == i.normal@.cross(i.dpdv@))
}
pub proof fn lemma_unit_id(n: V, o: V) requires unit_of(n, o), o.dot(o) == 1real ensures n == o
{
    let k = choose|k: real| k > 0real && k * k * o.dot(o) == 1real && n == #[trigger] o.times(k);
    assert(k * k == 1real) by (nonlinear_arith) requires k * k * o.dot(o) == 1real, o.dot(o) == 1real;
    assert(k == 1real) by (nonlinear_arith) requires k * k == 1real, k > 0real;
}
/// a unit normal of the triangle and a unit vector along its first edge span a unit square
pub proof fn lemma_square(n: V, m: V, e: V, a: V, b: V, s: real) requires unit_of(n, m), m == a.cross(b), unit_of(e, a), s == 1real || s == -1real
    ensures n.times(s).cross(e).dot(n.times(s).cross(e)) == 1real, n.times(s).dot(e) == 0real
{
    let k = choose|k: real| k > 0real && k * k * m.dot(m) == 1real && n == #[trigger] m.times(k);
    let l = choose|l: real| l > 0real && l * l * a.dot(a) == 1real && e == #[trigger] a.times(l);
    lemma_perp3(a, b); lemma_comm(a, m); lemma_dot_times(m, a, k); lemma_dot_times(m.times(k), a, l); assert(n.dot(e) == 0real) by { lemma_z0(k); lemma_z0(l); }
    lemma_dot_times(n, e, s); lemma_z0(s); lemma_dot_times(n, n, s);
    let ns = n.times(s); lemma_lagrange(ns, e);
    assert(s * s == 1real); assert(s * s * n.dot(n) == 1real);
}
pub proof fn lemma_sd(m: V, n: V, d: V) requires unit_of(n, m) ensures (m.dot(d) == 0real) <==> (n.dot(d) == 0real)
{
    let k = choose|k: real| k > 0real && k * k * m.dot(m) == 1real && n == #[trigger] m.times(k); lemma_dot_times(m, d, k); lemma_z0(k);
    if n.dot(d) == 0real { lemma_zero(m.dot(d), k); lemma_alc(k, m.dot(d)); }
}
//@fn rendering/src/triangle/mod.rs new_info (t, point, u, v, ray_dir)
requires proper(*t), te1(*t).cross(te2(*t)).dot(ray_dir@) != 0real,
ensures frame_ok(&ret, *t, ray_dir@), ret.p == point,
//@locals dpdu dpdv normal normal side e1 e2
//@at start
proof { lemma_facts(*t, ray_dir@); }
//@endfn
/// everything new_info needs to know about the vectors it goes through
pub proof fn lemma_facts(t: Triangle, d: V) requires proper(t), te1(t).cross(te2(t)).dot(d) != 0real
    ensures forall|n: V| #[trigger] unit_of(n, te1(t).cross(te2(t))) ==> n.dot(d) != 0real && n.dot(n) == 1real,
       forall|n: V, e: V, s: real| #![trigger unit_of(n, te1(t).cross(te2(t))), n.times(s).cross(e)] unit_of(n, te1(t).cross(te2(t))) && unit_of(e, te1(t)) && (s == 1real || s == -1real) ==> n.times(s).cross(e).dot(n.times(s).cross(e)) == 1real,
       forall|n: V, e: V| #![trigger n.cross(e), unit_of(e, te1(t))] unit_of(n, te1(t).cross(te2(t))) && unit_of(e, te1(t)) ==> n.cross(e).dot(n.cross(e)) == 1real,
       forall|n: V, o: V| #[trigger] unit_of(n, o) && o.dot(o) == 1real ==> n == o,
{
    let (a, b) = (te1(t), te2(t)); let m = a.cross(b);
    assert forall|n: V| #[trigger] unit_of(n, m) implies n.dot(d) != 0real && n.dot(n) == 1real by { lemma_sd(m, n, d); }
    assert forall|n: V, e: V, s: real| #![trigger unit_of(n, m), n.times(s).cross(e)] unit_of(n, m) && unit_of(e, a) && (s == 1real || s == -1real) implies n.times(s).cross(e).dot(n.times(s).cross(e)) == 1real by { lemma_square(n, m, e, a, b, s); }
    assert forall|n: V, e: V| #![trigger n.cross(e), unit_of(e, a)] unit_of(n, m) && unit_of(e, a) implies n.cross(e).dot(n.cross(e)) == 1real by { lemma_square(n, m, e, a, b, 1real); assert(n.times(1real) == n); }
    assert forall|n: V, o: V| #[trigger] unit_of(n, o) && o.dot(o) == 1real implies n == o by { lemma_unit_id(n, o); }
}
pub proof fn lemma_facing(r: &Ray3D, t: Triangle) requires rdet(r, t) != 0real ensures te1(t).cross(te2(t)).dot(r.direction@) != 0real
{ let (a, b, d) = (te1(t), te2(t), r.direction@); lemma_triple(a, d, b); lemma_comm(a.cross(b), d); lemma_triple(d, a, b); }
