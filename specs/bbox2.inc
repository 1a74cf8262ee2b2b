//@enum geometry/src/bbox3d.rs BBoxAxis
pub open spec fn gamma3r() -> real { ((reps() / 2real) * 3real) / (1real - (reps() / 2real) * 3real) }
pub proof fn lemma_gamma() ensures gamma3r() > 0real { axiom_eps(); let a = reps() / 2real * 3real; let b = 1real - a; assert(a > 0real && b > 0real); assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
//@fn geometry/src/bbox3d.rs BBox3D::new (a, b)
ensures ret.min@ == vmin(a@, b@), ret.max@ == vmax(a@, b@), bwf(&ret), inb(&ret, a@), inb(&ret, b@),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::from_union (bbox1, bbox2)
ensures ret.min@ == vmin(bbox1.min@, bbox2.min@), ret.max@ == vmax(bbox1.max@, bbox2.max@),
   bwf(bbox1) && bwf(bbox2) ==> bwf(&ret), forall|q: V| inb(bbox1, q) || inb(bbox2, q) ==> #[trigger] inb(&ret, q),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::from_intersection (bbox1, bbox2)
ensures forall|q: V| #[trigger] inb(&ret, q) <==> inb(bbox1, q) && inb(bbox2, q),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::overlaps (self, other)
requires bwf(self), bwf(other),
ensures ret ==> exists|q: V| inb(self, q) && #[trigger] inb(other, q), (exists|q: V| inb(self, q) && #[trigger] inb(other, q)) ==> ret,
//@at end
proof { let q = vmax(self.min@, other.min@); if vp_ret { assert(inb(self, q) && inb(other, q)); } }
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::point_inside (self, pt)
ensures ret == inb(self, pt@),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::point_inside_exclusive (self, pt)
ensures ret == (inb(self, pt@) && pt@.x < self.max@.x && pt@.y < self.max@.y && pt@.z < self.max@.z),
//@endfn
pub open spec fn ext(b: &BBox3D, a: BBoxAxis) -> real { match a { BBoxAxis::X => b.max@.x - b.min@.x, BBoxAxis::Y => b.max@.y - b.min@.y, BBoxAxis::Z => b.max@.z - b.min@.z } }
//@fn geometry/src/bbox3d.rs BBox3D::max_extent (self)
ensures ext(self, ret) >= ext(self, BBoxAxis::X), ext(self, ret) >= ext(self, BBoxAxis::Y), ext(self, ret) >= ext(self, BBoxAxis::Z),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::surface_area (self)
ensures ret@ == 2real * (ext(self, BBoxAxis::X) * ext(self, BBoxAxis::Y) + ext(self, BBoxAxis::X) * ext(self, BBoxAxis::Z) + ext(self, BBoxAxis::Y) * ext(self, BBoxAxis::Z)),
//@endfn
pub open spec fn at(r: Ray3D, t: real) -> V { r.origin@.plus(r.direction@.times(t)) }
pub open spec fn inv3(d: V, i: V) -> bool { d.x != 0real && d.y != 0real && d.z != 0real && i.x == 1real / d.x && i.y == 1real / d.y && i.z == 1real / d.z }
/// times at which the ray enters and leaves the slab between a and b (coordinates o and d of origin and direction, i = 1/d)
pub open spec fn t0(a: real, b: real, o: real, i: real) -> real { rmin((a - o) * i, (b - o) * i) }
pub open spec fn t1(a: real, b: real, o: real, i: real) -> real { rmax((a - o) * i, (b - o) * i) }
pub open spec fn lo(b: &BBox3D, r: Ray3D, i: V) -> V { mkv(t0(b.min@.x, b.max@.x, r.origin@.x, i.x), t0(b.min@.y, b.max@.y, r.origin@.y, i.y), t0(b.min@.z, b.max@.z, r.origin@.z, i.z)) }
pub open spec fn hi(b: &BBox3D, r: Ray3D, i: V) -> V { mkv(t1(b.min@.x, b.max@.x, r.origin@.x, i.x), t1(b.min@.y, b.max@.y, r.origin@.y, i.y), t1(b.min@.z, b.max@.z, r.origin@.z, i.z)) }
pub open spec fn within(t: real, l: V, h: V, g: real) -> bool { l.x <= t <= h.x * g && l.y <= t <= h.y * g && l.z <= t <= h.z * g }
/// the slab times are the times at which the coordinate lies in the slab
pub proof fn lemma_slab(a: real, b: real, o: real, d: real, i: real, t: real) requires d != 0real, i == 1real / d, a <= b
    ensures (t0(a, b, o, i) <= t <= t1(a, b, o, i)) <==> (a <= o + d * t <= b)
{
    assert(d * i == 1real) by (nonlinear_arith) requires d != 0real, i == 1real / d;
    assert((a - o) * i * d == (a - o) * (d * i)) by (nonlinear_arith);
    assert((b - o) * i * d == (b - o) * (d * i)) by (nonlinear_arith);
    let (p, q) = ((a - o) * i, (b - o) * i);
    assert((a - o) * (d * i) == a - o) by (nonlinear_arith) requires d * i == 1real;
    assert((b - o) * (d * i) == b - o) by (nonlinear_arith) requires d * i == 1real;
    assert(p * d == a - o && q * d == b - o);
    if d > 0real {
        assert((p <= t) <==> (p * d <= d * t)) by (nonlinear_arith) requires d > 0real;
        assert((t <= q) <==> (d * t <= q * d)) by (nonlinear_arith) requires d > 0real;
        assert(p <= q) by (nonlinear_arith) requires p * d == a - o, q * d == b - o, a <= b, d > 0real;
    } else {
        assert((p >= t) <==> (p * d <= d * t)) by (nonlinear_arith) requires d < 0real;
        assert((t >= q) <==> (d * t <= q * d)) by (nonlinear_arith) requires d < 0real;
        assert(q <= p) by (nonlinear_arith) requires p * d == a - o, q * d == b - o, a <= b, d < 0real;
    }
}
pub proof fn lemma_box_times(b: &BBox3D, r: Ray3D, i: V, t: real) requires bwf(b), inv3(r.direction@, i)
    ensures within(t, lo(b, r, i), hi(b, r, i), 1real) <==> inb(b, at(r, t))
{
    lemma_slab(b.min@.x, b.max@.x, r.origin@.x, r.direction@.x, i.x, t);
    lemma_slab(b.min@.y, b.max@.y, r.origin@.y, r.direction@.y, i.y, t);
    lemma_slab(b.min@.z, b.max@.z, r.origin@.z, r.direction@.z, i.z, t);
}
pub proof fn lemma_order(a: real, b: real, o: real, i: real) requires a <= b ensures i >= 0real ==> (a - o) * i <= (b - o) * i, i < 0real ==> (b - o) * i <= (a - o) * i
{ let (p, q) = (a - o, b - o); if i >= 0real { assert(p * i <= q * i) by (nonlinear_arith) requires p <= q, i >= 0real; } else { assert(q * i <= p * i) by (nonlinear_arith) requires p <= q, i < 0real; } }
pub proof fn lemma_grow(t: real, h: real, g: real) requires 0real < t, t <= h, g > 1real ensures t < h * g { assert(h < h * g) by (nonlinear_arith) requires h > 0real, g > 1real; }
//@fn geometry/src/bbox3d.rs BBox3D::intersect (self, ray, inv_dir)
requires bwf(self), inv3(ray.direction@, inv_dir@),
ensures
   forall|t: real| t > 0real && #[trigger] inb(self, at(ray, t)) ==> ret,
   ret ==> exists|t: real| t > 0real && #[trigger] within(t, lo(self, ray, inv_dir@), hi(self, ray, inv_dir@), 1real + 2real * gamma3r()),
//@at start
let ghost g = 1real + 2real * gamma3r(); let ghost l = lo(self, ray, inv_dir@); let ghost h = hi(self, ray, inv_dir@); let ghost some = exists|t: real| t > 0real && #[trigger] inb(self, at(ray, t));
proof { lemma_gamma(); lemma_order(self.min@.x, self.max@.x, ray.origin@.x, inv_dir@.x); lemma_order(self.min@.y, self.max@.y, ray.origin@.y, inv_dir@.y); lemma_order(self.min@.z, self.max@.z, ray.origin@.z, inv_dir@.z); if some { let t = choose|t: real| t > 0real && #[trigger] inb(self, at(ray, t)); lemma_box_times(self, ray, inv_dir@, t); lemma_grow(t, h.x, g); lemma_grow(t, h.y, g); lemma_grow(t, h.z, g); } }
//@at end
proof { if vp_ret { let t = rmin(rmin(h.x * g, h.y * g), h.z * g); assert(within(t, l, h, g)); } }
//@endfn
