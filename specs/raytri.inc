//@map fallback::simple_intersect_triangle_slice=fb_simple
pub type Triangle = [R; 9];
//@macros rendering/src/triangle/mod.rs
pub open spec fn va(t: Triangle) -> V { mkv(t@[0]@, t@[1]@, t@[2]@) }
pub open spec fn vb(t: Triangle) -> V { mkv(t@[3]@, t@[4]@, t@[5]@) }
pub open spec fn vc(t: Triangle) -> V { mkv(t@[6]@, t@[7]@, t@[8]@) }
pub open spec fn te1(t: Triangle) -> V { vb(t).minus(va(t)) }
pub open spec fn te2(t: Triangle) -> V { vc(t).minus(va(t)) }
pub open spec fn rdet(r: &Ray3D, t: Triangle) -> real { tdet(r, va(t), vb(t), vc(t)) }
/// where along the ray, and where in the triangle, the ray's line meets the triangle's plane (see lemma_place)
pub open spec fn tpar(r: &Ray3D, t: Triangle) -> real { (1real / rdet(r, t)) * te2(t).dot(r.origin@.minus(va(t)).cross(te1(t))) }
pub open spec fn upar(r: &Ray3D, t: Triangle) -> real { (1real / rdet(r, t)) * r.origin@.minus(va(t)).dot(r.direction@.cross(te2(t))) }
pub open spec fn vpar(r: &Ray3D, t: Triangle) -> real { (1real / rdet(r, t)) * r.direction@.dot(r.origin@.minus(va(t)).cross(te1(t))) }
pub open spec fn tpt(r: &Ray3D, t: Triangle) -> V { going(r, tpar(r, t)) }
pub open spec fn mm5() -> real { 1real / 100000real }
/// the ray hits the triangle, grown by e in its own coordinates
pub open spec fn thit(r: &Ray3D, t: Triangle, e: real) -> bool { rabs(rdet(r, t)) >= mm5() && tpar(r, t) > mm5() && -e <= upar(r, t) <= 1real + e && -e <= vpar(r, t) && upar(r, t) + vpar(r, t) <= 1real + e }
pub open spec fn td2(r: &Ray3D, t: Triangle) -> real { dist2(tpt(r, t), r.origin@) }
/// a hit that is further than a third of a millimetre
pub open spec fn seen(r: &Ray3D, t: Triangle, e: real) -> bool { thit(r, t, e) && 1real / 10000000real < td2(r, t) < rbig() }
/// tpar, upar and vpar are what they say: the one place where the ray's line is in the triangle's plane
pub proof fn lemma_place(r: &Ray3D, t: Triangle) requires rdet(r, t) != 0real
    ensures tpt(r, t) == bary(va(t), vb(t), vc(t), upar(r, t), vpar(r, t)),
      forall|k: real, u: real, v: real| #[trigger] going(r, k) == #[trigger] bary(va(t), vb(t), vc(t), u, v) ==> k == tpar(r, t) && u == upar(r, t) && v == vpar(r, t),
{
    let (o, d) = (r.origin@, r.direction@); let f = 1real / rdet(r, t);
    lemma_hit(o, d, va(t), vb(t), vc(t), f, upar(r, t), vpar(r, t), tpar(r, t));
    assert forall|k: real, u: real, v: real| #[trigger] going(r, k) == #[trigger] bary(va(t), vb(t), vc(t), u, v) implies k == tpar(r, t) && u == upar(r, t) && v == vpar(r, t) by { lemma_only(o, d, va(t), vb(t), vc(t), f, u, v, k); }
}
//@fn rendering/src/triangle/fallback.rs baricentric_coordinates (ray, t)
ensures
  ret is Some <==> thit(&ray, *t, reps()),
  ret is Some ==> (ret->0).0@ == tpt(&ray, *t) && (ret->0).1@ == upar(&ray, *t) && (ret->0).2@ == vpar(&ray, *t),
//@at start
let ghost g = 1real / rdet(&ray, *t); let ghost (u0, v0, t0) = (upar(&ray, *t), vpar(&ray, *t), tpar(&ray, *t)); proof { axiom_eps(); }
//@endfn
/// the nearest of the triangles lo..hi that the ray sees
pub open spec fn nearest(ts: Seq<Triangle>, r: &Ray3D, lo: int, hi: int, i: Option<int>) -> bool {
  (i is Some ==> lo <= i->0 < hi && seen(r, ts[i->0], reps())) && forall|j: int| lo <= j < hi && seen(r, #[trigger] ts[j], reps()) ==> i is Some && td2(r, ts[i->0]) <= td2(r, ts[j])
}
pub open spec fn which(o: Option<(usize, Point3D)>) -> Option<int> { match o { Some(x) => Some(x.0 as int), None => None } }
pub open spec fn pts_ok(ts: Seq<Triangle>, r: &Ray3D, o: Option<(usize, Point3D)>) -> bool { o is Some ==> (o->0).1@ == tpt(r, ts[(o->0).0 as int]) }
pub open spec fn dist_ok(ts: Seq<Triangle>, r: &Ray3D, i: Option<int>, d: real) -> bool { d == (if i is Some { td2(r, ts[i->0]) } else { rbig() }) }
//@fn rendering/src/triangle/fallback.rs simple_intersect_triangle_slice (scene, ray, ini, fin) as=fb_simple attr=verifier::loop_isolation(false)
requires ini <= fin <= scene.triangles@.len(),
ensures nearest(scene.triangles@, &ray, ini as int, fin as int, which(ret)), pts_ok(scene.triangles@, &ray, ret),
//@locals t_squared ret i t point this_t_squared
//@at start
hide(thit); hide(tpt);
//@loop 0
  ini <= fin <= scene.triangles@.len(), $n == fin - ini,
  nearest(scene.triangles@, &ray, ini as int, ini + $k, which(ret)), pts_ok(scene.triangles@, &ray, ret), dist_ok(scene.triangles@, &ray, which(ret), t_squared@),
//@endfn
//@fn rendering/src/triangle/mod.rs simple_intersect_triangle_slice (scene, ray, ini, fin)
requires ini <= fin <= scene.triangles@.len(),
ensures nearest(scene.triangles@, &ray, ini as int, fin as int, which(ret)), pts_ok(scene.triangles@, &ray, ret),
//@endfn
//@fn rendering/src/triangle/mod.rs simple_triangle_intersect (scene, ray, ini, fin)
requires ini <= fin <= scene.triangles@.len(),
ensures nearest(scene.triangles@, &ray, ini as int, fin as int, which(ret)), pts_ok(scene.triangles@, &ray, ret),
//@endfn
