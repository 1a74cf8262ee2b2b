use geometry::intersection::SurfaceSide;
use geometry::{Point3D, PointInTriangle, Ray3D, Segment3D, Triangle3D};
use vpharness::geo::*;
use vpharness::*;
fn tri(r: &mut Rng) -> [V3; 3] {
    loop {
        let t = [g3(r, 6.), g3(r, 6.), g3(r, 6.)];
        let n = len(cross(sub(t[1], t[0]), sub(t[2], t[0])));
        if n > 0.05 && n > 0.02 * len(sub(t[1], t[0])) * len(sub(t[2], t[0])) && (0..3).all(|i| len(sub(t[i], t[(i + 1) % 3])) > 0.1) { return t; }
    }
}
fn at(t: &[V3; 3], u: f64, v: f64) -> V3 { add(t[0], add(mul(sub(t[1], t[0]), u), mul(sub(t[2], t[0]), v))) }
fn measures(x: &Triangle3D, t: &[V3; 3]) -> Result<(), String> {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    expect("area", x.area(), len(n) / 2., 1e-7, 1e-9)?;
    same("normal", fv(x.normal()), unit(n), 1e-7)?;
    ensure(fp(x.a()) == t[0] && fp(x.b()) == t[1] && fp(x.c()) == t[2], || "vertices".into())?;
    for i in 0..4 {
        let (w, s) = (x.vertex(i), x.segment(i));
        ensure(w.is_ok() == (i < 3) && s.is_ok() == (i < 3), || format!("vertex or segment {}", i))?;
        if i < 3 {
            let s = s?;
            ensure(fp(w?) == t[i] && fp(s.start) == t[i] && fp(s.end) == t[(i + 1) % 3], || format!("vertex or segment {}", i))?;
            expect("length of a side", s.length(), len(sub(t[i], t[(i + 1) % 3])), 1e-12, 0.)?;
        }
    }
    same("centroid", fp(x.centroid()), mul(add(t[0], add(t[1], t[2])), 1. / 3.), 1e-10)?;
    let l: Vec<f64> = (0..3).map(|i| len(sub(t[i], t[(i + 1) % 3]))).collect();
    let r = l[0] * l[1] * l[2] / (2. * len(n));
    expect("circumradius", x.circumradius(), r, 1e-6, 1e-9)?;
    expect("aspect_ratio", x.aspect_ratio(), r / l[0].min(l[1]).min(l[2]), 1e-6, 1e-9)?;
    let c = fp(x.circumcenter());
    for q in t { expect("distance of the circumcenter to a vertex", len(sub(c, *q)), r, 1e-6, 1e-9)?; }
    expect("circumcenter off the plane", dot(sub(c, t[0]), unit(n)), 0., 0., 1e-6 * (1. + r))?;
    for (what, b) in [("bounds", x.bounds()), ("world_bounds", x.world_bounds())] {
        for k in 0..3 {
            let (lo, hi) = (t[0][k].min(t[1][k]).min(t[2][k]), t[0][k].max(t[1][k]).max(t[2][k]));
            ensure(fp(b.min)[k] == lo && fp(b.max)[k] == hi, || format!("{}: {:?} {:?}", what, fp(b.min), fp(b.max)))?;
        }
    }
    Ok(())
}
fn main() {
    run("G04", |c| {
        for _ in 0..c.n(20000, 400000) {
            let t = tri(&mut c.rng);
            let t2 = tri(&mut c.rng);
            let k = c.rng.int(0, 3) as usize;
            c.case("measures of a triangle", || format!("triangle {:?}, vertex {} moved to {:?}", t, k, t2[0]), || {
                let mut x = Triangle3D::new(p(t[0]), p(t[1]), p(t[2]))?;
                measures(&x, &t)?;
                let mut m = t;
                m[k] = t2[0];
                let n = len(cross(sub(m[1], m[0]), sub(m[2], m[0])));
                if n < 0.05 || (0..3).any(|i| n < 0.02 * len(sub(m[i], m[(i + 1) % 3])) * len(sub(m[i], m[(i + 2) % 3]))) || (0..3).any(|i| len(sub(m[i], m[(i + 1) % 3])) < 0.1) { return Ok(()); }
                match k { 0 => x.set_a(p(m[0])), 1 => x.set_b(p(m[1])), _ => x.set_c(p(m[2])) };
                measures(&x, &m)
            });
            let (i, j) = (c.rng.int(0, 4) as usize, c.rng.int(0, 4) as usize);
            let sel = |r: &mut Rng, n: usize| if n < 3 { add(t[n], mul(rdir(r), if r.bool() { 0. } else { 0.0004 })) } else { add(t[0], mul(rdir(r), 30.)) };
            let (e0, e1) = (sel(&mut c.rng, i), sel(&mut c.rng, j));
            c.case("edges and vertices", || format!("triangle {:?}, points near {:?} and {:?}: {:?} {:?}", t, i, j, e0, e1), || {
                let x = Triangle3D::new(p(t[0]), p(t[1]), p(t[2]))?;
                ensure(x.has_vertex(p(e0)) == (i < 3), || "has_vertex".into())?;
                let e = match (i, j) { (0, 1) | (1, 0) => Some(0), (1, 2) | (2, 1) => Some(1), (2, 0) | (0, 2) => Some(2), _ => None };
                ensure(x.get_edge_index_from_points(p(e0), p(e1)) == e, || format!("get_edge_index_from_points, expected {:?}", e))?;
                ensure(x.get_edge_index_from_segment(&Segment3D::new(p(e0), p(e1))) == e, || format!("get_edge_index_from_segment, expected {:?}", e))?;
                let o = Triangle3D::new(p(t[k]), p(t[(k + 2) % 3]), p(t[(k + 1) % 3]))?;
                ensure(x.compare(&o) && o.compare(&x), || "compare of the same triangle".into())?;
                let mut m = t; m[k] = add(t[k], [0., 0., 0.5]);
                if let Ok(o) = Triangle3D::new(p(m[0]), p(m[1]), p(m[2])) {
                    if (0..3).all(|q| len(sub(m[k], t[q])) > 0.01) { ensure(!o.compare(&x) && !x.compare(&o), || "compare of different triangles".into())?; }
                }
                // degenerate ones are refused
                ensure(Triangle3D::new(p(t[0]), p(t[0]), p(t[1])).is_err() && Triangle3D::new(p(t[0]), p(t[1]), p(at(&t, 0.5, 0.))).is_err() && Triangle3D::new(p(t[0]), p(t[1]), p(t[1])).is_err() && Triangle3D::new(p(t[1]), p(t[0]), p(t[1])).is_err(), || "degenerate triangle accepted".into())
            });
            // points in the plane
            let z = |r: &mut Rng| match r.int(0, 4) { 0 => 0., 1 => 1., _ => r.range(-1.5, 2.) };
            let (u, v) = match c.rng.int(0, 4) { 0 => { let u = c.rng.range(-0.5, 1.5); (u, 1. - u) } 1 => { let u = c.rng.range(0., 1.); (u, c.rng.range(0., 1.) * (1. - u)) } _ => (z(&mut c.rng), z(&mut c.rng)) };
            let q = at(&t, u, v);
            c.case("place of a point of the plane", || format!("triangle {:?}, u {} v {}", t, u, v), || {
                let x = Triangle3D::new(p(t[0]), p(t[1]), p(t[2]))?;
                let w = 1. - u - v;
                let near = |a: f64| a != 0. && a.abs() < 1e-6;
                if near(u) || near(v) || (near(w) && w.abs() > 1e-14) { return Ok(()); }
                let w = if w.abs() < 1e-14 { 0. } else { w };
                let e = if u < 0. || v < 0. || w < 0. { PointInTriangle::Outside } else if u == 1. { PointInTriangle::VertexB } else if v == 1. { PointInTriangle::VertexC } else if w == 1. { PointInTriangle::VertexA }
                    else if u == 0. { PointInTriangle::EdgeAC } else if v == 0. { PointInTriangle::EdgeAB } else if w == 0. { PointInTriangle::EdgeBC } else { PointInTriangle::Inside };
                let g = x.test_point(p(q));
                // on the border the tolerance of the code is of the order of rounding
                let border = u == 0. || v == 0. || w == 0.;
                ensure(g.is_vertex() == matches!(g, PointInTriangle::VertexA | PointInTriangle::VertexB | PointInTriangle::VertexC) && g.is_edge() == matches!(g, PointInTriangle::EdgeAB | PointInTriangle::EdgeBC | PointInTriangle::EdgeAC), || format!("kind of {:?}", g))?;
                if border { 
                    let simple = t.iter().all(|a| a.iter().all(|b| b.fract() == 0.)) && u.fract() == 0. && v.fract() == 0.;
                    return if simple { ensure(g == e, || format!("{:?}, expected {:?}", g, e)) } else { Ok(()) }; }
                ensure(g == e, || format!("{:?}, expected {:?}", g, e))
            });
            // rays
            let d = rdir(&mut c.rng);
            let s = match c.rng.int(0, 5) { 0 => -c.rng.range(0.01, 10.), 1 => c.rng.range(0.001, 0.1), _ => c.rng.range(0.1, 20.) };
            let o = sub(q, mul(d, s));
            c.case("a ray hits exactly inside the triangle", || format!("triangle {:?}, origin {:?} direction {:?}: through u {} v {} at {}", t, o, d, u, v, s), || {
                let x = Triangle3D::new(p(t[0]), p(t[1]), p(t[2]))?;
                let n = unit(cross(sub(t[1], t[0]), sub(t[2], t[0])));
                if dot(n, d).abs() < 0.02 { return Ok(()); }
                let m = u.min(v).min(1. - u - v);
                if m.abs() < 1e-7 { return Ok(()); }
                let r = Ray3D { origin: p(o), direction: v3(d) };
                let hit = m > 0. && s > 0.;
                let z = Point3D::new(0., 0., 0.);
                for (what, g) in [("intersect", x.intersect(&r)), ("intersect_local_ray", x.intersect_local_ray(&r, z, z))] {
                    ensure(g.is_some() == hit, || format!("{}: {}", what, if hit { "missed" } else { "hit" }))?;
                    if let Some(i) = g {
                        same(what, fp(i.p), q, 1e-7)?;
                        same("dpdu", fv(i.dpdu), sub(t[1], t[0]), 1e-12)?;
                        same("dpdv", fv(i.dpdv), sub(t[2], t[0]), 1e-12)?;
                        let front = dot(n, d) < 0.;
                        ensure(i.side == if front { SurfaceSide::Front } else { SurfaceSide::Back }, || format!("side {:?}", i.side))?;
                        same("normal", fv(i.normal), if front { n } else { mul(n, -1.) }, 1e-7)?;
                    }
                }
                for (what, g) in [("simple_intersect", x.simple_intersect(&r)), ("simple_intersect_local_ray", x.simple_intersect_local_ray(&r, z, z)), ("basic_intersection", x.basic_intersection(&r, z, z).map(|k| k.0))] {
                    ensure(g.is_some() == hit, || format!("{}: {}", what, if hit { "missed" } else { "hit" }))?;
                    if let Some(i) = g { same(what, fp(i), q, 1e-7)?; }
                }
                if let Some((_, gu, gv)) = x.basic_intersection(&r, z, z) { expect("u", gu, u, 1e-6, 1e-8)?; expect("v", gv, v, 1e-6, 1e-8)?; }
                Ok(())
            });
        }
    });
}
fn v3(a: V3) -> geometry::Vector3D { v(a) }
