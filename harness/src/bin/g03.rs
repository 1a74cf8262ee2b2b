use geometry::{Plane3D, Point3D, Ray3D, Segment3D};
use vpharness::geo::*;
use vpharness::*;
fn main() {
    run("G03", |c| {
        for _ in 0..c.n(30000, 600000) {
            let (a, b, q) = (g3(&mut c.rng, 5.), g3(&mut c.rng, 5.), g3(&mut c.rng, 5.));
            let s = match c.rng.int(0, 6) { 0 => 1e-4, 1 => 1e3, _ => 1. };
            let u = mul(g3(&mut c.rng, 2.), s);
            let (rt, ra, rb) = (c.rng.range(0.1, 3.), c.rng.range(-2., 3.), c.rng.range(-5., 5.));
            c.case("vectors", || format!("{:?} {:?} {:?}", a, b, u), || {
                let (va, vb) = (v(a), v(b));
                same("+", fv(va + vb), add(a, b), 1e-12)?; same("-", fv(va - vb), sub(a, b), 1e-12)?; same("neg", fv(-va), mul(a, -1.), 1e-12)?;
                expect("dot", va * vb, dot(a, b), 1e-12, 1e-11)?;
                same("cross", fv(va.cross(vb)), cross(a, b), 1e-12)?;
                expect("length", va.length(), len(a), 1e-12, 1e-12)?;
                expect("length_squared", va.length_squared(), dot(a, a), 1e-12, 1e-12)?;
                same("scale", fv(va.scale_components(b[0], b[1], b[2])), [a[0] * b[0], a[1] * b[1], a[2] * b[2]], 1e-12)?;
                same("as_point3d", fp(va.as_point3d()), a, 0.)?;
                if len(u) > 1e-9 { same("normalized", fv(v(u).get_normalized()), unit(u), 1e-9)?; let mut w = v(u); w.normalize(); same("normalize", fv(w), unit(u), 1e-9)?; }
                let z = u.iter().all(|x| x.abs() <= 100. * f64::EPSILON);
                match v(u).get_perpendicular() {
                    Ok(r) => { ensure(!z, || "perpendicular to zero".into())?; expect("length of the perpendicular", r.length(), 1., 1e-9, 1e-9)?; ensure((r * v(u)).abs() <= 1e-9 * len(u), || format!("not perpendicular: {:?}", fv(r)))?; }
                    Err(_) => ensure(z, || "no perpendicular".into())?,
                }
                ensure(v(u).is_zero() == u.iter().all(|x| x.abs() < 100. * f64::EPSILON), || "is_zero".into())?;
                let same_ab = (0..3).all(|i| (a[i] - b[i]).abs() < 1e-5);
                ensure(va.compare(vb) == same_ab && va.compare(va), || "compare".into())?;
                let (r, k) = ((dot(a, b).powi(2) - dot(a, a) * dot(b, b)).abs(), len(a) > 1e-9 && len(b) > 1e-9);
                if !k { ensure(!va.is_parallel(vb), || "zero is not parallel to anything".into())?; }
                else if r < 0.9e-5 { ensure(va.is_parallel(vb) && va.is_same_direction(vb) == (dot(a, b) > 0.), || "parallel".into())?; }
                else if r > 1.1e-5 { ensure(!va.is_parallel(vb) && !va.is_same_direction(vb), || "not parallel".into())?; }
                let t = rt;
                if len(a) > 0.1 { ensure(va.is_parallel(va * t) && va.is_parallel(va * -t) && va.is_same_direction(va * t) && !va.is_same_direction(va * -t), || "multiples are parallel".into())?; }
                Ok(())
            });
            let n = rdir(&mut c.rng);
            let off = mul(rdir(&mut c.rng), *c.rng.pick(&[0., 0.5e-3, 0.9e-3, 1.1e-3, 0.1]));
            c.case("points", || format!("{:?} {:?} {:?} normal {:?} offset {:?}", a, b, q, n, off), || {
                let (pa, pb, pq) = (p(a), p(b), p(q));
                expect("distance", pa.distance(pb), len(sub(a, b)), 1e-12, 1e-12)?;
                expect("squared_distance", pa.squared_distance(pb), dot(sub(a, b), sub(a, b)), 1e-12, 1e-12)?;
                ensure(pa.compare(p(add(a, off))) == (len(off) < 1e-3), || "compare".into())?;
                ensure(pa.compare_by(pb, len(sub(a, b)) * 1.001 + 1e-12) && (a == b || !pa.compare_by(pb, len(sub(a, b)) * 0.999)), || "compare_by".into())?;
                expect("distance_to_plane", pa.distance_to_plane(pb, v(n)), dot(sub(a, b), n), 1e-10, 1e-10)?;
                let f = pa.project_into_plane(pb, v(n));
                ensure(dot(sub(fp(f), b), n).abs() < 1e-9, || "the projection is not on the plane".into())?;
                ensure(len(cross(sub(fp(f), a), n)) < 1e-9, || "the projection is not along the normal".into())?;
                if len(sub(a, b)) > 0.1 {
                    let d = unit(sub(b, a));
                    let e = len(cross(sub(q, a), d));
                    expect("distance_to_line", pq.distance_to_line(pa, pb), e, 1e-7, 1e-6)?;
                    expect("squared_distance_to_line", pq.squared_distance_to_line(pa, pb), e * e, 1e-9, 1e-9)?;
                    let near = |x: V3, y: V3| len(sub(x, y)) < 1e-3;
                    let w = len(cross(sub(a, q), sub(b, a)));
                    let r = pq.is_collinear(pa, pb);
                    if near(q, a) || near(q, b) || w < 0.9e-5 { ensure(r == Ok(true), || format!("collinear: {:?}", r))?; }
                    else if w > 1.1e-5 { ensure(r == Ok(false), || format!("not collinear: {:?}", r))?; }
                    let on = add(a, mul(sub(b, a), ra));
                    ensure(p(on).is_collinear(pa, pb) == Ok(true) && pa.is_collinear(p(on), pb) == Ok(true), || "a point of the line".into())?;
                }
                ensure(pa.is_collinear(pa, pa).is_err() && pa.is_collinear(pb, pb).is_ok() == !pa.compare(pb), || "equal points".into())
            });
            let d = rdir(&mut c.rng);
            c.case("planes", || format!("through {:?}, normal {:?}, ray {:?} {:?}", a, mul(n, 3.), q, d), || {
                let pl = Plane3D::new(p(a), v(mul(n, 3.)));
                same("normal", fv(pl.normal), n, 1e-12)?;
                expect("d", pl.d, dot(n, a), 1e-11, 1e-11)?;
                let w = v(n).get_perpendicular()?;
                let x = p(a) + w * rb;
                let far = x + v(n) * 1e-3;
                ensure((pl.normal * x - pl.d).abs() > 2e-16 || pl.test_point(x), || "a point of the plane".into())?;
                ensure(!pl.test_point(far) && Plane3D { normal: v([0., 0., 1.]), d: 2. }.test_point(p([q[0], q[1], 2.])), || "test_point".into())?;
                let (den, num) = (dot(n, d), dot(n, sub(a, q)));
                let ray = Ray3D { origin: p(q), direction: v(d) };
                let r = pl.intersect(&ray);
                if den.abs() < 1e-6 { return Ok(()); }
                let t = num / den;
                match r {
                    Some(g) => { ensure(t > -1e-9 && g >= 0., || "behind".into())?; expect("t", g, t, 1e-7, 1e-7) }
                    None => ensure(t < 1e-9, || format!("missed at {}", t)),
                }
            });
            // segments
            let (s1, s2, s3) = (g3(&mut c.rng, 4.), g3(&mut c.rng, 4.), g3(&mut c.rng, 4.));
            let ts = [0., 1., 0.5, -0.4, 1.3, c.rng.range(-0.5, 1.5), c.rng.range(0., 1.)];
            let (ta, tb) = (*c.rng.pick(&ts), *c.rng.pick(&ts));
            let flat = c.rng.int(0, 5);
            c.case("segments", || format!("{:?} {:?} {:?} meeting at {} and {} (flat {})", s1, s2, s3, ta, tb, flat), || {
                let (mut s1, mut s2, mut s3) = (s1, s2, s3);
                if flat < 3 { let k = flat; s1[k] = 1.; s2[k] = 1.; s3[k] = 1.; }
                let d1 = sub(s2, s1);
                let d2 = sub(s3, add(s1, mul(d1, 0.3)));
                let s = Segment3D::new(p(s1), p(s2));
                ensure(fp(s.start()) == s1 && fp(s.end()) == s2 && fp(s.start) == s1, || "ends".into())?;
                same("vector", fv(s.as_vector3d()), d1, 1e-12)?; same("reversed", fv(s.as_reversed_vector3d()), mul(d1, -1.), 1e-12)?;
                expect("length", s.length(), len(d1), 1e-12, 1e-12)?;
                same("midpoint", fp(s.midpoint()), mul(add(s1, s2), 0.5), 1e-12)?;
                ensure(s.compare(&Segment3D::new(p(s2), p(s1))) && s.compare(&s), || "compare".into())?;
                if len(sub(s3, s2)) > 0.1 && len(sub(s3, s1)) > 0.1 { ensure(!s.compare(&Segment3D::new(p(s1), p(s3))) && !s.compare(&Segment3D::new(p(s3), p(s2))), || "compare of different ones".into())?; }
                if len(d1) > 0.5 {
                    let on = |t: f64| p(add(s1, mul(d1, t)));
                    let inside = |t: f64| t >= 0. && t <= 1.;
                    if ta != 0. && ta != 1. {
                        ensure(s.contains_point(on(ta)) == Ok(inside(ta)), || format!("contains_point at {}", ta))?;
                        let side = on(ta) + v(unit(cross(d1, [0.3, 0.8, -0.5]))) * 0.2;
                        if len(cross(d1, [0.3, 0.8, -0.5])) > 0.1 { ensure(s.contains_point(side) == Ok(false), || "a point beside it".into())?; }
                        if tb != 0. && tb != 1. { ensure(s.contains(&Segment3D::new(on(ta), on(tb))) == Ok(inside(ta) && inside(tb)), || "contains".into())?; }
                    }
                }
                let nn = cross(d1, d2);
                if len(nn) > 0.5 {
                    // o starts so that the lines meet at ta, tb
                    let m = add(s1, mul(d1, ta));
                    let o = sub(m, mul(d2, tb));
                    let other = Segment3D::new(p(o), p(add(o, d2)));
                    match s.get_intersection_pt(&other) {
                        Some((x, y)) => {
                            // the code resolves normals of 1e-5 and more only
                            let mx = if nn[2].abs() > 1e-5 { nn[2] } else if nn[0].abs() > 1e-5 { nn[0] } else { nn[1] };
                            if mx.abs() > 1e-2 { expect("ta", x, ta, 1e-8, 1e-8)?; expect("tb", y, tb, 1e-8, 1e-8)?; }
                            let mut out = Point3D::new(9., 9., 9.);
                            let cut = x >= 0. && x <= 1. && y > 1e-6 && y < 1. - 1e-6;
                            let clear = |z: f64| z.abs() > 1e-6 && (z - 1.).abs() > 1e-6;
                            if (clear(x) || (0. ..=1.).contains(&x)) && (clear(y) || y.abs() < 1e-9 || (y - 1.).abs() < 1e-9) {
                                let g = s.intersect(&other, &mut out);
                                ensure(g == cut, || format!("intersect at {} {}: {}", x, y, g))?;
                                if g { same("output", fp(out), m, 1e-6)?; } else { same("output", fp(out), [9.; 3], 0.)?; }
                            }
                            if clear(x) && clear(y) {
                                let mut out = Point3D::new(9., 9., 9.);
                                let g = s.touches(&other, &mut out);
                                ensure(g == ((0. ..=1.).contains(&x) && (0. ..=1.).contains(&y)), || format!("touches at {} {}", x, y))?;
                                if g { same("output", fp(out), m, 1e-6)?; }
                            }
                            // touching at the ends counts
                            let e1 = Segment3D::new(p([0., 0., 0.]), p([1., 0., 0.]));
                            let e2 = Segment3D::new(p([1., 0., 0.]), p([1., 2., 0.]));
                            ensure(e1.touches(&e2, &mut out) && e2.touches(&e1, &mut out) && !e1.intersect(&e2, &mut out), || "ends".into())?;
                        }
                        None => ensure(nn.iter().all(|x| x.abs() < 1.1e-5), || "no intersection found".into())?,
                    }
                    // apart
                    let o2 = add(o, mul(unit(nn), 0.3));
                    ensure(s.get_intersection_pt(&Segment3D::new(p(o2), p(add(o2, d2)))).is_none(), || "they do not meet".into())?;
                }
                // parallel
                if len(d1) > 0.5 { ensure(s.get_intersection_pt(&Segment3D::new(p(s3), p(add(s3, mul(d1, 0.7))))).is_none(), || "parallel".into())?; }
                Ok(())
            });
        }
    });
}
