use geometry::{BBox3D, Ray3D, Vector3D};
use vpharness::geo::*;
use vpharness::*;
fn inside(b: &(V3, V3), q: V3) -> bool { (0..3).all(|i| b.0[i] <= q[i] && q[i] <= b.1[i]) }
fn bx(r: &mut Rng) -> (V3, V3) {
    let (a, mut b) = (g3(r, 6.), g3(r, 6.));
    if r.int(0, 3) == 0 { let k = r.int(0, 3); if k < 3 { b[k] = a[k]; } }
    let mut o = (a, b);
    for i in 0..3 { o.0[i] = a[i].min(b[i]); o.1[i] = a[i].max(b[i]); }
    o
}
fn mk(b: &(V3, V3)) -> BBox3D { BBox3D { min: p(b.0), max: p(b.1) } }
fn eqb(what: &str, b: BBox3D, e: &(V3, V3)) -> Result<(), String> {
    ensure(fp(b.min) == e.0 && fp(b.max) == e.1, || format!("{}: {:?} {:?}, expected {:?}", what, fp(b.min), fp(b.max), e))
}
fn z(a: V3, b: V3, f: fn(f64, f64) -> f64) -> V3 { [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])] }
fn main() {
    run("G02", |c| {
        for _ in 0..c.n(40000, 800000) {
            let (b1, b2) = (bx(&mut c.rng), bx(&mut c.rng));
            let q = if c.rng.bool() { g3(&mut c.rng, 6.) } else {
                let mut q = [0.; 3];
                for i in 0..3 { q[i] = match c.rng.int(0, 4) { 0 => b1.0[i], 1 => b1.1[i], _ => c.rng.range(b1.0[i], b1.1[i]) }; }
                q
            };
            c.case("unions, intersections, points", || format!("boxes {:?} and {:?}, point {:?}", b1, b2, q), || {
                let (x1, x2) = (mk(&b1), mk(&b2));
                let m = |a, b| z(a, b, f64::min);
                let xx = |a, b| z(a, b, f64::max);
                eqb("new", BBox3D::new(p([b1.0[0], b1.1[1], b1.0[2]]), p([b1.1[0], b1.0[1], b1.1[2]])), &b1)?;
                eqb("new", BBox3D::new(p(q), p(b2.0)), &(m(q, b2.0), xx(q, b2.0)))?;
                eqb("from_point", BBox3D::from_point(p(q)), &(q, q))?;
                eqb("from_union_point", BBox3D::from_union_point(&x2, p(q)), &(m(b2.0, q), xx(b2.1, q)))?;
                eqb("from_union", BBox3D::from_union(&x1, &x2), &(m(b1.0, b2.0), xx(b1.1, b2.1)))?;
                let i = (xx(b1.0, b2.0), m(b1.1, b2.1));
                eqb("from_intersection", BBox3D::from_intersection(&x1, &x2), &i)?;
                let ov = (0..3).all(|k| i.0[k] <= i.1[k]);
                ensure(x1.overlaps(&x2) == ov && x2.overlaps(&x1) == ov, || format!("overlaps, expected {}", ov))?;
                for (b, x) in [(&b1, x1), (&b2, x2)] {
                    ensure(x.point_inside(p(q)) == inside(b, q), || format!("point_inside of {:?}", b))?;
                    ensure(x.point_inside_exclusive(p(q)) == (inside(b, q) && (0..3).all(|i| q[i] < b.1[i])), || format!("point_inside_exclusive of {:?}", b))?;
                    let e = sub(b.1, b.0);
                    expect("surface_area", x.surface_area(), 2. * (e[0] * e[1] + e[1] * e[2] + e[2] * e[0]), 1e-12, 1e-12)?;
                    let k = x.max_extent() as usize;
                    ensure(e.iter().all(|o| *o <= e[k]), || format!("max_extent of {:?}", e))?;
                }
                Ok(())
            });
            // rays
            let mut d = rdir(&mut c.rng);
            if c.rng.int(0, 3) == 0 { d[c.rng.int(0, 3).min(2)] = 0.; }
            if c.rng.int(0, 6) == 0 { d = if c.rng.bool() { [0.; 3] } else { [-0.; 3] }; d[c.rng.int(0, 3).min(2)] = if c.rng.bool() { 1. } else { -1. }; }
            if len(d) == 0. { continue; }
            let b = b1;
            let w = sub(b.1, b.0);
            let mut q = [0.; 3];
            for i in 0..3 {
                q[i] = if c.rng.int(0, 4) == 0 { *c.rng.pick(&[b.0[i], b.1[i]]) } else { b.0[i] + w[i] * c.rng.range(0.02, 0.98) };
            }
            let t = match c.rng.int(0, 3) { 0 => c.rng.range(0.001, 0.1), _ => c.rng.range(0.1, 30.) };
            let ray = |o: V3| Ray3D { origin: p(o), direction: v(d) };
            let inv = Vector3D::new(1. / d[0], 1. / d[1], 1. / d[2]);
            let o = sub(q, mul(d, t));
            c.case("a ray through the box hits it", || format!("box {:?} origin {:?} direction {:?}", b, o, d), || {
                // on faces, rounding may put the ray just beside the box; inside it may not
                let mut k = (f64::NEG_INFINITY, f64::INFINITY);
                for i in 0..3 {
                    if d[i] == 0. { continue; }
                    let (s, e) = ((b.0[i] - o[i]) / d[i], (b.1[i] - o[i]) / d[i]);
                    k.0 = k.0.max(s.min(e)); k.1 = k.1.min(s.max(e));
                }
                if k.1 - k.0 < 1e-9 && k.1 - k.0 != 0. { return Ok(()); }
                if (0..3).filter(|i| d[*i] != 0. && (q[*i] == b.0[*i] || q[*i] == b.1[*i])).count() > 1 { return Ok(()); }
                ensure(mk(&b).intersect(ray(o), &inv), || "not hit".into())
            });
            let o = g3(&mut c.rng, 12.);
            c.case("the ray hits exactly when its times in the slabs overlap", || format!("box {:?} origin {:?} direction {:?}", b, o, d), || {
                let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
                for i in 0..3 {
                    if d[i] == 0. {
                        if (o[i] - b.0[i]).abs() < 1e-9 || (o[i] - b.1[i]).abs() < 1e-9 { return Ok(()); }
                        if o[i] < b.0[i] || o[i] > b.1[i] { lo = f64::INFINITY; }
                        continue;
                    }
                    let (s, e) = ((b.0[i] - o[i]) / d[i], (b.1[i] - o[i]) / d[i]);
                    lo = lo.max(s.min(e)); hi = hi.min(s.max(e));
                }
                let got = mk(&b).intersect(ray(o), &inv);
                let tol = 1e-9 * (1. + hi.abs().min(1e6));
                if hi - lo > tol && hi > tol { ensure(got, || "not hit".into()) }
                else if lo - hi > tol || hi < -tol { ensure(!got, || "hit".into()) }
                else { Ok(()) }
            });
        }
    });
}
