use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{BBox3D, Ray3D, Transform};
use vpharness::geo::*;
use vpharness::*;

fn basic(r: &mut Rng) -> (Transform, Aff, String) {
    let mut a = Aff::id();
    let k = r.int(0, 6);
    let deg = match r.int(0, 4) { 0 => *r.pick(&[0., 90., 180., 270., -90., 360., 45.]), 1 => r.range(-800., 800.), _ => r.range(-180., 180.) };
    let (s, c) = (deg * std::f64::consts::PI / 180.).sin_cos();
    match k {
        0 => (Transform::new(), a, "identity".into()),
        1 => { let t = g3(r, 20.); a.t = t; (Transform::translate(t[0], t[1], t[2]), a, format!("translate{:?}", t)) }
        2 => {
            let mut t = [0.; 3];
            for x in t.iter_mut() { *x = r.range(0.2, 4.) * if r.bool() { 1. } else { -1. }; }
            for i in 0..3 { a.m[i][i] = t[i]; }
            (Transform::scale(t[0], t[1], t[2]), a, format!("scale{:?}", t))
        }
        3 => { a.m = [[1., 0., 0.], [0., c, -s], [0., s, c]]; (Transform::rotate_x(deg), a, format!("rotate_x({})", deg)) }
        4 => { a.m = [[c, 0., s], [0., 1., 0.], [-s, 0., c]]; (Transform::rotate_y(deg), a, format!("rotate_y({})", deg)) }
        _ => { a.m = [[c, -s, 0.], [s, c, 0.], [0., 0., 1.]]; (Transform::rotate_z(deg), a, format!("rotate_z({})", deg)) }
    }
}
fn chain(r: &mut Rng) -> (Transform, Aff, String) {
    let n = r.int(1, 5);
    let (mut t, mut a, mut s) = basic(r);
    for _ in 1..n {
        let (t2, a2, s2) = basic(r);
        t *= t2;
        a = a.after(&a2);
        s = format!("{} * {}", s, s2);
    }
    (t, a, s)
}
const G: f64 = f64::EPSILON / 2. * 3. / (1. - f64::EPSILON / 2. * 3.);
fn absapp(a: &Aff, q: V3) -> V3 {
    let f = |i: usize| (0..3).map(|j| (a.m[i][j] * q[j]).abs()).sum::<f64>() + a.t[i].abs();
    [f(0), f(1), f(2)]
}
fn near_err(what: &str, got: V3, exp: V3) -> Result<(), String> {
    for i in 0..3 {
        ensure(got[i] >= 0. && (got[i] - exp[i]).abs() <= 1e-6 * (exp[i] + 1e-18) + 1e-28, || format!("{}: {:?}, expected {:?}", what, got, exp))?;
    }
    Ok(())
}
fn main() {
    run("G01", |c| {
        for _ in 0..c.n(20000, 400000) {
            let seed = c.rng.next();
            let desc = chain(&mut Rng::new(seed)).2;
            let mk = || { let mut r = Rng::new(seed); let (t, a, _) = chain(&mut r); (t, a, r) };
            let d = || format!("{} (seed {})", desc, seed);
            c.case("points, vectors, normals", d, || {
                let (t, a, mut r) = mk();
                for _ in 0..3 {
                    let (q, n) = (g3(&mut r, 10.), g3(&mut r, 3.));
                    let tol = 1e-9;
                    same("point", fp(t.transform_pt(p(q))), a.app(q), tol)?;
                    same("vector", fv(t.transform_vec(v(q))), a.lin(q), tol)?;
                    same("inverse of the point", fp(t.inv_transform_pt(t.transform_pt(p(q)))), q, 1e-7)?;
                    same("point of the inverse", fp(t.transform_pt(t.inv_transform_pt(p(q)))), q, 1e-7)?;
                    same("inverse of the vector", fv(t.inv_transform_vec(t.transform_vec(v(q)))), q, 1e-7)?;
                    same("vector of the inverse", fv(t.transform_vec(t.inv_transform_vec(v(q)))), q, 1e-7)?;
                    same("inverse of the normal", fv(t.inv_transform_normal(t.transform_normal(v(q)))), q, 1e-7)?;
                    let (tn, tv) = (t.transform_normal(v(n)), t.transform_vec(v(q)));
                    expect("a normal against a vector", tn * tv, dot(n, q), 1e-8, 1e-7 * (1. + len(fv(tn)) * len(fv(tv))))?;
                    let (tn, tv) = (t.inv_transform_normal(v(n)), t.inv_transform_vec(v(q)));
                    expect("a normal against a vector, inverse", tn * tv, dot(n, q), 1e-8, 1e-7 * (1. + len(fv(tn)) * len(fv(tv))))?;
                }
                if a.det().abs() > 1e-9 { ensure(t.changes_hands() == (a.det() < 0.), || "changes_hands".into())?; }
                Ok(())
            });
            c.case("errors", d, || {
                let (t, a, mut r) = mk();
                let q = g3(&mut r, 10.);
                let e = [r.range(0., 1e-3), r.range(0., 1e-3), r.range(0., 1e-3)];
                let (x, er) = t.transform_pt_with_error(p(q));
                same("point", fp(x), a.app(q), 1e-9)?;
                near_err("error of the point", fp(er), mul(absapp(&a, q), G))?;
                let (x, er) = t.transform_vec_with_error(v(q));
                same("vector", fv(x), a.lin(q), 1e-9)?;
                near_err("error of the vector", fp(er), mul(absapp(&a, q), G))?;
                let (x, er) = t.transform_pt_propagate_error(p(q), p(e));
                same("point", fp(x), a.app(q), 1e-9)?;
                let w = add(mul(absapp(&a, e), 1. + G), mul(absapp(&a, q), G));
                near_err("propagated error of the point", fp(er), w)?;
                let (x, er) = t.transform_vec_propagate_error(v(q), p(e));
                same("vector", fv(x), a.lin(q), 1e-9)?;
                near_err("propagated error of the vector", fp(er), w)?;
                let (x, er) = t.inv_transform_pt_with_error(p(q));
                same("inverse point", fp(x), fp(t.inv_transform_pt(p(q))), 1e-12)?;
                let (x2, er2) = t.inv_transform_vec_with_error(v(q));
                same("inverse vector", fv(x2), fv(t.inv_transform_vec(v(q))), 1e-12)?;
                near_err("errors of the inverse", fp(er), fp(er2))?;
                let (x, er3) = t.inv_transform_pt_propagate_error(p(q), p(e));
                same("inverse point", fp(x), fp(t.inv_transform_pt(p(q))), 1e-12)?;
                let (x2, er4) = t.inv_transform_vec_propagate_error(v(q), p(e));
                same("inverse vector", fv(x2), fv(t.inv_transform_vec(v(q))), 1e-12)?;
                near_err("propagated errors of the inverse", fp(er3), fp(er4))?;
                // the inverse map, recovered from its images of the axes
                let o = fp(t.inv_transform_pt(p([0.; 3])));
                let cols: Vec<V3> = (0..3).map(|i| { let mut z = [0.; 3]; z[i] = 1.; fv(t.inv_transform_vec(v(z))) }).collect();
                let mut inv = Aff { m: [[0.; 3]; 3], t: o };
                for i in 0..3 { for j in 0..3 { inv.m[i][j] = cols[j][i]; } }
                near_err("error of the inverse point", fp(er), mul(absapp(&inv, q), G))?;
                near_err("propagated error of the inverse point", fp(er3), add(mul(absapp(&inv, e), 1. + G), mul(absapp(&inv, q), G)))
            });
            c.case("rays", d, || {
                let (t, a, mut r) = mk();
                let (o, dir) = (g3(&mut r, 10.), if r.int(0, 10) == 0 { [0.; 3] } else { r3(&mut r, 2.) });
                let e = [r.range(0., 0.1), r.range(0., 0.1), r.range(0., 0.1)];
                let ray = Ray3D { origin: p(o), direction: v(dir) };
                let ck = |got: (Ray3D, geometry::Point3D, geometry::Point3D), o2: V3, d2: V3, eo: V3, ed: V3, w: &str| -> Result<(), String> {
                    same(&format!("{} direction", w), fv(got.0.direction), d2, 1e-9)?;
                    near_err(&format!("{} origin error", w), fp(got.1), eo)?;
                    near_err(&format!("{} direction error", w), fp(got.2), ed)?;
                    let l2 = dot(d2, d2);
                    let dt = if l2 > 0. { (0..3).map(|i| d2[i].abs() * eo[i]).sum::<f64>() / l2 } else { 0. };
                    same(&format!("{} origin", w), fp(got.0.origin), add(o2, mul(d2, dt)), 1e-9)
                };
                let inv_o = fp(t.inv_transform_pt(p(o)));
                let inv_d = fv(t.inv_transform_vec(v(dir)));
                ck(t.transform_ray(&ray), a.app(o), a.lin(dir), fp(t.transform_pt_with_error(p(o)).1), fp(t.transform_vec_with_error(v(dir)).1), "ray")?;
                ck(t.inv_transform_ray(&ray), inv_o, inv_d, fp(t.inv_transform_pt_with_error(p(o)).1), fp(t.inv_transform_vec_with_error(v(dir)).1), "inverse ray")?;
                ck(t.transform_ray_propagate_error(&ray, p(e), p(mul(e, 0.5))), a.app(o), a.lin(dir), fp(t.transform_pt_propagate_error(p(o), p(e)).1), fp(t.transform_vec_propagate_error(v(dir), p(mul(e, 0.5))).1), "propagated ray")?;
                ck(t.inv_transform_ray_propagate_error(&ray, p(e), p(mul(e, 0.5))), inv_o, inv_d, fp(t.inv_transform_pt_propagate_error(p(o), p(e)).1), fp(t.inv_transform_vec_propagate_error(v(dir), p(mul(e, 0.5))).1), "propagated inverse ray")
            });
            c.case("boxes", d, || {
                let (t, a, mut r) = mk();
                let (u, w) = (g3(&mut r, 5.), g3(&mut r, 5.));
                let b = BBox3D::new(p(u), p(w));
                let (tb, ib) = (t.transform_bbox(b), t.inv_transform_bbox(b));
                let inb = |b: &BBox3D, q: V3| { let tol = 1e-7 * (1. + len(q)); let (l, h) = (fp(b.min), fp(b.max)); (0..3).all(|i| q[i] >= l[i] - tol && q[i] <= h[i] + tol) };
                let mut mn = [f64::MAX; 3];
                let mut mx = [f64::MIN; 3];
                for k in 0..14 {
                    let q: V3 = std::array::from_fn(|i| match k { 0..=7 => if k >> i & 1 == 1 { u[i] } else { w[i] }, _ => r.range(u[i].min(w[i]), u[i].max(w[i]) + 1e-12) });
                    ensure(inb(&tb, a.app(q)), || format!("the image of {:?} is outside {:?}", q, tb))?;
                    ensure(inb(&ib, fp(t.inv_transform_pt(p(q)))), || format!("the inverse image of {:?} is outside {:?}", q, ib))?;
                    if k < 8 { let z = a.app(q); for i in 0..3 { mn[i] = mn[i].min(z[i]); mx[i] = mx[i].max(z[i]); } }
                }
                same("the lower corner", fp(tb.min), mn, 1e-8)?;
                same("the upper corner", fp(tb.max), mx, 1e-8)
            });
            c.case("intersections", d, || {
                let (t, a, mut r) = mk();
                let (q, n, du, dv) = (g3(&mut r, 5.), rdir(&mut r), g3(&mut r, 3.), g3(&mut r, 3.));
                let mut i = IntersectionInfo::default();
                i.p = p(q); i.normal = v(n); i.dpdu = v(du); i.dpdv = v(dv); i.side = *r.pick(&[SurfaceSide::Front, SurfaceSide::Back, SurfaceSide::NonApplicable]);
                let j = i.transform(&t);
                same("p", fp(j.p), a.app(q), 1e-9)?;
                same("dpdu", fv(j.dpdu), a.lin(du), 1e-9)?;
                same("dpdv", fv(j.dpdv), a.lin(dv), 1e-9)?;
                same("normal", fv(j.normal), fv(t.transform_normal(v(n))), 1e-9)?;
                ensure(j.side == i.side, || "side".into())?;
                let k = j.inv_transform(&t);
                same("p and back", fp(k.p), q, 1e-7)?;
                same("dpdu and back", fv(k.dpdu), du, 1e-7)?;
                same("dpdv and back", fv(k.dpdv), dv, 1e-7)?;
                same("normal and back", fv(k.normal), n, 1e-7)?;
                ensure(k.side == i.side, || "side and back".into())
            });
        }
    });
}
