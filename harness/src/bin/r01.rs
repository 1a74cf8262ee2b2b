use geometry::Ray3D;
use rendering::Scene;
use vpharness::geo::*;
use vpharness::*;
type T = [f64; 9];
fn va(t: &T) -> V3 { [t[0], t[1], t[2]] }
fn vb(t: &T) -> V3 { [t[3], t[4], t[5]] }
fn vc(t: &T) -> V3 { [t[6], t[7], t[8]] }
fn mk(a: V3, b: V3, c: V3) -> T { [a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]] }
/// distance at which the line meets the triangle's plane inside it; Err when too close to call
fn meet(o: V3, d: V3, t: &T) -> Result<Option<f64>, ()> {
    let (e1, e2) = (sub(vb(t), va(t)), sub(vc(t), va(t)));
    let h = cross(d, e2);
    let det = dot(e1, h);
    let s = sub(o, va(t));
    let q = cross(s, e1);
    let size = len(e1) * len(e2);
    if det.abs() < 1e-13 * size { return if len(cross(e1, e2)) < 1e-9 * size || (dot(s, cross(e1, e2)) / size).abs() > 1e-6 { Ok(None) } else { Err(()) }; }
    if det.abs() < 2e-5 { return Err(()); }
    let (u, v, k) = (dot(s, h) / det, dot(d, q) / det, dot(e2, q) / det);
    let m = u.min(v).min(1. - u - v);
    if m < -1e-7 { return Ok(None); }
    if m < 1e-7 || k.abs() < 1.5e-3 { return Err(()); }
    Ok(if k > 0. { Some(k) } else { None })
}
struct World { scene: Scene, orig: Vec<T>, kind: String }
fn soup(r: &mut Rng, kind: usize, n: usize) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let small = |r: &mut Rng, c: V3, s: f64| loop {
        let (a, b, d) = (add(c, r3(r, s)), add(c, r3(r, s)), add(c, r3(r, s)));
        if len(cross(sub(b, a), sub(d, a))) > 0.02 * s * s { return mk(a, b, d); }
    };
    for i in 0..n {
        let x = i as f64;
        out.push(match kind {
            0 => { let c = r3(r, 10.); let s = r.range(0.3, 3.); small(r, c, s) }
            // a row of the same triangle
            1 => mk([x, 0., 0.], [x, 1., 0.2], [x + 0.3, 0.1, 1.]),
            // a row with growing gaps
            2 => { let k = 1.35f64.powi(i as i32 % 60) + (i / 60) as f64 * 0.01; mk([k, 0., 0.], [k, 1., 0.2], [k + 0.3, 0.1, 1.]) }
            // a grid in a plane
            3 => { let (p, q) = ((i % 9) as f64, (i / 9) as f64); mk([p, q, 0.], [p + 1., q, 0.], [p, q + 1., 0.]) }
            // all with the same centre of bounds
            4 => { let (a, b, h) = (1. + x * 0.01, 1. + x * 0.02, 0.5 + x * 0.03); mk([-a, -b, -h], [a, -b, h], [a, b, h * 0.3]) }
            // clusters
            5 => { let c = mul([(i % 3) as f64, (i % 5) as f64, (i % 2) as f64], 20.); let d = r3(r, 1.); small(r, add(c, d), 1.) }
            // all in the same place
            7 => if i + 1 < n { mk([0., 0., 0.], [1., 0., 0.], [0., 1., 0.]) } else { mk([-1., -1., 0.5], [2., -1., 0.5], [-1., 2., -0.5]) },
            // coplanar, in a plane of the axes, rotated by kind of index
            _ => { let (p, q) = (r.range(-4., 4.), r.range(-4., 4.)); match i % 3 { 0 => mk([p, q, 1.], [p + 1., q, 1.], [p, q + 1., 1.]), 1 => mk([p, 2., q], [p + 1., 2., q], [p, 2., q + 1.]), _ => mk([3., p, q], [3., p + 1., q], [3., p, q + 1.]) } }
        });
    }
    if r.bool() { for i in (1..out.len()).rev() { let j = r.int(0, i + 1); out.swap(i, j); } }
    // turn the axes around
    let k = r.int(0, 3);
    for t in out.iter_mut() { let o = *t; for v in 0..3 { for a in 0..3 { t[3 * v + a] = o[3 * v + (a + k) % 3]; } } }
    out
}
fn world(r: &mut Rng, kind: usize, n: usize) -> (World, Vec<usize>) {
    let orig = soup(r, kind, n);
    let mut scene = Scene::new();
    scene.triangles = orig.clone();
    scene.front_material_indexes = (0..n).map(|i| 7 * i + 1).collect();
    scene.back_material_indexes = (0..n).map(|i| 5 * i + 2).collect();
    scene.normals = (0..n).map(|i| (v([i as f64, 1., 0.]), v([i as f64, 2., 0.]), v([i as f64, 3., 0.]))).collect();
    let m = scene.build_accelerator();
    (World { scene, orig, kind: format!("{} triangles of kind {}", n, kind) }, m)
}
fn mapping(w: &World, m: &[usize]) -> Result<(), String> {
    let n = w.orig.len();
    let s = &w.scene;
    ensure(m.len() == n && s.triangles.len() == n && s.front_material_indexes.len() == n && s.back_material_indexes.len() == n && s.normals.len() == n, || format!("sizes: mapping {} triangles {} of {}", m.len(), s.triangles.len(), n))?;
    let mut seen = vec![false; n];
    for (i, k) in m.iter().enumerate() {
        ensure(*k < n && !seen[*k], || format!("mapping[{}] = {} is out of range or repeated", i, k))?;
        seen[*k] = true;
        ensure(s.triangles[i] == w.orig[*k], || format!("triangle {} is not the original {}", i, k))?;
        ensure(s.front_material_indexes[i] == 7 * k + 1 && s.back_material_indexes[i] == 5 * k + 2, || format!("materials of triangle {} are not those of the original {}", i, k))?;
        ensure(fv(s.normals[i].0) == [*k as f64, 1., 0.] && fv(s.normals[i].1)[1] == 2. && fv(s.normals[i].2)[1] == 3. && fv(s.normals[i].2)[0] == *k as f64, || format!("normals of triangle {}", i))?;
    }
    Ok(())
}
fn nearest(w: &World, o: V3, d: V3) -> Option<Vec<(f64, usize)>> {
    let mut all = vec![];
    for (i, t) in w.scene.triangles.iter().enumerate() {
        match meet(o, d, t) { Err(()) => return None, Ok(Some(k)) => all.push((k, i)), Ok(None) => {} }
    }
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    Some(all)
}
fn ask(w: &World, o: V3, d: V3, dist: f64) -> Result<(), String> {
    let all = match nearest(w, o, d) { Some(a) => a, None => return Ok(()) };
    let ray = Ray3D { origin: p(o), direction: v(d) };
    let mut aux = [0usize; 32];
    let got = w.scene.cast_ray(ray, &mut aux);
    match (&got, all.first()) {
        (None, None) => {}
        (Some((i, x)), Some((k, j))) => {
            let at = add(o, mul(d, *k));
            ensure(i == j || all.iter().any(|(q, b)| b == i && (q - k).abs() < 1e-7 * (1. + k)), || format!("hit triangle {} at {:?}, the nearest is {} at {}", i, fp(x.point), j, k))?;
            same("point of the hit", fp(x.point), at, 1e-6)?;
            same("outgoing direction", fv(x.wo), mul(d, -1.), 1e-12)?;
            let t = &w.scene.triangles[*i];
            let nn = cross(sub(vb(t), va(t)), sub(vc(t), va(t)));
            if len(nn) > 1e-6 {
                let n = unit(nn);
                let back = dot(n, d) > 0.;
                let g = &x.geometry_shading;
                same("normal at the hit", fv(g.normal), if back { mul(n, -1.) } else { n }, 1e-7)?;
                ensure((g.side == geometry::intersection::SurfaceSide::Back) == back, || "side of the hit".to_string())?;
                let (e1, e2) = (fv(g.dpdu), fv(g.dpdv));
                expect("length of e1", len(e1), 1., 0., 1e-7)?;
                expect("length of e2", len(e2), 1., 0., 1e-7)?;
                same("e1 x e2", cross(e1, e2), n, 1e-6)?;
            }
        }
        (g, b) => return Err(format!("the ray hits {:?}, the nearest triangle is {:?}", g.as_ref().map(|x| (x.0, fp(x.1.point))), b)),
    }
    let d2 = dist * dist;
    if all.iter().any(|(k, _)| (k * k - d2).abs() < 2e-3 || *k < 2e-3) { return Ok(()); }
    let free = w.scene.unobstructed_distance(ray, d2, &mut aux);
    let want = !all.iter().any(|(k, _)| *k < dist);
    ensure(free == want, || format!("unobstructed for {}: {}, but the nearest triangle is {:?}", dist, free, all.first()))
}
fn main() {
    run("R01", |c| {
        for _ in 0..c.n(60, 1200) {
            let kind = c.rng.int(0, 7);
            let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 12, 24, 25, 30, 70, 150, 400]);
            let (w, m) = world(&mut c.rng, kind, n);
            c.case("the mapping", || format!("{} ({:?}...)", w.kind, w.orig.iter().take(3).collect::<Vec<_>>()), || mapping(&w, &m));
            for _ in 0..c.n(60, 200) {
                // aim at a triangle from anywhere
                let d0;
                let (mut o, mut d) = if n > 0 && c.rng.int(0, 4) > 0 {
                    let t = w.orig[c.rng.int(0, n)];
                    let (u, q) = (c.rng.range(0.05, 0.5), c.rng.range(0.05, 0.4));
                    let at = add(va(&t), add(mul(sub(vb(&t), va(&t)), u), mul(sub(vc(&t), va(&t)), q)));
                    d0 = match c.rng.int(0, 5) { 0 => { let mut e = [0.; 3]; e[c.rng.int(0, 3)] = if c.rng.bool() { 1. } else { -1. }; e } 1 => { let mut e = rdir(&mut c.rng); e[c.rng.int(0, 3)] = 0.; if len(e) < 0.1 { [1., 0., 0.] } else { unit(e) } } _ => rdir(&mut c.rng) };
                    (sub(at, mul(d0, c.rng.range(0.1, 60.))), d0)
                } else { (r3(&mut c.rng, 15.), rdir(&mut c.rng)) };
                if c.rng.int(0, 30) == 0 { let k = c.rng.range(0.2, 5.); d = mul(d, k); let l = len(d); d = mul(d, 1. / l); o = add(o, mul(d, 0.)); }
                let dist = c.rng.range(0.2, 90.);
                c.case("rays", || format!("{}: ray from {:?} towards {:?}, distance {}", w.kind, o, d, dist), || ask(&w, o, d, dist));
            }
        }
        // many triangles in one place
        for n in if c.thorough { vec![40000, 65540, 131080] } else { vec![65540] } {
            let (w, m) = world(&mut c.rng, 7, n);
            c.case("one place: the mapping", || w.kind.clone(), || mapping(&w, &m));
            for _ in 0..8 {
                let t = w.scene.triangles[c.rng.int(0, n)];
                let d = rdir(&mut c.rng);
                let o = sub(add(va(&t), add(mul(sub(vb(&t), va(&t)), 0.2), mul(sub(vc(&t), va(&t)), 0.3))), mul(d, 3.));
                c.case("one place: rays", || format!("{}: ray from {:?} towards {:?}", w.kind, o, d), || ask(&w, o, d, 2.));
            }
        }
        // long rows make deep trees: rays along the row visit many boxes
        for k in 0..c.n(6, 40) {
            let kind = 1 + k % 2;
            let n = [300, 60, 1000, 55, 3000, 50][k % 6];
            let (w, m) = world(&mut c.rng, kind, n);
            c.case("long rows: the mapping", || w.kind.clone(), || mapping(&w, &m));
            for _ in 0..c.n(40, 100) {
                let t = w.orig[c.rng.int(0, n)];
                let t2 = w.orig[c.rng.int(0, n)];
                let w1 = add(va(&t), add(mul(sub(vb(&t), va(&t)), c.rng.range(0.1, 0.4)), mul(sub(vc(&t), va(&t)), 0.2)));
                let w2 = add(va(&t2), add(mul(sub(vb(&t2), va(&t2)), c.rng.range(0.1, 0.4)), mul(sub(vc(&t2), va(&t2)), 0.2)));
                if len(sub(w2, w1)) < 0.1 { continue; }
                let d = unit(add(unit(sub(w2, w1)), r3(&mut c.rng, 1e-5)));
                let o = sub(w1, mul(d, c.rng.range(0.1, 5.)));
                c.case("long rows: rays along them", || format!("{}: ray from {:?} towards {:?}", w.kind, o, d), || ask(&w, o, d, c_dist(&o)));
            }
        }
    });
}
fn c_dist(o: &V3) -> f64 { 5. + o[0].abs() % 300. }
