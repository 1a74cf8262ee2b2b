use matrix::{GenericMatrix, Matrix};
use vpharness::*;

fn m(rng: &mut Rng, r: usize, c: usize) -> Matrix {
    let d = (0..r * c).map(|_| if rng.int(0, 5) == 0 { 0. } else { rng.range(-9., 9.) }).collect();
    Matrix::from_data(r, c, d)
}
fn v(a: &Matrix) -> Vec<Vec<f64>> {
    let (r, c) = a.size();
    (0..r).map(|i| (0..c).map(|j| a.get(i, j).unwrap()).collect()).collect()
}
fn same(what: &str, a: &Matrix, r: usize, c: usize, f: impl Fn(usize, usize) -> f64) -> Result<(), String> {
    ensure(a.size() == (r, c), || format!("{}: size {:?}, should be {:?}", what, a.size(), (r, c)))?;
    ensure(a.as_slice().len() == r * c, || format!("{}: wrong amount of data", what))?;
    for i in 0..r {
        for j in 0..c {
            expect(&format!("{} ({},{})", what, i, j), a.get(i, j)?, f(i, j), 1e-12, 1e-11)?;
            ensure(a.as_slice()[i * c + j] == a.get(i, j)?, || format!("{}: as_slice is not row by row", what))?;
        }
    }
    Ok(())
}
fn prod(a: &Matrix, b: &Matrix, i: usize, j: usize) -> f64 {
    (0..a.size().1).map(|k| a.get(i, k).unwrap() * b.get(k, j).unwrap()).sum()
}
fn main() {
    run("X01", |c| {
        for t in 0..c.n(4000, 60000) {
            let k = if t % 50 == 0 { 24 } else { 7 };
            let (r, q, p) = (c.rng.int(1, k), c.rng.int(1, k), c.rng.int(1, k));
            let (a, b, e) = (m(&mut c.rng, r, q), m(&mut c.rng, r, q), m(&mut c.rng, q, p));
            let s = c.rng.range(-5., 5.);
            let s = if s.abs() < 0.1 { 2. } else { s };
            let dirty = |r: usize, c: usize| Matrix::new(7.25, r, c);
            let (i0, j0) = (c.rng.int(0, r + 2), c.rng.int(0, q + 2));
            // wrong sizes
            let (wr, wq) = *c.rng.pick(&[(r + 1, q), (r, q + 1), (q, r), (r + 1, q + 1), (r, q)]);
            let w = m(&mut c.rng, wr, wq);
            let txt = || format!("A {}x{} {:?}, B {:?}, E {}x{} {:?}, s {}, element ({},{})", r, q, a.as_slice(), b.as_slice(), q, p, e.as_slice(), s, i0, j0);
            c.case("elements", txt, || {
                let inside = i0 < r && j0 < q;
                ensure(a.get(i0, j0).is_ok() == inside, || "get of an element outside the matrix".into())?;
                for op in 0..3 {
                    let mut x = a.clone();
                    let ok = match op { 0 => x.set(i0, j0, s).is_ok(), 1 => x.add_to_element(i0, j0, s).is_ok(), _ => x.scale_element(i0, j0, s).is_ok() };
                    ensure(ok == inside, || format!("element operation {} outside the matrix", op))?;
                    same("element operation", &x, r, q, |i, j| {
                        let o = a.get(i, j).unwrap();
                        if (i, j) == (i0, j0) { match op { 0 => s, 1 => o + s, _ => o * s } } else { o }
                    })?;
                }
                same("new", &Matrix::new(s, r, q), r, q, |_, _| s)?;
                same("eye", &Matrix::eye(r), r, r, |i, j| (i == j) as u8 as f64)?;
                let d: Vec<f64> = a.as_slice()[..q].to_vec();
                same("diag", &Matrix::diag(d.clone()), q, q, |i, j| if i == j { d[i] } else { 0. })?;
                ensure(Matrix::empty().is_empty() && Matrix::empty().size() == (0, 0) && !a.is_empty(), || "empty".into())
            });
            c.case("sum, difference and scaling", txt, || {
                let (va, vb) = (v(&a), v(&b));
                let add = |i: usize, j: usize| va[i][j] + vb[i][j];
                let sub = |i: usize, j: usize| va[i][j] - vb[i][j];
                let sc = |i: usize, j: usize| va[i][j] * s;
                same("a+b", &(&a + &b), r, q, add)?;
                same("a-b", &(&a - &b), r, q, sub)?;
                same("a*s", &(&a * s), r, q, sc)?;
                same("a/s", &(&a / s), r, q, |i, j| va[i][j] / s)?;
                let mut x = a.clone(); x += &b; same("a+=b", &x, r, q, add)?;
                let mut x = a.clone(); x -= &b; same("a-=b", &x, r, q, sub)?;
                let mut x = a.clone(); x *= s; same("a*=s", &x, r, q, sc)?;
                let mut x = a.clone(); x /= s; same("a/=s", &x, r, q, |i, j| va[i][j] / s)?;
                let mut x = dirty(r, q); a.add_into(&b, &mut x)?; same("add_into", &x, r, q, add)?;
                let mut x = dirty(r, q); a.sub_into(&b, &mut x)?; same("sub_into", &x, r, q, sub)?;
                let mut x = dirty(r, q); a.scale_into(s, &mut x)?; same("scale_into", &x, r, q, sc)?;
                let mut x = dirty(r, q); x.copy_from(&a); same("copy_from", &x, r, q, |i, j| va[i][j])?;
                ensure(a.compare(&a.clone()), || "a matrix is not equal to itself".into())?;
                for i in 0..r { for j in 0..q {
                    let mut y = a.clone(); y.add_to_element(i, j, 1.)?;
                    ensure(!a.compare(&y) && !y.compare(&a), || format!("compare does not see element ({},{})", i, j))?;
                } }
                if wq == q {
                    let mut x = a.clone(); x.concat_rows(&w)?;
                    let vw = v(&w);
                    same("concat_rows", &x, r + wr, q, |i, j| if i < r { va[i][j] } else { vw[i - r][j] })?;
                } else {
                    let mut x = a.clone();
                    ensure(x.concat_rows(&w).is_err() && x.compare(&a), || "rows of another length concatenated".into())?;
                }
                if (wr, wq) != (r, q) {
                    for op in 0..4 {
                        let (a, w) = (a.clone(), w.clone());
                        let r = std::panic::catch_unwind(move || { let mut z = a.clone(); match op { 0 => { let _ = &a + &w; } 1 => { let _ = &a - &w; } 2 => z += &w, _ => z -= &w } });
                        ensure(r.is_err(), || format!("operator {} accepts matrices of different size", op))?;
                    }
                    let mut x = dirty(r, q);
                    ensure(a.add_into(&w, &mut x).is_err() && a.sub_into(&w, &mut x).is_err() && w.add_into(&b, &mut x).is_err() && w.sub_into(&b, &mut x).is_err() && w.scale_into(s, &mut x).is_err(), || "operation into a matrix of another size".into())?;
                    same("untouched", &x, r, q, |_, _| 7.25)?;
                    let mut x = dirty(wr, wq);
                    ensure(a.add_into(&b, &mut x).is_err() && a.sub_into(&b, &mut x).is_err(), || "operation into a matrix of another size".into())?;
                    ensure(!a.compare(&w), || "matrices of different size are equal".into())?;
                }
                Ok(())
            });
            c.case("product", txt, || {
                let f = |i: usize, j: usize| prod(&a, &e, i, j);
                same("a*e", &(&a * &e), r, p, f)?;
                let mut x = dirty(r, p); a.prod_into(&e, &mut x)?; same("prod_into", &x, r, p, f)?;
                let mut x = Matrix::new(f64::NAN, r, p); a.prod_into(&e, &mut x)?; same("prod_into over a not finite content", &x, r, p, f)?;
                let mut x = dirty(r + 1, p); ensure(a.prod_into(&e, &mut x).is_err(), || "product into a wrong size".into())?;
                same("untouched", &x, r + 1, p, |_, _| 7.25)?;
                let mut x = dirty(r, p + 1); ensure(a.prod_into(&e, &mut x).is_err(), || "product into a wrong size".into())?;
                if wr != q {
                    ensure(a.from_prod_n_diag(&w, 3).is_err(), || "product of matrices that do not fit".into())?;
                    let mut x = dirty(r, wq); ensure(a.prod_into(&w, &mut x).is_err() && a.prod_n_diag_into(&w, 3, &mut x).is_err() && a.prod_tri_diag_into(&w, &mut x).is_err(), || "product of matrices that do not fit".into())?;
                    same("untouched", &x, r, wq, |_, _| 7.25)?;
                }
                Ok(())
            });
            // banded
            let sd = c.rng.int(0, 4);
            let n = 2 * sd + 1;
            let mut g = a.clone();
            for i in 0..r { for j in 0..q { if i.abs_diff(j) > sd { g.set(i, j, 0.).unwrap(); } } }
            c.case("banded product", || format!("{} diagonals, A {}x{} {:?}, E {:?}", n, r, q, g.as_slice(), e.as_slice()), || {
                let f = |i: usize, j: usize| prod(&g, &e, i, j);
                let mut x = dirty(r, p); g.prod_n_diag_into(&e, n, &mut x)?; same("prod_n_diag_into", &x, r, p, f)?;
                for old in [f64::NAN, f64::INFINITY] { let mut x = Matrix::new(old, r, p); g.prod_n_diag_into(&e, n, &mut x)?; same("prod_n_diag_into over a not finite content", &x, r, p, f)?; }
                same("from_prod_n_diag", &g.from_prod_n_diag(&e, n)?, r, p, f)?;
                let mut y = dirty(r, p); g.prod_n_diag_into(&e, n + 2, &mut y)?; same("wider band", &y, r, p, f)?;
                if sd <= 1 { let mut x = dirty(r, p); g.prod_tri_diag_into(&e, &mut x)?; same("prod_tri_diag_into", &x, r, p, f)?; }
                let mut x = dirty(r, p + 1); ensure(g.prod_n_diag_into(&e, n, &mut x).is_err(), || "product into a wrong size".into())?;
                let mut x = dirty(r + 1, p); ensure(g.prod_n_diag_into(&e, n, &mut x).is_err(), || "product into a wrong size".into())
            });
        }
        let _ = GenericMatrix::<f64>::empty();
    });
}
