use matrix::NDiagMatrix;
use vpharness::*;

fn one<const N: usize>(c: &mut Ctx, r: usize, q: usize) {
    let s = (N - 1) / 2;
    let (v0, k) = (c.rng.range(-5., 5.), c.rng.range(-3., 3.));
    let seed = c.rng.next();
    c.case("elements", || format!("{} diagonals, {}x{}, seed {}", N, r, q, seed), || {
        let mut rng = Rng::new(seed);
        let mut m = NDiagMatrix::<N>::new(v0, r, q);
        let ind = |i: usize, j: usize| i.abs_diff(j) <= s;
        let mut w = vec![vec![0.; q]; r];
        for i in 0..r { for j in 0..q { if ind(i, j) { w[i][j] = v0; } } }
        let same = |m: &NDiagMatrix<N>, w: &Vec<Vec<f64>>, what: &str| -> Result<(), String> {
            ensure(m.size() == (r, q), || "size".into())?;
            for i in 0..r { for j in 0..q { expect(&format!("{} ({},{})", what, i, j), m.get(i, j)?, w[i][j], 1e-12, 1e-12)?; } }
            Ok(())
        };
        same(&m, &w, "new")?;
        for _ in 0..3 * (r + q) {
            let (i, j) = (rng.int(0, r + 1), rng.int(0, q + 1));
            let v = rng.range(-4., 4.);
            let op = rng.int(0, 3);
            let ok = i < r && j < q && ind(i, j);
            let got = match op { 0 => m.set(i, j, v).is_ok(), 1 => m.add_to_element(i, j, v).is_ok(), _ => m.scale_element(i, j, v).is_ok() };
            ensure(got == ok, || format!("operation {} on ({},{}): {}", op, i, j, got))?;
            ensure(m.get(i, j).is_ok() == (i < r && j < q), || format!("get ({},{})", i, j))?;
            if ok { w[i][j] = match op { 0 => v, 1 => w[i][j] + v, _ => w[i][j] * v }; }
            same(&m, &w, "after an operation on one element")?;
        }
        let mut z = NDiagMatrix::<N>::new(9., r, q);
        m.scale_into(k, &mut z)?;
        let wk: Vec<Vec<f64>> = w.iter().map(|l| l.iter().map(|x| x * k).collect()).collect();
        same(&z, &wk, "scale_into")?;
        let mut z = NDiagMatrix::<N>::new(9., r, q);
        z.copy_from(&m);
        same(&z, &w, "copy_from")?;
        z *= k;
        same(&z, &wk, "*=")?;
        same(&m, &w, "the origin")?;
        let mut z = NDiagMatrix::<N>::new(9., r + 1, q);
        ensure(m.scale_into(k, &mut z).is_err(), || "scaled into another size".into())
    });
    let n = r;
    c.case("product with a column", || format!("{} diagonals, {}x{}, seed {}", N, n, n, seed), || {
        let mut rng = Rng::new(seed);
        let mut m = NDiagMatrix::<N>::new(0., n, n);
        for i in 0..n { for j in 0..n { if i.abs_diff(j) <= s { m.set(i, j, rng.range(-4., 4.))?; } } }
        let x: Vec<f64> = (0..n).map(|_| rng.range(-4., 4.)).collect();
        let mut y = vec![3.; n];
        m.column_prod_into(&x, &mut y)?;
        for i in 0..n {
            let w: f64 = (0..n).map(|j| m.get(i, j).unwrap() * x[j]).sum();
            expect(&format!("row {}", i), y[i], w, 1e-12, 1e-11)?;
        }
        let mut y = vec![3.; n + 1];
        ensure(m.column_prod_into(&x, &mut y).is_err() && y == vec![3.; n + 1], || "product into a wrong size".into())?;
        let mut y = vec![3.; n];
        ensure(m.column_prod_into(&vec![1.; n + 1], &mut y).is_err() && y == vec![3.; n], || "product with a wrong size".into())
    });
}
fn main() {
    run("X03", |c| {
        for _ in 0..c.n(800, 15000) {
            let (r, q) = (c.rng.int(1, 11), c.rng.int(1, 11));
            one::<1>(c, r, q);
            one::<3>(c, r, q);
            one::<5>(c, r, q);
            one::<7>(c, r, q);
        }
    });
}
