use matrix::{Matrix, NDiagMatrix};
use vpharness::*;

/// diagonally dominant, banded
fn dd(rng: &mut Rng, n: usize, s: usize) -> Matrix {
    let mut a = Matrix::new(0., n, n);
    for i in 0..n {
        let mut t = 0.;
        for j in 0..n {
            if i != j && i.abs_diff(j) <= s && rng.int(0, 4) > 0 {
                let v = rng.range(-5., 5.);
                t += v.abs();
                a.set(i, j, v).unwrap();
            }
        }
        let d = (t + rng.range(0.5, 6.)) * if rng.bool() { 1. } else { -1. };
        a.set(i, i, d).unwrap();
    }
    a
}
fn residual(a: &Matrix, x: &Matrix, b: &Matrix, i: usize, j: usize) -> (f64, f64) {
    let n = a.size().1;
    let ax: f64 = (0..n).map(|k| a.get(i, k).unwrap() * x.get(k, j).unwrap()).sum();
    let mag: f64 = (0..n).map(|k| (a.get(i, k).unwrap() * x.get(k, j).unwrap()).abs()).sum();
    ((ax - b.get(i, j).unwrap()).abs(), mag + b.get(i, j).unwrap().abs())
}
/// rows of very different magnitudes: same answers, as the right-hand sides are scaled along
fn rowscaled(rng: &mut Rng, a: &Matrix, b: &Matrix) -> (Matrix, Matrix) {
    let (mut a, mut b) = (a.clone(), b.clone());
    for i in 0..a.size().0 {
        let f = 10f64.powi(rng.int(0, 18) as i32 - 12);
        for j in 0..a.size().1 { a.set(i, j, a.get(i, j).unwrap() * f).unwrap(); }
        for j in 0..b.size().1 { b.set(i, j, b.get(i, j).unwrap() * f).unwrap(); }
    }
    (a, b)
}
fn solves_rel(what: &str, a: &Matrix, x: &Matrix, b: &Matrix) -> Result<(), String> {
    ensure(x.size() == b.size(), || format!("{}: size of the answer", what))?;
    let (r, c) = b.size();
    for i in 0..r {
        for j in 0..c {
            let xm = (0..r).fold(0f64, |m, k| m.max(x.get(k, j).unwrap().abs()));
            let m: f64 = (0..r).map(|k| a.get(i, k).unwrap().abs()).sum::<f64>() * xm + b.get(i, j)?.abs();
            let (e, _) = residual(a, x, b, i, j);
            ensure(e <= 1e-10 * m, || format!("{}: residual {} in row {} column {}: x = {:?}", what, e, i, j, x.as_slice()))?;
        }
    }
    Ok(())
}
fn solves(what: &str, a: &Matrix, x: &Matrix, b: &Matrix) -> Result<(), String> {
    ensure(x.size() == b.size(), || format!("{}: size of the answer", what))?;
    let (r, c) = b.size();
    for i in 0..r {
        for j in 0..c {
            let (e, m) = residual(a, x, b, i, j);
            ensure(e <= 1e-8 * (1. + m), || format!("{}: residual {} in row {} column {}: x = {:?}", what, e, i, j, x.as_slice()))?;
        }
    }
    Ok(())
}
fn compact<const N: usize>(c: &mut Ctx, n: usize, s: usize) {
    let a = dd(&mut c.rng, n, s);
    let b: Vec<f64> = (0..n).map(|_| c.rng.range(-10., 10.)).collect();
    let scaled = rowscaled(&mut c.rng, &a, &Matrix::from_data(n, 1, b.clone()));
    c.case("compact n-diagonal matrix", || format!("N={} A {:?} b {:?}", N, a.as_slice(), b), || {
        let mut m = NDiagMatrix::<N>::new(0., n, n);
        for i in 0..n { for j in 0..n { if i.abs_diff(j) <= s { m.set(i, j, a.get(i, j)?)?; } } }
        let mut x = b.clone();
        m.mut_gaussian(&mut x)?;
        for i in 0..n { for j in 0..n { ensure(m.get(i, j)? == a.get(i, j)?, || "the matrix changed".into())?; } }
        solves("mut_gaussian", &a, &Matrix::from_data(n, 1, x), &Matrix::from_data(n, 1, b.clone()))?;
        let (sa, sb) = &scaled;
        for i in 0..n { for j in 0..n { if i.abs_diff(j) <= s { m.set(i, j, sa.get(i, j)?)?; } } }
        let mut x = sb.as_slice().to_vec();
        m.mut_gaussian(&mut x)?;
        solves_rel("mut_gaussian, rows of different magnitudes", sa, &Matrix::from_data(n, 1, x), sb)
    });
}
fn main() {
    run("X02", |c| {
        for t in 0..c.n(3000, 60000) {
            let k = if t % 40 == 0 { 25 } else { 8 };
            let n = c.rng.int(1, k);
            let s = c.rng.int(0, 4);
            let m = c.rng.int(1, 4);
            let a = dd(&mut c.rng, n, s);
            let bd: Vec<f64> = (0..n * m).map(|_| if c.rng.int(0, 6) == 0 { 0. } else { c.rng.range(-10., 10.) }).collect();
            let b = Matrix::from_data(n, m, bd);
            let band = 2 * s + 1;
            c.case("banded elimination", || format!("{} diagonals, A {}x{} {:?}, b {}x{} {:?}", band, n, n, a.as_slice(), n, m, b.as_slice()), || {
                let x = a.n_diag_gaussian(&b, band)?;
                solves("n_diag_gaussian", &a, &x, &b)?;
                let (mut a2, mut b2) = (a.clone(), b.clone());
                a2.mut_n_diag_gaussian(&mut b2, band)?;
                solves("mut_n_diag_gaussian", &a, &b2, &b)?;
                let x = a.n_diag_gaussian(&b, band + 2)?;
                solves("wider band", &a, &x, &b)?;
                let x = a.n_diag_gaussian(&b, 2 * n + 1)?;
                solves("full band", &a, &x, &b)
            });
            let (sa, sb) = rowscaled(&mut c.rng, &a, &b);
            c.case("banded elimination, rows of different magnitudes", || format!("{} diagonals, A {}x{} {:?}, b {}x{} {:?}", band, n, n, sa.as_slice(), n, m, sb.as_slice()), || {
                solves_rel("n_diag_gaussian", &sa, &sa.n_diag_gaussian(&sb, band)?, &sb)
            });
            // general matrices: whatever is returned as an answer is one
            let mut g = Matrix::new(0., n, n);
            for i in 0..n { for j in 0..n { if i.abs_diff(j) <= s { g.set(i, j, c.rng.int(0, 5) as f64 - 2.).unwrap(); } } }
            c.case("answers of general matrices", || format!("{} diagonals, A {}x{} {:?}, b {:?}", band, n, n, g.as_slice(), b.as_slice()), || {
                match g.n_diag_gaussian(&b, band) {
                    Ok(x) => {
                        // elimination without row swapping: only where no pivot is small
                        let mut u: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| g.get(i, j).unwrap()).collect()).collect();
                        let mut small = 1f64;
                        for p in 0..n {
                            small = small.min(u[p][p].abs());
                            for i in p + 1..n { let f = u[i][p] / u[p][p]; for j in p..n { u[i][j] -= f * u[p][j]; } }
                        }
                        if small > 0.05 { solves("n_diag_gaussian", &g, &x, &b) } else { Ok(()) }
                    }
                    Err(_) => Ok(()),
                }
            });
            c.case("a zero pivot is an error", || format!("{} diagonals, size {}", band, n), || {
                let mut z = a.clone();
                for j in 0..n { z.set(0, j, 0.)?; }
                ensure(z.n_diag_gaussian(&b, band).is_err(), || "a singular matrix was solved".into())
            });
            let b1 = Matrix::from_data(n, 1, b.as_slice()[..n].to_vec());
            let x0: Vec<f64> = (0..n).map(|_| c.rng.range(-3., 3.)).collect();
            let conv = *c.rng.pick(&[1e-3, 1e-6, 1e-9, 0.5]);
            let gs = |what: &str, a: &Matrix, it: usize| -> Result<bool, String> {
                let mut x = Matrix::from_data(n, 1, x0.clone());
                if a.gauss_seidel(&b1, &mut x, it, conv).is_ok() {
                    for i in 0..n {
                        let (e, m) = residual(a, &x, &b1, i, 0);
                        let row: f64 = (0..n).map(|k| a.get(i, k).unwrap().abs()).sum();
                        ensure(e <= conv * row + 1e-9 * (1. + m), || format!("{}: converged to {:?}, with a residual of {} in row {}", what, x.as_slice(), e, i))?;
                    }
                    return Ok(true);
                }
                Ok(false)
            };
            c.case("Gauss-Seidel", || format!("A {}x{} {:?}, b {:?}, x {:?}, tolerance {}", n, n, a.as_slice(), b1.as_slice(), x0, conv), || {
                ensure(gs("dominant", &a, 5000)?, || "did not converge with a dominant diagonal".into())?;
                gs("few iterations", &a, 2)?;
                gs("general", &g, 3)?;
                gs("general", &g, 3000)?;
                let mut x = Matrix::from_data(n + 1, 1, vec![1.; n + 1]);
                ensure(a.gauss_seidel(&b1, &mut x, 10, conv).is_err(), || "wrong size of x".into())?;
                let mut x = Matrix::from_data(n, 1, x0.clone());
                let bb = Matrix::from_data(n + 1, 1, vec![1.; n + 1]);
                ensure(a.gauss_seidel(&bb, &mut x, 10, conv).is_err() && Matrix::new(1., n, n + 1).gauss_seidel(&bb, &mut x, 10, conv).is_err() && Matrix::new(1., n + 1, n).gauss_seidel(&b1, &mut x, 10, conv).is_err(), || "sizes that do not fit".into())
            });
            compact::<1>(c, n, 0);
            compact::<3>(c, n, 1);
            compact::<5>(c, n, 2);
            compact::<7>(c, n, 3);
        }
    });
}
