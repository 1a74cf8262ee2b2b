//! small vector algebra of the harness's own, independent of the crate under test
use crate::Rng;
use geometry::{Point3D, Vector3D};
pub type V3 = [f64; 3];
pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn mul(a: V3, s: f64) -> V3 { [a[0] * s, a[1] * s, a[2] * s] }
pub fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: V3, b: V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn len(a: V3) -> f64 { dot(a, a).sqrt() }
pub fn unit(a: V3) -> V3 { mul(a, 1. / len(a)) }
pub fn p(a: V3) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
pub fn v(a: V3) -> Vector3D { Vector3D::new(a[0], a[1], a[2]) }
pub fn fp(a: Point3D) -> V3 { [a.x, a.y, a.z] }
pub fn fv(a: Vector3D) -> V3 { [a.x, a.y, a.z] }
pub fn r3(r: &mut Rng, s: f64) -> V3 { [r.range(-s, s), r.range(-s, s), r.range(-s, s)] }
/// small integers now and then, so that ties and zeroes happen
pub fn g3(r: &mut Rng, s: f64) -> V3 {
    match r.int(0, 3) {
        0 => [r.int(0, 7) as f64 - 3., r.int(0, 7) as f64 - 3., r.int(0, 7) as f64 - 3.],
        _ => r3(r, s),
    }
}
pub fn rdir(r: &mut Rng) -> V3 {
    loop {
        let d = r3(r, 1.);
        let l = len(d);
        if l > 0.05 && l <= 1. { return unit(d); }
    }
}
pub fn same(what: &str, a: V3, b: V3, tol: f64) -> Result<(), String> {
    let sc = 1. + len(b);
    if a.iter().all(|x| x.is_finite()) && len(sub(a, b)) <= tol * sc { Ok(()) } else { Err(format!("{}: {:?}, expected {:?}", what, a, b)) }
}
/// 3x4 affine map: columns of the linear part, then the translation
#[derive(Clone, Copy, Debug)]
pub struct Aff { pub m: [[f64; 3]; 3], pub t: V3 }
impl Aff {
    pub fn id() -> Self { Aff { m: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], t: [0.; 3] } }
    pub fn lin(&self, a: V3) -> V3 { [dot(self.m[0], a), dot(self.m[1], a), dot(self.m[2], a)] }
    pub fn app(&self, a: V3) -> V3 { add(self.lin(a), self.t) }
    /// self after o
    pub fn after(&self, o: &Aff) -> Aff {
        let col = |j: usize| self.lin([o.m[0][j], o.m[1][j], o.m[2][j]]);
        let c = [col(0), col(1), col(2)];
        let mut m = [[0.; 3]; 3];
        for i in 0..3 { for j in 0..3 { m[i][j] = c[j][i]; } }
        Aff { m, t: self.app(o.t) }
    }
    pub fn det(&self) -> f64 { dot(self.m[0], cross(self.m[1], self.m[2])) }
}
