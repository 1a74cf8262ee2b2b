//@macros geometry/src/transform.rs
//@macros geometry/src/lib.rs
//@struct geometry/src/vector3d.rs Vector3D
//@struct geometry/src/point3d.rs Point3D
//@struct geometry/src/ray3d.rs Ray3D
/// the mathematical triple behind a point or a vector
pub struct V { pub x: real, pub y: real, pub z: real }
impl Vector3D { pub open spec fn view(&self) -> V { V { x: self.x@, y: self.y@, z: self.z@ } } }
impl Point3D { pub open spec fn view(&self) -> V { V { x: self.x@, y: self.y@, z: self.z@ } } }
impl V {
    pub open spec fn plus(self, o: V) -> V { V { x: self.x + o.x, y: self.y + o.y, z: self.z + o.z } }
    pub open spec fn minus(self, o: V) -> V { V { x: self.x - o.x, y: self.y - o.y, z: self.z - o.z } }
    pub open spec fn times(self, s: real) -> V { V { x: self.x * s, y: self.y * s, z: self.z * s } }
    pub open spec fn over(self, s: real) -> V { V { x: self.x / s, y: self.y / s, z: self.z / s } }
    pub open spec fn dot(self, o: V) -> real { self.x * o.x + self.y * o.y + self.z * o.z }
    pub open spec fn cross(self, o: V) -> V { V { x: self.y * o.z - self.z * o.y, y: self.z * o.x - self.x * o.z, z: self.x * o.y - self.y * o.x } }
    pub open spec fn neg(self) -> V { V { x: -self.x, y: -self.y, z: -self.z } }
}
pub open spec fn mkv(x: real, y: real, z: real) -> V { V { x: x, y: y, z: z } }
pub open spec fn vzero() -> V { mkv(0real, 0real, 0real) }
pub open spec fn tiny() -> real { 100real * reps() }
pub proof fn lemma_sq(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn lemma_dot_nonneg(a: V) ensures a.dot(a) >= 0real { lemma_sq(a.x); lemma_sq(a.y); lemma_sq(a.z); }
//@fn geometry/src/vector3d.rs Vector3D::new (x, y, z) 
ensures ret@ == mkv(x@, y@, z@),
//@endfn
//@fn geometry/src/point3d.rs Point3D::new (x, y, z) 
ensures ret@ == mkv(x@, y@, z@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Mul<Vector3D>:mul (self, other) 
ensures ret@ == self@.dot(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Mul<Point3D>:mul (self, other) 
ensures ret@ == self@.dot(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Add<Vector3D>:add (self, other) 
ensures ret@ == self@.plus(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Sub<Vector3D>:sub (self, other) 
ensures ret@ == self@.minus(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Neg:neg (self) 
ensures ret@ == self@.neg(),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Mul<Float>:mul (self, s) 
ensures ret@ == self@.times(s@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:Div<Float>:div (self, s) 
ensures s@ != 0real ==> ret@ == self@.over(s@) && ret@.times(s@) == self@,
//@endfn
//@fn geometry/src/point3d.rs Point3D:Mul<Vector3D>:mul (self, other) 
ensures ret@ == self@.dot(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Mul<Point3D>:mul (self, other) 
ensures ret@ == self@.dot(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Add<Vector3D>:add (self, other) 
ensures ret@ == self@.plus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Add:add (self, other) 
ensures ret@ == self@.plus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Sub<Point3D>:sub (self, other) 
ensures ret@ == self@.minus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Sub<Vector3D>:sub (self, other) 
ensures ret@ == self@.minus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Mul<Float>:mul (self, other) 
ensures ret@ == self@.times(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:Div<Float>:div (self, other) 
ensures other@ != 0real ==> ret@ == self@.over(other@) && ret@.times(other@) == self@,
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:AddAssign<Vector3D>:add_assign (self, other) as=vp_add_assign
ensures final(self)@ == old(self)@.plus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:AddAssign<Vector3D>:add_assign (self, other) as=vp_add_assign_v
ensures final(self)@ == old(self)@.plus(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:SubAssign<Vector3D>:sub_assign (self, other) as=vp_sub_assign
ensures final(self)@ == old(self)@.minus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:SubAssign<Vector3D>:sub_assign (self, other) as=vp_sub_assign_v
ensures final(self)@ == old(self)@.minus(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:AddAssign:add_assign (self, other) as=vp_add_assign
ensures final(self)@ == old(self)@.plus(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:MulAssign<Float>:mul_assign (self, s) as=vp_mul_assign
ensures final(self)@ == old(self)@.times(s@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D:DivAssign<Float>:div_assign (self, s) as=vp_div_assign
ensures s@ != 0real ==> final(self)@ == old(self)@.over(s@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:MulAssign<Float>:mul_assign (self, other) as=vp_mul_assign
ensures final(self)@ == old(self)@.times(other@),
//@endfn
//@fn geometry/src/point3d.rs Point3D:DivAssign<Float>:div_assign (self, other) as=vp_div_assign
ensures other@ != 0real ==> final(self)@ == old(self)@.over(other@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::abs (self) 
ensures ret@ == mkv(rabs(self@.x), rabs(self@.y), rabs(self@.z)),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::cross (self, v) 
ensures ret@ == self@.cross(v@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::length_squared (self) 
ensures ret@ == self@.dot(self@),
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::length (self) 
ensures ret@ == rsqrt(self@.dot(self@)), ret@ >= 0real, ret@ * ret@ == self@.dot(self@),
//@at start
proof { lemma_dot_nonneg(self@); }
//@endfn
//@fn geometry/src/vector3d.rs Vector3D::scale_components (self, x, y, z) 
ensures ret@ == mkv(self@.x * x@, self@.y * y@, self@.z * z@),
//@endfn
//@fn geometry/src/point3d.rs Point3D::scale_components (self, x, y, z) 
ensures ret@ == mkv(self@.x * x@, self@.y * y@, self@.z * z@),
//@endfn
