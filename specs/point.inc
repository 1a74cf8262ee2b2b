//@fn geometry/src/point3d.rs Point3D::squared_distance (self, point)
ensures ret@ == dist2(self@, point@),
//@endfn
//@fn geometry/src/point3d.rs Point3D::distance (self, point)
ensures ret@ == rsqrt(dist2(self@, point@)), ret@ >= 0real, ret@ * ret@ == dist2(self@, point@),
//@at start
proof { lemma_dot_nonneg(self@.minus(point@)); }
//@endfn
//@fn geometry/src/point3d.rs Point3D::compare (self, p)
ensures ret == close(self@, p@),
//@endfn
//@fn geometry/src/point3d.rs Point3D::is_collinear (self, b, c)
ensures ret is Err <==> close(self@, b@) && close(self@, c@),
   ret is Ok ==> (ret->Ok_0 <==> close(self@, b@) || close(self@, c@) || close(b@, c@) || area2(self@, b@, c@) < 1real / 10000000000real),
//@at start
let ghost w = b@.minus(self@).cross(c@.minus(b@));
proof { lemma_dot_nonneg(w); }
//@at end
proof { if rsqrt(w.dot(w)) >= 0real && rsqrt(w.dot(w)) * rsqrt(w.dot(w)) == w.dot(w) { lemma_less(rsqrt(w.dot(w)), 1real / 100000real); } }
//@endfn
