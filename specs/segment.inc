//@struct geometry/src/segment3d.rs Segment3D
pub open spec fn swf(s: &Segment3D) -> bool { s.length@ >= 0real && s.length@ * s.length@ == dist2(s.start@, s.end@) }
pub open spec fn dirv(s: &Segment3D) -> V { s.end@.minus(s.start@) }
pub open spec fn pt(s: &Segment3D, t: real) -> V { s.start@.plus(dirv(s).times(t)) }
//@fn geometry/src/segment3d.rs Segment3D::new (a, b)
ensures ret.start == a, ret.end == b, swf(&ret),
//@endfn
//@fn geometry/src/segment3d.rs Segment3D::start (self)
ensures ret == self.start,
//@endfn
//@fn geometry/src/segment3d.rs Segment3D::end (self)
ensures ret == self.end,
//@endfn
//@fn geometry/src/segment3d.rs Segment3D::as_vector3d (self)
ensures ret@ == dirv(self),
//@endfn
//@fn geometry/src/segment3d.rs Segment3D::as_reversed_vector3d (self)
ensures ret@ == self.start@.minus(self.end@),
//@endfn
//@fn geometry/src/segment3d.rs Segment3D::length (self)
ensures ret@ == self.length@,
//@endfn
pub open spec fn same_seg(a: &Segment3D, b: &Segment3D) -> bool { (close(a.start@, b.start@) && close(a.end@, b.end@)) || (close(a.end@, b.start@) && close(a.start@, b.end@)) }
//@fn geometry/src/segment3d.rs Segment3D::compare (self, other)
ensures ret == same_seg(self, other),
//@endfn
