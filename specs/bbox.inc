//@struct geometry/src/bbox3d.rs BBox3D
//@fn geometry/src/bbox3d.rs get_mins_maxs (x1, y1, z1, x2, y2, z2)
ensures ret.0@ == rmin(x1@, x2@), ret.1@ == rmin(y1@, y2@), ret.2@ == rmin(z1@, z2@), ret.3@ == rmax(x1@, x2@), ret.4@ == rmax(y1@, y2@), ret.5@ == rmax(z1@, z2@),
//@endfn
pub open spec fn inb(b: &BBox3D, p: V) -> bool { b.min@.x <= p.x <= b.max@.x && b.min@.y <= p.y <= b.max@.y && b.min@.z <= p.z <= b.max@.z }
pub open spec fn bwf(b: &BBox3D) -> bool { b.min@.x <= b.max@.x && b.min@.y <= b.max@.y && b.min@.z <= b.max@.z }
pub open spec fn vmin(a: V, b: V) -> V { mkv(rmin(a.x, b.x), rmin(a.y, b.y), rmin(a.z, b.z)) }
pub open spec fn vmax(a: V, b: V) -> V { mkv(rmax(a.x, b.x), rmax(a.y, b.y), rmax(a.z, b.z)) }
//@fn geometry/src/bbox3d.rs BBox3D::from_point (p)
ensures ret.min@ == p@, ret.max@ == p@, bwf(&ret), inb(&ret, p@),
//@endfn
//@fn geometry/src/bbox3d.rs BBox3D::from_union_point (bbox, pt)
ensures ret.min@ == vmin(bbox.min@, pt@), ret.max@ == vmax(bbox.max@, pt@),
   bwf(bbox) ==> bwf(&ret) && inb(&ret, pt@) && forall|q: V| inb(bbox, q) ==> #[trigger] inb(&ret, q),
//@endfn
