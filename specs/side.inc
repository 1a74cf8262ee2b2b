//@enum geometry/src/intersection.rs SurfaceSide
//@struct geometry/src/intersection.rs IntersectionInfo
//@fn geometry/src/intersection.rs SurfaceSide::get_side (normal, ray_dir)
requires normal@.dot(normal@) > 1real / 10000000000000000real,
ensures ({ let k = normal@.dot(ray_dir@); &&& (k < 0real ==> ret.0@ == normal@ && ret.1 == SurfaceSide::Front) &&& (k > 0real ==> ret.0@ == normal@.times(-1real) && ret.1 == SurfaceSide::Back) &&& (k == 0real ==> ret.0@ == vzero() && ret.1 == SurfaceSide::NonApplicable) }),
//@at start
proof { let l = rsqrt(normal@.dot(normal@)); if l > 0real && l * l == normal@.dot(normal@) { lemma_less(1real / 100000000real, l); } else { lemma_z0(l); } }
//@endfn
