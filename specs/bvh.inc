pub open spec fn tinb(b: &BBox3D, t: Triangle) -> bool { inb(b, va(t)) && inb(b, vb(t)) && inb(b, vc(t)) }
pub open spec fn span_ok(b: &BBox3D, ts: Seq<Triangle>, lo: int, hi: int) -> bool { bwf(b) && 0 <= lo <= hi <= ts.len() && forall|j: int| lo <= j < hi ==> tinb(b, #[trigger] ts[j]) }
/// triangles in the leaves of the subtree a..e
pub open spec fn fcnt(ns: Seq<FlatNode>, a: int, e: int) -> int decreases e - a {
    if 0 <= a < e <= ns.len() { if ns[a].n_prims > 0 { ns[a].n_prims as int } else if a + 1 < ns[a].next < e { fcnt(ns, a + 1, ns[a].next as int) + fcnt(ns, ns[a].next as int, e) } else { 0 } } else { 0 }
}
/// the nodes a..e of the array are one subtree, whose leaves hold the triangles lo..hi in order and whose boxes contain the triangles below them
pub open spec fn fok(ns: Seq<FlatNode>, ts: Seq<Triangle>, a: int, e: int, lo: int, hi: int) -> bool decreases e - a {
    &&& 0 <= a < e <= ns.len() && span_ok(&ns[a].bounds, ts, lo, hi) && ns[a].n_prims >= 0
    &&& if ns[a].n_prims > 0 { e == a + 1 && ns[a].next == lo && ns[a].n_prims == hi - lo }
        else { a + 1 < ns[a].next < e && fok(ns, ts, a + 1, ns[a].next as int, lo, lo + fcnt(ns, a + 1, ns[a].next as int)) && fok(ns, ts, ns[a].next as int, e, lo + fcnt(ns, a + 1, ns[a].next as int), hi) }
}
/// nodes on the longest way from node a to one of its leaves
pub open spec fn fdep(ns: Seq<FlatNode>, a: int, e: int) -> int decreases e - a {
    if 0 <= a < e <= ns.len() && ns[a].n_prims == 0 && a + 1 < ns[a].next < e { let (x, y) = (fdep(ns, a + 1, ns[a].next as int), fdep(ns, ns[a].next as int, e)); 1 + if x >= y { x } else { y } } else { 0 }
}
pub open spec fn tree_ok(b: &BoundingVolumeTree, ts: Seq<Triangle>) -> bool { if b.nodes@.len() == 0 { ts.len() == 0 } else { fok(b.nodes@, ts, 0, b.nodes@.len() as int, 0, ts.len() as int) } }
pub open spec fn tree_depth(b: &BoundingVolumeTree) -> int { fdep(b.nodes@, 0, b.nodes@.len() as int) }
pub proof fn lemma_dep(ns: Seq<FlatNode>, a: int, e: int) ensures fdep(ns, a, e) >= 0 decreases e - a
{ if 0 <= a < e <= ns.len() && ns[a].n_prims == 0 && a + 1 < ns[a].next < e { lemma_dep(ns, a + 1, ns[a].next as int); lemma_dep(ns, ns[a].next as int, e); } }
