//@struct rendering/src/bvh.rs FlatNode nocopy
//@struct rendering/src/bvh.rs BoundingVolumeTree nocopy
//@struct rendering/src/scene.rs Scene only=triangles,front_material_indexes,back_material_indexes,normals,accelerator nocopy
