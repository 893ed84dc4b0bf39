use crate::core::Prop;
pub mod boxes;
pub mod filters;
pub mod geom;
pub mod io;
pub mod containers;
pub mod curves;
pub mod mesh;
pub mod misuse;
pub mod safety;
pub mod spatial;
pub mod transform;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(io::props());
    v.extend(spatial::props());
    v.extend(mesh::props());
    v.extend(curves::props());
    v.extend(boxes::props());
    v.extend(filters::props());
    v.extend(transform::props());
    v.extend(containers::props());
    v.extend(geom::props());
    v.extend(safety::props());
    v
}
