//! Mesh data: C13 (round trip), C14 (consistency of the written buffers), C15 (bounding volumes),
//! C19 (adjacency and extended mesh), C27 (geometry helpers).
use crate::core::*;
use crate::ensure;
use crate::gen_data::*;
use ssbh_data::adj_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::*;
use ssbh_lib::formats::mesh::{AttributeDataTypeV10, AttributeDataTypeV8, AttributeUsageV8, AttributeUsageV9, AttributeV10, AttributeV8, AttributeV9, BoundingInfo, BoundingSphere, DrawElementType, MeshInner, MeshObject, RiggingGroup, VertexWeightV8};
use ssbh_lib::prelude::*;
use ssbh_lib::{SsbhArray, SsbhByteBuffer};
use std::collections::HashSet;
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "exploration",
            rule: "distinct generated mesh values (versions 1.8, 1.9, 1.10, any attribute mix) written to bytes, read back and compared attribute by attribute with an independent model of the stored precision",
            assumptions: &["text without NUL characters; half-float attributes are compared with the nearest representable half value, colour bytes with clamping to 0..1", "binormals are not generated for version 1.8, which has no code for them (see C20)"],
            must: &["objects", "attributes_compared", "half_components", "byte_components", "exact_components", "influences", "multi_object_meshes", "wide_indices", "max_objects", "max_weights"],
            units: vec![unit("roundtrip", 60_000, 2_500_000, c13_roundtrip), unit("wide", 24, 600, c13_wide), unit("lists", 160, 5_000, c13_lists), unit("resave", 15_000, 500_000, c13_resave)],
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "distinct generated mesh files whose offsets, strides, descriptors, index types and rigging groups were checked and decoded by an independent reader",
            assumptions: &["influences of more than 255 bones on one vertex are checked separately (known finding)"],
            must: &["objects", "descriptors", "decoded_vertices", "u16_objects", "u32_objects", "rigging_groups", "overlap_checks", "max_max_influences", "max_bones"],
            units: vec![unit("consistency", 60_000, 2_500_000, c14_consistency), unit("wide", 24, 600, c14_wide), unit("lists", 160, 5_000, c14_lists), unit("influences", 3, 3, c14_influences)],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "distinct generated meshes whose stored spheres, boxes and oriented boxes were checked against every vertex in double precision",
            assumptions: &["finite coordinates up to 1e8; the sphere and oriented box may miss a vertex by float rounding (1e-5 of the largest coordinate), the axis-aligned box must be exact"],
            must: &["vertices_checked", "objects_with_positions", "objects_without_positions", "spheres", "group_spheres"],
            units: vec![unit("bounding", 60_000, 2_500_000, c15_bounding), unit("meshex", 30_000, 1_000_000, c15_meshex), unit("lists", 160, 5_000, c15_lists)],
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "distinct meshes and lists whose computed adjacency, object groups, tags and written entries were compared with independent implementations",
            assumptions: &["faces have three distinct vertices whose indices are below 32768 (larger ones: known finding under C20)"],
            must: &["adjacency_vertices", "seam_vertices", "truncated_vertices", "adj_roundtrips", "meshex_roundtrips", "groups_compared", "stripped_names", "max_groups", "max_adj_entries"],
            units: vec![unit("adjacency", 40_000, 1_500_000, c19_adjacency), unit("adj_files", 40_000, 1_500_000, c19_adj_files), unit("groups", 40_000, 1_500_000, c19_groups), unit("meshex_files", 40_000, 1_500_000, c19_meshex_files)],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "distinct inputs of the geometry and vector helpers whose results were compared with double-precision reimplementations of the documented formulas",
            assumptions: &["relative tolerance 1e-5 of the magnitudes involved; normals and tangents only compared where the double-precision result is well-conditioned"],
            must: &["points", "vectors", "normals", "undefined_normals", "tangents", "tangent_errors", "conversions"],
            units: vec![unit("transform", 60_000, 2_000_000, c27_transform), unit("normals", 60_000, 2_000_000, c27_normals), unit("tangents", 60_000, 2_000_000, c27_tangents), unit("errors", 10_000, 200_000, c27_errors)],
        },
    ]
}

// ---------------------------------------------------------------- stored precision
#[derive(Clone, Copy, PartialEq, Debug)]
enum Usage {
    Position,
    Normal,
    Binormal,
    Tangent,
    TexCoord,
    Color,
}
const USAGES: [Usage; 6] = [Usage::Position, Usage::Normal, Usage::Binormal, Usage::Tangent, Usage::TexCoord, Usage::Color];
fn list(o: &MeshObjectData, u: Usage) -> &Vec<AttributeData> {
    match u {
        Usage::Position => &o.positions,
        Usage::Normal => &o.normals,
        Usage::Binormal => &o.binormals,
        Usage::Tangent => &o.tangents,
        Usage::TexCoord => &o.texture_coordinates,
        Usage::Color => &o.color_sets,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Prec {
    Exact,
    Half,
    Byte,
}
/// Documented: positions prefer the highest precision, colours the lowest, other vectors halves where the version has such a type.
fn precision(u: Usage, kind: usize, version: (u16, u16)) -> Prec {
    let halves2 = version == (1, 10);
    match (u, kind) {
        (Usage::Position, _) => Prec::Exact,
        (_, 3) => Prec::Exact,
        (_, 2) => if halves2 { Prec::Half } else { Prec::Exact },
        (Usage::Color, 4) => Prec::Byte,
        _ => Prec::Half,
    }
}
/// The value of a half-precision bit pattern.
pub fn half_value(b: u16) -> f64 {
    let s = if b & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = (b >> 10 & 31) as i32;
    let m = (b & 1023) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => if m == 0.0 { s * f64::INFINITY } else { f64::NAN },
        _ => s * (1024.0 + m) * 2f64.powi(e - 25),
    }
}
/// The two neighbouring half values around a finite x and the allowed nearest ones.
fn half_ok(x: f32, got: f32) -> bool {
    let a = x.abs() as f64;
    if x.is_nan() || got.is_nan() || x.is_sign_negative() != got.is_sign_negative() {
        return false;
    }
    let g = got.abs() as f64;
    if a >= 65520.0 {
        return g == f64::INFINITY;
    }
    // spacing of half values around a
    let e = if a < 2f64.powi(-14) { -14 } else { a.log2().floor() as i32 };
    // log2 may be off by one next to a power of two
    let e = if 2f64.powi(e + 1) <= a { e + 1 } else if e > -14 && 2f64.powi(e) > a { e - 1 } else { e };
    let ulp = 2f64.powi(e - 10);
    let q = g / ulp;
    (q == q.trunc() || (g / (ulp * 2.0)).fract() == 0.0) && (g - a).abs() <= ulp / 2.0
}
fn byte_ok(x: f32, got: f32) -> bool {
    let v = (x as f64).clamp(0.0, 1.0) * 255.0;
    let g = got as f64 * 255.0;
    let r = g.round();
    (g - r).abs() < 1e-4 && (r - v).abs() <= 0.5 + 1e-4
}
fn rows(d: &VectorData) -> (usize, Vec<&[f32]>) {
    match d {
        VectorData::Vector2(v) => (2, v.iter().map(|x| &x[..]).collect()),
        VectorData::Vector3(v) => (3, v.iter().map(|x| &x[..]).collect()),
        VectorData::Vector4(v) => (4, v.iter().map(|x| &x[..]).collect()),
    }
}
fn same_precision(p: Prec, x: f32, got: f32) -> bool {
    match p {
        Prec::Exact => x.to_bits() == got.to_bits(),
        Prec::Half => half_ok(x, got),
        Prec::Byte => byte_ok(x, got),
    }
}
fn compare_rows(c: &mut Case, u: Usage, version: (u16, u16), want: &VectorData, got: &[Vec<f32>], what: &str) -> R {
    let (k, w) = rows(want);
    let p = precision(u, k, version);
    ensure!(w.len() == got.len(), "{what}: {} vectors stored as {}", w.len(), got.len());
    for (i, (a, b)) in w.iter().zip(got).enumerate() {
        ensure!(b.len() == k, "{what}: vector kind {k} stored as {}", b.len());
        for (x, y) in a.iter().zip(b) {
            ensure!(same_precision(p, *x, *y), "{what}[{i}] ({u:?}, {k} components, {p:?}): {a:?} stored as {b:?}");
        }
    }
    c.count(
        match p {
            Prec::Exact => "exact_components",
            Prec::Half => "half_components",
            Prec::Byte => "byte_components",
        },
        (w.len() * k) as u64,
    );
    c.count("attributes_compared", 1);
    Ok(())
}
fn expected_name(u: Usage, i: usize, version: (u16, u16), name: &str) -> String {
    if version != (1, 8) {
        return name.to_string();
    }
    match u {
        Usage::Position => format!("Position{i}"),
        Usage::Normal => format!("Normal{i}"),
        Usage::Tangent => format!("Tangent{i}"),
        Usage::TexCoord => format!("TextureCoordinate{i}"),
        Usage::Color => format!("colorSet{i}"),
        Usage::Binormal => unreachable!(),
    }
}
fn owned(d: &VectorData) -> Vec<Vec<f32>> {
    rows(d).1.into_iter().map(|x| x.to_vec()).collect()
}
fn same_influences(a: &[BoneInfluence], b: &[BoneInfluence]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.bone_name == y.bone_name
                && x.vertex_weights.len() == y.vertex_weights.len()
                && x.vertex_weights.iter().zip(&y.vertex_weights).all(|(p, q)| p.vertex_index == q.vertex_index && p.vertex_weight.to_bits() == q.vertex_weight.to_bits())
        })
}
fn compare_mesh(c: &mut Case, d: &MeshData, e: &MeshData) -> R {
    let version = (d.major_version, d.minor_version);
    ensure!(version == (e.major_version, e.minor_version), "version {version:?} became {:?}", (e.major_version, e.minor_version));
    ensure!(d.objects.len() == e.objects.len(), "{} objects became {}", d.objects.len(), e.objects.len());
    for (i, (a, b)) in d.objects.iter().zip(&e.objects).enumerate() {
        ensure!(a.name == b.name && a.subindex == b.subindex, "object {i} identity: {:?}/{} became {:?}/{}", a.name, a.subindex, b.name, b.subindex);
        ensure!(a.parent_bone_name == b.parent_bone_name, "object {i} parent bone {:?} became {:?}", a.parent_bone_name, b.parent_bone_name);
        ensure!(a.sort_bias == b.sort_bias, "object {i} sort bias {} became {}", a.sort_bias, b.sort_bias);
        ensure!(a.disable_depth_write == b.disable_depth_write && a.disable_depth_test == b.disable_depth_test, "object {i} depth flags changed");
        ensure!(a.vertex_indices == b.vertex_indices, "object {i} vertex indices changed");
        for u in USAGES {
            let (x, y) = (list(a, u), list(b, u));
            ensure!(x.len() == y.len(), "object {i}: {} {u:?} attributes became {}", x.len(), y.len());
            for (k, (p, q)) in x.iter().zip(y).enumerate() {
                ensure!(q.name == expected_name(u, k, version, &p.name), "object {i} {u:?} {k}: name {:?} became {:?}", p.name, q.name);
                compare_rows(c, u, version, &p.data, &owned(&q.data), &format!("object {i} {u:?} {k}"))?;
            }
        }
        ensure!(same_influences(&a.bone_influences, &b.bone_influences), "object {i} influences {:?} became {:?}", a.bone_influences, b.bone_influences);
        c.count("influences", a.bone_influences.len() as u64);
        c.count("objects", 1);
        if a.vertex_indices.iter().any(|v| *v > 65535) {
            c.count("wide_indices", 1);
        }
    }
    if d.objects.len() > 1 {
        c.count("multi_object_meshes", 1);
    }
    Ok(())
}
fn written(d: &MeshData) -> Result<Vec<u8>, Viol> {
    let mut w = Cursor::new(vec![]);
    d.write(&mut w).map_err(|e| Viol { msg: format!("valid mesh rejected: {e}"), known: None })?;
    Ok(w.into_inner())
}
fn reread(b: &[u8]) -> Result<MeshData, Viol> {
    MeshData::read(&mut Cursor::new(b)).map_err(|e| Viol { msg: format!("written mesh cannot be read: {e}"), known: None })
}
fn brief(d: &MeshData) -> String {
    let mut s = format!("{d:?}");
    s.truncate(s.char_indices().nth(600).map(|x| x.0).unwrap_or(s.len()));
    s
}
fn c13_check(c: &mut Case, d: &MeshData) -> R {
    let b = written(d)?;
    c.seen(&b);
    c.sample(|| brief(d));
    let e = reread(&b)?;
    c.artifact = b;
    compare_mesh(c, d, &e)
}
fn sized(c: &mut Case) -> MeshOpts {
    let max_vertices = *c.rng.pick(&[3usize, 12, 40, 40, 200]);
    MeshOpts { max_vertices, ..MESH_SMALL }
}
fn c13_roundtrip(c: &mut Case) -> R {
    let o = sized(c);
    let d = mesh(&mut c.rng, &o);
    c13_check(c, &d)
}
fn wide(c: &mut Case) -> MeshData {
    // objects on both sides of the 16-bit index limit, next to small ones
    let version = (1, *c.rng.pick(&[8u16, 9, 10]));
    let mut objects = vec![];
    for i in 0..c.rng.range(1, 4) {
        let n = *c.rng.pick(&[30usize, 65535, 65536, 65537, 66000, 70000]);
        let o = MeshOpts { max_objects: 1, max_vertices: 30, tame: true, big: true };
        let mut m = mesh_object(&mut c.rng, &MeshOpts { max_vertices: 1, ..o }, version);
        m.subindex = i as u64;
        for l in [&mut m.positions, &mut m.normals, &mut m.binormals, &mut m.tangents, &mut m.texture_coordinates, &mut m.color_sets] {
            l.truncate(1);
            for a in l.iter_mut() {
                let kind = rows(&a.data).0;
                a.data = vectors(&mut c.rng, kind, n, 1);
            }
        }
        if m.positions.is_empty() {
            m.positions.push(AttributeData { name: "Position0".into(), data: vectors(&mut c.rng, 3, n, 1) });
        }
        let faces = c.rng.range(1, 40);
        m.vertex_indices = (0..faces * 3).map(|_| if c.rng.chance(1, 20) { *c.rng.pick(&[65534usize, 65535, 65536]) } else { c.rng.below(300) }.min(n - 1) as u32).collect();
        objects.push(m);
    }
    MeshData { major_version: version.0, minor_version: version.1, objects }
}
/// Many objects, vertices, bones or weights.
fn listy(c: &mut Case, o: MeshOpts) -> MeshData {
    let d = with_wide_lists(&mut c.rng, |r| mesh(r, &o));
    c.max("objects", d.objects.len() as u64);
    c.max("bones", d.objects.iter().map(|o| o.bone_influences.len()).max().unwrap_or(0) as u64);
    c.max("weights", d.objects.iter().flat_map(|o| &o.bone_influences).map(|b| b.vertex_weights.len()).max().unwrap_or(0) as u64);
    d
}
fn c13_lists(c: &mut Case) -> R {
    let d = listy(c, MeshOpts { max_vertices: 12, ..MESH_SMALL });
    c13_check(c, &d)
}
fn c14_lists(c: &mut Case) -> R {
    let d = listy(c, MeshOpts { max_vertices: 12, ..MESH_SMALL });
    c14_check(c, &d)
}
fn c13_wide(c: &mut Case) -> R {
    let d = wide(c);
    c13_check(c, &d)
}
/// Data read from a file is stored again without any further loss.
fn c13_resave(c: &mut Case) -> R {
    let o = sized(c);
    let d = mesh(&mut c.rng, &o);
    let b = written(&d)?;
    let e = reread(&b)?;
    let b2 = written(&e)?;
    c.seen(&b2);
    let f = reread(&b2)?;
    ensure!(format!("{e:?}") == format!("{f:?}"), "saving a mesh that was just read changed it");
    ensure!(b == b2 || o_has_infinite(&e), "saving a mesh that was just read changed the file");
    Ok(())
}
fn o_has_infinite(e: &MeshData) -> bool {
    e.objects.iter().flat_map(|o| USAGES.iter().flat_map(move |u| list(o, *u))).any(|a| rows(&a.data).1.iter().any(|r| r.iter().any(|x| !x.is_finite())))
}

// ---------------------------------------------------------------- C14
/// A uniform view of the attribute descriptors of all versions.
#[derive(Debug, Clone)]
struct Desc {
    usage: Usage,
    /// component count, component type
    ty: (usize, Prec),
    buffer: u32,
    offset: u32,
    subindex: u64,
    name: Option<String>,
}
fn ty8(t: AttributeDataTypeV8) -> (usize, Prec) {
    match t {
        AttributeDataTypeV8::Float3 => (3, Prec::Exact),
        AttributeDataTypeV8::Float2 => (2, Prec::Exact),
        AttributeDataTypeV8::Float4 => (4, Prec::Exact),
        AttributeDataTypeV8::HalfFloat4 => (4, Prec::Half),
        AttributeDataTypeV8::Byte4 => (4, Prec::Byte),
    }
}
fn ty10(t: AttributeDataTypeV10) -> (usize, Prec) {
    match t {
        AttributeDataTypeV10::Float3 => (3, Prec::Exact),
        AttributeDataTypeV10::Float2 => (2, Prec::Exact),
        AttributeDataTypeV10::Float4 => (4, Prec::Exact),
        AttributeDataTypeV10::HalfFloat4 => (4, Prec::Half),
        AttributeDataTypeV10::HalfFloat2 => (2, Prec::Half),
        AttributeDataTypeV10::Byte4 => (4, Prec::Byte),
    }
}
fn width(t: (usize, Prec)) -> usize {
    t.0 * match t.1 {
        Prec::Exact => 4,
        Prec::Half => 2,
        Prec::Byte => 1,
    }
}
trait AsDesc {
    fn desc(&self) -> Desc;
}
fn u9(u: AttributeUsageV9) -> Usage {
    match u {
        AttributeUsageV9::Position => Usage::Position,
        AttributeUsageV9::Normal => Usage::Normal,
        AttributeUsageV9::Binormal => Usage::Binormal,
        AttributeUsageV9::Tangent => Usage::Tangent,
        AttributeUsageV9::TextureCoordinate => Usage::TexCoord,
        AttributeUsageV9::ColorSet => Usage::Color,
    }
}
impl AsDesc for AttributeV8 {
    fn desc(&self) -> Desc {
        let usage = match self.usage {
            AttributeUsageV8::Position => Usage::Position,
            AttributeUsageV8::Normal => Usage::Normal,
            AttributeUsageV8::Tangent => Usage::Tangent,
            AttributeUsageV8::TextureCoordinate => Usage::TexCoord,
            AttributeUsageV8::ColorSet => Usage::Color,
        };
        Desc { usage, ty: ty8(self.data_type), buffer: self.buffer_index, offset: self.buffer_offset, subindex: self.subindex as u64, name: None }
    }
}
impl AsDesc for AttributeV9 {
    fn desc(&self) -> Desc {
        let n = self.attribute_names.elements.iter().map(|s| s.to_string_lossy()).collect::<Vec<_>>();
        Desc { usage: u9(self.usage), ty: ty8(self.data_type), buffer: self.buffer_index, offset: self.buffer_offset, subindex: self.subindex, name: n.first().cloned() }
    }
}
impl AsDesc for AttributeV10 {
    fn desc(&self) -> Desc {
        let n = self.attribute_names.elements.iter().map(|s| s.to_string_lossy()).collect::<Vec<_>>();
        Desc { usage: u9(self.usage), ty: ty10(self.data_type), buffer: self.buffer_index, offset: self.buffer_offset, subindex: self.subindex, name: n.first().cloned() }
    }
}
trait AsWeights {
    fn weights(&self) -> Option<Vec<(u32, u32)>>;
}
impl AsWeights for SsbhArray<VertexWeightV8> {
    fn weights(&self) -> Option<Vec<(u32, u32)>> {
        Some(self.elements.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect())
    }
}
impl AsWeights for SsbhByteBuffer {
    fn weights(&self) -> Option<Vec<(u32, u32)>> {
        if self.elements.len() % 6 != 0 {
            return None;
        }
        Some(self.elements.chunks(6).map(|b| (u16::from_le_bytes([b[0], b[1]]) as u32, u32::from_le_bytes([b[2], b[3], b[4], b[5]]))).collect())
    }
}
fn decode_component(t: Prec, b: &[u8]) -> f32 {
    match t {
        Prec::Exact => f32::from_le_bytes([b[0], b[1], b[2], b[3]]),
        Prec::Half => half_value(u16::from_le_bytes([b[0], b[1]])) as f32,
        Prec::Byte => b[0] as f32 / 255.0,
    }
}
fn disjoint(mut v: Vec<(u64, u64)>) -> bool {
    v.retain(|x| x.0 < x.1);
    v.sort();
    v.windows(2).all(|w| w[0].1 <= w[1].0)
}
fn check_inner<A, W>(c: &mut Case, d: &MeshData, m: &MeshInner<A, W>) -> R
where
    A: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite + AsDesc,
    W: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite + AsWeights,
{
    let version = (d.major_version, d.minor_version);
    let bufs: Vec<&Vec<u8>> = m.vertex_buffers.elements.iter().map(|b| &b.elements).collect();
    ensure!(m.objects.elements.len() == d.objects.len(), "object count");
    ensure!(m.buffer_sizes.elements.len() >= bufs.len(), "{} sizes for {} buffers", m.buffer_sizes.elements.len(), bufs.len());
    for (k, s) in m.buffer_sizes.elements.iter().enumerate() {
        ensure!(*s as usize == bufs.get(k).map(|b| b.len()).unwrap_or(0), "buffer {k} has {} bytes but its stored size is {s}", bufs.get(k).map(|b| b.len()).unwrap_or(0));
    }
    let index = &m.index_buffer.elements;
    ensure!(m.polygon_index_size as usize == index.len(), "polygon index size {} for {} bytes", m.polygon_index_size, index.len());
    let mut regions: Vec<Vec<(u64, u64)>> = vec![vec![]; 4];
    let mut index_regions = vec![];
    for (i, (o, mo)) in d.objects.iter().zip(&m.objects.elements).enumerate() {
        let mo: &MeshObject<A> = mo;
        c.count("objects", 1);
        let count = USAGES.iter().flat_map(|u| list(o, *u)).map(|a| a.data.len()).next().unwrap_or(0);
        ensure!(mo.name.to_string_lossy() == o.name && mo.subindex == o.subindex, "object {i} has another identity");
        ensure!(mo.parent_bone_name.to_string_lossy() == o.parent_bone_name, "object {i} parent bone");
        ensure!(mo.vertex_count as usize == count, "object {i}: {} vertices stored as {}", count, mo.vertex_count);
        ensure!(mo.vertex_index_count as usize == o.vertex_indices.len(), "object {i}: index count");
        ensure!(mo.sort_bias == o.sort_bias && (mo.depth_flags.disable_depth_write != 0) == o.disable_depth_write && (mo.depth_flags.disable_depth_test != 0) == o.disable_depth_test, "object {i}: flags");
        ensure!((mo.use_vertex_skinning != 0) == !o.bone_influences.is_empty(), "object {i}: use_vertex_skinning {} with {} influences", mo.use_vertex_skinning, o.bone_influences.len());
        // indices
        let wide = o.vertex_indices.iter().any(|v| *v > 65535);
        let (isize, is_wide) = match mo.draw_element_type {
            DrawElementType::UnsignedShort => (2usize, false),
            DrawElementType::UnsignedInt => (4, true),
        };
        ensure!(is_wide == wide, "object {i}: index type {:?} for a largest index of {:?}", mo.draw_element_type, o.vertex_indices.iter().max());
        c.count(if wide { "u32_objects" } else { "u16_objects" }, 1);
        let s = mo.index_buffer_offset as usize;
        let e = s + isize * o.vertex_indices.len();
        ensure!(e <= index.len(), "object {i}: indices end at {e} in a buffer of {}", index.len());
        let got: Vec<u32> = index[s..e].chunks(isize).map(|b| b.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32)).collect();
        ensure!(got == o.vertex_indices, "object {i}: the index buffer holds other indices");
        index_regions.push((s as u64, e as u64));
        // regions of the vertex buffers
        let offs = [mo.vertex_buffer0_offset, mo.vertex_buffer1_offset, mo.vertex_buffer2_offset, mo.vertex_buffer3_offset];
        let strides = [mo.stride0, mo.stride1, mo.stride2, mo.stride3];
        for k in 0..4 {
            let (s, e) = (offs[k] as u64, offs[k] as u64 + strides[k] as u64 * count as u64);
            if strides[k] > 0 && count > 0 {
                let len = bufs.get(k).map(|b| b.len()).unwrap_or(0) as u64;
                ensure!(e <= len, "object {i}: data in buffer {k} ends at {e} but the buffer has {len} bytes");
                regions[k].push((s, e));
            }
        }
        // descriptors
        let descs: Vec<Desc> = mo.attributes.elements.iter().map(|a| a.desc()).collect();
        let mut inline: Vec<Vec<(u64, u64)>> = vec![vec![]; 4];
        for a in &descs {
            ensure!((a.buffer as usize) < 4, "object {i}: descriptor of buffer {}", a.buffer);
            let (s, e) = (a.offset as u64, a.offset as u64 + width(a.ty) as u64);
            ensure!(e <= strides[a.buffer as usize] as u64, "object {i}: {:?} needs bytes {s}..{e} of a stride of {}", a.usage, strides[a.buffer as usize]);
            inline[a.buffer as usize].push((s, e));
            c.count("descriptors", 1);
        }
        for (k, v) in inline.into_iter().enumerate() {
            let used: u64 = v.iter().map(|x| x.1 - x.0).sum();
            ensure!(disjoint(v), "object {i}: descriptors of buffer {k} overlap: {descs:?}");
            if k < 2 {
                ensure!(used == strides[k] as u64, "object {i}: stride {} of buffer {k} but its attributes have {used} bytes", strides[k]);
            }
        }
        for u in USAGES {
            let of: Vec<&Desc> = descs.iter().filter(|a| a.usage == u).collect();
            let want = list(o, u);
            ensure!(of.len() == want.len(), "object {i}: {} descriptors for {} {u:?} attributes", of.len(), want.len());
            for (k, (a, w)) in of.iter().zip(want).enumerate() {
                ensure!(a.subindex == k as u64, "object {i}: {u:?} {k} has subindex {}", a.subindex);
                if let Some(n) = &a.name {
                    ensure!(*n == w.name, "object {i}: {u:?} {k} is named {n:?} instead of {:?}", w.name);
                }
                let b = a.buffer as usize;
                let data = bufs.get(b).copied();
                let mut got = Vec::with_capacity(count);
                for v in 0..count {
                    let at = offs[b] as usize + v * strides[b] as usize + a.offset as usize;
                    let cw = width(a.ty) / a.ty.0;
                    let data = data.unwrap();
                    got.push((0..a.ty.0).map(|q| decode_component(a.ty.1, &data[at + q * cw..at + (q + 1) * cw])).collect::<Vec<f32>>());
                }
                let kind = rows(&w.data).0;
                ensure!(a.ty == (kind, precision(u, kind, version)), "object {i}: {u:?} with {kind} components stored as {:?}", a.ty);
                compare_rows(c, u, version, &w.data, &got, &format!("object {i} {u:?} {k} decoded from buffer {b}"))?;
                c.count("decoded_vertices", count as u64);
            }
        }
    }
    for (k, v) in regions.into_iter().enumerate() {
        c.count("overlap_checks", v.len() as u64);
        ensure!(disjoint(v.clone()), "objects share bytes of vertex buffer {k}: {v:?}");
        if k < 2 {
            let used: u64 = v.iter().map(|x| x.1 - x.0).sum();
            ensure!(used == bufs.get(k).map(|b| b.len()).unwrap_or(0) as u64, "buffer {k} holds {} bytes but its objects use {used}", bufs.get(k).map(|b| b.len()).unwrap_or(0));
        }
    }
    let used: u64 = index_regions.iter().map(|x| x.1 - x.0).sum();
    ensure!(disjoint(index_regions) && used == index.len() as u64, "index ranges overlap or leave {} bytes of the index buffer unused", index.len() as u64 - used.min(index.len() as u64));
    // rigging
    let rig: &Vec<RiggingGroup<W>> = &m.rigging_buffers.elements;
    ensure!(rig.len() == d.objects.len(), "{} rigging groups for {} objects", rig.len(), d.objects.len());
    let keys: Vec<(String, u64)> = rig.iter().map(|g| (g.mesh_object_name.to_string_lossy(), g.mesh_object_subindex)).collect();
    ensure!(keys.windows(2).all(|w| w[0] < w[1]), "rigging groups are not sorted: {keys:?}");
    for g in rig {
        let key = (g.mesh_object_name.to_string_lossy(), g.mesh_object_subindex);
        let Some(o) = d.objects.iter().find(|o| o.name == key.0 && o.subindex == key.1) else { return viol(format!("rigging group for an unknown object {key:?}")) };
        c.count("rigging_groups", 1);
        ensure!(g.buffers.elements.len() == o.bone_influences.len(), "{key:?}: {} bone buffers for {} influences", g.buffers.elements.len(), o.bone_influences.len());
        for (b, w) in g.buffers.elements.iter().zip(&o.bone_influences) {
            ensure!(b.bone_name.to_string_lossy() == w.bone_name, "{key:?}: bone {:?} stored as {:?}", w.bone_name, b.bone_name.to_string_lossy());
            let want: Vec<(u32, u32)> = w.vertex_weights.iter().map(|v| (v.vertex_index, v.vertex_weight.to_bits())).collect();
            ensure!(b.data.weights() == Some(want), "{key:?}: other weights stored for bone {:?}", w.bone_name);
        }
        // the largest number of bones that influence one vertex
        let mut per = std::collections::HashMap::new();
        for b in &o.bone_influences {
            for v in b.vertex_weights.iter().map(|v| v.vertex_index).collect::<HashSet<_>>() {
                *per.entry(v).or_insert(0u64) += 1;
            }
        }
        let max = per.values().copied().max().unwrap_or(0);
        c.max("max_influences", max);
        if max > 255 {
            if g.flags.max_influences as u64 != max {
                ensure!(g.flags.max_influences as u64 == max % 256, "{key:?}: {max} influences stored as {}", g.flags.max_influences);
                c.known("mesh-max-influences-u8", format!("a vertex with {max} influencing bones is stored with a maximum of {}", g.flags.max_influences))?;
            }
        } else {
            ensure!(g.flags.max_influences as u64 == max, "{key:?}: {max} influences stored as {}", g.flags.max_influences);
        }
        ensure!(g.flags.unk1 == 1, "{key:?}: rigging flag {}", g.flags.unk1);
    }
    Ok(())
}
fn c14_check(c: &mut Case, d: &MeshData) -> R {
    let m = Mesh::try_from(d).map_err(|e| Viol { msg: format!("valid mesh rejected: {e}"), known: None })?;
    c.sample(|| brief(d));
    // the same through a real file
    let b = written(d)?;
    c.seen(&b);
    let r = Mesh::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    c.artifact = b;
    ensure!(format!("{m:?}") == format!("{r:?}"), "the file holds another mesh than the conversion produced");
    match &r {
        Mesh::V8(m) => check_inner(c, d, m),
        Mesh::V9(m) => check_inner(c, d, m),
        Mesh::V10(m) => check_inner(c, d, m),
    }
}
fn c14_consistency(c: &mut Case) -> R {
    let o = sized(c);
    let d = mesh(&mut c.rng, &o);
    c14_check(c, &d)
}
fn c14_wide(c: &mut Case) -> R {
    let d = wide(c);
    c14_check(c, &d)
}
fn c14_influences(c: &mut Case) -> R {
    let n = [255usize, 256, 300][c.idx as usize % 3];
    let o = MeshObjectData {
        name: "a".into(),
        positions: vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(vec![[0.0; 3]; 3]) }],
        vertex_indices: vec![0, 1, 2],
        bone_influences: (0..n).map(|i| BoneInfluence { bone_name: format!("b{i}"), vertex_weights: vec![VertexWeight { vertex_index: 1, vertex_weight: 0.5 }] }).collect(),
        ..Default::default()
    };
    c14_check(c, &MeshData { major_version: 1, minor_version: 10, objects: vec![o] })
}

// ---------------------------------------------------------------- C15
fn xyz(d: &VectorData) -> Vec<[f64; 3]> {
    rows(d).1.iter().map(|r| [r[0] as f64, r[1] as f64, if r.len() > 2 { r[2] as f64 } else { 0.0 }]).collect()
}
fn check_sphere(s: &BoundingSphere, p: &[[f64; 3]], what: &str) -> R {
    let ctr = [s.center.x as f64, s.center.y as f64, s.center.z as f64];
    ensure!(s.radius.is_finite() && s.radius >= 0.0 && ctr.iter().all(|x| x.is_finite()), "{what}: sphere {s:?}");
    let scale = p.iter().flatten().fold(0f64, |a, x| a.max(x.abs()));
    let mut far = 0f64;
    for q in p {
        let d = (0..3).map(|k| (q[k] - ctr[k]).powi(2)).sum::<f64>().sqrt();
        far = far.max(d);
        ensure!(d <= s.radius as f64 + 1e-5 * scale + 1e-15, "{what}: vertex {q:?} is {d} from the centre of {s:?}");
    }
    Ok(())
}
fn check_bounding(c: &mut Case, b: &BoundingInfo, p: &[[f64; 3]], what: &str) -> R {
    check_sphere(&b.bounding_sphere, p, what)?;
    c.count("spheres", 1);
    let v = &b.bounding_volume;
    let (lo, hi) = ([v.min.x, v.min.y, v.min.z], [v.max.x, v.max.y, v.max.z]);
    for k in 0..3 {
        let (a, z) = (p.iter().map(|q| q[k]).fold(f64::INFINITY, f64::min), p.iter().map(|q| q[k]).fold(f64::NEG_INFINITY, f64::max));
        let (a, z) = if p.is_empty() { (0.0, 0.0) } else { (a, z) };
        ensure!(lo[k] as f64 == a && hi[k] as f64 == z, "{what}: axis {k} spans {a}..{z} but the box is {}..{}", lo[k], hi[k]);
    }
    let o = &b.oriented_bounding_box;
    let ctr = [o.center.x as f64, o.center.y as f64, o.center.z as f64];
    let half = [o.size.x as f64, o.size.y as f64, o.size.z as f64];
    let ax = [o.transform.col1, o.transform.col2, o.transform.col3].map(|r| [r.x as f64, r.y as f64, r.z as f64]);
    let scale = p.iter().flatten().fold(0f64, |a, x| a.max(x.abs()));
    for (name, axes) in [("columns", ax), ("rows", [[ax[0][0], ax[1][0], ax[2][0]], [ax[0][1], ax[1][1], ax[2][1]], [ax[0][2], ax[1][2], ax[2][2]]])] {
        let bad = p.iter().find(|q| (0..3).any(|k| (0..3).map(|j| (q[j] - ctr[j]) * axes[k][j]).sum::<f64>().abs() > half[k] + 1e-5 * scale + 1e-15));
        match bad {
            None => break,
            Some(q) if name == "rows" => return viol(format!("{what}: vertex {q:?} is outside the oriented box {o:?}")),
            _ => {}
        }
    }
    c.count("vertices_checked", p.len() as u64);
    Ok(())
}
fn geo_opts(c: &mut Case) -> MeshOpts {
    MeshOpts { tame: true, max_vertices: *c.rng.pick(&[1usize, 4, 30, 120]), ..MESH_SMALL }
}
/// Moves, scales or flattens the positions, so clouds are far from the origin, tiny, huge or degenerate.
fn reshape(c: &mut Case, d: &mut MeshData) {
    for o in d.objects.iter_mut() {
        for a in o.positions.iter_mut() {
            if c.rng.chance(1, 3) {
                continue;
            }
            let s = *c.rng.pick(&[1.0f32, 1e-6, 1e-3, 100.0, 1e6, 0.0]);
            let t: [f32; 4] = std::array::from_fn(|_| *c.rng.pick(&[0.0f32, 0.0, 5.0, -1000.0, 1e7]));
            let flat = c.rng.below(8);
            let f = |r: &mut [f32]| {
                for (k, x) in r.iter_mut().enumerate() {
                    *x = if k == flat { t[k] } else { *x * s + t[k] };
                }
            };
            match &mut a.data {
                VectorData::Vector2(v) => v.iter_mut().for_each(|r| f(r)),
                VectorData::Vector3(v) => v.iter_mut().for_each(|r| f(r)),
                VectorData::Vector4(v) => v.iter_mut().for_each(|r| f(r)),
            }
        }
    }
}
fn c15_bounding(c: &mut Case) -> R {
    let o = geo_opts(c);
    let d = mesh(&mut c.rng, &o);
    c15_check(c, d)
}
fn c15_lists(c: &mut Case) -> R {
    let o = MeshOpts { max_vertices: 12, ..geo_opts(c) };
    let mut d = listy(c, o);
    if c.rng.bool() {
        return c15_check(c, d);
    }
    if c.rng.bool() && !d.objects.is_empty() {
        // all in one group
        for (i, o) in d.objects.iter_mut().enumerate() {
            o.name = "a".into();
            o.subindex = i as u64;
        }
    }
    c15_check_groups(c, d)
}
fn c15_check(c: &mut Case, mut d: MeshData) -> R {
    reshape(c, &mut d);
    let b = written(&d)?;
    c.seen(&b);
    c.sample(|| brief(&d));
    let m = Mesh::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    c.artifact = b;
    let (all, infos): (BoundingInfo, Vec<BoundingInfo>) = match &m {
        Mesh::V8(m) => (m.bounding_info, m.objects.elements.iter().map(|o| o.bounding_info).collect()),
        Mesh::V9(m) => (m.bounding_info, m.objects.elements.iter().map(|o| o.bounding_info).collect()),
        Mesh::V10(m) => (m.bounding_info, m.objects.elements.iter().map(|o| o.bounding_info).collect()),
    };
    let mut every = vec![];
    ensure!(infos.len() == d.objects.len(), "object count");
    for (i, (o, info)) in d.objects.iter().zip(&infos).enumerate() {
        let p = o.positions.first().map(|a| xyz(&a.data)).unwrap_or_default();
        c.count(if p.is_empty() { "objects_without_positions" } else { "objects_with_positions" }, 1);
        check_bounding(c, info, &p, &format!("object {i}"))?;
        every.extend(p);
    }
    check_bounding(c, &all, &every, "mesh")
}
fn ref_groups(objects: &[MeshObjectData]) -> Vec<(String, Vec<&MeshObjectData>)> {
    let mut g: Vec<(String, Vec<&MeshObjectData>)> = vec![];
    for o in objects {
        match g.last_mut() {
            Some(l) if l.0 == o.name => l.1.push(o),
            _ => g.push((o.name.clone(), vec![o])),
        }
    }
    g
}
fn sphere_in(outer: &BoundingSphere, inner: &BoundingSphere) -> bool {
    let d = ((outer.center.x as f64 - inner.center.x as f64).powi(2) + (outer.center.y as f64 - inner.center.y as f64).powi(2) + (outer.center.z as f64 - inner.center.z as f64).powi(2)).sqrt();
    let scale = [inner.center.x, inner.center.y, inner.center.z, inner.radius, outer.radius].iter().fold(0f64, |a, x| a.max(x.abs() as f64));
    d + inner.radius as f64 <= outer.radius as f64 + 1e-5 * scale + 1e-15
}
fn c15_meshex(c: &mut Case) -> R {
    let o = geo_opts(c);
    let d = mesh(&mut c.rng, &o);
    c15_check_groups(c, d)
}
fn c15_check_groups(c: &mut Case, mut d: MeshData) -> R {
    reshape(c, &mut d);
    let x = MeshExData::from_mesh_objects(&d.objects);
    let groups = ref_groups(&d.objects);
    ensure!(x.mesh_object_groups.len() == groups.len(), "{} groups instead of {}", x.mesh_object_groups.len(), groups.len());
    c.seen(format!("{x:?}").as_bytes());
    c.sample(|| format!("{x:?}"));
    for (g, (n, os)) in x.mesh_object_groups.iter().zip(&groups) {
        let p: Vec<[f64; 3]> = os.iter().filter_map(|o| o.positions.first()).flat_map(|a| xyz(&a.data)).collect();
        check_sphere(&g.bounding_sphere, &p, &format!("group {n}"))?;
        c.count("group_spheres", 1);
        c.count("vertices_checked", p.len() as u64);
    }
    let m = MeshEx::from(&x);
    let all = m.all_data.as_ref().map(|a| a.bounding_sphere);
    let Some(all) = all else { return viol("no enclosing data") };
    for g in &x.mesh_object_groups {
        ensure!(sphere_in(&all, &g.bounding_sphere), "the enclosing sphere {all:?} does not contain {:?}", g.bounding_sphere);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn c19_adjacency(c: &mut Case) -> R {
    let n = *c.rng.pick(&[3usize, 4, 6, 12, 40]);
    // few distinct positions make seams
    let distinct = c.rng.range(1, n);
    let pool: Vec<[f32; 4]> = (0..distinct).map(|_| std::array::from_fn(|_| *c.rng.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 7.25]))).collect();
    let kind = c.rng.range(2, 4);
    let picks: Vec<[f32; 4]> = (0..n).map(|_| *c.rng.pick(&pool)).collect();
    let data = match kind {
        2 => VectorData::Vector2(picks.iter().map(|p| [p[0], p[1]]).collect()),
        3 => VectorData::Vector3(picks.iter().map(|p| [p[0], p[1], p[2]]).collect()),
        _ => VectorData::Vector4(picks.clone()),
    };
    let faces = c.rng.range(0, 30);
    let mut idx: Vec<u32> = vec![];
    for _ in 0..faces {
        let a = c.rng.below(n);
        let b = (a + c.rng.range(1, n - 1)) % n;
        let mut d = c.rng.below(n);
        while d == a || d == b {
            d = (d + 1) % n;
        }
        let mut f = [a as u32, b as u32, d as u32];
        if c.rng.chance(1, 8) {
            // a face that uses a vertex twice
            let (p, q) = *c.rng.pick(&[(0, 1), (1, 2), (0, 2)]);
            f[q] = f[p];
            c.count("degenerate_faces", 1);
        }
        idx.extend(f);
    }
    let obj = c.rng.below(500);
    // independent computation
    let key = |i: usize| -> Vec<f32> { picks[i][..kind].to_vec() };
    let mut want: Vec<i16> = vec![];
    for v in 0..n {
        let mut l: Vec<i16> = vec![];
        let twins: Vec<usize> = (0..n).filter(|t| key(*t) == key(v)).collect();
        if twins.len() > 1 {
            c.count("seam_vertices", 1);
        }
        for t in twins {
            for f in idx.chunks(3) {
                for k in (0..3).filter(|k| f[*k] as usize == t) {
                    // the remaining corners, in winding order for the first two corners
                    let (p, q) = match k {
                        0 => (f[1], f[2]),
                        1 => (f[2], f[0]),
                        _ => (f[0], f[1]),
                    };
                    l.push(p as i16);
                    l.push(q as i16);
                }
            }
        }
        if l.len() > 18 {
            c.count("truncated_vertices", 1);
        }
        l.resize(18, -1);
        want.extend(l);
        c.count("adjacency_vertices", 1);
    }
    c.seen(format!("{picks:?}{idx:?}").as_bytes());
    let object = MeshObjectData { name: "o".into(), vertex_indices: idx.clone(), positions: vec![AttributeData { name: "Position0".into(), data: data.clone() }], ..Default::default() };
    let a = AdjEntryData::from_mesh_object(obj, &object);
    let b = AdjEntryData::from_vector_data(obj, &data, &idx);
    let d = match &data {
        VectorData::Vector2(v) => AdjEntryData::from_triangle_faces(obj, v, &idx),
        VectorData::Vector3(v) => AdjEntryData::from_triangle_faces(obj, v, &idx),
        VectorData::Vector4(v) => AdjEntryData::from_triangle_faces(obj, v, &idx),
    };
    for (e, n) in [(&a, "from_mesh_object"), (&b, "from_vector_data"), (&d, "from_triangle_faces")] {
        ensure!(e.mesh_object_index == obj, "{n}: object index {} instead of {obj}", e.mesh_object_index);
        ensure!(e.vertex_adjacency == want, "{n}: positions {picks:?} ({kind} components), faces {idx:?}: {:?} instead of {want:?}", e.vertex_adjacency);
    }
    c.sample(|| format!("{idx:?} -> {want:?}"));
    let none = AdjEntryData::from_mesh_object(obj, &MeshObjectData { vertex_indices: idx, ..Default::default() });
    ensure!(none.vertex_adjacency.is_empty() && none.mesh_object_index == obj, "an object without positions has adjacency");
    Ok(())
}
fn c19_adj_files(c: &mut Case) -> R {
    let d = if c.rng.chance(1, 200) { with_wide_lists(&mut c.rng, |r| adj(r, 12)) } else { adj(&mut c.rng, 12) };
    c.max("adj_entries", d.entries.len() as u64);
    let mut w = Cursor::new(vec![]);
    d.write(&mut w).map_err(|e| Viol { msg: format!("valid adjacency rejected: {e}"), known: None })?;
    let b = w.into_inner();
    c.seen(&b);
    c.sample(|| format!("{d:?}"));
    let e = AdjData::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    ensure!(d == e, "adjacency changed: {d:?} became {e:?}");
    // the stored offsets are byte offsets into one shared list
    let l = Adj::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    let mut at = 0;
    for (x, y) in d.entries.iter().zip(&l.entries) {
        ensure!(y.index_buffer_offset as usize == at && y.mesh_object_index as usize == x.mesh_object_index, "entry {y:?} should start at {at}");
        at += 2 * x.vertex_adjacency.len();
    }
    ensure!(l.entries.len() == d.entries.len() && l.index_buffer.len() * 2 == at, "stored list has {} values", l.index_buffer.len());
    let all: Vec<i16> = d.entries.iter().flat_map(|e| e.vertex_adjacency.clone()).collect();
    ensure!(all == l.index_buffer, "stored values differ");
    c.count("adj_roundtrips", 1);
    Ok(())
}
/// Documented: everything from "_VIS" or "_O_" on is a tag, and so is a trailing "Shape".
fn strip(n: &str) -> String {
    let cut = [n.find("_VIS"), n.find("_O_")].into_iter().flatten().min();
    match cut {
        Some(i) => n[..i].to_string(),
        None => n.strip_suffix("Shape").unwrap_or(n).to_string(),
    }
}
fn tagged(r: &mut Rng) -> String {
    const P: &[&str] = &["_VIS", "_O_", "Shape", "face", "_O", "VIS", "_", "body", "OBJ", "é", "1", "漢", "_VISShape", "_O_VIS_O_", "shape", "__"];
    let n = r.range(0, 5);
    (0..n).map(|_| *r.pick(P)).collect()
}
fn c19_groups(c: &mut Case) -> R {
    let many = c.rng.chance(1, 2000);
    let n = if many { *c.rng.pick(&[256usize, 300, 1000, 1001, 1025, 2050, 4097, 5000]) } else { c.rng.range(0, 9) };
    c.max("objects_grouped", n as u64);
    let one = c.rng.bool();
    let mut objects: Vec<MeshObjectData> = vec![];
    for i in 0..n {
        let name = if i > 0 && (if many { one && !c.rng.chance(1, 3000) } else { c.rng.chance(2, 5) }) {
            let k = if c.rng.bool() { i - 1 } else { c.rng.below(i) };
            objects[k].name.clone()
        } else {
            tagged(&mut c.rng)
        };
        let count = c.rng.range(0, 3);
        let pos = if c.rng.chance(1, 6) { vec![] } else { vec![AttributeData { name: "p".into(), data: vectors(&mut c.rng, 3, count, 1) }] };
        objects.push(MeshObjectData { name, subindex: i as u64, positions: pos, ..Default::default() });
    }
    let x = MeshExData::from_mesh_objects(&objects);
    c.seen(format!("{x:?}").as_bytes());
    c.sample(|| format!("{:?}", objects.iter().map(|o| &o.name).collect::<Vec<_>>()));
    let want = ref_groups(&objects);
    ensure!(x.mesh_object_groups.len() == want.len(), "{} groups instead of {}", x.mesh_object_groups.len(), want.len());
    for (g, (name, os)) in x.mesh_object_groups.iter().zip(&want) {
        ensure!(g.mesh_object_full_name == *name, "group {name:?} is called {:?}", g.mesh_object_full_name);
        ensure!(g.mesh_object_name == strip(name), "{name:?} stripped to {:?} instead of {:?}", g.mesh_object_name, strip(name));
        if strip(name) != *name {
            c.count("stripped_names", 1);
        }
        ensure!(g.entry_flags.len() == os.len(), "group {name:?} has {} entries for {} objects", g.entry_flags.len(), os.len());
        ensure!(g.entry_flags.iter().all(|f| f.draw_model && f.cast_shadow), "default flags of {name:?}: {:?}", g.entry_flags);
        c.count("groups_compared", 1);
    }
    // entry k of the file belongs to object k
    let m = MeshEx::from(&x);
    check_meshex_lib(&x, &m)?;
    let flat: Vec<u32> = want.iter().enumerate().flat_map(|(i, g)| g.1.iter().map(move |_| i as u32)).collect();
    let got: Vec<u32> = m.entries.as_ref().map(|e| e.iter().map(|e| e.mesh_object_group_index).collect()).unwrap_or_default();
    ensure!(flat == got, "entries refer to groups {got:?} instead of {flat:?}");
    Ok(())
}
fn check_meshex_lib(x: &MeshExData, m: &MeshEx) -> R {
    let gs = m.mesh_object_groups.as_ref();
    let n = gs.map(|g| g.len()).unwrap_or(0);
    ensure!(n == x.mesh_object_groups.len(), "{n} groups stored for {}", x.mesh_object_groups.len());
    let mut flags = vec![];
    let mut idx = vec![];
    for (i, g) in x.mesh_object_groups.iter().enumerate() {
        let s = &gs.unwrap()[i];
        ensure!(s.mesh_object_full_name.as_ref().map(|s| s.to_string_lossy()).as_deref() == Some(&g.mesh_object_full_name[..]), "group {i} full name");
        ensure!(s.mesh_object_name.as_ref().map(|s| s.to_string_lossy()).as_deref() == Some(&g.mesh_object_name[..]), "group {i} name");
        ensure!(s.bounding_sphere == g.bounding_sphere, "group {i} sphere");
        for f in &g.entry_flags {
            flags.push((f.draw_model, f.cast_shadow));
            idx.push(i as u32);
        }
    }
    let got: Vec<u32> = m.entries.as_ref().map(|e| e.iter().map(|e| e.mesh_object_group_index).collect()).unwrap_or_default();
    ensure!(got == idx, "entries refer to groups {got:?} instead of {idx:?}");
    let gf: Vec<(bool, bool)> = m.entry_flags.as_ref().map(|f| f.0.iter().map(|f| (f.draw_model(), f.cast_shadow())).collect()).unwrap_or_default();
    ensure!(gf == flags, "entry flags {gf:?} instead of {flags:?}");
    if let Some(e) = m.entry_flags.as_ref() {
        ensure!(e.0.iter().all(|f| !f.unk3() && !f.unk4() && !f.unk5()), "unrelated flags are set");
    }
    ensure!(m.all_data.as_ref().and_then(|a| a.name.as_ref().map(|n| n.to_string_lossy())).as_deref() == Some("All"), "name of the enclosing data");
    Ok(())
}
fn c19_meshex_files(c: &mut Case) -> R {
    let d = if c.rng.chance(1, 200) { with_wide_lists(&mut c.rng, |r| meshex(r, 10)) } else { meshex(&mut c.rng, 10) };
    c.max("groups", d.mesh_object_groups.len() as u64);
    let mut w = Cursor::new(vec![]);
    d.write(&mut w).map_err(|e| Viol { msg: format!("valid data rejected: {e}"), known: None })?;
    let b = w.into_inner();
    c.seen(&b);
    c.sample(|| format!("{d:?}"));
    let e = MeshExData::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    ensure!(d == e, "extended mesh changed: {d:?} became {e:?}");
    let m = MeshEx::read(&mut Cursor::new(&b)).map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    check_meshex_lib(&d, &m)?;
    c.count("meshex_roundtrips", 1);
    // entries in any order still find their group
    let mut m2 = m.clone();
    let entries = m2.entries.as_mut().unwrap();
    let flags = &mut m2.entry_flags.as_mut().unwrap().0;
    if entries.len() > 1 {
        let (i, j) = (c.rng.below(entries.len()), c.rng.below(entries.len()));
        entries.swap(i, j);
        flags.swap(i, j);
        let e = MeshExData::from(&m2);
        for (g, group) in e.mesh_object_groups.iter().enumerate() {
            let want: Vec<(bool, bool)> = m2.entries.as_ref().unwrap().iter().zip(&m2.entry_flags.as_ref().unwrap().0).filter(|(e, _)| e.mesh_object_group_index as usize == g).map(|(_, f)| (f.draw_model(), f.cast_shadow())).collect();
            let got: Vec<(bool, bool)> = group.entry_flags.iter().map(|f| (f.draw_model, f.cast_shadow)).collect();
            ensure!(want == got, "group {g}: flags {got:?} instead of {want:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C27
fn kind_of(d: &VectorData) -> usize {
    rows(d).0
}
fn c27_transform(c: &mut Case) -> R {
    let n = c.rng.range(0, 12);
    let (kind, style) = (c.rng.range(2, 4), *c.rng.pick(&[0usize, 1, 3, 5, 7]));
    let d = vectors(&mut c.rng, kind, n, style);
    let m: [[f32; 4]; 4] = match c.rng.below(8) {
        0 | 1 => local_transform(&mut c.rng),
        2..=4 => crate::gen_data::special_matrix(&mut c.rng),
        5 => std::array::from_fn(|i| std::array::from_fn(|k| if i == k { 1.0 } else { 0.0 })),
        _ => std::array::from_fn(|_| std::array::from_fn(|_| c.rng.f32_in(-5.0, 5.0))),
    };
    c.seen(format!("{d:?}{m:?}").as_bytes());
    c.sample(|| format!("{d:?} by {m:?}"));
    for (w, got, name) in [(1.0f64, transform_points(&d, &m), "points"), (0.0, transform_vectors(&d, &m), "vectors")] {
        ensure!(kind_of(&got) == kind && got.len() == n, "{name}: {n} vectors of {kind} became {} of {}", got.len(), kind_of(&got));
        for (a, b) in rows(&d).1.iter().zip(rows(&got).1) {
            let p = [a[0] as f64, a[1] as f64, if kind > 2 { a[2] as f64 } else { 0.0 }, w];
            for k in 0..kind.min(3) {
                let want: f64 = (0..4).map(|j| m[j][k] as f64 * p[j]).sum();
                let mag: f64 = (0..4).map(|j| (m[j][k] as f64 * p[j]).abs()).sum();
                ensure!((b[k] as f64 - want).abs() <= 1e-5 * mag + 1e-30, "{name}: {a:?} by {m:?} gives {b:?}, component {k} should be {want}");
            }
            if kind == 4 {
                ensure!(a[3].to_bits() == b[3].to_bits(), "{name}: fourth component {} became {}", a[3], b[3]);
            }
            c.count(name, 1);
        }
    }
    // conversions
    let w = c.rng.f32_finite();
    let got = d.to_vec4_with_w(w);
    ensure!(got.len() == n && d.len() == n && d.is_empty() == (n == 0), "lengths");
    for (a, b) in rows(&d).1.iter().zip(&got) {
        let want = [a[0], a[1], if kind > 2 { a[2] } else { 0.0 }, w];
        ensure!(want.map(f32::to_bits) == b.map(f32::to_bits), "{a:?} with w {w} became {b:?}");
        c.count("conversions", 1);
    }
    // matrix conversions
    let lm = ssbh_lib::Matrix4x4::from_cols_array(&m);
    ensure!(lm.to_cols_array().map(|r| r.map(f32::to_bits)) == m.map(|r| r.map(f32::to_bits)), "matrix conversion is not its own inverse: {m:?}");
    for (i, r) in [lm.col1, lm.col2, lm.col3, lm.col4].iter().enumerate() {
        ensure!([r.x, r.y, r.z, r.w] == m[i], "column {} of the stored matrix is {r:?} for column {:?}", i + 1, m[i]);
    }
    let v3 = ssbh_lib::Vector3::new(m[0][0], m[0][1], m[0][2]);
    let v4 = ssbh_lib::Vector4::new(m[0][0], m[0][1], m[0][2], m[0][3]);
    ensure!(v3.to_array() == [m[0][0], m[0][1], m[0][2]] && v4.to_array() == m[0], "vector conversions");
    ensure!(ssbh_lib::Vector3::from(v3.to_array()) == v3 && ssbh_lib::Vector4::from(v4.to_array()) == v4, "vector conversions");
    Ok(())
}
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|k| a[k] - b[k])
}
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn norm(a: [f64; 3]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
struct Geo {
    pos: VectorData,
    p: Vec<[f64; 3]>,
    idx: Vec<u32>,
}
fn geo(c: &mut Case) -> Geo {
    let n = c.rng.range(1, 16);
    let kind = *c.rng.pick(&[2usize, 3, 3, 3, 4]);
    let style = *c.rng.pick(&[0usize, 1, 1, 3, 5, 7]);
    let pos = vectors(&mut c.rng, kind, n, style);
    let faces = c.rng.range(0, 14);
    let idx: Vec<u32> = (0..faces * 3).map(|_| c.rng.below(n) as u32).collect();
    let p = xyz(&pos);
    Geo { pos, p, idx }
}
fn c27_normals(c: &mut Case) -> R {
    let g = geo(c);
    let got = calculate_smooth_normals(&g.pos, &g.idx);
    c.seen(format!("{:?}{:?}", g.pos, g.idx).as_bytes());
    c.sample(|| format!("{:?} {:?}", g.pos, g.idx));
    if g.idx.is_empty() {
        // documented: empty if there are no indices
        ensure!(got.is_empty(), "normals without faces");
        return Ok(());
    }
    ensure!(got.len() == g.p.len(), "{} normals for {} vertices", got.len(), g.p.len());
    let mut acc = vec![([0f64; 3], 0f64); g.p.len()];
    for f in g.idx.chunks(3) {
        let [a, b, d] = [g.p[f[0] as usize], g.p[f[1] as usize], g.p[f[2] as usize]];
        let (u, v) = (sub(b, a), sub(d, a));
        let nn = cross(u, v);
        for i in f {
            let x = &mut acc[*i as usize];
            for k in 0..3 {
                x.0[k] += nn[k];
            }
            x.1 += norm(u) * norm(v) + 1e-6 * norm(a) * norm(a);
        }
    }
    for (i, n) in got.iter().enumerate() {
        let l = norm(n.map(|x| x as f64));
        let (want, mag) = acc[i];
        let wl = norm(want);
        if wl > 1e-2 * mag && wl > 1e-8 {
            ensure!((l - 1.0).abs() < 1e-4, "normal {i} {n:?} has length {l}");
            let err = norm(std::array::from_fn(|k| n[k] as f64 - want[k] / wl));
            ensure!(err < 1e-3, "normal {i} is {n:?} instead of {:?}", want.map(|x| x / wl));
            c.count("normals", 1);
        } else {
            ensure!(n.iter().all(|x| x.is_finite()) && (l < 1e-6 || (l - 1.0).abs() < 1e-4), "normal {i} {n:?} is neither a unit vector nor zero");
            c.count("undefined_normals", 1);
        }
    }
    Ok(())
}
fn c27_tangents(c: &mut Case) -> R {
    let g = geo(c);
    let n = g.p.len();
    let normals: Vec<[f32; 3]> = (0..n)
        .map(|_| {
            let v: [f64; 3] = std::array::from_fn(|_| c.rng.unit() * 2.0 - 1.0);
            let l = norm(v).max(1e-6);
            v.map(|x| (x / l) as f32)
        })
        .collect();
    let nd = if c.rng.bool() { VectorData::Vector3(normals.clone()) } else { VectorData::Vector4(normals.iter().map(|v| [v[0], v[1], v[2], c.rng.f32_in(-2.0, 2.0)]).collect()) };
    let uv: Vec<[f32; 2]> = (0..n).map(|_| [c.rng.f32_in(-3.0, 3.0), c.rng.f32_in(-3.0, 3.0)]).collect();
    let uvd = match c.rng.below(3) {
        0 => VectorData::Vector2(uv.clone()),
        1 => VectorData::Vector3(uv.iter().map(|v| [v[0], v[1], c.rng.f32_in(-4.0, 9.0)]).collect()),
        _ => VectorData::Vector4(uv.iter().map(|v| [v[0], v[1], c.rng.f32_in(-4.0, 9.0), c.rng.f32_in(-4.0, 9.0)]).collect()),
    };
    c.seen(format!("{:?}{:?}{uv:?}", g.pos, g.idx).as_bytes());
    c.sample(|| format!("{:?} {:?} {uv:?}", g.pos, g.idx));
    let got = match calculate_tangents_vec4(&g.pos, &nd, &uvd, &g.idx) {
        Ok(v) => v,
        Err(e) => return viol(format!("valid tangent input rejected: {e}")),
    };
    ensure!(got.len() == n, "{} tangents for {n} vertices", got.len());
    // documented: tangents averaged over the faces, sign in the fourth component
    let mut t = vec![([0f64; 3], 0f64); n];
    let mut b = vec![([0f64; 3], 0f64); n];
    let mut clean = vec![true; n];
    for f in g.idx.chunks(3) {
        let [i, j, k] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let (pa, pb) = (sub(g.p[j], g.p[i]), sub(g.p[k], g.p[i]));
        let ua = [uv[j][0] as f64 - uv[i][0] as f64, uv[j][1] as f64 - uv[i][1] as f64];
        let ub = [uv[k][0] as f64 - uv[i][0] as f64, uv[k][1] as f64 - uv[i][1] as f64];
        let div = ua[0] * ub[1] - ub[0] * ua[1];
        // an exactly degenerate face has a documented default; a nearly degenerate one is ill-conditioned
        let deg = div.abs() < 1e-2 * (ua[0] * ub[1]).abs().max((ub[0] * ua[1]).abs()) || norm(cross(pa, pb)) <= 1e-2 * norm(pa) * norm(pb) || div.abs() < 1e-6;
        let r = if div != 0.0 { 1.0 / div } else { 1.0 };
        for v in [i, j, k] {
            if deg {
                clean[v] = false;
                continue;
            }
            for q in 0..3 {
                t[v].0[q] += (pa[q] * ub[1] - pb[q] * ua[1]) * r;
                b[v].0[q] += (pb[q] * ua[0] - pa[q] * ub[0]) * r;
            }
            t[v].1 += (norm(pa) * ub[1].abs() + norm(pb) * ua[1].abs()) * r.abs();
            b[v].1 += (norm(pb) * ua[0].abs() + norm(pa) * ub[0].abs()) * r.abs();
        }
    }
    let touched: HashSet<u32> = g.idx.iter().copied().collect();
    for v in 0..n {
        let x = got[v];
        ensure!(x[3] == 1.0 || x[3] == -1.0, "tangent {v} {x:?}: the sign must be 1 or -1");
        let l = norm([x[0] as f64, x[1] as f64, x[2] as f64]);
        ensure!(x.iter().all(|x| x.is_finite()) && ((l - 1.0).abs() < 1e-4 || (l < 1e-6 && touched.contains(&(v as u32)))), "tangent {v} {x:?} has length {l}");
        if !clean[v] || !touched.contains(&(v as u32)) {
            continue;
        }
        let wl = norm(t[v].0);
        if wl > 1e-2 * t[v].1 && wl > 1e-6 {
            let want: [f64; 3] = t[v].0.map(|q| q / wl);
            let err = norm(std::array::from_fn(|k| x[k] as f64 - want[k]));
            ensure!(err < 1e-3, "tangent {v} is {x:?} instead of {want:?}");
            c.count("tangents", 1);
            // sign: the bitangent, made orthogonal to the normal, against normal x tangent
            let nn: [f64; 3] = normals[v].map(|q| q as f64);
            let bl = norm(b[v].0);
            if bl > 1e-2 * b[v].1 {
                let bb: [f64; 3] = b[v].0.map(|q| q / bl);
                let dot: f64 = (0..3).map(|k| bb[k] * nn[k]).sum();
                let ortho: [f64; 3] = std::array::from_fn(|k| bb[k] - nn[k] * dot);
                let s: f64 = {
                    let cr = cross(want, ortho);
                    (0..3).map(|k| cr[k] * nn[k]).sum()
                };
                if s.abs() > 1e-2 && norm(ortho) > 1e-2 {
                    ensure!((s > 0.0) == (x[3] > 0.0), "tangent {v} {x:?} has the wrong sign ({s})");
                    c.count("tangent_signs", 1);
                }
            }
        }
    }
    Ok(())
}
fn c27_errors(c: &mut Case) -> R {
    let g = geo(c);
    let n = g.p.len();
    let normals = vectors(&mut c.rng, 3, n, 0);
    let uvs = vectors(&mut c.rng, 2, n, 3);
    c.seen(format!("{:?}{:?}", g.pos, g.idx).as_bytes());
    let mut bad: Vec<(Result<Result<Vec<[f32; 4]>, String>, String>, &str)> = vec![];
    let run = |p: &VectorData, nn: &VectorData, u: &VectorData, i: &[u32]| no_panic(|| calculate_tangents_vec4(p, nn, u, i).map_err(|e| e.to_string()));
    let k = n + c.rng.range(1, 4);
    let mn = vectors(&mut c.rng, 3, k, 0);
    bad.push((run(&g.pos, &mn, &uvs, &g.idx), "more normals than positions"));
    let mu = vectors(&mut c.rng, 2, k, 0);
    bad.push((run(&g.pos, &normals, &mu, &g.idx), "more coordinates than positions"));
    let mut i2 = g.idx.clone();
    i2.push(0);
    bad.push((run(&g.pos, &normals, &uvs, &i2), "an index count that is not a multiple of three"));
    let mut i3 = g.idx.clone();
    i3.extend([0, 0, 0]);
    let at = c.rng.below(i3.len());
    i3[at] = *c.rng.pick(&[n as u32, n as u32 + 7, u32::MAX]);
    bad.push((run(&g.pos, &normals, &uvs, &i3), "an index out of range"));
    for (r, what) in bad {
        match r {
            Err(p) => return viol(format!("tangents panic for {what}: {p}")),
            Ok(Ok(_)) => return viol(format!("tangents computed for {what}")),
            Ok(Err(_)) => c.count("tangent_errors", 1),
        }
    }
    // vertices without any face still get a unit tangent
    let v = calculate_tangents_vec4(&g.pos, &normals, &uvs, &[]).map_err(|e| Viol { msg: format!("no faces rejected: {e}"), known: None })?;
    ensure!(v.len() == n && v.iter().all(|x| x.iter().all(|y| y.is_finite())), "tangents without faces: {v:?}");
    if let Err(p) = no_panic(|| calculate_smooth_normals(&g.pos, &i3)) {
        c.known("normals-out-of-range-panic", format!("calculate_smooth_normals panics for index {} with {n} positions: {p}", i3[at]))?;
    }
    Ok(())
}
