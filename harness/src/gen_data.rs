//! Generators for valid high-level data.
use crate::core::Rng;
use ssbh_data::mesh_data::*;
use ssbh_data::prelude::*;

pub fn clean(r: &mut Rng) -> String {
    if r.chance(1, 600) {
        let n = crate::schema::long_len(r);
        let c = *r.pick(&["n", "é", "名"]);
        return c.repeat(n / c.len() + 1);
    }
    let mut s = r.name();
    s.retain(|c| c != '\0');
    s
}
fn comp(r: &mut Rng, style: usize) -> f32 {
    match style {
        0 => r.f32_in(-1.0, 1.0),
        1 => r.f32_in(-20.0, 20.0),
        2 => (r.below(257) as f32) / 255.0 - 0.002,
        3 => r.f32_in(0.0, 1.0),
        4 => *r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0, 65504.0, 65519.9, 65520.0, -70000.0, 6.1e-5, 6e-8, 2.9e-8, 1e-10, 1e-40, 0.333_333_34, 2048.5, 2049.0, 1.000_488_3, 0.001_956_9]),
        5 => r.below(3) as f32,
        6 => {
            let v = f32::from_bits(r.u32());
            if v.is_finite() { v } else { -1.5 }
        }
        _ => r.f32_in(-1000.0, 1000.0),
    }
}
/// One of the three vector kinds.
pub fn vectors(r: &mut Rng, kind: usize, n: usize, style: usize) -> VectorData {
    match kind {
        2 => VectorData::Vector2((0..n).map(|_| std::array::from_fn(|_| comp(r, style))).collect()),
        3 => VectorData::Vector3((0..n).map(|_| std::array::from_fn(|_| comp(r, style))).collect()),
        _ => VectorData::Vector4((0..n).map(|_| std::array::from_fn(|_| comp(r, style))).collect()),
    }
}
#[derive(Clone, Copy)]
pub struct MeshOpts {
    pub max_objects: usize,
    pub max_vertices: usize,
    /// moderate magnitudes only (for geometry)
    pub tame: bool,
    /// vector kind used for most positions
    pub big: bool,
}
pub const MESH_SMALL: MeshOpts = MeshOpts { max_objects: 6, max_vertices: 40, tame: false, big: false };

fn attrs(r: &mut Rng, n: usize, max: usize, pref: usize, tame: bool, base: &str) -> Vec<AttributeData> {
    let k = match r.below(6) {
        0 => 0,
        1..=3 => 1.min(max),
        _ => r.range(0, max),
    };
    (0..k)
        .map(|i| {
            let kind = if r.chance(3, 5) { pref } else { r.range(2, 4) };
            let style = if tame { *r.pick(&[0usize, 1, 3, 5]) } else { r.below(8) };
            let data = vectors(r, kind, n, style);
            let name = match r.below(4) {
                0 => clean(r),
                1 => String::new(),
                _ => format!("{base}{i}"),
            };
            AttributeData { name, data }
        })
        .collect()
}
pub fn mesh_object(r: &mut Rng, o: &MeshOpts, version: (u16, u16)) -> MeshObjectData {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(1, 4),
        _ => r.range(1, o.max_vertices),
    };
    let n = wide(r, n);
    let (nk, bk) = (if r.bool() { 3 } else { 4 }, if r.bool() { 3 } else { 4 });
    let mut m = MeshObjectData {
        name: clean(r),
        subindex: 0,
        parent_bone_name: if r.bool() { String::new() } else { clean(r) },
        sort_bias: match r.below(3) {
            0 => 0,
            1 => r.u32() as i32,
            _ => r.below(40) as i32 - 20,
        },
        disable_depth_write: r.bool(),
        disable_depth_test: r.bool(),
        positions: attrs(r, n, 2, 3, o.tame, "Position"),
        normals: attrs(r, n, 2, nk, o.tame, "Normal"),
        binormals: attrs(r, n, 2, bk, o.tame, "Binormal"),
        tangents: attrs(r, n, 2, 4, o.tame, "Tangent"),
        texture_coordinates: attrs(r, n, 5, 2, o.tame, "map"),
        color_sets: attrs(r, n, 5, 4, o.tame, "colorSet"),
        ..Default::default()
    };
    if version == (1, 8) {
        m.binormals.clear(); // this version has no binormals
    }
    let any = [&m.positions, &m.normals, &m.binormals, &m.tangents, &m.texture_coordinates, &m.color_sets].iter().any(|a| !a.is_empty());
    if any && n > 0 {
        let faces = match r.below(4) {
            0 => 0,
            1 => r.range(1, 3),
            _ => r.range(1, (n * 2).min(4000)),
        };
        let lo = if o.big && n > 65536 && r.bool() { n - 100 } else { 0 };
        m.vertex_indices = (0..faces * 3).map(|_| r.range(lo, n - 1) as u32).collect();
        if o.big && faces > 0 && r.bool() {
            // land on each side of the 16-bit limit
            let k = r.below(m.vertex_indices.len());
            m.vertex_indices[k] = (*r.pick(&[65534usize, 65535, 65536, n - 1])).min(n - 1) as u32;
        }
    }
    let bones = match r.below(5) {
        0 | 1 => 0,
        2 => 1,
        _ => r.range(1, 8),
    };
    let bones = wide(r, bones);
    for _ in 0..bones {
        let k = match r.below(4) {
            0 => 0,
            _ => r.range(1, 12),
        };
        let k = wide(r, k);
        let weights = (0..k)
            .map(|_| VertexWeight {
                vertex_index: match r.below(8) {
                    0 => 65535,
                    1 if version != (1, 10) => r.u32(),
                    _ => r.below(n.max(1)).min(65535) as u32,
                },
                vertex_weight: comp(r, 3),
            })
            .collect();
        m.bone_influences.push(BoneInfluence { bone_name: clean(r), vertex_weights: weights });
    }
    m
}
pub fn mesh(r: &mut Rng, o: &MeshOpts) -> MeshData {
    let version = (1, *r.pick(&[8u16, 9, 10, 10]));
    let k = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => r.range(1, o.max_objects),
    };
    let k = wide(r, k);
    let mut used = std::collections::HashSet::new();
    let mut objects: Vec<MeshObjectData> = vec![];
    for _ in 0..k {
        let mut m = mesh_object(r, o, version);
        if !objects.is_empty() && r.chance(1, 3) {
            m.name = r.pick(&objects).name.clone();
        }
        m.subindex = match r.below(4) {
            0 => r.u64(),
            _ => r.below(4) as u64,
        };
        while !used.insert((m.name.clone(), m.subindex)) {
            m.subindex = m.subindex.wrapping_add(1);
        }
        objects.push(m);
    }
    MeshData { major_version: version.0, minor_version: version.1, objects }
}

// ---------------------------------------------------------------- other types
use arbitrary::{Arbitrary, Unstructured};
use ssbh_data::adj_data::*;
use ssbh_data::hlpb_data::*;
use ssbh_data::matl_data::*;
use ssbh_data::meshex_data::*;
use ssbh_data::modl_data::*;
use ssbh_data::skel_data::*;
use ssbh_lib::formats::mesh::BoundingSphere;
use ssbh_lib::{Color4f, Vector3, Vector4};

/// Any value of a small type, through its Arbitrary implementation.
pub fn any<T: for<'a> Arbitrary<'a>>(r: &mut Rng) -> T {
    let b = r.bytes(64);
    T::arbitrary(&mut Unstructured::new(&b)).unwrap()
}
fn len(r: &mut Rng, max: usize) -> usize {
    let n = r.size(max);
    wide(r, n)
}
thread_local! {
    static WIDE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Usually `n`; while a wide value is being built, a list length beyond the sizes that narrow counters or fixed buffers can hold.
pub fn wide(r: &mut Rng, n: usize) -> usize {
    let left = WIDE.get();
    if left == 0 || !r.chance(1, 3) {
        return n;
    }
    WIDE.set(left - 1);
    if r.chance(1, 8) {
        return *r.pick(&[2047usize, 2048, 2050, 4096, 4097, 5000]);
    }
    *r.pick(&[255usize, 256, 257, 300, 511, 1000, 1001, 1024, 1025, 1300])
}
/// Builds a value some of whose lists are long.
pub fn with_wide_lists<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> T {
    WIDE.set(1 + r.below(2) as u32);
    let v = f(r);
    WIDE.set(0);
    v
}
/// A valid value, now and then with long lists.
pub fn valid_or_wide(name: &str, r: &mut Rng, size: usize) -> crate::data_formats::BoxData {
    if r.chance(1, 300) {
        with_wide_lists(r, |r| valid(name, r, size.max(3)))
    } else {
        valid(name, r, size)
    }
}
pub fn v3(r: &mut Rng) -> Vector3 {
    Vector3::new(r.f32_finite(), r.f32_finite(), r.f32_finite())
}
pub fn v4(r: &mut Rng) -> Vector4 {
    Vector4::new(r.f32_finite(), r.f32_finite(), r.f32_finite(), r.f32_finite())
}
fn params<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> T) -> Vec<ParamData<T>> {
    let n = len(r, max);
    (0..n).map(|_| ParamData { param_id: any(r), data: f(r) }).collect()
}
pub fn sampler(r: &mut Rng) -> SamplerData {
    SamplerData {
        wraps: any(r),
        wrapt: any(r),
        wrapr: any(r),
        min_filter: any(r),
        mag_filter: any(r),
        border_color: Color4f { r: r.f32_finite(), g: r.f32_finite(), b: r.f32_finite(), a: r.f32_finite() },
        lod_bias: r.f32_finite(),
        max_anisotropy: any(r),
    }
}
pub fn matl(r: &mut Rng, max: usize) -> MatlData {
    let n = len(r, max);
    MatlData {
        major_version: 1,
        minor_version: 6,
        entries: (0..n)
            .map(|_| MatlEntryData {
                material_label: clean(r),
                shader_label: clean(r),
                blend_states: params(r, 3, |r| BlendStateData {
                    source_color: any(r),
                    color_operation: any(r),
                    destination_color: any(r),
                    source_alpha: any(r),
                    alpha_operation: any(r),
                    destination_alpha: any(r),
                    alpha_sample_to_coverage: r.bool(),
                }),
                floats: params(r, 5, |r| r.f32_finite()),
                booleans: params(r, 5, |r| r.bool()),
                vectors: params(r, 8, v4),
                rasterizer_states: params(r, 3, |r| RasterizerStateData { fill_mode: any(r), cull_mode: any(r), depth_bias: r.f32_finite() }),
                samplers: params(r, 5, sampler),
                textures: params(r, 5, clean),
                uv_transforms: params(r, 3, |r| UvTransform { scale_u: r.f32_finite(), scale_v: r.f32_finite(), rotation: r.f32_finite(), translate_u: r.f32_finite(), translate_v: r.f32_finite() }),
            })
            .collect(),
    }
}
pub fn modl(r: &mut Rng, max: usize) -> ModlData {
    let n = len(r, max);
    let m = len(r, 4);
    ModlData {
        major_version: 1,
        minor_version: 7,
        model_name: clean(r),
        skeleton_file_name: clean(r),
        material_file_names: (0..m).map(|_| clean(r)).collect(),
        animation_file_name: if r.bool() { Some(clean(r)) } else { None },
        mesh_file_name: clean(r),
        entries: (0..n)
            .map(|_| ModlEntryData { mesh_object_name: clean(r), mesh_object_subindex: if r.bool() { r.below(9) as u64 } else { r.u64() }, material_label: clean(r) })
            .collect(),
    }
}
pub fn hlpb(r: &mut Rng, max: usize) -> HlpbData {
    let (a, o) = (len(r, max), len(r, max));
    HlpbData {
        major_version: 1,
        minor_version: 1,
        aim_constraints: (0..a)
            .map(|_| AimConstraintData {
                name: clean(r),
                aim_bone_name1: clean(r),
                aim_bone_name2: clean(r),
                aim_type1: clean(r),
                aim_type2: clean(r),
                target_bone_name1: clean(r),
                target_bone_name2: clean(r),
                unk1: r.u32(),
                unk2: r.u32(),
                aim: v3(r),
                up: v3(r),
                quat1: v4(r),
                quat2: v4(r),
            })
            .collect(),
        orient_constraints: (0..o)
            .map(|_| OrientConstraintData {
                name: clean(r),
                parent_bone_name1: clean(r),
                parent_bone_name2: clean(r),
                source_bone_name: clean(r),
                target_bone_name: clean(r),
                unk_type: r.u32(),
                constraint_axes: v3(r),
                quat1: v4(r),
                quat2: v4(r),
                range_min: v3(r),
                range_max: v3(r),
            })
            .collect(),
    }
}
pub fn adj(r: &mut Rng, max: usize) -> AdjData {
    let n = len(r, max);
    AdjData {
        entries: (0..n)
            .map(|i| {
                let k = match r.below(5) {
                    0 => 0,
                    1 => r.below(10),
                    2 => 18,
                    3 => 18 * r.below(12),
                    _ => r.below(400),
                };
                AdjEntryData {
                    mesh_object_index: match r.below(4) {
                        0 => r.u32() as usize,
                        1 => u32::MAX as usize,
                        _ => i,
                    },
                    vertex_adjacency: (0..k).map(|_| if r.chance(1, 3) { -1 } else { r.u32() as i16 }).collect(),
                }
            })
            .collect(),
    }
}
pub fn meshex(r: &mut Rng, max: usize) -> MeshExData {
    let n = len(r, max);
    MeshExData {
        mesh_object_groups: (0..n)
            .map(|_| {
                let k = len(r, 6);
                MeshObjectGroupData {
                    bounding_sphere: BoundingSphere { center: v3(r), radius: r.f32_finite() },
                    mesh_object_full_name: clean(r),
                    mesh_object_name: clean(r),
                    entry_flags: (0..k).map(|_| EntryFlags { draw_model: r.bool(), cast_shadow: r.bool() }).collect(),
                }
            })
            .collect(),
    }
}
/// A well-conditioned local transform in column-major order.
/// Matrices that invite shortcuts: almost the identity, diagonal, permuted, projective or singular ones.
pub fn special_matrix(r: &mut Rng) -> [[f32; 4]; 4] {
    let mut m: [[f32; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|k| if i == k { 1.0 } else { 0.0 }));
    let size = 10f32.powi(-(r.range(1, 7) as i32));
    match r.below(6) {
        0 => {
            for _ in 0..r.range(1, 6) {
                m[r.below(4)][r.below(4)] += r.f32_in(-size, size);
            }
        }
        1 => m.iter_mut().flatten().for_each(|v| *v += r.f32_in(-size, size)),
        2 => {
            for i in 0..4 {
                m[i][i] = r.f32_in(-3.0, 3.0);
            }
        }
        3 => {
            let (i, k) = (r.below(4), r.below(4));
            m.swap(i, k);
            let c = r.below(4);
            m[c] = m[c].map(|v| -v);
        }
        4 => {
            m = local_transform(r);
            m[r.below(4)][3] += r.f32_in(-2.0, 2.0);
        }
        _ => {
            m = local_transform(r);
            let c = r.below(4);
            m[c] = [0.0; 4];
        }
    }
    m
}
pub fn local_transform(r: &mut Rng) -> [[f32; 4]; 4] {
    let mut m = [[0f64; 4]; 4];
    for (i, c) in m.iter_mut().enumerate() {
        c[i] = 1.0;
    }
    if r.chance(1, 8) {
        // hardly anything
        let size = 10f64.powi(-(r.range(1, 7) as i32));
        for _ in 0..r.range(1, 8) {
            m[r.below(4)][r.below(3)] += (r.unit() * 2.0 - 1.0) * 0.3 * size;
        }
        return m.map(|c| c.map(|v| v as f32));
    }
    if r.chance(4, 5) {
        // rotation from a quaternion
        let q: [f64; 4] = std::array::from_fn(|_| r.unit() * 2.0 - 1.0);
        let l = q.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
        let [x, y, z, w] = q.map(|v| v / l);
        let rot = [
            [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + z * w), 2.0 * (x * z - y * w)],
            [2.0 * (x * y - z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + x * w)],
            [2.0 * (x * z + y * w), 2.0 * (y * z - x * w), 1.0 - 2.0 * (x * x + y * y)],
        ];
        let s: [f64; 3] = if r.bool() { [1.0; 3] } else { std::array::from_fn(|_| 0.5 + 1.5 * r.unit()) };
        for c in 0..3 {
            for k in 0..3 {
                m[c][k] = rot[c][k] * s[c];
            }
        }
        if r.chance(1, 5) {
            // shear
            m[1][0] += r.unit() * 0.5;
        }
        if r.chance(1, 6) {
            // mirror
            let c = r.below(3);
            m[c] = m[c].map(|v| -v);
        }
    }
    if r.chance(4, 5) {
        for k in 0..3 {
            m[3][k] = (r.unit() * 2.0 - 1.0) * 10.0;
        }
    }
    m.map(|c| c.map(|v| v as f32))
}
#[derive(Clone, Copy, PartialEq)]
pub enum SkelStyle {
    /// invertible local transforms
    Geometric,
    /// any finite entries
    Any,
}
pub fn skel(r: &mut Rng, max: usize, style: SkelStyle) -> SkelData {
    let n = len(r, max);
    let shape = r.below(5);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    // order[k] is the position in the file of the k-th bone of the hierarchy
    let mut bones: Vec<Option<BoneData>> = (0..n).map(|_| None).collect();
    for k in 0..n {
        let parent = match shape {
            _ if k == 0 => None,
            0 => Some(k - 1),
            1 => Some(0),
            2 => if r.chance(1, 4) { None } else { Some(r.below(k)) },
            _ => if r.chance(1, 20) { None } else { Some(r.range(k.saturating_sub(4), k - 1)) },
        };
        let parent_index = match parent {
            Some(p) => Some(if shape == 4 { p } else { order[p] }),
            // a parent index that refers to no bone makes the bone a root
            None if k > 0 && r.chance(1, 12) => Some(r.range(n, 32767)),
            None => None,
        };
        let b = BoneData {
            name: clean(r),
            transform: if style == SkelStyle::Geometric { local_transform(r) } else { std::array::from_fn(|_| std::array::from_fn(|_| r.f32_finite())) },
            parent_index,
            billboard_type: any(r),
        };
        bones[if shape == 4 { k } else { order[k] }] = Some(b);
    }
    SkelData { major_version: 1, minor_version: 0, bones: bones.into_iter().flatten().collect() }
}

/// A valid value of any of the eight types, by name.
pub fn valid(name: &str, r: &mut Rng, size: usize) -> crate::data_formats::BoxData {
    match name {
        "AdjData" => Box::new(adj(r, size)),
        "AnimData" => Box::new(crate::gen_anim::anim(r, size.min(40))),
        "MatlData" => Box::new(matl(r, size.min(12))),
        "MeshData" => Box::new(mesh(r, &MeshOpts { max_objects: size.clamp(1, 8), ..MESH_SMALL })),
        "MeshExData" => Box::new(meshex(r, size)),
        "ModlData" => Box::new(modl(r, size)),
        "HlpbData" => Box::new(hlpb(r, size.min(12))),
        "SkelData" => Box::new(skel(r, size, SkelStyle::Any)),
        _ => unreachable!("{name}"),
    }
}
