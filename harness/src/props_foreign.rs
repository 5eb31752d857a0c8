//! C31: files of other programs are read as their own tables say, however they are laid out.
use crate::core::*;
use crate::data_formats::*;
use crate::lib_formats::fmt;
use crate::model::diff;
use crate::props_mesh::half_value;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "exploration",
        rule: "cases: one low-level file whose descriptors place vertex data, indices, influences, adjacency lists or animation buffers in a random arrangement (shared, interleaved, unaligned, partly unused, in any of the buffers), read as a file and converted from memory; the values must be the ones an independent decoder takes from the stored bytes, and descriptors that leave the stored data must give an error; distinct = distinct files",
        assumptions: &["text is valid UTF-8 without null bytes", "a stride of zero is refused as soon as there is a vertex", "version 1.2 animations are decoded only as far as the library decodes them (groups, names, ranges)"],
        must: &["mesh_v8", "mesh_v9", "mesh_v10", "attributes_decoded", "buffer_0", "buffer_1", "buffer_2", "buffer_3", "influences_decoded", "indices_16", "indices_32", "mesh_refused", "large_offsets", "adj_read", "adj_refused", "v12_read", "v12_refused"],
        units: vec![unit("mesh", 60_000, 2_500_000, mesh), unit("mesh_bad", 60_000, 2_500_000, mesh_bad), unit("adj", 40_000, 1_500_000, adj), unit("anim12", 20_000, 800_000, anim12)],
    }]
}
fn v(m: impl Into<String>) -> Viol {
    viol::<()>(m).unwrap_err()
}
fn num(x: f64) -> Value {
    // JSON has no number for NaN and the infinities
    if x.is_finite() { json!(x) } else { Value::Null }
}
/// One vertex attribute as the format stores it: size in bytes and the decoder of one element.
const TYPES: &[(&str, usize)] = &[("Float2", 8), ("Float3", 12), ("Float4", 16), ("HalfFloat4", 8), ("Byte4", 4), ("HalfFloat2", 4)];
fn decode(ty: &str, b: &[u8]) -> Value {
    let f = |n: usize| -> Value { (0..n).map(|i| num(f32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as f64)).collect() };
    let h = |n: usize| -> Value { (0..n).map(|i| num(half_value(u16::from_le_bytes(b[2 * i..2 * i + 2].try_into().unwrap())))).collect() };
    match ty {
        "Float2" => f(2),
        "Float3" => f(3),
        "Float4" => f(4),
        "HalfFloat2" => h(2),
        "HalfFloat4" => h(4),
        _ => (0..4).map(|i| num((b[i] as f32 / 255.0) as f64)).collect(),
    }
}
fn kind(ty: &str) -> &'static str {
    match ty {
        "Float2" | "HalfFloat2" => "Vector2",
        "Float3" => "Vector3",
        _ => "Vector4",
    }
}
struct Object {
    json: Value,
    want: Value,
    bad: bool,
}
struct Built {
    minor: u16,
    json: Value,
    want: Value,
    bad: bool,
}
fn buffer(c: &mut Case) -> Vec<u8> {
    let n = *c.rng.pick(&[0usize, 16, 64, 200, 700, 2000]);
    let mut b = c.rng.bytes(n);
    if c.rng.chance(1, 3) {
        // plain numbers instead of random bits
        for x in b.chunks_exact_mut(4) {
            let f = c.rng.f32_in(-50.0, 50.0);
            x.copy_from_slice(&f.to_le_bytes());
        }
    }
    b
}
/// A mesh whose tables place everything at random; with `hostile`, some of the places are outside.
fn build(c: &mut Case, hostile: bool) -> Built {
    let minor = *c.rng.pick(&[8u16, 9, 10]);
    let nb = if hostile { c.rng.range(0, 5) } else { c.rng.range(1, 6) };
    let buffers: Vec<Vec<u8>> = (0..nb).map(|_| buffer(c)).collect();
    let index_buffer = buffer(c);
    let no = c.rng.range(0, 4);
    let pool: Vec<String> = (0..3).map(|_| c.rng.name()).collect();
    // groups of influences, matched by name and subindex; some match nothing, some match several times
    let weights = |c: &mut Case| -> (Value, Value) {
        let n = c.rng.below(4);
        let mut list = vec![];
        let mut raw = vec![];
        let mut stored = vec![];
        for _ in 0..n {
            let i = if minor == 10 { c.rng.u32() as u16 as u32 } else { c.rng.u32() };
            let w = c.rng.f32_in(-2.0, 2.0);
            list.push(json!({"vertex_index": i, "vertex_weight": w}));
            raw.extend((i as u16).to_le_bytes());
            raw.extend(w.to_le_bytes());
            stored.push(json!({"vertex_index": i, "vertex_weight": w}));
        }
        (if minor == 10 { json!(hex(&raw)) } else { json!(stored) }, json!(list))
    };
    let mut groups: Vec<(String, u64, Vec<Value>)> = vec![];
    let mut rig = vec![];
    for _ in 0..c.rng.below(5) {
        let (name, sub) = (c.rng.pick(&pool).clone(), c.rng.below(2) as u64);
        let mut bones = vec![];
        let mut stored = vec![];
        for _ in 0..c.rng.below(4) {
            let bone = c.rng.name();
            let (s, w) = weights(c);
            stored.push(json!({"bone_name": bone, "data": s}));
            bones.push(json!({"bone_name": bone, "vertex_weights": w}));
        }
        rig.push(json!({"mesh_object_name": name, "mesh_object_subindex": sub, "flags": {"max_influences": c.rng.u8(), "unk1": c.rng.u8()}, "buffers": stored}));
        groups.push((name, sub, bones));
    }
    let mut objects = vec![];
    for _ in 0..no {
        let o = object(c, minor, &buffers, &index_buffer, &pool, &groups, hostile);
        objects.push(o);
    }
    let zero = json!({"x": 0.0, "y": 0.0, "z": 0.0});
    let info = json!({"bounding_sphere": {"center": zero, "radius": 1.0}, "bounding_volume": {"min": zero, "max": zero}, "oriented_bounding_box": {"center": zero, "transform": {"col1": zero, "col2": zero, "col3": zero}, "size": zero}});
    let objects_json: Vec<Value> = objects
        .iter()
        .map(|o| {
            let mut j = o.json.clone();
            j["bounding_info"] = info.clone();
            j
        })
        .collect();
    let json = json!({format!("V{minor}"): {
        "model_name": c.rng.name(), "bounding_info": info, "unk1": c.rng.u32(), "objects": objects_json,
        // not what the reader goes by
        "buffer_sizes": (0..c.rng.below(5)).map(|_| c.rng.u32()).collect::<Vec<_>>(), "polygon_index_size": c.rng.u32(),
        "vertex_buffers": buffers.iter().map(|b| hex(b)).collect::<Vec<_>>(), "index_buffer": hex(&index_buffer), "rigging_buffers": rig}});
    let want = json!({"major_version": 1, "minor_version": minor, "objects": objects.iter().map(|o| o.want.clone()).collect::<Vec<_>>()});
    Built { minor, json, want, bad: objects.iter().any(|o| o.bad) }
}
const USAGES: &[(&str, &str)] = &[("Position", "positions"), ("Normal", "normals"), ("Tangent", "tangents"), ("TextureCoordinate", "texture_coordinates"), ("ColorSet", "color_sets"), ("Binormal", "binormals")];
fn big(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => u32::MAX,
        1 => u32::MAX - r.below(64) as u32,
        2 => (1 << 31) - 32 + r.below(64) as u32,
        3 => r.u32(),
        _ => r.below(4000) as u32,
    }
}
fn object(c: &mut Case, minor: u16, buffers: &[Vec<u8>], index_buffer: &[u8], pool: &[String], groups: &[(String, u64, Vec<Value>)], hostile: bool) -> Object {
    let mut bad = false;
    let n = if c.rng.chance(1, 10) { 0 } else { c.rng.range(1, 9) };
    // the offset and stride of this object's part of each buffer
    let at: Vec<u32> = (0..4)
        .map(|b| {
            let len = buffers.get(b).map_or(100, |b| b.len());
            if hostile && c.rng.chance(1, 4) {
                let x = big(&mut c.rng);
                x
            } else if c.rng.chance(1, 3) {
                0
            } else {
                c.rng.below(len / 2 + 1) as u32
            }
        })
        .collect();
    let stride: Vec<u32> = (0..4)
        .map(|_| if hostile && c.rng.chance(1, 5) { if c.rng.chance(1, 3) { 0 } else { big(&mut c.rng) } } else { *c.rng.pick(&[1u32, 3, 4, 8, 12, 16, 20, 24, 32, 44]) })
        .collect();
    let mut want: Vec<(&str, Vec<Value>)> = USAGES.iter().map(|u| (u.1, vec![])).collect();
    let mut attributes = vec![];
    for _ in 0..c.rng.below(8) {
        let (ty, size) = TYPES[c.rng.below(if minor == 10 { 6 } else { 5 })];
        let k = c.rng.below(if minor == 8 { 5 } else { 6 });
        let b = if hostile && c.rng.chance(1, 8) { *c.rng.pick(&[4usize, 5, 6, 255, u32::MAX as usize]) } else { c.rng.below(4.min(buffers.len().max(1))) };
        let offset = if hostile && c.rng.chance(1, 4) {
            // also sums that come back to a small number when they are cut to 32 bits
            if b < 4 && c.rng.bool() { 0u32.wrapping_sub(at[b]).wrapping_add(c.rng.below(20) as u32) } else { big(&mut c.rng) }
        } else {
            c.rng.below(60) as u32
        };
        let span = |b: usize| -> Option<Vec<&[u8]>> {
            let data = buffers.get(b)?;
            if b >= 4 {
                return None;
            }
            if n > 0 && stride[b] == 0 {
                return None;
            }
            (0..n as u64)
                .map(|i| {
                    let p = at[b] as u64 + offset as u64 + i * stride[b] as u64;
                    if p + size as u64 > data.len() as u64 { None } else { Some(&data[p as usize..p as usize + size]) }
                })
                .collect()
        };
        let cells = span(b);
        if cells.is_none() {
            if !hostile {
                continue;
            }
            bad = true;
        }
        if at.get(b).is_some_and(|a| *a as u64 + offset as u64 > u32::MAX as u64) {
            c.count("large_offsets", 1);
        }
        c.count(["buffer_0", "buffer_1", "buffer_2", "buffer_3", "buffer_other"][b.min(4)], 1);
        let sub = if c.rng.chance(1, 6) { u32::MAX as u64 } else { c.rng.below(5) as u64 };
        let names: Vec<String> = (0..c.rng.below(3)).map(|_| c.rng.name()).collect();
        let mut a = json!({"usage": USAGES[k].0, "data_type": ty, "buffer_index": b, "buffer_offset": offset, "subindex": sub});
        let name = if minor == 8 {
            format!("{}{sub}", ["Position", "Normal", "Tangent", "TextureCoordinate", "colorSet"][k])
        } else {
            a["name"] = json!(c.rng.name());
            a["attribute_names"] = json!(names);
            names.first().cloned().unwrap_or_default()
        };
        attributes.push(a);
        if let Some(cells) = cells {
            c.count("attributes_decoded", 1);
            want[k].1.push(json!({"name": name, "data": {kind(ty): cells.iter().map(|x| decode(ty, x)).collect::<Vec<_>>()}}));
        }
    }
    let wide = c.rng.bool();
    let w = if wide { 4 } else { 2 };
    let mut count = c.rng.below(20) as u32;
    let mut start = c.rng.below(index_buffer.len() + 1) as u32;
    if hostile && c.rng.chance(1, 4) {
        count = big(&mut c.rng);
    }
    if hostile && c.rng.chance(1, 4) {
        start = big(&mut c.rng);
    }
    let fits = start as u64 + count as u64 * w <= index_buffer.len() as u64;
    if !fits && count > 0 {
        if hostile {
            bad = true;
        } else {
            count = ((index_buffer.len() - start as usize) / w as usize) as u32;
        }
    }
    let indices: Vec<u64> = if bad && !fits {
        vec![]
    } else {
        (0..count as usize)
            .map(|i| {
                let b = &index_buffer[start as usize + i * w as usize..][..w as usize];
                b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)
            })
            .collect()
    };
    c.count(if wide { "indices_32" } else { "indices_16" }, indices.len() as u64);
    let name = if c.rng.chance(1, 4) { c.rng.name() } else { c.rng.pick(pool).clone() };
    let sub = c.rng.below(2) as u64;
    let influences: Vec<Value> = groups.iter().filter(|g| g.0 == name && g.1 == sub).flat_map(|g| g.2.clone()).collect();
    c.count("influences_decoded", influences.len() as u64);
    let parent = if c.rng.bool() { String::new() } else { c.rng.name() };
    let bias = c.rng.u32() as i32;
    let (dw, dt) = (c.rng.below(3) as u8 * 127, c.rng.below(3) as u8 * 127);
    let json = json!({
        "name": name, "subindex": sub, "parent_bone_name": parent, "vertex_count": n, "vertex_index_count": count, "unk2": c.rng.u32(),
        "vertex_buffer0_offset": at[0], "vertex_buffer1_offset": at[1], "vertex_buffer2_offset": at[2], "vertex_buffer3_offset": at[3],
        "stride0": stride[0], "stride1": stride[1], "stride2": stride[2], "stride3": stride[3], "index_buffer_offset": start, "unk8": c.rng.u32(),
        "draw_element_type": if wide { "UnsignedInt" } else { "UnsignedShort" }, "use_vertex_skinning": c.rng.below(2), "sort_bias": bias,
        "depth_flags": {"disable_depth_write": dw, "disable_depth_test": dt}, "attributes": attributes});
    let mut o = json!({"name": name, "subindex": sub, "parent_bone_name": parent, "sort_bias": bias, "disable_depth_write": dw != 0, "disable_depth_test": dt != 0, "vertex_indices": indices, "bone_influences": influences});
    for (k, list) in want {
        o[k] = json!(list);
    }
    Object { json, want: o, bad }
}
/// Reads the described file both from bytes and from memory.
fn both(c: &mut Case, kind: &str, j: &Value) -> Result<[Result<BoxData, String>; 2], Viol> {
    let f = dfmt(kind);
    let l = (fmt(f.lib).from_json)(&j.to_string()).map_err(|e| v(format!("harness: {e}")))?;
    let b = l.write_vec().map_err(|e| v(format!("{kind}: a well-formed file can't be written: {e}")))?;
    c.seen(&b);
    c.artifact = b.clone();
    c.sample(|| j.to_string().chars().take(1500).collect());
    let p = |e: String| v(format!("{kind}: reading panicked: {e}"));
    Ok([no_panic(|| f.read_bytes(&b)).map_err(p)?, no_panic(|| (f.from_lib)(&*l)).map_err(p)?])
}
fn same(kind: &str, j: &Value, want: &Value, got: [Result<BoxData, String>; 2]) -> R {
    for (how, g) in ["read from the file", "converted from memory"].into_iter().zip(got) {
        let d = g.map_err(|e| v(format!("{kind} {how}: well-formed content was refused: {e}\n{j}")))?;
        let got = d.json().map_err(v)?;
        if let Some(m) = diff(want, &got, "") {
            return viol(format!("{kind} {how}: (expected and got) {m}\n{j}"));
        }
    }
    Ok(())
}
fn refused(kind: &str, j: &Value, why: &str, got: [Result<BoxData, String>; 2]) -> R {
    for (how, g) in ["read from the file", "converted from memory"].into_iter().zip(got) {
        if let Ok(d) = g {
            return viol(format!("{kind} {how}: {why}, but it was read as {}\n{j}", d.debug().chars().take(400).collect::<String>()));
        }
    }
    Ok(())
}
fn mesh(c: &mut Case) -> R {
    let m = build(c, false);
    let got = both(c, "MeshData", &m.json)?;
    c.count(&format!("mesh_v{}", m.minor), 1);
    same("MeshData", &m.json, &m.want, got)
}
/// The low-level JSON of a mesh whose tables partly point outside.
pub fn hostile_mesh(c: &mut Case) -> Value {
    build(c, true).json
}
fn mesh_bad(c: &mut Case) -> R {
    let m = build(c, true);
    let got = both(c, "MeshData", &m.json)?;
    if m.bad {
        c.count("mesh_refused", 1);
        refused("MeshData", &m.json, "a table points outside the stored data", got)
    } else {
        c.count("hostile_but_valid", 1);
        same("MeshData", &m.json, &m.want, got)
    }
}
fn adj(c: &mut Case) -> R {
    let n = c.rng.below(30);
    let list: Vec<i16> = (0..n).map(|_| c.rng.u32() as i16).collect();
    let k = c.rng.below(6);
    let mut at: Vec<u32> = (0..k).map(|_| 2 * c.rng.below(n + 1) as u32).collect();
    at.sort();
    if c.rng.chance(1, 4) && k > 0 {
        let i = c.rng.below(k);
        at[i] = if c.rng.bool() { big(&mut c.rng) & !1 } else { 2 * c.rng.below(n + 4) as u32 };
    }
    let objects: Vec<u32> = (0..k).map(|_| if c.rng.chance(1, 5) { c.rng.u32() } else { c.rng.below(9) as u32 }).collect();
    let j = json!({"entries": objects.iter().zip(&at).map(|(o, a)| json!({"mesh_object_index": o, "index_buffer_offset": a})).collect::<Vec<_>>(), "index_buffer": list});
    let got = both(c, "AdjData", &j)?;
    // every entry ends where the next one starts, the last one at the end
    let mut entries = vec![];
    let mut bad = false;
    for i in 0..k {
        let (s, e) = (at[i] as usize / 2, at.get(i + 1).map_or(n, |e| *e as usize / 2));
        match list.get(s..e) {
            Some(x) => entries.push(json!({"mesh_object_index": objects[i], "vertex_adjacency": x})),
            None => bad = true,
        }
    }
    if bad {
        c.count("adj_refused", 1);
        return refused("AdjData", &j, "an entry's range is not inside the list", got);
    }
    c.count("adj_read", 1);
    same("AdjData", &j, &json!({"entries": entries}), got)
}
fn anim12(c: &mut Case) -> R {
    const HEADERS: &[(u32, usize)] = &[(0x1003, 4), (0x2003, 8), (0x3003, 12), (0x4003, 16), (0x1013, 2), (0x3409, 52), (0x4409, 64), (0, 0), (0x9999, 0)];
    let nb = c.rng.below(5);
    let mut complete = vec![];
    let buffers: Vec<String> = (0..nb)
        .map(|_| {
            let (h, need) = *c.rng.pick(HEADERS);
            let have = if c.rng.chance(1, 12) { c.rng.below(need + 1) } else { need + c.rng.below(9) };
            complete.push(have >= need);
            let mut b = h.to_le_bytes().to_vec();
            b.extend(c.rng.bytes(have));
            hex(&b)
        })
        .collect();
    let kinds = [("Transform", "Transform", "Transform"), ("UvTransform", "Material", "Material"), ("Visibility", "Visibility", "Visibility")];
    let mut bad = false;
    let mut groups: Vec<(&str, Vec<Value>)> = vec![];
    let tracks: Vec<Value> = (0..c.rng.below(7))
        .map(|_| {
            let (t, g, n) = kinds[c.rng.below(3)];
            let name = c.rng.name();
            let props: Vec<Value> = (0..c.rng.below(3))
                .filter_map(|_| {
                    let i = if c.rng.chance(1, 20) { *c.rng.pick(&[nb as u64, nb as u64 + 1, u64::MAX, 1 << 32]) } else if nb == 0 { return None } else { c.rng.below(nb) as u64 };
                    if !complete.get(i as usize).copied().unwrap_or(false) {
                        bad = true;
                    }
                    Some(json!({"name": "Translate", "buffer_index": i}))
                })
                .collect();
            let node = json!({"name": name, "tracks": [{"name": n, "compensate_scale": false, "transform_flags": {"override_translation": false, "override_rotation": false, "override_scale": false, "override_compensate_scale": false}, "values": {"Float": []}}]});
            match groups.iter_mut().find(|x| x.0 == g) {
                Some(x) => x.1.push(node),
                None => groups.push((g, vec![node])),
            }
            json!({"name": name, "track_type": t, "properties": props})
        })
        .collect();
    let last = c.rng.f32_in(0.0, 900.0);
    let j = json!({"V12": {"name": c.rng.name(), "unk1": 1.5, "final_frame_index": last, "unk2": 0.25, "unk3": 8.0, "tracks": tracks, "buffers": buffers}});
    let got = both(c, "AnimData", &j)?;
    if bad {
        c.count("v12_refused", 1);
        return refused("AnimData", &j, "a property's buffer is missing or incomplete", got);
    }
    c.count("v12_read", 1);
    let want = json!({"major_version": 1, "minor_version": 2, "final_frame_index": last, "groups": groups.iter().map(|(g, n)| json!({"group_type": g, "nodes": n})).collect::<Vec<_>>()});
    same("AnimData", &j, &want, got)
}
