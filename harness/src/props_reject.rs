//! C20: data the target version cannot hold is rejected and nothing is written; everything else is accepted.
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::gen_data::{self, valid_or_wide, vectors};
use crate::io::*;
use crate::props_lib::Scratch;
use serde_json::{json, Value};
use ssbh_data::adj_data::*;
use ssbh_data::anim_data::*;
use ssbh_data::matl_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::prelude::*;
use ssbh_data::skel_data::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "distinct high-level values that were either unrepresentable (and had to be rejected without producing output) or representable (and had to be accepted and come back as written)",
        assumptions: &["text is compared up to its first NUL byte, which is where the format ends it", "model and helper-bone data carry a version that the single supported file version replaces (by design)", "numbers: NaN and infinities only have to be accepted or rejected without a panic"],
        must: &[
            "rejected_mesh_lengths", "rejected_mesh_faces", "rejected_mesh_index", "rejected_mesh_weight", "rejected_mesh_duplicate", "rejected_mesh_version", "rejected_anim_version", "rejected_anim_final_frame",
            "rejected_skel_cycle", "rejected_skel_version", "rejected_matl_version", "rejected_adj_index", "valid_accepted", "boundary_accepted", "files_left_alone", "arbitrary_accepted", "arbitrary_rejected", "arbitrary_compared",
        ],
        units: vec![
            unit("invalid", 60_000, 2_500_000, c20_invalid),
            unit("boundary", 20_000, 800_000, c20_boundary),
            unit("valid", 40_000, 1_500_000, c20_valid),
            unit("arbitrary", 100_000, 4_000_000, c20_arb),
            unit("adjacency", 20_000, 600_000, c20_adj),
        ],
    }]
}
fn nonempty_mesh(c: &mut Case) -> MeshData {
    loop {
        let mut d = gen_data::mesh(&mut c.rng, &gen_data::MESH_SMALL);
        if d.objects.iter().any(|o| o.vertex_count().unwrap_or(0) > 0) {
            // tame text keeps the messages readable
            for o in &mut d.objects {
                o.parent_bone_name.truncate(0);
            }
            return d;
        }
    }
}
fn lists(o: &mut MeshObjectData) -> [&mut Vec<AttributeData>; 6] {
    [&mut o.positions, &mut o.normals, &mut o.binormals, &mut o.tangents, &mut o.texture_coordinates, &mut o.color_sets]
}
fn has_vertices(o: &MeshObjectData) -> bool {
    o.vertex_count().unwrap_or(0) > 0
}
fn pick_object(c: &mut Case, d: &MeshData) -> usize {
    let v: Vec<usize> = (0..d.objects.len()).filter(|i| has_vertices(&d.objects[*i])).collect();
    *c.rng.pick(&v)
}
fn bad_version(r: &mut Rng, ok: &[(u16, u16)]) -> (u16, u16) {
    loop {
        let v = match r.below(4) {
            0 => (r.below(4) as u16, r.below(16) as u16),
            1 => {
                let v = *r.pick(ok);
                (v.0.wrapping_add(r.below(3) as u16), v.1.wrapping_add(r.below(3) as u16))
            }
            2 => {
                let v = *r.pick(ok);
                (v.0 + 256, v.1)
            }
            _ => (r.u32() as u16, r.u32() as u16),
        };
        if !ok.contains(&v) {
            return v;
        }
    }
}
/// A value that must be rejected, and the name of its defect.
fn invalid(c: &mut Case) -> (&'static str, BoxData, Vec<(u16, u16)>) {
    match c.idx % 12 {
        0 => {
            let mut d = nonempty_mesh(c);
            let i = pick_object(c, &d);
            let n = d.objects[i].vertex_count().unwrap();
            let v8 = d.minor_version == 8;
            let delta = loop {
                let m = match c.rng.below(5) {
                    3 => 0,
                    4 => 2 * n,
                    0 => n + 1,
                    1 => n - 1,
                    _ => c.rng.below(2 * n + 3),
                };
                if m != n {
                    break m;
                }
            };
            // change one of several attributes, or add one of another length
            let mut total = 0;
            for l in lists(&mut d.objects[i]) {
                total += l.len();
            }
            let add = total < 2 || c.rng.bool();
            let r = &mut c.rng;
            if add {
                let kind = r.range(2, 4);
                let data = vectors(r, kind, delta, 0);
                let mut ls = lists(&mut d.objects[i]);
                let mut k = r.below(6);
                if v8 && k == 2 {
                    k = 1;
                }
                let at = r.below(ls[k].len() + 1);
                ls[k].insert(at, AttributeData { name: "extra".into(), data });
            } else {
                let mut all: Vec<&mut AttributeData> = lists(&mut d.objects[i]).into_iter().flatten().collect();
                let k = r.below(all.len());
                let kind = r.range(2, 4);
                all[k].data = vectors(r, kind, delta, 0);
            }
            match c.rng.below(3) {
                0 => d.objects[i].vertex_indices.clear(),
                1 => {
                    // faces that fit whichever length is taken
                    let k = n.min(delta).max(1) as u32;
                    d.objects[i].vertex_indices.iter_mut().for_each(|v| *v %= k);
                }
                _ => (),
            }
            ("mesh_lengths", Box::new(d), vec![])
        }
        1 => {
            let mut d = nonempty_mesh(c);
            let i = pick_object(c, &d);
            let o = &mut d.objects[i];
            let n = o.vertex_count().unwrap() as u32;
            for _ in 0..c.rng.range(1, 2) {
                o.vertex_indices.push(c.rng.below(n as usize) as u32);
            }
            if c.rng.bool() {
                o.vertex_indices.drain(..o.vertex_indices.len() / 3 * 3);
            }
            ("mesh_faces", Box::new(d), vec![])
        }
        2 => {
            let mut d = nonempty_mesh(c);
            let i = pick_object(c, &d);
            let o = &mut d.objects[i];
            let n = o.vertex_count().unwrap() as u32;
            while o.vertex_indices.len() < 3 {
                o.vertex_indices.push(c.rng.below(n as usize) as u32);
            }
            let k = c.rng.below(o.vertex_indices.len());
            o.vertex_indices[k] = match c.rng.below(4) {
                0 | 1 => n,
                2 => *c.rng.pick(&[65535u32, 65536, u32::MAX, 1 << 31]),
                _ => n + c.rng.below(1000) as u32,
            };
            if c.rng.chance(1, 4) {
                // a face without area
                let bad = o.vertex_indices[k];
                let f = k / 3 * 3;
                let other = if c.rng.bool() { f + (k + 1 - f) % 3 } else { k };
                o.vertex_indices[other] = bad;
                if c.rng.bool() {
                    o.vertex_indices[f..f + 3].fill(bad);
                }
            }
            if c.rng.chance(1, 6) {
                // an object without any vertex cannot have faces
                let e = MeshObjectData { name: "empty".into(), subindex: 77, vertex_indices: vec![0, 0, 0], ..Default::default() };
                d.objects.insert(i, e);
            }
            ("mesh_index", Box::new(d), vec![])
        }
        3 => {
            let mut d = nonempty_mesh(c);
            d.minor_version = 10;
            let i = c.rng.below(d.objects.len());
            let o = &mut d.objects[i];
            let bad = match c.rng.below(3) {
                0 => 65536,
                1 => u32::MAX,
                _ => 65536 + c.rng.below(1 << 20) as u32,
            };
            let vertex_weight = match c.rng.below(4) {
                0 => *c.rng.pick(&[0.0, -0.0, 1e-9, -1.0, 1.0, 2.0, f32::MIN_POSITIVE]),
                1 => c.rng.u32() as f32 / u32::MAX as f32,
                _ => 0.5,
            };
            let w = VertexWeight { vertex_index: bad, vertex_weight };
            for o in &mut o.bone_influences {
                for w in &mut o.vertex_weights {
                    w.vertex_index &= 0xffff;
                }
            }
            if o.bone_influences.is_empty() || c.rng.bool() {
                let at = c.rng.below(o.bone_influences.len() + 1);
                o.bone_influences.insert(at, BoneInfluence { bone_name: "b".into(), vertex_weights: vec![w] });
            } else {
                let k = c.rng.below(o.bone_influences.len());
                let ws = &mut o.bone_influences[k].vertex_weights;
                let at = c.rng.below(ws.len() + 1);
                ws.insert(at, w);
            }
            ("mesh_weight", Box::new(d), vec![])
        }
        4 => {
            let mut d = nonempty_mesh(c);
            let k = c.rng.below(d.objects.len());
            let (name, subindex) = (d.objects[k].name.clone(), d.objects[k].subindex);
            let version = (d.major_version, d.minor_version);
            let mut o = gen_data::mesh_object(&mut c.rng, &gen_data::MESH_SMALL, version);
            o.name = name;
            o.subindex = subindex;
            let at = c.rng.below(d.objects.len() + 1);
            d.objects.insert(at, o);
            ("mesh_duplicate", Box::new(d), vec![])
        }
        5 => {
            let mut d = gen_data::mesh(&mut c.rng, &gen_data::MESH_SMALL);
            let ok = vec![(1, 8), (1, 9), (1, 10)];
            (d.major_version, d.minor_version) = bad_version(&mut c.rng, &ok);
            ("mesh_version", Box::new(d), ok)
        }
        6 => {
            let mut d = crate::gen_anim::anim(&mut c.rng, 30);
            let ok = vec![(2, 0), (2, 1)];
            (d.major_version, d.minor_version) = if c.rng.chance(1, 4) { (1, 2) } else { bad_version(&mut c.rng, &ok) };
            ("anim_version", Box::new(d), ok)
        }
        7 => {
            let mut d = crate::gen_anim::anim(&mut c.rng, 30);
            let longest = d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
            d.final_frame_index = match c.rng.below(6) {
                0 => -1.0,
                1 => -f32::MIN_POSITIVE,
                2 => f32::NAN,
                3 => f32::NEG_INFINITY,
                _ if longest >= 2 => match c.rng.below(3) {
                    0 => longest as f32 - 2.0,
                    1 => longest as f32 - 1.001,
                    _ => 0.0,
                },
                _ => -0.5,
            };
            ("anim_final_frame", Box::new(d), vec![])
        }
        8 => {
            let n = c.rng.range(1, 20);
            let mut d = loop {
                let d = gen_data::skel(&mut c.rng, n, gen_data::SkelStyle::Any);
                if !d.bones.is_empty() {
                    break d;
                }
            };
            let m = d.bones.len();
            let len = c.rng.range(1, m.min(6));
            // a cycle of `len` bones at random positions, possibly with other bones hanging off it
            let mut order: Vec<usize> = (0..m).collect();
            for i in (1..m).rev() {
                let j = c.rng.below(i + 1);
                order.swap(i, j);
            }
            for i in 0..len {
                d.bones[order[i]].parent_index = Some(order[(i + 1) % len]);
            }
            ("skel_cycle", Box::new(d), vec![])
        }
        9 => {
            let mut d = gen_data::skel(&mut c.rng, 8, gen_data::SkelStyle::Any);
            let ok = vec![(1, 0)];
            (d.major_version, d.minor_version) = bad_version(&mut c.rng, &ok);
            ("skel_version", Box::new(d), ok)
        }
        10 => {
            let mut d = gen_data::matl(&mut c.rng, 5);
            let ok = vec![(1, 6)];
            (d.major_version, d.minor_version) = if c.rng.chance(1, 4) { (1, 5) } else { bad_version(&mut c.rng, &ok) };
            ("matl_version", Box::new(d), ok)
        }
        _ => {
            let mut d = gen_data::adj(&mut c.rng, 6);
            let bad = match c.rng.below(3) {
                0 => 1usize << 32,
                1 => usize::MAX,
                _ => (1 << 32) + c.rng.below(1 << 20),
            };
            let at = c.rng.below(d.entries.len() + 1);
            d.entries.insert(at, AdjEntryData { mesh_object_index: bad, vertex_adjacency: vec![1, 2, -1] });
            ("adj_index", Box::new(d), vec![])
        }
    }
}
fn c20_invalid(c: &mut Case) -> R {
    let (class, d, _) = invalid(c);
    let text = d.debug();
    c.seen(text.as_bytes());
    c.sample(|| format!("{class}: {text}"));
    let name = |what: &str| format!("{class}: {what}: {}", text.chars().take(1500).collect::<String>());
    match no_panic(|| d.to_lib().map(|_| ())) {
        Err(p) => return viol(name(&format!("converting panicked: {p}"))),
        Ok(Ok(())) => return viol(name("conversion succeeded")),
        Ok(Err(e)) => ensure!(!e.is_empty(), "{}", name("empty error")),
    }
    let mut w = RecWriter::default();
    match no_panic(|| d.write_to(&mut w)) {
        Err(p) => return viol(name(&format!("writing panicked: {p}"))),
        Ok(Ok(())) => return viol(name("writing succeeded")),
        Ok(Err(_)) => ensure!(w.ops.is_empty() && w.data.is_empty(), "{}", name("bytes were written before the error")),
    }
    if c.idx / 12 % 4 == 0 {
        let s = Scratch::new();
        let p = s.path("new.bin");
        ensure!(d.write_file(&p).is_err(), "{}", name("saving succeeded"));
        ensure!(!p.exists(), "{}", name("a file was created"));
        let old = c.rng.bytes(300);
        std::fs::write(&p, &old).unwrap();
        ensure!(d.write_file(&p).is_err(), "{}", name("saving succeeded"));
        ensure!(std::fs::read(&p).unwrap() == old, "{}", name("the existing file was changed"));
        c.count("files_left_alone", 1);
    }
    c.count(
        match class {
            "mesh_lengths" => "rejected_mesh_lengths",
            "mesh_faces" => "rejected_mesh_faces",
            "mesh_index" => "rejected_mesh_index",
            "mesh_weight" => "rejected_mesh_weight",
            "mesh_duplicate" => "rejected_mesh_duplicate",
            "mesh_version" => "rejected_mesh_version",
            "anim_version" => "rejected_anim_version",
            "anim_final_frame" => "rejected_anim_final_frame",
            "skel_cycle" => "rejected_skel_cycle",
            "skel_version" => "rejected_skel_version",
            "matl_version" => "rejected_matl_version",
            _ => "rejected_adj_index",
        },
        1,
    );
    Ok(())
}
fn accept(d: &dyn DataVal, what: &str) -> Result<Vec<u8>, Viol> {
    match no_panic(|| d.write_vec()) {
        Err(p) => viol(format!("{what}: writing panicked: {p}")),
        Ok(Err(e)) => viol(format!("{what}: valid data was rejected: {e}\n{}", d.debug().chars().take(1500).collect::<String>())),
        Ok(Ok(b)) => Ok(b),
    }
}
/// Another name that differs only in case, spacing, length or one character.
fn alike(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(6) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{s} "),
        3 => format!(" {s}"),
        4 => {
            v.pop();
            v.into_iter().collect()
        }
        _ => {
            v.push(*r.pick(&['.', '_', '0', 'a', '\u{301}']));
            v.into_iter().collect()
        }
    }
}
/// Values exactly on the accepted side of each limit.
fn c20_boundary(c: &mut Case) -> R {
    let (what, d): (&str, BoxData) = match c.idx % 10 {
        0 => {
            // the last vertex is a valid index, and an object without vertices may have no faces
            let mut d = nonempty_mesh(c);
            for o in &mut d.objects {
                let n = o.vertex_count().unwrap();
                if n > 0 {
                    o.vertex_indices = vec![n as u32 - 1; 3 * c.rng.range(1, 4)];
                } else {
                    o.vertex_indices.clear();
                }
            }
            ("last vertex index", Box::new(d))
        }
        1 => {
            let mut d = nonempty_mesh(c);
            let limit = if d.minor_version == 10 { 65535 } else { u32::MAX };
            let i = c.rng.below(d.objects.len());
            d.objects[i].bone_influences.push(BoneInfluence { bone_name: "b".into(), vertex_weights: vec![VertexWeight { vertex_index: limit, vertex_weight: 1.0 }] });
            ("largest weight vertex index", Box::new(d))
        }
        2 => {
            // same name with different subindices, same subindex with different names
            let mut d = nonempty_mesh(c);
            if c.rng.bool() {
                // alike, but not the same
                let version = (d.major_version, d.minor_version);
                let (name, sub) = (c.rng.name().replace('\0', ""), *c.rng.pick(&[0u64, 1, 5, 1 << 31, u64::MAX]));
                let mut seen = vec![];
                for _ in 0..c.rng.range(2, 8) {
                    let n = if c.rng.chance(1, 3) { alike(&mut c.rng, &name) } else { name.clone() };
                    let k = match c.rng.below(3) {
                        0 => sub,
                        1 => sub.wrapping_add(1 << *c.rng.pick(&[0u32, 7, 8, 15, 16, 31, 32, 48, 63])),
                        _ => !sub,
                    };
                    if !seen.contains(&(n.clone(), k)) {
                        seen.push((n.clone(), k));
                        let mut o = gen_data::mesh_object(&mut c.rng, &gen_data::MESH_SMALL, version);
                        o.name = n;
                        o.subindex = k;
                        d.objects.push(o);
                    }
                }
                d.objects.drain(..d.objects.len() - seen.len());
                c.count("alike_objects", seen.len() as u64);
            } else {
                for (i, o) in d.objects.iter_mut().enumerate() {
                    if i % 2 == 0 {
                        o.name = "shared".into();
                        o.subindex = u64::MAX - i as u64;
                    } else {
                        o.name = format!("n{i}");
                        o.subindex = u64::MAX;
                    }
                }
            }
            ("subindices", Box::new(d))
        }
        3 => {
            let mut d = crate::gen_anim::anim(&mut c.rng, 40);
            let longest = d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
            d.final_frame_index = (longest as f32 - 1.0).max(if c.rng.bool() { 0.0 } else { -0.0 });
            ("smallest final frame index", Box::new(d))
        }
        4 => ("no groups", Box::new(AnimData { major_version: 2, minor_version: c.rng.below(2) as u16, final_frame_index: 0.0, groups: vec![] })),
        5 => {
            // a parent chain in reverse order, the deepest possible forest of this size
            let n = c.rng.range(1, 60);
            let bones = (0..n).map(|i| BoneData { name: format!("b{i}"), transform: gen_data::local_transform(&mut c.rng), parent_index: if i + 1 < n { Some(i + 1) } else { None }, billboard_type: BillboardType::Disabled }).collect();
            ("reversed chain", Box::new(SkelData { major_version: 1, minor_version: 0, bones }))
        }
        6 => ("empty objects", Box::new(MeshData { major_version: 1, minor_version: *c.rng.pick(&[8u16, 9, 10]), objects: (0..c.rng.range(0, 4)).map(|i| MeshObjectData { name: c.rng.name().replace('\0', ""), subindex: i as u64, ..Default::default() }).collect() })),
        7 => ("adjacency limits", Box::new(AdjData { entries: vec![AdjEntryData { mesh_object_index: u32::MAX as usize, vertex_adjacency: vec![i16::MAX, i16::MIN, -1] }, AdjEntryData { mesh_object_index: 0, vertex_adjacency: vec![] }] })),
        8 => ("no materials", Box::new(MatlData { major_version: 1, minor_version: 6, entries: vec![] })),
        _ => {
            // every attribute list at its largest count the names allow, with a single vertex
            let n = c.rng.range(1, 3);
            let version = *c.rng.pick(&[8u16, 9, 10]);
            let mut a = |k: usize, kind: usize, base: &str| -> Vec<AttributeData> { (0..k).map(|i| AttributeData { name: format!("{base}{i}"), data: vectors(&mut c.rng, kind, n, 0) }).collect() };
            let o = MeshObjectData { name: "m".into(), positions: a(3, 3, "Position"), normals: a(3, 4, "Normal"), binormals: if version == 8 { vec![] } else { a(3, 4, "Binormal") }, tangents: a(3, 4, "Tangent"), texture_coordinates: a(9, 2, "map"), color_sets: a(9, 4, "colorSet"), vertex_indices: vec![0, n as u32 - 1, 0], ..Default::default() };
            ("many attributes", Box::new(MeshData { major_version: 1, minor_version: version, objects: vec![o] }))
        }
    };
    let b = accept(&*d, what)?;
    c.seen(&b);
    c.artifact = b.clone();
    let s = Scratch::new();
    let p = s.path("x.bin");
    d.write_file(&p).map_err(|e| Viol { msg: format!("{what}: saving failed: {e}"), known: None })?;
    ensure!(std::fs::read(&p).unwrap() == b, "{what}: the saved file differs from the written bytes");
    c.count("boundary_accepted", 1);
    Ok(())
}
fn c20_valid(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let n = c.rng.range(1, 16);
    let d = valid_or_wide(f.name, &mut c.rng, n);
    let b = accept(&*d, f.name)?;
    if b.len() > 80 {
        c.seen(&b);
    }
    c.artifact = b;
    c.count("valid_accepted", 1);
    match no_panic(|| f.read_bytes(&c.artifact)) {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => viol(format!("{}: the written file cannot be read: {e}", f.name)),
        Err(p) => viol(format!("{}: reading the written file panicked: {p}", f.name)),
    }
}
/// Text ends at its first NUL byte.
fn normal(v: &mut Value) {
    match v {
        Value::String(s) => {
            if let Some(p) = s.find('\0') {
                s.truncate(p);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(normal),
        Value::Object(o) => o.values_mut().for_each(normal),
        _ => {}
    }
}
fn shape(v: &VectorData) -> usize {
    v.len()
}
/// What a mesh must keep whatever its numbers are.
fn mesh_shape(d: &MeshData, version: (u16, u16)) -> Value {
    let cut = |s: &str| s.split('\0').next().unwrap().to_string();
    let list = |a: &Vec<AttributeData>| -> Value { a.iter().map(|a| shape(&a.data)).collect::<Vec<_>>().into() };
    d.objects
        .iter()
        .map(|o| {
            // influences of a bone without vertices or with a repeated name are kept; weights are exact
            let mut bones: Vec<(String, usize)> = o.bone_influences.iter().map(|b| (cut(&b.bone_name), b.vertex_weights.len())).collect();
            bones.sort();
            json!({"name": cut(&o.name), "subindex": o.subindex, "parent": cut(&o.parent_bone_name), "bias": o.sort_bias, "depth": [o.disable_depth_write, o.disable_depth_test],
                "indices": o.vertex_indices, "lists": [list(&o.positions), list(&o.normals), if version == (1, 8) { json!(null) } else { list(&o.binormals) }, list(&o.tangents), list(&o.texture_coordinates), list(&o.color_sets)], "bones": bones})
        })
        .collect::<Vec<_>>()
        .into()
}
fn anim_shape(d: &AnimData) -> Value {
    let cut = |s: &str| s.split('\0').next().unwrap().to_string();
    json!({"final": d.final_frame_index, "groups": d.groups.iter().map(|g| json!([format!("{:?}", g.group_type), g.nodes.iter().map(|n| json!([cut(&n.name), n.tracks.iter().map(|t| {
        let kind = std::mem::discriminant(&t.values);
        json!([cut(&t.name), format!("{kind:?}"), format!("{:?}", t.transform_flags)])
    }).collect::<Vec<_>>()])).collect::<Vec<_>>()])).collect::<Vec<_>>()})
}
fn c20_arb(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let max = *c.rng.pick(&[200usize, 1500, 5000]);
    let Some(d) = arb_data(f, &mut c.rng, max) else { return Ok(()) };
    // the version is only meaningful when supported, which random values rarely are
    let supported: &[(u16, u16)] = match f.name {
        "AnimData" => &[(2, 0), (2, 1)],
        "MatlData" => &[(1, 6)],
        "MeshData" => &[(1, 8), (1, 9), (1, 10)],
        "ModlData" => &[(1, 7)],
        "HlpbData" => &[(1, 1)],
        "SkelData" => &[(1, 0)],
        _ => &[],
    };
    let mut d = d;
    let mut version = (0, 0);
    if !supported.is_empty() && !c.rng.chance(1, 10) {
        version = *c.rng.pick(supported);
        macro_rules! set {
            ($($t:ident),*) => { match f.name { $(stringify!($t) => {
                let mut x = d.any().downcast_ref::<$t>().unwrap().clone();
                (x.major_version, x.minor_version) = version;
                d = Box::new(x);
            })* _ => {} } };
        }
        set!(AnimData, MatlData, MeshData, ModlData, HlpbData, SkelData);
        if f.name == "AnimData" {
            let mut x = d.any().downcast_ref::<AnimData>().unwrap().clone();
            x.final_frame_index = x.final_frame_index.abs().max(100_000.0);
            d = Box::new(x);
        }
        if f.name == "MeshData" {
            // random attribute lengths never agree: shorten all lists and repair the faces
            let mut x = d.any().downcast_ref::<MeshData>().unwrap().clone();
            for (i, o) in x.objects.iter_mut().enumerate() {
                let n = c.rng.below(4);
                let any = lists(o).iter().any(|l| !l.is_empty());
                for l in lists(o) {
                    for a in l.iter_mut() {
                        let mut fit = |len: usize| vectors(&mut c.rng, len, n, 6);
                        a.data = match &a.data {
                            VectorData::Vector2(_) => fit(2),
                            VectorData::Vector3(_) => fit(3),
                            VectorData::Vector4(_) => fit(4),
                        };
                    }
                }
                let n = if any { n } else { 0 };
                o.vertex_indices.truncate(o.vertex_indices.len() / 3 * 3);
                if n == 0 {
                    o.vertex_indices.clear();
                }
                o.vertex_indices.iter_mut().for_each(|v| *v %= n.max(1) as u32);
                if version == (1, 10) {
                    o.bone_influences.iter_mut().flat_map(|b| &mut b.vertex_weights).for_each(|w| w.vertex_index &= 0xffff);
                }
                if c.rng.chance(3, 4) {
                    o.subindex = i as u64;
                }
            }
            d = Box::new(x);
        }
    }
    let text = d.debug();
    if text.len() > 100 {
        c.seen(text.as_bytes());
    }
    let b = match no_panic(|| d.write_vec()) {
        Err(p) => return viol(format!("{}: writing panicked: {p}\n{}", f.name, text.chars().take(3000).collect::<String>())),
        Ok(Err(_)) => {
            c.count("arbitrary_rejected", 1);
            return Ok(());
        }
        Ok(Ok(b)) => b,
    };
    c.count("arbitrary_accepted", 1);
    c.artifact = b.clone();
    let e = match no_panic(|| f.read_bytes(&b)) {
        Err(p) => return viol(format!("{}: reading the written file panicked: {p}", f.name)),
        Ok(Err(e)) => return viol(format!("{}: the written file cannot be read: {e}\n{}", f.name, text.chars().take(3000).collect::<String>())),
        Ok(Ok(e)) => e,
    };
    let err = |e: String| Viol { msg: e, known: None };
    let (mut a, mut z) = match f.name {
        "MeshData" => {
            let (x, y) = (d.any().downcast_ref::<MeshData>().unwrap(), e.any().downcast_ref::<MeshData>().unwrap());
            let v = (x.major_version, x.minor_version);
            if v == (1, 8) && x.objects.iter().any(|o| !o.binormals.is_empty()) && y.objects.iter().all(|o| o.binormals.is_empty()) {
                c.known("mesh-v8-binormals-dropped", "a version 1.8 mesh with binormals was written without them".into())?;
            }
            ensure!(v == (y.major_version, y.minor_version), "version {v:?} became {:?}", (y.major_version, y.minor_version));
            (mesh_shape(x, v), mesh_shape(y, v))
        }
        "AnimData" => (anim_shape(d.any().downcast_ref().unwrap()), anim_shape(e.any().downcast_ref().unwrap())),
        _ => (d.json().map_err(err)?, e.json().map_err(err)?),
    };
    normal(&mut a);
    normal(&mut z);
    if matches!(f.name, "ModlData" | "HlpbData") {
        for v in [&mut a, &mut z] {
            v["major_version"] = json!(0);
            v["minor_version"] = json!(0);
        }
    }
    if let Some(p) = crate::model::diff(&a, &z, "") {
        return viol(format!("{} {version:?}: accepted but changed: {p}", f.name));
    }
    c.count("arbitrary_compared", 1);
    Ok(())
}
/// Adjacency helpers with indices the format or the positions cannot hold.
fn c20_adj(c: &mut Case) -> R {
    let n = c.rng.range(1, 12);
    let positions = vectors(&mut c.rng, 3, n, 5);
    let faces = c.rng.range(1, 6);
    let mut idx: Vec<u32> = (0..faces * 3).map(|_| c.rng.below(n) as u32).collect();
    if c.idx % 2 == 0 {
        let k = c.rng.below(idx.len());
        idx[k] = (n + c.rng.below(3)) as u32;
        c.seen(format!("{n} {idx:?}").as_bytes());
        match no_panic(|| AdjEntryData::from_vector_data(0, &positions, &idx)) {
            Err(p) if !(p.contains("index out of bounds") && p.contains("adj_data.rs")) => return viol(format!("from_vector_data panicked: {p}")),
            Err(p) => c.known("adj-out-of-range-panic", format!("from_vector_data panicked for index {} of {n} positions: {p}", idx[k]))?,
            Ok(e) => {
                let bad = idx[k] as i16;
                ensure!(!e.vertex_adjacency.contains(&bad), "an index outside the positions was stored");
            }
        }
        return Ok(());
    }
    if c.idx % 2000 != 1 {
        return Ok(());
    }
    // indices that do not fit 16 bits
    let n = 32760 + c.rng.below(20);
    let positions = VectorData::Vector3((0..n).map(|i| [i as f32, 0.0, 0.0]).collect());
    let idx = vec![0, 1, n as u32 - 1];
    let e = AdjEntryData::from_vector_data(0, &positions, &idx);
    let got = e.vertex_adjacency[..4].to_vec();
    c.seen(format!("{n} {got:?}").as_bytes());
    let want = n as i64 - 1;
    if got.iter().all(|g| [0i64, 1, want, -1].contains(&(*g as i64))) {
        c.count("large_adjacency_ok", 1);
        return Ok(());
    }
    c.known("adj-index-wrap", format!("vertex {want} is stored as {got:?}"))
}
