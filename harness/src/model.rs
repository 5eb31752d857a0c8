//! What each high-level type must contain for a given low-level file, derived from the low-level JSON of the
//! independent reference generator (schema.rs).
use serde_json::{json, Value};

fn s(v: &Value) -> Value {
    // text that is missing reads as an empty string
    if v.is_null() {
        json!("")
    } else {
        v.clone()
    }
}
fn pick(v: &Value, text: &[&str], plain: &[&str]) -> Value {
    let mut m = serde_json::Map::new();
    for k in text {
        m.insert(k.to_string(), s(&v[k]));
    }
    for k in plain {
        m.insert(k.to_string(), v[k].clone());
    }
    Value::Object(m)
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| &a[..]).unwrap_or(&[])
}
fn mat4(v: &Value) -> Value {
    json!(["col1", "col2", "col3", "col4"].map(|c| ["x", "y", "z", "w"].map(|k| v[c][k].clone())))
}
pub fn matl(v: &Value) -> Value {
    let (minor, root) = if v["V15"].is_object() { (5, &v["V15"]) } else { (6, &v["V16"]) };
    let entries: Vec<Value> = arr(&root["entries"])
        .iter()
        .map(|e| {
            let of = |kind: &str, f: &dyn Fn(&Value) -> Value| -> Value {
                arr(&e["attributes"])
                    .iter()
                    .filter_map(|a| {
                        let d = a["param"]["data"].as_object()?;
                        let x = d.get(kind)?;
                        Some(json!({"param_id": a["param_id"], "data": f(x)}))
                    })
                    .collect()
            };
            let same = |x: &Value| x.clone();
            json!({
                "material_label": s(&e["material_label"]),
                "shader_label": s(&e["shader_label"]),
                "floats": of("Float", &same),
                "booleans": of("Boolean", &|x| json!(x.as_u64() != Some(0))),
                "vectors": of("Vector4", &same),
                "textures": of("String", &s),
                "uv_transforms": of("UvTransform", &same),
                "samplers": of("Sampler", &|x| {
                    let mut o = pick(x, &[], &["wraps", "wrapt", "wrapr", "min_filter", "mag_filter", "border_color", "lod_bias"]);
                    // anisotropy only applies to anisotropic filtering
                    o["max_anisotropy"] = if x["texture_filtering_type"] == "AnisotropicFiltering" { x["max_anisotropy"].clone() } else { json!("One") };
                    o
                }),
                "blend_states": of("BlendState", &|x| {
                    let mut o = pick(x, &[], &["source_color", "color_operation", "destination_color", "source_alpha", "alpha_operation", "destination_alpha"]);
                    o["alpha_sample_to_coverage"] = json!(minor == 6 && x["alpha_sample_to_coverage"].as_u64() != Some(0));
                    o
                }),
                "rasterizer_states": of("RasterizerState", &|x| {
                    if minor == 6 {
                        pick(x, &[], &["fill_mode", "cull_mode", "depth_bias"])
                    } else {
                        json!({"fill_mode": "Solid", "cull_mode": x["cull_mode"], "depth_bias": 0.0})
                    }
                }),
            })
        })
        .collect();
    json!({"major_version": 1, "minor_version": minor, "entries": entries})
}
pub fn skel(v: &Value) -> Value {
    let v = &v["V10"];
    let bones: Vec<Value> = arr(&v["bone_entries"])
        .iter()
        .zip(arr(&v["transforms"]))
        .map(|(b, t)| {
            let p = b["parent_index"].as_i64().unwrap();
            json!({"name": s(&b["name"]), "transform": mat4(t), "parent_index": if p < 0 { Value::Null } else { json!(p) }, "billboard_type": b["flags"]["billboard_type"]})
        })
        .collect();
    json!({"major_version": 1, "minor_version": 0, "bones": bones})
}
pub fn modl(v: &Value) -> Value {
    let v = &v["V17"];
    let mut o = pick(v, &["model_name", "skeleton_file_name", "mesh_file_name"], &["animation_file_name"]);
    o["major_version"] = json!(1);
    o["minor_version"] = json!(7);
    o["material_file_names"] = arr(&v["material_file_names"]).iter().map(s).collect();
    o["entries"] = arr(&v["entries"]).iter().map(|e| pick(e, &["mesh_object_name", "material_label"], &["mesh_object_subindex"])).collect();
    o
}
pub fn hlpb(v: &Value) -> Value {
    let v = &v["V11"];
    json!({
        "major_version": 1, "minor_version": 1,
        "aim_constraints": arr(&v["aim_constraints"]).iter().map(|e| pick(e, &["name", "aim_bone_name1", "aim_bone_name2", "aim_type1", "aim_type2", "target_bone_name1", "target_bone_name2"], &["unk1", "unk2", "aim", "up", "quat1", "quat2"])).collect::<Vec<_>>(),
        "orient_constraints": arr(&v["orient_constraints"]).iter().map(|e| pick(e, &["name", "parent_bone_name1", "parent_bone_name2", "source_bone_name", "target_bone_name"], &["unk_type", "constraint_axes", "quat1", "quat2", "range_min", "range_max"])).collect::<Vec<_>>(),
    })
}
pub fn meshex(v: &Value) -> Value {
    let entries = arr(&v["entries"]);
    let flags = arr(&v["entry_flags"]);
    let groups: Vec<Value> = arr(&v["mesh_object_groups"])
        .iter()
        .enumerate()
        .map(|(i, g)| {
            let f: Vec<Value> = entries
                .iter()
                .zip(flags)
                .filter(|(e, _)| e["mesh_object_group_index"].as_u64() == Some(i as u64))
                .map(|(_, f)| {
                    // bit 0 draws the object, bit 1 casts its shadow
                    let b = f["bytes"][0].as_u64().unwrap();
                    json!({"draw_model": b & 1 != 0, "cast_shadow": b & 2 != 0})
                })
                .collect();
            let mut o = pick(g, &["mesh_object_full_name", "mesh_object_name"], &["bounding_sphere"]);
            o["entry_flags"] = json!(f);
            o
        })
        .collect();
    json!({"mesh_object_groups": groups})
}
/// The data JSON expected for a low-level file, for the types whose conversion never fails.
pub fn data_json(fmt: &str, v: &Value) -> Option<Value> {
    Some(match fmt {
        "Matl" => matl(v),
        "Skel" => skel(v),
        "Modl" => modl(v),
        "Hlpb" => hlpb(v),
        "MeshEx" => meshex(v),
        _ => return None,
    })
}
/// The first difference between two JSON values; numbers are compared as single-precision floats or integers.
pub fn diff(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = diff(p, q, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                    _ => return Some(format!("{at}.{k} is only on one side")),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} elements and {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(p, q, &format!("{at}[{i}]")))
        }
        (Value::Number(x), Value::Number(y)) => {
            let same = match (x.as_u64(), y.as_u64()) {
                (Some(p), Some(q)) => p == q,
                _ => match (x.as_i64(), y.as_i64()) {
                    (Some(p), Some(q)) => p == q,
                    _ => (x.as_f64().unwrap() as f32).to_bits() == (y.as_f64().unwrap() as f32).to_bits(),
                },
            };
            if same { None } else { Some(format!("{at}: {x} and {y}")) }
        }
        _ if a == b => None,
        _ => Some(format!("{at}: {a} and {b}")),
    }
}
