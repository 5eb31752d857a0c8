//! High-level robustness: C04, the data part of C05, C20, C21, C22.
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::gen_data::valid;
use crate::io::*;
use crate::leaf;
use crate::lib_formats::*;
use crate::mutate::*;
use crate::props_lib::*;
use crate::schema;
use serde_json::{json, Value};

pub const DATA_KINDS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        level: "exploration",
        rule: "distinct hostile inputs (file bytes or low-level values) given to a high-level reader, whose result, if any, was also debug-printed, converted back and written",
        assumptions: &["a single conversion normally costs milliseconds; one that burns 60 CPU-seconds counts as not terminating", "version 1.2 animations are decoded only as far as the library decodes them (structure)"],
        must: &["data_read", "data_rejected", "rewritten", "rewrite_rejected", "leaves_changed", "v12_buffers", "arbitrary_values", "compressed_headers", "hostile_layouts"],
        units: vec![
            unit("fields", 120_000, 5_000_000, c04_fields),
            unit("arbitrary", 100_000, 4_000_000, c04_arb),
            unit("mutated", 150_000, 6_000_000, c04_mutated),
            unit("leaf", 120_000, 5_000_000, c04_leaf),
            unit("compressed", 60_000, 2_500_000, c04_compressed),
            unit("v12", 4_000, 120_000, c04_v12),
            unit("layouts", 40_000, 1_500_000, c04_layouts),
        ],
    }]
}

// ---------------------------------------------------------------- C04
/// Everything a caller may do with a value that was read.
fn use_data(c: &mut Case, f: &DFmt, d: BoxData) -> R {
    c.count("data_read", 1);
    let v = |what: &str, p: String| Viol { msg: format!("{}: {what} panicked on a value read from a file: {p}", f.name), known: None };
    no_panic(|| d.debug().len()).map_err(|p| v("debug output", p))?;
    no_panic(|| d.json().is_ok()).map_err(|p| v("JSON output", p))?;
    match no_panic(|| d.to_lib()).map_err(|p| v("converting back", p))? {
        Err(_) => c.count("rewrite_rejected", 1),
        Ok(_) => {
            let mut w = FaultWriter::new();
            w.byte_limit = 64 << 20;
            match no_panic(|| d.write_to(&mut w)).map_err(|p| v("writing", p))? {
                Ok(()) => c.count("rewritten", 1),
                Err(_) => c.count("rewrite_rejected", 1),
            }
        }
    }
    Ok(())
}
fn hostile_lib(c: &mut Case, f: &DFmt, v: &dyn LibVal) -> R {
    match no_panic(|| (f.from_lib)(v)) {
        Err(p) => viol(format!("{}: converting a low-level value panicked: {p}\n{}", f.name, v.debug())),
        Ok(Err(_)) => {
            c.count("data_rejected", 1);
            Ok(())
        }
        Ok(Ok(d)) => use_data(c, f, d),
    }
}
fn hostile_bytes(c: &mut Case, f: &DFmt, b: &[u8]) -> R {
    c.artifact = b.to_vec();
    match no_panic(|| f.read_bytes(b)) {
        Err(p) => viol(format!("{} reader panicked: {p}", f.name)),
        Ok(Err(_)) => {
            c.count("data_rejected", 1);
            Ok(())
        }
        Ok(Ok(d)) => use_data(c, f, d),
    }
}
fn c04_fields(c: &mut Case) -> R {
    let k = DATA_KINDS[c.idx as usize % DATA_KINDS.len()];
    let rf = if c.rng.chance(1, 2) {
        let o = schema::opts(&mut c.rng, false);
        schema::gen_file(k, &mut c.rng, o)
    } else {
        small_ref(c, k)
    };
    c.seen(&rf.bytes);
    c.sample(|| format!("{} {}", rf.fmt, hex(&rf.bytes[..rf.bytes.len().min(150)])));
    hostile_bytes(c, dfmt_for_lib(rf.fmt).unwrap(), &rf.bytes)
}
fn c04_arb(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let max = *c.rng.pick(&[300usize, 2000, 6000]);
    let Some(v) = arb_val(fmt(f.lib), &mut c.rng, max) else { return Ok(()) };
    c.count("arbitrary_values", 1);
    let s = v.debug();
    if s.len() > 120 {
        c.seen(s.as_bytes());
    }
    hostile_lib(c, f, &*v)
}
fn c04_mutated(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let n = c.rng.range(1, 12);
    let d = valid(f.name, &mut c.rng, n);
    let Ok(mut b) = d.write_vec() else { return viol(format!("{}: valid data was rejected: {}", f.name, d.debug())) };
    for _ in 0..*c.rng.pick(&[1usize, 1, 1, 2, 3, 6]) {
        mutate(&mut b, &mut c.rng, &[]);
    }
    c.seen(&b);
    hostile_bytes(c, f, &b)
}
fn c04_leaf(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let n = c.rng.range(1, 12);
    let d = valid(f.name, &mut c.rng, n);
    let lib = d.to_lib().map_err(|e| Viol { msg: format!("{}: valid data was rejected: {e}", f.name), known: None })?;
    let base = lib.json().map_err(|e| Viol { msg: e, known: None })?;
    for _ in 0..4 {
        let mut j = base.clone();
        let mut what = vec![];
        for _ in 0..*c.rng.pick(&[1usize, 1, 2, 3]) {
            what.extend(leaf::mutate(&mut j, &mut c.rng));
        }
        let text = j.to_string();
        let Ok(v) = (fmt(f.lib).from_json)(&text) else {
            c.count("leaves_out_of_type_range", 1);
            continue;
        };
        c.count("leaves_changed", what.len() as u64);
        c.eval(1);
        c.artifact = v.write_vec().unwrap_or_default();
        c.seen(text.as_bytes());
        hostile_lib(c, f, &*v)?;
    }
    Ok(())
}
/// Mesh tables that point anywhere, sums beyond 32 bits included.
fn c04_layouts(c: &mut Case) -> R {
    let j = crate::props_foreign::hostile_mesh(c).to_string();
    let v = (fmt("Mesh").from_json)(&j).map_err(|e| Viol { msg: format!("harness: {e}"), known: None })?;
    c.count("hostile_layouts", 1);
    c.seen(j.as_bytes());
    c.artifact = v.write_vec().unwrap_or_default();
    hostile_lib(c, dfmt("MeshData"), &*v)
}
/// Animation buffers: hostile compression headers, lengths, types and frame counts.
fn c04_compressed(c: &mut Case) -> R {
    let sizes = [16 + 16 * 9 + 44, 16 + 16 * 5 + 20, 16 + 16 + 4, 16 + 16 + 4, 16, 16 + 64 + 16];
    let types = ["Transform", "UvTransform", "Float", "PatternIndex", "Boolean", "Vector4"];
    let k = c.rng.below(6);
    let mut b = vec![0u8; 0];
    let bits = |r: &mut Rng| match r.below(8) {
        0 => 0u64,
        1 => 1,
        2 => *r.pick(&[24u64, 31, 32, 33, 40, 53, 63, 64, 65, 127, 128, 255, 256, 1 << 20, u32::MAX as u64, u64::MAX]),
        _ => r.range(1, 24) as u64,
    };
    let n = [9usize, 5, 1, 1, 1, 4][k];
    let mut total = 0u64;
    let flags = if c.rng.chance(1, 8) { c.rng.u32() as u16 } else { c.rng.below(16) as u16 };
    let mut comps = vec![];
    for _ in 0..n {
        let (lo, hi) = match c.rng.below(6) {
            0 => (0.0f32, 0.0f32),
            1 => (f32::from_bits(c.rng.u32()), f32::from_bits(c.rng.u32())),
            2 => (1.0, -1.0),
            _ => (c.rng.f32_in(-5.0, 0.0), c.rng.f32_in(0.0, 5.0)),
        };
        let w = bits(&mut c.rng);
        total = total.wrapping_add(if lo == hi { 0 } else { w });
        comps.push((lo, hi, w));
    }
    let entry_bits = match c.rng.below(4) {
        0 => nasty16(&mut c.rng),
        1 => total as u16,
        2 => total.wrapping_add((flags & 1) as u64) as u16,
        _ => total.wrapping_add(1) as u16,
    };
    let frames = match c.rng.below(5) {
        0 => leaf::nasty(&mut c.rng, 8) as u32,
        _ => c.rng.below(40) as u32,
    };
    let body_at = if k == 4 { 16 } else { 16 + 16 * n };
    b.extend((if c.rng.chance(1, 10) { nasty16(&mut c.rng) } else { 4 }).to_le_bytes());
    b.extend(flags.to_le_bytes());
    b.extend((if c.rng.chance(1, 6) { nasty16(&mut c.rng) } else { body_at as u16 }).to_le_bytes());
    b.extend(entry_bits.to_le_bytes());
    b.extend((if c.rng.chance(1, 6) { leaf::nasty(&mut c.rng, sizes[k]) as u32 } else { sizes[k] as u32 }).to_le_bytes());
    b.extend(frames.to_le_bytes());
    if k != 4 {
        for (lo, hi, w) in &comps {
            b.extend(lo.to_le_bytes());
            b.extend(hi.to_le_bytes());
            b.extend(w.to_le_bytes());
        }
        let d = c.rng.bytes([44usize, 20, 4, 4, 0, 16][k]);
        b.extend(d);
    }
    let need = (frames as u64).min(200) * (total.min(600) + 1) / 8 + 1;
    let n = c.rng.range(0, need as usize + 4);
    let e = c.rng.bytes(n);
    b.extend(e);
    if c.rng.chance(1, 6) {
        let n = c.rng.below(b.len() + 1);
        b.truncate(n);
    }
    let kind = if c.rng.chance(1, 12) { c.rng.below(6) } else { k };
    let comp = if c.rng.chance(1, 10) { *c.rng.pick(&["Direct", "ConstTransform", "Constant"]) } else { "Compressed" };
    let track_frames = match c.rng.below(4) {
        0 => leaf::nasty(&mut c.rng, frames as u64) as u32,
        _ => frames,
    };
    let body = json!({"final_frame_index": 0.0, "unk1": 1, "unk2": 3, "name": "",
        "groups": [{"group_type": "Transform", "nodes": [{"name": "a", "tracks": [{"name": "t", "flags": {"track_type": types[kind], "compression_type": comp},
            "frame_count": track_frames, "transform_flags": {"bytes": [0, 0, 0, 0]}, "data_offset": 0, "data_size": b.len()}]}]}], "buffer": hex(&b)});
    let j = json!({ "V20": body }).to_string();
    c.artifact = b;
    let v = (fmt("Anim").from_json)(&j).map_err(|e| Viol { msg: format!("harness: {e}"), known: None })?;
    c.seen(j.as_bytes());
    c.count("compressed_headers", 1);
    hostile_lib(c, dfmt("AnimData"), &*v)
}
fn nasty16(r: &mut Rng) -> u16 {
    leaf::nasty(r, 16) as u16
}
/// Version 1.2 animations: every header the reader knows with buffers of every length.
fn c04_v12(c: &mut Case) -> R {
    const HEADERS: &[u32] = &[0x1003, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409, 0, 0x1004, u32::MAX];
    let h = HEADERS[c.idx as usize % HEADERS.len()];
    let buffers: Vec<Vec<u8>> = (0..=100usize)
        .map(|n| {
            let mut b = h.to_le_bytes().to_vec();
            let e = c.rng.bytes(100);
            b.extend(e);
            b.truncate(n);
            b
        })
        .collect();
    let prop = |i: u64| json!({"name": "Translate", "buffer_index": i});
    let track = |name: String, t: &str, p: Vec<Value>| json!({"name": name, "track_type": t, "properties": p});
    let file = |tracks: Vec<Value>, buffers: &[Vec<u8>]| json!({"V12": {"name": "", "unk1": 0.0, "final_frame_index": 1.0, "unk2": 0.0, "unk3": 0.0, "tracks": tracks, "buffers": buffers.iter().map(|b| hex(b)).collect::<Vec<_>>()}}).to_string();
    let types = ["Transform", "UvTransform", "Visibility"];
    let mut run = |c: &mut Case, j: String| -> R {
        let v = (fmt("Anim").from_json)(&j).map_err(|e| Viol { msg: format!("harness: {e}"), known: None })?;
        c.artifact = v.write_vec().unwrap_or_default();
        c.seen(j.as_bytes());
        c.eval(1);
        hostile_lib(c, dfmt("AnimData"), &*v)
    };
    for i in 0..buffers.len() {
        c.count("v12_buffers", 1);
        run(c, file(vec![track("a".into(), types[i % 3], vec![prop(0)])], &buffers[i..=i]))?;
    }
    // several tracks and properties, some pointing outside
    let n = c.rng.range(1, 6);
    let tracks = (0..n)
        .map(|i| {
            let k = c.rng.below(4);
            let p = (0..k).map(|_| prop(if c.rng.chance(1, 10) { *c.rng.pick(NASTY64) } else { c.rng.range(60, 100) as u64 })).collect();
            track(format!("t{i}"), types[c.rng.below(3)], p)
        })
        .collect();
    run(c, file(tracks, &buffers))
}

// ---------------------------------------------------------------- C05, data part
const DATA_CONST: u64 = 2 << 20;
fn bounded_data_read(c: &mut Case, f: &DFmt, b: &[u8], per_byte: u64, extra: u64) -> Result<Option<BoxData>, Viol> {
    c.artifact = b.to_vec();
    let mut p = Probe::new(b);
    let before = crate::mem::live();
    crate::mem::reset();
    let r = no_panic(|| (f.read)(&mut p));
    let peak = (crate::mem::peak() - before).max(0) as u64;
    let allowed = per_byte * p.delivered + DATA_CONST + extra;
    ensure!(peak <= allowed, "{}: {peak} bytes of memory for {} delivered bytes (allowed {allowed})", f.name, p.delivered);
    c.max("data_peak_bytes", peak);
    if extra == 0 && p.delivered > 4000 {
        c.max("data_peak_per_delivered_byte", peak / p.delivered);
    }
    Ok(r.ok().and_then(|r| r.ok()))
}
/// Anim data may spend a single bit on a frame of 40 bytes, and the frames are collected in growing lists.
fn per_byte(f: &DFmt) -> u64 {
    if f.name == "AnimData" { 1024 } else { 96 }
}
pub fn c05_data(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let n = c.rng.range(1, 16);
    let d = valid(f.name, &mut c.rng, n);
    let lib = d.to_lib().map_err(|e| Viol { msg: format!("{}: valid data was rejected: {e}", f.name), known: None })?;
    let b = lib.write_vec().unwrap_or_default();
    bounded_data_read(c, f, &b, per_byte(f), 0)?;
    let base = lib.json().map_err(|e| Viol { msg: e, known: None })?;
    let l = leaf::leaves(&base);
    if l.numbers.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let mut j = base.clone();
        let p = c.rng.pick(&l.numbers).clone();
        let x = leaf::at(&mut j, &p).unwrap();
        if x.is_f64() {
            continue;
        }
        *x = json!(match c.rng.below(5) {
            0 => *c.rng.pick(&[100u64, 255, 1000, 4096, 32767, 65535]),
            _ => *c.rng.pick(&[1u64 << 16, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 60, u64::MAX]),
        });
        let Ok(v) = (fmt(f.lib).from_json)(&j.to_string()) else { continue };
        let Ok(b) = v.write_vec() else { continue };
        c.count("data_conversions", 1);
        c.eval(1);
        c.seen(&b);
        bounded_data_read(c, f, &b, per_byte(f), 0)?;
    }
    Ok(())
}
/// Version 1.2 buffers: counts in every word after the header.
fn c05_v12(c: &mut Case) -> R {
    const HEADERS: &[u32] = &[0x1003, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409];
    let h = *c.rng.pick(HEADERS);
    let mut b = h.to_le_bytes().to_vec();
    let n = c.rng.below(300);
    let small = c.rng.bool();
    b.extend((0..n).map(|_| if small { c.rng.below(2) as u8 } else { c.rng.u8() }));
    for _ in 0..c.rng.below(3) {
        let at = 4 + 4 * c.rng.below(8);
        let v = *c.rng.pick(&[100u64, 1000, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 31, u32::MAX as u64]);
        put(&mut b, at, v, 4);
    }
    let n = c.rng.range(1, 4);
    let tracks: Vec<Value> = (0..n).map(|i| json!({"name": format!("t{i}"), "track_type": *c.rng.pick(&["Transform", "UvTransform", "Visibility"]), "properties": [{"name": "Translate", "buffer_index": 0}]})).collect();
    let j = json!({"V12": {"name": "", "unk1": 0.0, "final_frame_index": 1.0, "unk2": 0.0, "unk3": 0.0, "tracks": tracks, "buffers": [hex(&b)]}}).to_string();
    let v = (fmt("Anim").from_json)(&j).map_err(|e| Viol { msg: format!("harness: {e}"), known: None })?;
    let b = v.write_vec().unwrap_or_default();
    c.seen(&b);
    c.count("v12_counts_inflated", 1);
    let f = dfmt("AnimData");
    bounded_data_read(c, f, &b, 1024, 0)?;
    Ok(())
}
/// Frame counts of tracks and of compression headers that the buffer does not back.
pub fn c05_frames(c: &mut Case) -> R {
    use ssbh_lib::formats::anim::{Anim, CompressionType, TrackTypeV2};
    if c.idx % 5 == 0 {
        return c05_v12(c);
    }
    let n = c.rng.range(2, 12);
    let kind = c.rng.below(6);
    let values = crate::gen_anim::values(&mut c.rng, kind, n);
    let d = ssbh_data::anim_data::AnimData {
        major_version: 2,
        minor_version: c.rng.below(2) as u16,
        final_frame_index: 100.0,
        groups: vec![ssbh_data::anim_data::GroupData {
            group_type: ssbh_data::anim_data::GroupType::Transform,
            nodes: vec![ssbh_data::anim_data::NodeData {
                name: "n".into(),
                tracks: vec![ssbh_data::anim_data::TrackData { name: "t".into(), compensate_scale: false, transform_flags: Default::default(), values }],
            }],
        }],
    };
    let mut a: Anim = (&d).try_into().map_err(|e: ssbh_data::anim_data::error::Error| Viol { msg: format!("valid data was rejected: {e}"), known: None })?;
    let (groups, buffer) = match &mut a {
        Anim::V20 { groups, buffer, .. } => (groups, buffer),
        Anim::V21 { groups, buffer, .. } => (groups, buffer),
        _ => unreachable!(),
    };
    let t = &mut groups.elements[0].nodes.elements[0].tracks.elements[0];
    let big = *c.rng.pick(&[100u32, 1000, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 31, u32::MAX]);
    let compressed = t.flags.compression_type == CompressionType::Compressed;
    let which = c.rng.below(3);
    if which != 1 {
        t.frame_count = big;
    }
    if which != 0 && compressed {
        put(&mut buffer.elements, 12, big as u64, 4);
    }
    if c.rng.chance(1, 6) {
        t.flags.track_type = *c.rng.pick(&[TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4]);
    }
    if c.rng.chance(1, 6) {
        t.flags.compression_type = *c.rng.pick(&[CompressionType::Direct, CompressionType::Compressed, CompressionType::Constant, CompressionType::ConstTransform]);
    }
    let backed = buffer.elements.len() as u64;
    let b = {
        let mut w = std::io::Cursor::new(vec![]);
        a.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
        w.into_inner()
    };
    c.count("frame_counts_inflated", 1);
    c.seen(&b);
    let f = dfmt("AnimData");
    if let Some(v) = bounded_data_read(c, f, &b, 1024, 0)? {
        let v = v.any().downcast_ref::<ssbh_data::anim_data::AnimData>().unwrap();
        let got = v.groups[0].nodes[0].tracks[0].values.len() as u64;
        ensure!(got <= 8 * backed.max(1), "{got} frames were read from a buffer of {backed} bytes");
        c.count("frame_counts_accepted", 1);
    }
    Ok(())
}
