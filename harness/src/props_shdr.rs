//! C26: shader metadata, plus the shader part of C05.
use crate::core::*;
use crate::ensure;
use crate::io::*;
use crate::model::diff;
use crate::mutate::*;
use crate::props_lib::Scratch;
use serde_json::{json, Value};
use ssbh_data::shdr_data::{MetaData, ShaderBinary, ShdrData};
use ssbh_lib::formats::shdr::{Shader, ShaderStage, Shdr};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        level: "exploration",
        rule: "distinct generated shader binaries (or files of several) whose extracted metadata was compared with the values encoded by an independent encoder, plus distinct damaged binaries whose outcome was monitored",
        assumptions: &["the binary layout is the one documented in shdr_data.rs: table header at 288, code length at 2504, code at 2896, entry sizes 108, 164 and 92 bytes, strings counted with their terminator"],
        must: &["binaries", "large_tables", "shader_files", "buffers", "uniforms", "attributes", "shared_strings", "invalid_utf8", "truncated_rejected", "bad_types", "unbacked_counts", "unbacked_strings", "mutated", "damaged_in_file", "scattered_tables"],
        units: vec![
            unit("exact", 40_000, 1_500_000, exact),
            unit("large", 16, 900, large),
            unit("files", 6_000, 250_000, files),
            unit("truncate", 1_500, 60_000, truncate),
            unit("fields", 2_500, 100_000, fields),
            unit("mutated", 60_000, 2_500_000, mutated),
            unit("types", 40, 400, types),
        ],
    }]
}
const TYPES: &[(u32, &str)] = &[
    (0, "Boolean"),
    (4, "Int"),
    (7, "Unk7"),
    (20, "UnsignedInt"),
    (22, "UVec3"),
    (36, "Float"),
    (37, "Vector2"),
    (38, "Vector3"),
    (39, "Vector4"),
    (50, "Matrix4x4"),
    (67, "Sampler2d"),
    (68, "Sampler3d"),
    (69, "SamplerCube"),
    (73, "Sampler2dArray"),
    (103, "Image2d"),
];
const SIZES: [usize; 4] = [108, 164, 92, 92];
const KEYS: [&str; 4] = ["buffers", "uniforms", "inputs", "outputs"];
pub struct Bin {
    pub bytes: Vec<u8>,
    pub meta: Value,
    pub code: Vec<u8>,
    /// positions of counts, table pointers and bases; of string offsets; of string lengths; of type codes
    pub counts: Vec<usize>,
    pub ptrs: Vec<usize>,
    pub string_offsets: Vec<usize>,
    pub string_lengths: Vec<usize>,
    pub types: Vec<usize>,
    /// end of everything the documented layout makes a reader look at
    pub needed: usize,
    pub n: [usize; 4],
}
fn w32(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
fn string_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => "gl_Position".into(),
        2 => {
            let n = r.below(60);
            r.bytes(n)
        }
        3 => "名前.ünïcødé[0]".into(),
        4 if r.chance(1, 300) => vec![b'b'; *r.pick(&[65_534usize, 65_535, 65_536, 70_000])],
        4 => vec![b'a'; r.below(3000)],
        5 => {
            // text with bytes that are not UTF-8 or a terminator inside
            let mut v = r.name().into_bytes();
            let at = r.below(v.len() + 1);
            v.insert(at, *r.pick(&[0xffu8, 0xc3, 0x80, 0, 0xed]));
            v
        }
        _ => r.name().into_bytes(),
    }
}
fn word(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0u32, 1, 2, 16, 4096, i32::MAX as u32, i32::MIN as u32, u32::MAX]),
        1 => r.below(64) as u32,
        _ => r.u32(),
    }
}
/// An independent encoder of the documented layout, with the tables and strings anywhere.
pub fn gen(r: &mut Rng, max: usize) -> Bin {
    let n: [usize; 4] = std::array::from_fn(|_| match r.below(4) {
        0 => 0,
        1 => r.below(3),
        _ => r.below(max + 1),
    });
    gen_n(r, n)
}
/// The same with given numbers of entries.
pub fn gen_n(r: &mut Rng, n: [usize; 4]) -> Bin {
    let code_len = match r.below(4) {
        0 => 0,
        1 => r.below(16),
        _ if r.chance(1, 150) => *r.pick(&[65_535usize, 65_536, 70_001, 300_000]),
        _ => r.below(2000),
    };
    let code = r.bytes(code_len);
    let mut end = 2896 + code_len;
    // strings
    let mut pool: Vec<(Vec<u8>, u32, u32)> = vec![];
    let mut text: Vec<u8> = vec![];
    let lead = r.below(40);
    text.extend(r.bytes(lead));
    let total: usize = n.iter().sum();
    for _ in 0..total {
        if !pool.is_empty() && r.chance(1, 5) {
            continue;
        }
        let s = string_bytes(r);
        let at = text.len() as u32;
        let len = if s.is_empty() && r.bool() { 0 } else { s.len() as u32 + 1 };
        text.extend(&s);
        text.push(if r.chance(1, 10) { 7 } else { 0 });
        let pad = r.below(3);
        text.extend(r.bytes(pad));
        pool.push((s, at, len));
        // a string inside another string
        if len > 3 && r.chance(1, 8) {
            let (s, at, _) = pool.last().unwrap().clone();
            let (a, l) = (r.below(s.len()), 0);
            let l = l + r.below(s.len() - a + 1);
            pool.push((s[a..a + l].to_vec(), at + a as u32, l as u32 + 1));
        }
    }
    // place the four tables and the string section after the code or in the unused space between the headers
    let scattered = r.chance(1, 4);
    let mut gap = 288 + 112;
    let mut place = |r: &mut Rng, len: usize, end: &mut usize| -> usize {
        if scattered && gap + len <= 2504 {
            let at = gap;
            gap += len;
            at
        } else {
            let g = r.below(20);
            let at = *end + g;
            *end = at + len;
            at
        }
    };
    let mut order: Vec<usize> = (0..5).collect();
    for i in (1..5).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut at = [0usize; 5];
    for &k in &order {
        let len = if k < 4 { n[k] * SIZES[k] } else { text.len() };
        at[k] = place(r, len, &mut end);
    }
    let base = if r.bool() { *at.iter().min().unwrap() } else { r.below(*at.iter().min().unwrap() + 1) };
    end += if r.bool() { 0 } else { r.below(50) };
    let mut b = r.bytes(end.max(2896));
    b[2896..2896 + code_len].copy_from_slice(&code);
    w32(&mut b, 2504, code_len as u32);
    let h = 288;
    let (e0, e1) = (word(r), word(r));
    w32(&mut b, h, e0);
    w32(&mut b, h + 4, base as u32);
    w32(&mut b, h + 8, e1);
    let mut out = Bin { bytes: vec![], meta: Value::Null, code, counts: vec![], ptrs: vec![h + 4, h + 44 + 32 + 28], string_offsets: vec![], string_lengths: vec![], types: vec![], needed: 2896 + code_len, n };
    for k in 0..4 {
        let c = h + 44 + k * 8;
        w32(&mut b, c, n[k] as u32);
        // an empty table may point anywhere
        let p = if n[k] == 0 && r.chance(1, 3) { word(r) } else { (at[k] - base) as u32 };
        w32(&mut b, c + 4, p);
        out.counts.push(c);
        out.ptrs.push(c + 4);
    }
    let s = h + 44 + 32 + 20;
    let (e2, e3) = (word(r), word(r));
    w32(&mut b, s, e2);
    w32(&mut b, s + 4, e3);
    w32(&mut b, s + 8, (at[4] - base) as u32);
    b[at[4]..at[4] + text.len()].copy_from_slice(&text);
    let mut meta = serde_json::Map::new();
    for k in 0..4 {
        let mut list = vec![];
        for i in 0..n[k] {
            let e = at[k] + i * SIZES[k];
            let (s, off, len) = r.pick(&pool).clone();
            w32(&mut b, e, off);
            w32(&mut b, e + 4, len);
            out.string_offsets.push(e);
            out.string_lengths.push(e + 4);
            out.needed = out.needed.max(at[4] + off as usize + (len as usize).saturating_sub(1));
            let f = e + 40;
            let name = String::from_utf8_lossy(if len == 0 { &[] } else { &s }).to_string();
            let mut put = |i: usize, v: u32| {
                w32(&mut b, f + i * 4, v);
                v
            };
            let last;
            list.push(match k {
                0 => {
                    let v: Vec<u32> = (0..9).map(|i| put(i, word(r))).collect();
                    last = 36;
                    json!({"name": name, "used_size_in_bytes": v[0], "uniform_count": v[1], "unk4": v[2] as i32, "unk5": v[3] as i32, "unk6": v[4] as i32, "unk7": v[5] as i32})
                }
                1 => {
                    let t = r.pick(TYPES);
                    put(0, t.0);
                    let v: Vec<u32> = (1..16).map(|i| put(i, word(r))).collect();
                    last = 64;
                    out.types.push(f);
                    json!({"name": name, "data_type": t.1, "buffer_index": v[0] as i32, "uniform_buffer_offset": v[1] as i32, "unk11": v[8] as i32})
                }
                _ => {
                    let t = r.pick(TYPES);
                    put(0, t.0);
                    let v: Vec<u32> = (1..5).map(|i| put(i, word(r))).collect();
                    last = 20;
                    out.types.push(f);
                    json!({"name": name, "data_type": t.1, "location": v[1] as i32})
                }
            });
            out.needed = out.needed.max(f + last);
        }
        meta.insert(KEYS[k].into(), Value::Array(list));
    }
    out.meta = Value::Object(meta);
    out.bytes = b;
    out
}
fn read(b: &[u8]) -> Result<Result<Value, String>, String> {
    no_panic(|| MetaData::read(&mut Cursor::new(b)).map(|m| serde_json::to_value(m).unwrap()).map_err(|e| e.to_string()))
}
fn exact(c: &mut Case) -> R {
    let max = if c.idx % 2000 == 0 { 1300 } else if c.idx % 50 == 0 { 120 } else { 6 };
    let g = gen(&mut c.rng, max);
    compare(c, g)
}
/// Tables of thousands of entries.
fn large(c: &mut Case) -> R {
    let mut n = [0usize; 4];
    n[c.idx as usize % 4] = *c.rng.pick(&[4096usize, 4097, 5000, 8200, 17_000, 33_000, 65_535, 65_536, 70_000]);
    for k in n.iter_mut() {
        *k += c.rng.below(4);
    }
    c.max("largest_table", *n.iter().max().unwrap() as u64);
    let g = gen_n(&mut c.rng, n);
    c.count("large_tables", 1);
    compare(c, g)
}
fn compare(c: &mut Case, g: Bin) -> R {
    c.artifact = g.bytes.clone();
    c.seen(&g.bytes);
    let got = match read(&g.bytes) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return viol(format!("a well-formed shader binary was rejected: {e}")),
        Err(e) => return viol(format!("reading a well-formed shader binary panicked: {e}")),
    };
    if let Some(d) = diff(&g.meta, &got, "") {
        return viol(format!("metadata differs from the encoded: {d}"));
    }
    let s = ShaderBinary::read(&mut Cursor::new(&g.bytes)).map_err(|e| Viol { msg: format!("shader binary: {e}"), known: None })?;
    ensure!(s.program_code == g.code, "program code differs: {} bytes instead of {}", s.program_code.len(), g.code.len());
    // a stream that is not at its start, and one that delivers a few bytes at a time
    let mut p = Probe::new(&g.bytes);
    p.max_chunk = c.rng.range(1, 9);
    let m = MetaData::read(&mut p).map_err(|e| Viol { msg: format!("short reads: {e}"), known: None })?;
    ensure!(serde_json::to_value(m).unwrap() == got, "short reads change the metadata");
    if c.idx % 40 == 0 {
        let d = Scratch::new();
        let p = d.path("shader.bin");
        std::fs::write(&p, &g.bytes).unwrap();
        let m = MetaData::from_file(&p).map_err(|e| Viol { msg: format!("from_file: {e}"), known: None })?;
        ensure!(serde_json::to_value(m).unwrap() == got, "from_file and read differ");
    }
    c.count("binaries", 1);
    c.count("buffers", g.n[0] as u64);
    c.count("uniforms", g.n[1] as u64);
    c.count("attributes", (g.n[2] + g.n[3]) as u64);
    c.max("entries", g.n.iter().sum::<usize>() as u64);
    let mut o: Vec<_> = g.string_offsets.iter().map(|p| get(&g.bytes, *p, 4)).collect();
    let before = o.len();
    o.sort();
    o.dedup();
    c.count("shared_strings", (o.len() < before) as u64);
    c.count("invalid_utf8", g.meta.to_string().contains('\u{fffd}') as u64);
    c.count("scattered_tables", g.ptrs.iter().skip(2).zip(&g.n).any(|(p, n)| *n > 0 && get(&g.bytes, *p, 4) + get(&g.bytes, 292, 4) < 2504) as u64);
    Ok(())
}
/// Every type code: the documented ones map to their types, all others are rejected.
fn types(c: &mut Case) -> R {
    let g = loop {
        let g = gen(&mut c.rng, 4);
        if !g.types.is_empty() {
            break g;
        }
    };
    let at = *c.rng.pick(&g.types);
    let mut codes: Vec<u32> = (0..300).collect();
    for t in TYPES {
        codes.extend([t.0 | 0x100, t.0 | 0x10000, t.0 | 0x8000_0000, t.0 << 8, t.0.wrapping_neg()]);
    }
    codes.push(u32::MAX);
    for v in codes {
        let mut b = g.bytes.clone();
        w32(&mut b, at, v);
        c.artifact = b.clone();
        c.eval(1);
        c.seen(&b);
        let known = TYPES.iter().find(|t| t.0 == v);
        match (read(&b), known) {
            (Err(e), _) => return viol(format!("type code {v} caused a panic: {e}")),
            (Ok(Ok(m)), Some(t)) => {
                let all: Vec<&Value> = ["uniforms", "inputs", "outputs"].iter().flat_map(|k| m[*k].as_array().unwrap()).collect();
                let i = g.types.iter().position(|p| *p == at).unwrap();
                ensure!(all[i]["data_type"] == t.1, "type code {v} was read as {}", all[i]["data_type"]);
            }
            (Ok(Err(e)), Some(_)) => return viol(format!("type code {v} was rejected: {e}")),
            (Ok(Ok(_)), None) => return viol(format!("undefined type code {v} was accepted")),
            (Ok(Err(_)), None) => c.count("bad_types", 1),
        }
    }
    Ok(())
}
/// A strict model of which damaged binaries may still be read: everything read lies inside the file.
fn judge(c: &mut Case, b: &[u8], what: &str) -> Result<bool, Viol> {
    c.artifact = b.to_vec();
    c.eval(1);
    c.seen(b);
    let mut p = Probe::new(b);
    let before = crate::mem::live();
    crate::mem::reset();
    let r = no_panic(|| MetaData::read(&mut p).map_err(|e| e.to_string()));
    let peak = (crate::mem::peak() - before).max(0) as u64;
    let allowed = 96 * p.delivered + (1 << 20);
    ensure!(peak <= allowed, "{what}: {peak} bytes of memory for {} bytes read of a file of {}", p.delivered, b.len());
    c.max("peak_bytes", peak);
    let r = match r {
        Err(e) => return viol(format!("{what}: panicked: {e}")),
        Ok(r) => r,
    };
    let want = decode(b);
    match (&r, &want) {
        (Ok(m), Some(w)) => {
            let m = serde_json::to_value(m).unwrap();
            if let Some(d) = diff(w, &m, "") {
                return viol(format!("{what}: read with other contents than stored: {d}"));
            }
        }
        (Ok(_), None) => return viol(format!("{what}: reported success although the file does not contain what its tables refer to")),
        (Err(e), Some(_)) => return viol(format!("{what}: rejected although all that is referred to is present: {e}")),
        (Err(_), None) => {}
    }
    Ok(r.is_ok())
}
/// An independent decoder of the documented layout; nothing when something referred to is missing or undefined.
fn decode(b: &[u8]) -> Option<Value> {
    let u = |at: u64| -> Option<u32> {
        let at = usize::try_from(at).ok()?;
        Some(u32::from_le_bytes(b.get(at..at.checked_add(4)?)?.try_into().unwrap()))
    };
    let h = 288;
    let base = u(h + 4)? as u64;
    u(h + 8)?;
    u(h + 44 + 32 + 28)?;
    let strings = base + u(h + 44 + 32 + 28)? as u64;
    let code_len = u(2504)? as u64;
    if code_len > 0 && 2896 + code_len > b.len() as u64 {
        return None;
    }
    let mut m = serde_json::Map::new();
    // the tables must all be complete before any of the names matters
    for k in 0..4u64 {
        let n = u(h + 44 + k * 8)? as u64;
        let p = base + u(h + 48 + k * 8)? as u64;
        let mut list = vec![];
        for i in 0..n {
            let e = p + i * SIZES[k as usize] as u64;
            let f = e + 40;
            let name = {
                let at = strings + u(e)? as u64;
                let len = (u(e + 4)? as u64).saturating_sub(1);
                if len == 0 {
                    String::new()
                } else {
                    String::from_utf8_lossy(b.get(usize::try_from(at).ok()?..usize::try_from(at.checked_add(len)?).ok()?)?).to_string()
                }
            };
            let ty = |at: u64| -> Option<&str> {
                let v = u(at)?;
                TYPES.iter().find(|t| t.0 == v).map(|t| t.1)
            };
            list.push(match k {
                0 => {
                    u(f + 32)?;
                    json!({"name": name, "used_size_in_bytes": u(f)?, "uniform_count": u(f + 4)?, "unk4": u(f + 8)? as i32, "unk5": u(f + 12)? as i32, "unk6": u(f + 16)? as i32, "unk7": u(f + 20)? as i32})
                }
                1 => {
                    u(f + 60)?;
                    json!({"name": name, "data_type": ty(f)?, "buffer_index": u(f + 4)? as i32, "uniform_buffer_offset": u(f + 8)? as i32, "unk11": u(f + 36)? as i32})
                }
                _ => {
                    u(f + 16)?;
                    json!({"name": name, "data_type": ty(f)?, "location": u(f + 8)? as i32})
                }
            });
        }
        m.insert(KEYS[k as usize].into(), Value::Array(list));
    }
    Some(Value::Object(m))
}
fn truncate(c: &mut Case) -> R {
    let g = gen(&mut c.rng, 4);
    let mut cuts: Vec<usize> = vec![0, 1, 287, 288, 291, 292, 331, 332, 395, 396, 399, 400, 2503, 2504, 2507, 2508, 2895, 2896];
    cuts.extend(g.needed.saturating_sub(4)..=g.bytes.len().min(g.needed + 2));
    for _ in 0..60 {
        cuts.push(288 + c.rng.below(g.bytes.len() - 288));
    }
    for n in cuts {
        if n >= g.bytes.len() {
            continue;
        }
        let ok = judge(c, &g.bytes[..n], &format!("truncated to {n} of {} bytes", g.bytes.len()))?;
        c.count(if ok { "truncated_still_complete" } else { "truncated_rejected" }, 1);
    }
    Ok(())
}
fn fields(c: &mut Case) -> R {
    let g = gen(&mut c.rng, 5);
    let mut put_all = |c: &mut Case, at: &[usize], counter: &str, what: &str| -> R {
        if at.is_empty() {
            return Ok(());
        }
        for _ in 0..8 {
            let p = *c.rng.pick(at);
            let old = get(&g.bytes, p, 4);
            let v = match c.rng.below(4) {
                0 => *c.rng.pick(&[0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1000_0000, 100_000]),
                1 => c.rng.below(g.bytes.len() + 100) as u64,
                2 => old.wrapping_add(c.rng.range(1, 3) as u64) & 0xffff_ffff,
                _ => old.saturating_sub(c.rng.range(1, 3) as u64),
            };
            let mut b = g.bytes.clone();
            put(&mut b, p, v, 4);
            let ok = judge(c, &b, &format!("{what} at {p} changed from {old} to {v}"))?;
            c.count(if ok { "fields_still_complete" } else { counter }, 1);
        }
        Ok(())
    };
    put_all(c, &g.counts, "unbacked_counts", "count")?;
    put_all(c, &[2504], "unbacked_code", "code length")?;
    put_all(c, &g.ptrs, "unbacked_pointers", "table or section offset")?;
    put_all(c, &g.string_offsets, "unbacked_strings", "string offset")?;
    put_all(c, &g.string_lengths, "unbacked_strings", "string length")
}
fn mutated(c: &mut Case) -> R {
    let g = gen(&mut c.rng, 5);
    let mut b = g.bytes.clone();
    let f: Vec<usize> = [&g.counts, &g.ptrs, &g.string_offsets, &g.string_lengths, &g.types].iter().flat_map(|v| v.iter().copied()).collect();
    for _ in 0..c.rng.range(1, 4) {
        match c.rng.below(5) {
            0 => {
                let e: Vec<u64> = f.iter().map(|p| *p as u64).collect();
                mutate(&mut b, &mut c.rng, &e)
            }
            1 => {
                let (x, y) = (*c.rng.pick(&f), *c.rng.pick(&f));
                let v = get(&b, x, 4);
                put(&mut b, y, v, 4);
            }
            2 => {
                let p = *c.rng.pick(&f);
                let v = c.rng.below(b.len() + 10) as u64;
                put(&mut b, p, v, 4);
            }
            3 => {
                let n = c.rng.below(b.len() + 1);
                if c.rng.chance(1, 4) {
                    b.truncate(n)
                }
            }
            _ => {
                let p = 288 + c.rng.below(112);
                let v = c.rng.u8() as u64;
                put(&mut b, p, v, 1);
            }
        }
    }
    judge(c, &b, "mutated shader binary")?;
    c.count("mutated", 1);
    Ok(())
}
const STAGES: &[(ShaderStage, &str)] = &[(ShaderStage::Vertex, "Vertex"), (ShaderStage::Geometry, "Geometry"), (ShaderStage::Fragment, "Fragment"), (ShaderStage::Compute, "Compute")];
fn files(c: &mut Case) -> R {
    let n = if c.idx % 900 == 0 { 270 } else if c.idx % 60 == 0 { 40 } else { c.rng.below(5) };
    let mut shaders = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let g = gen(&mut c.rng, 3);
        let s = c.rng.pick(STAGES);
        let name = c.rng.name();
        want.push(json!({"name": name, "shader_stage": s.1, "meta_data": g.meta}));
        shaders.push(Shader { name: name.as_str().into(), shader_stage: s.0, unk3: word(&mut c.rng), binary_size: g.bytes.len() as u64, shader_binary: g.bytes.into() });
    }
    let mut shdr = Shdr::V12 { shaders: shaders.into() };
    let bytes = |s: &Shdr| {
        let mut w = Cursor::new(vec![]);
        s.write(&mut w).unwrap();
        w.into_inner()
    };
    let b = bytes(&shdr);
    c.artifact = b.clone();
    c.seen(&b);
    let want = json!({ "shaders": want });
    let check = |how: &str, r: Result<Result<ShdrData, String>, String>| -> R {
        match r {
            Ok(Ok(d)) => match diff(&want, &serde_json::to_value(&d).unwrap(), "") {
                Some(d) => viol(format!("{how}: shader data differs from the encoded: {d}")),
                None => {
                    // and its JSON gives the same data back
                    let s = serde_json::to_string_pretty(&d).unwrap();
                    let e: ShdrData = serde_json::from_str(&s).map_err(|e| Viol { msg: format!("JSON of shader data cannot be read: {e}"), known: None })?;
                    ensure!(format!("{e:?}") == format!("{d:?}"), "JSON changes shader data");
                    Ok(())
                }
            },
            Ok(Err(e)) => viol(format!("{how}: a well-formed shader file was rejected: {e}")),
            Err(e) => viol(format!("{how}: reading a shader file panicked: {e}")),
        }
    };
    check("read", no_panic(|| ShdrData::read(&mut Cursor::new(&b)).map_err(|e| e.to_string())))?;
    check("conversion", no_panic(|| ShdrData::try_from(&shdr).map_err(|e| e.to_string())))?;
    check("owned conversion", no_panic(|| ShdrData::try_from(shdr.clone()).map_err(|e| e.to_string())))?;
    if c.idx % 20 == 0 {
        let d = Scratch::new();
        let p = d.path("shaders.nushdb");
        std::fs::write(&p, &b).unwrap();
        check("from_file", no_panic(|| ShdrData::from_file(&p).map_err(|e| e.to_string())))?;
    }
    c.count("shader_files", 1);
    c.max("shaders_per_file", n as u64);
    // one damaged shader makes the whole file an error
    if n > 0 {
        let Shdr::V12 { shaders } = &mut shdr;
        let i = c.rng.below(n);
        let e = &mut shaders.elements[i].shader_binary.elements;
        let keep = c.rng.below(2896.min(e.len()));
        e.truncate(keep);
        if decode(e).is_none() {
            let b = bytes(&shdr);
            c.artifact = b.clone();
            match no_panic(|| ShdrData::read(&mut Cursor::new(&b)).map(|_| ())) {
                Ok(Err(_)) => c.count("damaged_in_file", 1),
                Ok(Ok(())) => return viol(format!("a file with shader {i} of {n} cut to {keep} bytes was read")),
                Err(e) => return viol(format!("a file with a damaged shader caused a panic: {e}")),
            }
        }
    }
    Ok(())
}
/// C05: counts and lengths in shader binaries that the file does not back.
pub fn c05_shader(c: &mut Case) -> R {
    let g = gen(&mut c.rng, 5);
    let mut at = g.counts.clone();
    at.extend(&g.string_lengths);
    at.push(2504);
    let p = *c.rng.pick(&at);
    let mut b = g.bytes.clone();
    put(&mut b, p, *c.rng.pick(&[100u64, 1000, 1 << 16, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]), 4);
    c.artifact = b.clone();
    c.seen(&b);
    let run = |c: &mut Case, b: &[u8], whole: bool| -> R {
        let mut pr = Probe::new(b);
        let before = crate::mem::live();
        crate::mem::reset();
        let _ = no_panic(|| if whole { ShdrData::read(&mut pr).is_ok() } else { MetaData::read(&mut pr).is_ok() });
        let peak = (crate::mem::peak() - before).max(0) as u64;
        let allowed = 96 * pr.delivered + (2 << 20);
        ensure!(peak <= allowed, "shader with an inflated count or length at {p}: {peak} bytes of memory for {} delivered bytes (allowed {allowed})", pr.delivered);
        c.max("shader_peak_bytes", peak);
        Ok(())
    };
    run(c, &b, false)?;
    c.count("shader_counts_inflated", 1);
    let shdr = Shdr::V12 { shaders: vec![Shader { name: "a".into(), shader_stage: ShaderStage::Vertex, unk3: 2, binary_size: b.len() as u64, shader_binary: b.into() }].into() };
    let mut w = Cursor::new(vec![]);
    shdr.write(&mut w).unwrap();
    let b = w.into_inner();
    c.artifact = b.clone();
    run(c, &b, true)
}
