//! C16 (materials), C17 (skeletons), C18 (model and helper-bone data).
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::gen_data::*;
use crate::model;
use crate::schema::{gen_file, gen_loose, kinds, opts};
use ssbh_data::hlpb_data::HlpbData;
use ssbh_data::matl_data::*;
use ssbh_data::modl_data::ModlData;
use ssbh_data::skel_data::*;
use ssbh_lib::formats::hlpb::ConstraintType;
use ssbh_lib::formats::matl as lm;
use ssbh_lib::prelude::*;
use std::collections::HashMap;
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            level: "exploration",
            rule: "distinct material values written, read back and compared, with every parameter and state code also decoded from the raw bytes by an independent decoder; files of versions 1.5 and 1.6 in any parameter order compared with an independent model",
            assumptions: &["text without NUL characters", "values are compared by their debug form, so negative zero counts as different from zero"],
            must: &["materials", "raw_params", "samplers", "blend_states", "rasterizer_states", "read_v15", "read_v16", "state_conversions", "max_entries"],
            units: vec![unit("roundtrip", 30_000, 1_000_000, c16_roundtrip), unit("lists", 240, 8_000, c16_lists), unit("files", 20_000, 800_000, c16_files), unit("states", 30_000, 1_000_000, c16_states)],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "distinct skeletons (chains, stars, random forests in any order, dangling parents) written, read back and compared; world matrices compared with double-precision products within a componentwise error bound, inverses by the residual of the product; cyclic and oversized parents must be rejected",
            assumptions: &["inverse matrices are compared with the double-precision inverse within a componentwise bound on the rounding of a cofactor expansion, and not judged where the determinant is mostly rounding error", "the order used by calculate_relative_transform is a known finding"],
            must: &["bones", "world_matrices", "inverses", "projective", "cycles_rejected", "limits_rejected", "dangling_parents", "relative_transforms", "files", "max_depth", "max_bones"],
            units: vec![
                unit("roundtrip", 40_000, 1_500_000, c17_roundtrip),
                unit("lists", 240, 8_000, c17_lists),
                unit("matrices", 30_000, 1_000_000, c17_matrices),
                unit("parents", 40_000, 1_500_000, c17_parents),
                unit("limits", 16, 64, c17_limits),
                unit("relative", 40_000, 1_000_000, c17_relative),
                unit("files", 15_000, 500_000, c17_files),
            ],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "distinct model and helper-bone values written, read back and compared; generated files compared with an independent model; constraint tables checked to enumerate every constraint once",
            assumptions: &["text without NUL characters"],
            must: &["modl_roundtrips", "hlpb_roundtrips", "missing_names", "present_names", "constraints", "files", "max_entries", "max_constraints"],
            units: vec![unit("modl", 60_000, 2_000_000, c18_modl), unit("lists", 400, 12_000, c18_lists), unit("hlpb", 40_000, 1_500_000, c18_hlpb), unit("files", 20_000, 800_000, c18_files)],
        },
    ]
}
fn v(m: impl Into<String>) -> Viol {
    Viol { msg: m.into(), known: None }
}
/// Write, read back and compare debug forms; also through the by-value conversions.
fn roundtrip(c: &mut Case, d: &dyn DataVal, f: &DFmt) -> Result<Vec<u8>, Viol> {
    let b = d.write_vec().map_err(|e| v(format!("valid {} rejected: {e}", f.name)))?;
    c.seen(&b);
    c.sample(|| d.debug());
    c.artifact = b.clone();
    let e = f.read_bytes(&b).map_err(|e| v(format!("{} can't be read back: {e}", f.name)))?;
    let (x, y) = (d.debug(), e.debug());
    if x != y {
        let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60)..(at + 60).min(s.len())]).into_owned();
        return viol(format!("{} changed: ..{}.. became ..{}..", f.name, cut(&x), cut(&y)));
    }
    Ok(b)
}
/// Generated files of one low-level type against the model.
fn files(c: &mut Case, fmts: &[&str]) -> Result<(&'static str, Option<(u16, u16)>), Viol> {
    let mut tries = 0;
    loop {
        let k = c.rng.below(kinds());
        let mut o = opts(&mut c.rng, true);
        o.nulls = c.rng.chance(1, 3);
        let mut r2 = c.rng.clone();
        // look at the kind before paying for it
        let mut small = o;
        small.budget = 1;
        if !fmts.contains(&gen_file(k, &mut r2, small).fmt) {
            tries += 1;
            assert!(tries < 10_000);
            continue;
        }
        let loose = c.rng.chance(1, 3);
        let rf = if loose { gen_loose(k, &mut c.rng, o) } else { gen_file(k, &mut c.rng, o) };
        let b = if loose { &rf.loose } else { &rf.bytes };
        c.seen(b);
        c.artifact = b.clone();
        c.sample(|| rf.json.to_string());
        let d = dfmt_for_lib(rf.fmt).unwrap();
        let got = d.read_bytes(b).map_err(|e| v(format!("valid {} file rejected: {e}", rf.fmt)))?.json().map_err(v)?;
        let mut want = model::data_json(rf.fmt, &rf.json).unwrap();
        if rf.fmt == "Modl" && want["animation_file_name"].is_null() && got["animation_file_name"] == "" {
            // the low-level JSON does not tell a missing pointer from a pointer to missing text
            want["animation_file_name"] = got["animation_file_name"].clone();
        }
        if let Some(x) = model::diff(&want, &got, "") {
            return viol(format!("{} {:?}: expected and read differ at {x}", rf.fmt, rf.version));
        }
        c.count("files", 1);
        return Ok((rf.fmt, rf.version));
    }
}

// ---------------------------------------------------------------- C16
/// The documented codes, by name.
fn codes() -> &'static HashMap<(String, String), u64> {
    static C: std::sync::OnceLock<HashMap<(String, String), u64>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut m = HashMap::new();
        for l in include_str!("schema.txt").lines().filter(|l| l.starts_with("E ")) {
            let mut w = l.split_whitespace().skip(1);
            let name = w.next().unwrap();
            w.next();
            for x in w {
                let (k, n) = x.split_once('=').unwrap();
                m.insert((name.to_string(), k.to_string()), n.parse().unwrap());
            }
        }
        m
    })
}
fn code(e: &str, x: &impl std::fmt::Debug) -> Result<u64, Viol> {
    let k = format!("{x:?}");
    codes().get(&(e.to_string(), k.clone())).copied().ok_or_else(|| v(format!("{e} has no code for {k}")))
}
struct Raw<'a>(&'a [u8]);
impl Raw<'_> {
    fn u(&self, p: usize, n: usize) -> Result<u64, Viol> {
        let s = self.0.get(p..p + n).ok_or_else(|| v(format!("{p} is outside the file")))?;
        Ok(s.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn ptr(&self, p: usize) -> Result<usize, Viol> {
        Ok(p + self.u(p, 8)? as usize)
    }
    fn text(&self, p: usize) -> Result<String, Viol> {
        let s = &self.0[self.ptr(p)?..];
        let n = s.iter().position(|b| *b == 0).ok_or_else(|| v("text without end"))?;
        String::from_utf8(s[..n].to_vec()).map_err(|e| v(format!("{e}")))
    }
}
/// Decodes a version 1.6 material file and compares it with the data it was written from.
fn raw_matl(c: &mut Case, d: &MatlData, b: &[u8]) -> R {
    let r = Raw(b);
    ensure!(&b[0..4] == b"HBSS" && &b[16..20] == b"LTAM" && r.u(20, 2)? == 1 && r.u(22, 2)? == 6, "header");
    let base = r.ptr(24)?;
    ensure!(r.u(32, 8)? == d.entries.len() as u64, "material count");
    for (i, e) in d.entries.iter().enumerate() {
        let p = base + 32 * i;
        ensure!(r.text(p)? == e.material_label && r.text(p + 24)? == e.shader_label, "labels of material {i}");
        let (params, n) = (r.ptr(p + 8)?, r.u(p + 16, 8)? as usize);
        let mut at: HashMap<u64, usize> = HashMap::new();
        let total = e.blend_states.len() + e.floats.len() + e.booleans.len() + e.vectors.len() + e.rasterizer_states.len() + e.samplers.len() + e.textures.len() + e.uv_transforms.len();
        ensure!(n == total, "material {i} has {n} parameters for {total}");
        for k in 0..n {
            let q = params + 24 * k;
            let (id, kind) = (r.u(q, 8)?, r.u(q + 16, 8)?);
            let x = r.ptr(q + 8)?;
            let m = at.entry(kind).or_insert(0);
            let j = *m;
            *m += 1;
            macro_rules! param {
                ($l:expr) => {{
                    let Some(p) = $l.get(j) else { return viol(format!("material {i}: too many parameters of type {kind}")) };
                    ensure!(code("ParamId", &p.param_id)? == id, "material {i}: parameter {j} of type {kind} has id {id}");
                    &p.data
                }};
            }
            let f = |p: usize| r.u(p, 4).map(|u| u as u32);
            let eq = |name: &str, p: usize, want: u64| -> R {
                let got = r.u(p, 4)?;
                ensure!(got == want, "material {i}: {name} of parameter {j} is stored as {got:#x} instead of {want:#x}");
                Ok(())
            };
            let fl = |x: f32| x.to_bits() as u64;
            match kind {
                1 => {
                    let p = param!(e.floats);
                    ensure!(f(x)? == p.to_bits(), "float {j}");
                }
                2 => {
                    let p = param!(e.booleans);
                    ensure!(f(x)? == *p as u32, "boolean {j}");
                }
                5 => {
                    let p = param!(e.vectors);
                    for (k, w) in [p.x, p.y, p.z, p.w].iter().enumerate() {
                        eq("vector", x + 4 * k, fl(*w))?;
                    }
                }
                11 => {
                    let p = param!(e.textures);
                    ensure!(&r.text(x)? == p, "texture {j}");
                }
                14 => {
                    let p = param!(e.samplers);
                    eq("wraps", x, code("WrapMode", &p.wraps)?)?;
                    eq("wrapt", x + 4, code("WrapMode", &p.wrapt)?)?;
                    eq("wrapr", x + 8, code("WrapMode", &p.wrapr)?)?;
                    eq("min_filter", x + 12, code("MinFilter", &p.min_filter)?)?;
                    eq("mag_filter", x + 16, code("MagFilter", &p.mag_filter)?)?;
                    let ani = code("MaxAnisotropy", &p.max_anisotropy)?;
                    let ft = r.u(x + 20, 4)?;
                    ensure!((ft == 2) == (ani != 1), "material {i}: sampler {j} with anisotropy {ani} has filtering type {ft}");
                    for (k, w) in [p.border_color.r, p.border_color.g, p.border_color.b, p.border_color.a].iter().enumerate() {
                        eq("border_color", x + 24 + 4 * k, fl(*w))?;
                    }
                    eq("lod_bias", x + 48, fl(p.lod_bias))?;
                    eq("max_anisotropy", x + 52, ani)?;
                    c.count("samplers", 1);
                }
                16 => {
                    let p = param!(e.uv_transforms);
                    for (k, w) in [p.scale_u, p.scale_v, p.rotation, p.translate_u, p.translate_v].iter().enumerate() {
                        eq("uv transform", x + 4 * k, fl(*w))?;
                    }
                }
                17 => {
                    let p = param!(e.blend_states);
                    for (k, (n, w)) in [("source_color", code("BlendFactor", &p.source_color)?), ("color_operation", code("BlendOperation", &p.color_operation)?), ("destination_color", code("BlendFactor", &p.destination_color)?), ("source_alpha", code("BlendFactor", &p.source_alpha)?), ("alpha_operation", code("BlendOperation", &p.alpha_operation)?), ("destination_alpha", code("BlendFactor", &p.destination_alpha)?), ("alpha_sample_to_coverage", p.alpha_sample_to_coverage as u64)].iter().enumerate() {
                        eq(n, x + 4 * k, *w)?;
                    }
                    c.count("blend_states", 1);
                }
                18 => {
                    let p = param!(e.rasterizer_states);
                    eq("fill_mode", x, code("FillMode", &p.fill_mode)?)?;
                    eq("cull_mode", x + 4, code("CullMode", &p.cull_mode)?)?;
                    eq("depth_bias", x + 8, fl(p.depth_bias))?;
                    c.count("rasterizer_states", 1);
                }
                _ => return viol(format!("material {i}: parameter type {kind}")),
            }
            c.count("raw_params", 1);
        }
        c.count("materials", 1);
    }
    Ok(())
}
fn c16_roundtrip(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1usize, 2, 6, 12]);
    let d = matl(&mut c.rng, n);
    c16_check(c, d)
}
fn c16_lists(c: &mut Case) -> R {
    let d = with_wide_lists(&mut c.rng, |r| matl(r, 4));
    c.max("entries", d.entries.len() as u64);
    c16_check(c, d)
}
fn c16_check(c: &mut Case, d: MatlData) -> R {
    let b = roundtrip(c, &d, dfmt("MatlData"))?;
    raw_matl(c, &d, &b)?;
    let (x, y) = (Matl::try_from(&d).map_err(|e| v(e.to_string()))?, Matl::try_from(d.clone()).map_err(|e| v(e.to_string()))?);
    ensure!(x == y, "converting by value and by reference differ");
    let back = MatlData::try_from(x).map_err(|e| v(e.to_string()))?;
    ensure!(back == d, "converting the container by value changed the data");
    Ok(())
}
fn c16_files(c: &mut Case) -> R {
    let (_, ver) = files(c, &["Matl"])?;
    c.count(if ver == Some((1, 5)) { "read_v15" } else { "read_v16" }, 1);
    Ok(())
}
fn c16_states(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sampler(r);
    let l = lm::Sampler::from(&s);
    ensure!(format!("{:?}", SamplerData::from(&l)) == format!("{s:?}") && SamplerData::from(l.clone()) == s && lm::Sampler::from(s.clone()) == l, "sampler {s:?} became {:?}", SamplerData::from(&l));
    let f = BlendStateData { source_color: any(r), color_operation: any(r), destination_color: any(r), source_alpha: any(r), alpha_operation: any(r), destination_alpha: any(r), alpha_sample_to_coverage: r.bool() };
    let b = lm::BlendStateV16::from(&f);
    ensure!(BlendStateData::from(&b) == f && BlendStateData::from(b.clone()) == f && lm::BlendStateV16::from(f.clone()) == b, "blend state {f:?} became {:?}", BlendStateData::from(&b));
    let a = RasterizerStateData { fill_mode: any(r), cull_mode: any(r), depth_bias: r.f32_finite() };
    let b = lm::RasterizerStateV16::from(&a);
    ensure!(RasterizerStateData::from(&b) == a && RasterizerStateData::from(b.clone()) == a && lm::RasterizerStateV16::from(a.clone()) == b, "rasterizer state {a:?} became {:?}", RasterizerStateData::from(&b));
    let w: lm::BlendStateV16 = any(r);
    ensure!(BlendStateData::from(&w).alpha_sample_to_coverage == (w.alpha_sample_to_coverage != 0), "coverage {}", w.alpha_sample_to_coverage);
    c.seen(format!("{s:?}{f:?}{a:?}").as_bytes());
    c.sample(|| format!("{s:?} {f:?} {a:?}"));
    c.count("state_conversions", 3);
    Ok(())
}

// ---------------------------------------------------------------- C17
type M4 = [[f64; 4]; 4];
fn up(m: &[[f32; 4]; 4]) -> M4 {
    m.map(|c| c.map(|x| x as f64))
}
/// a * b for column-major matrices
fn mul(a: &M4, b: &M4) -> M4 {
    std::array::from_fn(|j| std::array::from_fn(|i| (0..4).map(|k| a[k][i] * b[j][k]).sum()))
}
fn abs(m: &M4) -> M4 {
    m.map(|c| c.map(f64::abs))
}
fn lib_mats(m: &ssbh_lib::SsbhArray<ssbh_lib::Matrix4x4>) -> Vec<[[f32; 4]; 4]> {
    m.elements.iter().map(|m| [m.col1, m.col2, m.col3, m.col4].map(|c| [c.x, c.y, c.z, c.w])).collect()
}
/// The chain from a bone up to its root, or None if it is cyclic.
fn chain(d: &SkelData, i: usize) -> Option<Vec<usize>> {
    let mut out = vec![i];
    let mut at = i;
    while let Some(p) = d.bones[at].parent_index {
        if p >= d.bones.len() {
            break;
        }
        if out.contains(&p) {
            return None;
        }
        out.push(p);
        at = p;
    }
    Some(out)
}
/// The product of a chain of local transforms and the product of the absolute values.
fn world(d: &SkelData, ch: &[usize]) -> (M4, M4) {
    let mut m = up(&d.bones[ch[0]].transform);
    let mut a = abs(&m);
    for p in &ch[1..] {
        let t = up(&d.bones[*p].transform);
        m = mul(&t, &m);
        a = mul(&abs(&t), &a);
    }
    (m, a)
}
fn close(got: &[[f32; 4]; 4], want: &M4, mag: &M4, depth: usize) -> bool {
    (0..4).all(|j| (0..4).all(|i| (got[j][i] as f64 - want[j][i]).abs() <= 1e-6 * (depth as f64 + 1.0) * mag[j][i] + 1e-37))
}
/// The inverse in double precision and, per element, the magnitude of the terms a single-precision cofactor
/// expansion adds up (a bound on its rounding error relative to the unit roundoff).
fn inverse(a: &M4) -> (M4, M4) {
    let minor = |r: usize, q: usize, sign: bool| -> f64 {
        let rows: Vec<usize> = (0..4).filter(|k| *k != r).collect();
        let cols: Vec<usize> = (0..4).filter(|k| *k != q).collect();
        let e = |i: usize, j: usize| a[cols[j]][rows[i]];
        const P: [([usize; 3], f64); 6] = [([0, 1, 2], 1.0), ([1, 2, 0], 1.0), ([2, 0, 1], 1.0), ([0, 2, 1], -1.0), ([1, 0, 2], -1.0), ([2, 1, 0], -1.0)];
        P.iter().map(|(p, s)| if sign { s * e(0, p[0]) * e(1, p[1]) * e(2, p[2]) } else { (e(0, p[0]) * e(1, p[1]) * e(2, p[2])).abs() }).sum()
    };
    let sgn = |r: usize, q: usize| if (r + q) % 2 == 0 { 1.0 } else { -1.0 };
    let det: f64 = (0..4).map(|q| a[q][0] * sgn(0, q) * minor(0, q, true)).sum();
    let mag: f64 = (0..4).map(|q| a[q][0].abs() * minor(0, q, false)).sum();
    // element (row q, column r) of the inverse is cofactor (r, q) over the determinant
    let inv: M4 = std::array::from_fn(|r| std::array::from_fn(|q| sgn(r, q) * minor(r, q, true) / det));
    let err: M4 = std::array::from_fn(|r| std::array::from_fn(|q| (minor(r, q, false) + inv[r][q].abs() * mag) / det.abs()));
    // where the determinant itself is mostly rounding error nothing can be said
    if mag * 1e-5 > det.abs() {
        return (inv, [[f64::INFINITY; 4]; 4]);
    }
    (inv, err)
}
fn c17_roundtrip(c: &mut Case) -> R {
    let style = if c.rng.bool() { SkelStyle::Any } else { SkelStyle::Geometric };
    let n = *c.rng.pick(&[1usize, 4, 12, 40, 150]);
    let d = skel(&mut c.rng, n, style);
    c17_check(c, d)
}
fn c17_lists(c: &mut Case) -> R {
    let d = with_wide_lists(&mut c.rng, |r| skel(r, 4, SkelStyle::Geometric));
    c.max("bones", d.bones.len() as u64);
    c17_check(c, d)
}
fn c17_check(c: &mut Case, d: SkelData) -> R {
    c.count("bones", d.bones.len() as u64);
    c.count("dangling_parents", d.bones.iter().filter(|b| b.parent_index.is_some_and(|p| p >= d.bones.len())).count() as u64);
    roundtrip(c, &d, dfmt("SkelData"))?;
    let l = Skel::try_from(&d).map_err(|e| v(e.to_string()))?;
    let Skel::V10 { bone_entries, transforms, .. } = &l;
    for (i, (e, b)) in bone_entries.elements.iter().zip(&d.bones).enumerate() {
        let want = b.parent_index.map(|p| p as i64).unwrap_or(-1);
        ensure!(e.index as usize == i && e.parent_index as i64 == want && e.name.to_string_lossy() == b.name && e.flags.billboard_type == b.billboard_type, "bone {i} {b:?} is stored as {e:?}");
    }
    let bits = |m: &[[f32; 4]; 4]| m.map(|c| c.map(f32::to_bits));
    ensure!(lib_mats(transforms).iter().zip(&d.bones).all(|(m, b)| bits(m) == bits(&b.transform)), "local transforms");
    // every path gives the same
    ensure!(format!("{:?}", Skel::try_from(d.clone()).map_err(|e| v(e.to_string()))?) == format!("{l:?}"), "converting by value and by reference differ");
    ensure!(format!("{:?}", SkelData::from(l)) == format!("{d:?}"), "converting the container by value changed the data");
    Ok(())
}
fn c17_matrices(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1usize, 3, 8, 20, 60]);
    let mut d = skel(&mut c.rng, n, SkelStyle::Geometric);
    if c.rng.chance(1, 3) {
        // any matrix is allowed, not only affine ones
        for b in d.bones.iter_mut() {
            if c.rng.chance(1, 3) {
                for col in b.transform.iter_mut() {
                    col[3] = match c.rng.below(3) { 0 => 0.0, 1 => col[3], _ => c.rng.f32_in(-2.0, 2.0) };
                }
                c.count("projective", 1);
            }
        }
    }
    c.seen(format!("{d:?}").as_bytes());
    c.sample(|| format!("{d:?}"));
    let b = d.write_vec().map_err(v)?;
    c.artifact = b.clone();
    let Skel::V10 { bone_entries, world_transforms, inv_world_transforms, transforms, inv_transforms } = Skel::read(&mut Cursor::new(&b)).map_err(|e| v(e.to_string()))?;
    let [w, iw, t, it] = [&world_transforms, &inv_world_transforms, &transforms, &inv_transforms].map(lib_mats);
    ensure!([w.len(), iw.len(), t.len(), it.len(), bone_entries.elements.len()] == [d.bones.len(); 5], "matrix counts");
    for i in 0..d.bones.len() {
        let ch = chain(&d, i).unwrap();
        c.max("depth", ch.len() as u64);
        let (want, mag) = world(&d, &ch);
        ensure!(close(&w[i], &want, &mag, ch.len()), "bone {i} with ancestors {ch:?}: stored world transform {:?} instead of {want:?}", w[i]);
        let helper = d.calculate_world_transform(&d.bones[i]).map_err(|e| v(e.to_string()))?;
        ensure!(close(&helper, &want, &mag, ch.len()), "bone {i}: calculated world transform {helper:?} instead of {want:?}");
        c.count("world_matrices", 1);
        for (name, m, inv) in [("world", &w[i], &iw[i]), ("local", &t[i], &it[i])] {
            let a = up(m);
            let (want, err) = inverse(&a);
            let finite = err.iter().flatten().all(|e| e.is_finite());
            if !finite {
                c.count("ill_conditioned", 1);
                continue;
            }
            for j in 0..4 {
                for i2 in 0..4 {
                    let (got, tol) = (inv[j][i2] as f64, 4e-6 * err[j][i2] + 1e-37);
                    ensure!((got - want[j][i2]).abs() <= tol, "bone {i}: element ({j}, {i2}) of the stored inverse of the {name} transform is {got} instead of {} (allowed {tol}): {m:?} {inv:?}", want[j][i2]);
                }
            }
            c.count("inverses", 1);
        }
    }
    Ok(())
}
fn c17_parents(c: &mut Case) -> R {
    let n = c.rng.range(1, 12);
    let mut d = skel(&mut c.rng, n, SkelStyle::Geometric);
    let n = d.bones.len();
    for b in d.bones.iter_mut() {
        b.parent_index = match c.rng.below(8) {
            0 => None,
            1 => Some(*c.rng.pick(&[n, n + 1, 32767])),
            2 if c.rng.chance(1, 6) => Some(*c.rng.pick(&[32768usize, 65535, 65536, 1 << 32, usize::MAX, usize::MAX - 1])),
            _ if n > 0 => Some(c.rng.below(n)),
            _ => None,
        };
    }
    c.seen(format!("{:?}", d.bones.iter().map(|b| b.parent_index).collect::<Vec<_>>()).as_bytes());
    c.sample(|| format!("{:?}", d.bones.iter().map(|b| b.parent_index).collect::<Vec<_>>()));
    let mut cyclic = false;
    for i in 0..n {
        let ch = chain(&d, i);
        let got = d.calculate_world_transform(&d.bones[i]);
        match (&ch, got) {
            (None, Ok(m)) => return viol(format!("bone {i} has a cyclic ancestry but a world transform {m:?}")),
            (None, Err(BoneTransformError::CycleDetected { index })) => {
                // the reported bone is on the cycle
                let mut at = index;
                for _ in 0..=n {
                    at = d.bones.get(at).and_then(|b| b.parent_index).unwrap_or(usize::MAX);
                    if at == index {
                        break;
                    }
                }
                ensure!(at == index, "bone {i}: the cycle is reported at {index}, which is on none");
                cyclic = true;
                c.count("cycles_rejected", 1);
            }
            (Some(ch), Ok(m)) => {
                let (want, mag) = world(&d, ch);
                ensure!(close(&m, &want, &mag, ch.len()), "bone {i}: {m:?} instead of {want:?}");
                c.count("world_matrices", 1);
            }
            (Some(_), Err(e)) => return viol(format!("bone {i} without a cycle is rejected: {e}")),
        }
    }
    let big = d.bones.iter().any(|b| b.parent_index.is_some_and(|p| p > 32767));
    match d.write_vec() {
        Ok(_) if cyclic || big => return viol(format!("written although the parents are cyclic ({cyclic}) or too large ({big})")),
        Ok(b) => {
            let e = SkelData::read(&mut Cursor::new(&b)).map_err(|e| v(e.to_string()))?;
            ensure!(e == d, "{d:?} became {e:?}");
        }
        Err(e) if !cyclic && !big => return viol(format!("valid parents are rejected: {e}")),
        Err(_) => {
            if big {
                c.count("limits_rejected", 1);
            }
        }
    }
    Ok(())
}
fn c17_limits(c: &mut Case) -> R {
    // bone indices are stored as 16 bits, parent indices as 16 bits with a sign
    let n = [32766usize, 32767, 32768, 32769, 40000, 65536, 65537, 70000][c.idx as usize % 8];
    let depth = c.idx as usize / 8 % 2;
    let bone = |i: usize| BoneData { name: format!("b{i}"), transform: local_transform(&mut Rng::new(i as u64)), parent_index: if depth == 0 || i % 50 == 0 { None } else { Some(i - 1) }, billboard_type: BillboardType::Disabled };
    let d = SkelData { major_version: 1, minor_version: 0, bones: (0..n).map(bone).collect() };
    c.seen(&[c.idx as u8]);
    let too_big = n > 65536 || d.bones.iter().any(|b| b.parent_index.is_some_and(|p| p > 32767));
    match d.write_vec() {
        Err(_) if too_big => c.count("limits_rejected", 1),
        Err(e) => return viol(format!("{n} bones are rejected: {e}")),
        Ok(_) if too_big => return viol(format!("{n} bones are written, with parents up to {:?}", d.bones.iter().map(|b| b.parent_index).max())),
        Ok(b) => {
            let e = SkelData::read(&mut Cursor::new(&b)).map_err(|e| v(e.to_string()))?;
            ensure!(e == d, "a skeleton of {n} bones changed");
            c.count("bones", n as u64);
        }
    }
    Ok(())
}
fn c17_relative(c: &mut Case) -> R {
    // documented: the transform of a bone relative to its parent, solved from the two world transforms
    let (local, parent) = (local_transform(&mut c.rng), local_transform(&mut c.rng));
    c.seen(format!("{local:?}{parent:?}").as_bytes());
    c.sample(|| format!("{local:?} {parent:?}"));
    let none = calculate_relative_transform(&local, None);
    ensure!(none.map(|c| c.map(f32::to_bits)) == local.map(|c| c.map(f32::to_bits)), "a bone without a parent has its world transform as relative transform");
    let mut d = SkelData { major_version: 1, minor_version: 0, bones: vec![] };
    let bone = |t, p| BoneData { name: String::new(), transform: t, parent_index: p, billboard_type: BillboardType::Disabled };
    d.bones.push(bone(parent, None));
    d.bones.push(bone(local, Some(0)));
    let w = d.calculate_world_transform(&d.bones[1]).map_err(|e| v(e.to_string()))?;
    let got = calculate_relative_transform(&w, Some(&parent));
    c.count("relative_transforms", 1);
    // the parent's rotation, scale and shear are moderate, so both candidates are well determined
    let near = |want: &M4| (0..4).all(|j| (0..4).all(|i| (got[j][i] as f64 - want[j][i]).abs() < 2e-2));
    if near(&up(&local)) {
        c.count("relative_inverts", 1);
        return Ok(());
    }
    // world * inverse(parent), solved from got * parent = world
    let back = mul(&up(&got), &up(&parent));
    let (a, b) = (abs(&up(&got)), abs(&up(&parent)));
    let mag = mul(&a, &b);
    let swapped = (0..4).all(|j| (0..4).all(|i| (back[j][i] - w[j][i] as f64).abs() < 1e-3 * (1.0 + mag[j][i])));
    if swapped {
        return c.known("skel-relative-transform-order", format!("the relative transform of {w:?} to {parent:?} is {got:?} instead of {local:?}"));
    }
    viol(format!("the relative transform of {w:?} to {parent:?} is {got:?} instead of {local:?}"))
}
fn c17_files(c: &mut Case) -> R {
    files(c, &["Skel"]).map(|_| ())
}

// ---------------------------------------------------------------- C18
fn c18_modl(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1usize, 4, 20]);
    let d = modl(&mut c.rng, n);
    c18_check_modl(c, d)
}
fn c18_lists(c: &mut Case) -> R {
    if c.rng.bool() {
        let d = with_wide_lists(&mut c.rng, |r| modl(r, 4));
        c.max("entries", d.entries.len().max(d.material_file_names.len()) as u64);
        c18_check_modl(c, d)
    } else {
        let d = with_wide_lists(&mut c.rng, |r| hlpb(r, 4));
        c.max("constraints", d.aim_constraints.len().max(d.orient_constraints.len()) as u64);
        c18_check_hlpb(c, d)
    }
}
fn c18_check_modl(c: &mut Case, d: ModlData) -> R {
    roundtrip(c, &d, dfmt("ModlData"))?;
    c.count("modl_roundtrips", 1);
    c.count(if d.animation_file_name.is_some() { "present_names" } else { "missing_names" }, 1);
    let l = Modl::from(&d);
    ensure!(Modl::from(d.clone()) == l && ModlData::from(l.clone()) == d && ModlData::from(&l) == d, "converting by value and by reference differ");
    Ok(())
}
fn c18_hlpb(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1usize, 4, 12]);
    let d = hlpb(&mut c.rng, n);
    c18_check_hlpb(c, d)
}
fn c18_check_hlpb(c: &mut Case, d: HlpbData) -> R {
    let b = roundtrip(c, &d, dfmt("HlpbData"))?;
    c.count("hlpb_roundtrips", 1);
    let l = Hlpb::read(&mut Cursor::new(&b)).map_err(|e| v(e.to_string()))?;
    let Hlpb::V11 { aim_constraints, orient_constraints, constraint_indices, constraint_types } = &l;
    let (i, t) = (&constraint_indices.elements, &constraint_types.elements);
    ensure!(i.len() == t.len() && aim_constraints.elements.len() == d.aim_constraints.len() && orient_constraints.elements.len() == d.orient_constraints.len(), "table lengths {} and {} for {} aim and {} orient constraints", i.len(), t.len(), d.aim_constraints.len(), d.orient_constraints.len());
    for (kind, n) in [(ConstraintType::Aim, d.aim_constraints.len()), (ConstraintType::Orient, d.orient_constraints.len())] {
        let got: Vec<u32> = i.iter().zip(t).filter(|(_, t)| **t == kind).map(|(i, _)| *i).collect();
        ensure!(got == (0..n as u32).collect::<Vec<_>>(), "{kind:?} constraints are enumerated as {got:?} for {n}");
        c.count("constraints", n as u64);
    }
    ensure!(Hlpb::from(d.clone()) == Hlpb::from(&d) && HlpbData::from(l.clone()) == d && HlpbData::from(&l) == d, "converting by value and by reference differ");
    Ok(())
}
fn c18_files(c: &mut Case) -> R {
    files(c, &["Modl", "Hlpb"]).map(|_| ())
}
