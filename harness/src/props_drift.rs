//! C30: once saved, content stays what it is – through any chain of saves, loads, conversions and version changes –
//! and editing, removing or adding one entry changes nothing else.
use crate::core::*;
use crate::ensure;
use crate::data_formats::*;
use crate::gen_data::valid_or_wide;
use crate::leaf::{at, is_variant, leaves, Step};
use crate::lib_formats::fmt;
use crate::model::diff;
use crate::schema::{gen_file, gen_loose, kinds, opts};
use serde_json::{json, Value};
use ssbh_data::anim_data::AnimData;
use ssbh_data::mesh_data::MeshData;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "exploration",
        rule: "cases: a generated or foreign file is loaded and saved once, then sent through a random chain of saves, loads, conversions to the low-level type and JSON forms, of version changes, edits of one value, and removal, reordering or joining of entries; after every step the content (and the bytes of a save) must be what the step implies; distinct = distinct starting files",
        assumptions: &["text is valid UTF-8 without null bytes and numbers are finite", "entries are compared where the format stores them independently of their neighbours"],
        must: &["AdjData_chains", "AnimData_chains", "MatlData_chains", "MeshData_chains", "MeshExData_chains", "ModlData_chains", "HlpbData_chains", "SkelData_chains", "foreign_files", "foreign_anims", "version_changes", "edits_kept", "joined", "split", "twins_AdjData", "twins_AnimData", "twins_MatlData", "twins_MeshData", "twins_MeshExData", "twins_ModlData", "twins_HlpbData", "twins_SkelData"],
        units: vec![unit("chain", 60_000, 2_000_000, chain), unit("foreign", 40_000, 1_500_000, foreign), unit("versions", 20_000, 800_000, versions), unit("edit", 60_000, 2_000_000, edit), unit("compose", 40_000, 1_500_000, compose), unit("twins", 60_000, 2_000_000, twins)],
    }]
}
fn v(m: impl Into<String>) -> Viol {
    viol::<()>(m).unwrap_err()
}
/// One save and load.
fn save(f: &DFmt, d: &dyn DataVal) -> Result<(Vec<u8>, BoxData), Viol> {
    let b = d.write_vec().map_err(|e| v(format!("{} loaded from a file can't be saved: {e}", f.name)))?;
    let n = f.read_bytes(&b).map_err(|e| v(format!("{} can't be loaded after saving: {e}", f.name)))?;
    Ok((b, n))
}
fn first_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60).min(s.len())..(i + 60).min(s.len())]).into_owned();
    format!("…{}… / …{}…", cut(a), cut(b))
}
/// Steps which must keep the content of data loaded from a saved file.
fn steps(c: &mut Case, f: &DFmt, mut d: BoxData, n: usize) -> R {
    let want = d.debug();
    let want_json = d.json().map_err(v)?;
    let finite = !nonfinite(&want);
    let mut bytes: Option<Vec<u8>> = None;
    let mut trail = vec![];
    let lf = fmt(f.lib);
    for i in 0..n {
        let k = if i == 0 { 0 } else { c.rng.below(7) };
        trail.push(k);
        d = match k {
            0 | 1 => {
                let (b, e) = save(f, &*d)?;
                if let Some(p) = &bytes {
                    ensure!(*p == b, "{}: saving unchanged content gives other bytes (steps {trail:?})", f.name);
                    c.count("byte_comparisons", 1);
                }
                bytes = Some(b);
                e
            }
            2 => (f.from_lib)(&*d.to_lib().map_err(v)?).map_err(v)?,
            3 => {
                let l = d.to_lib().map_err(v)?;
                let b = l.write_vec().map_err(|e| v(e.to_string()))?;
                let l = lf.read_bytes(&b).map_err(v)?;
                (f.from_lib)(&*l).map_err(v)?
            }
            4 if lf.via_ssbh.is_some() => {
                let b = d.write_vec().map_err(v)?;
                let (b, l) = (lf.via_ssbh.unwrap())(&b).map_err(v)?;
                let e = f.read_bytes(&b).map_err(v)?;
                let g = (f.from_lib)(&*l).map_err(v)?;
                ensure!(e.debug() == g.debug(), "{}: content differs between the container's value and its bytes", f.name);
                e
            }
            5 if finite => (f.from_json)(&d.json_string().map_err(v)?).map_err(v)?,
            6 if finite => {
                let l = d.to_lib().map_err(v)?;
                let t = l.debug();
                if nonfinite(&t) {
                    continue; // computed matrices of extreme values
                }
                let l = (lf.from_json)(&l.json_string().map_err(v)?).map_err(v)?;
                (f.from_lib)(&*l).map_err(v)?
            }
            _ => continue,
        };
        c.count("steps", 1);
        let got = d.debug();
        if got != want {
            // -0.0 and 0.0 have different texts, so this also sees signs of zero
            return viol(format!("{}: content changed after steps {trail:?}: {}", f.name, first_diff(&want, &got)));
        }
        if finite {
            ensure!(d.json().map_err(v)? == want_json, "{}: JSON changed after steps {trail:?}", f.name);
        }
    }
    c.count(&format!("{}_chains", f.name), 1);
    Ok(())
}
fn start(c: &mut Case, f: &'static DFmt, size: usize) -> Option<BoxData> {
    let d0 = valid_or_wide(f.name, &mut c.rng, size);
    let b = d0.write_vec().ok()?;
    c.seen(&b);
    c.artifact = b.clone();
    c.sample(|| d0.debug());
    f.read_bytes(&b).ok()
}
fn chain(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let size = if c.rng.chance(1, 20) { 40 } else { 8 };
    let Some(d) = start(c, f, size) else { return Ok(()) };
    // the first save may still choose another encoding of the same content; from then on the bytes stay too
    let (_, d) = {
        let want = d.debug();
        let (b, e) = save(f, &*d)?;
        ensure!(want == e.debug(), "{}: loading and saving changed the content: {}", f.name, first_diff(&want, &e.debug()));
        (b, e)
    };
    let n = c.rng.range(3, 12);
    steps(c, f, d, n)
}
/// Files of other programs: what the first save stores is what stays.
fn foreign(c: &mut Case) -> R {
    if c.idx % 3 == 0 {
        let a = crate::props_anim::foreign_anim(&mut c.rng);
        let Ok(d) = AnimData::try_from(&a) else { return Ok(()) };
        let f = dfmt("AnimData");
        let Ok(b) = d.write_vec() else { c.count("refused", 1); return Ok(()) };
        c.seen(&b);
        c.artifact = b.clone();
        let d = f.read_bytes(&b).map_err(v)?;
        let (_, d) = { let (_, e) = save(f, &*d)?; ensure!(e.debug() == d.debug(), "AnimData: saving twice changed the content: {}", first_diff(&d.debug(), &e.debug())); ((), e) };
        c.count("foreign_anims", 1);
        return steps(c, f, d, 4);
    }
    let k = c.rng.below(kinds());
    let o = opts(&mut c.rng, true);
    let loose = c.rng.bool();
    let rf = if loose { gen_loose(k, &mut c.rng, o) } else { gen_file(k, &mut c.rng, o) };
    let Some(f) = dfmt_for_lib(rf.fmt) else { return Ok(()) };
    let b = if loose { &rf.loose } else { &rf.bytes };
    c.seen(b);
    c.artifact = b.clone();
    let d = match f.read_bytes(b) { Ok(d) => d, Err(_) => { c.count("unreadable", 1); return Ok(()) } };
    let b = match d.write_vec() { Ok(b) => b, Err(_) => { c.count("refused", 1); return Ok(()) } };
    let d1 = f.read_bytes(&b).map_err(|e| v(format!("{} {:?}: can't be loaded after saving: {e}", rf.fmt, rf.version)))?;
    if !matches!(rf.fmt, "Mesh" | "Anim" | "Skel") {
        // nothing in these formats is recomputed
        let (x, y) = (d.json().map_err(v)?, d1.json().map_err(v)?);
        if let Some(m) = diff(&x, &y, "") {
            return viol(format!("{} {:?}: loading and saving changed the content: {m}", rf.fmt, rf.version));
        }
    }
    c.count("foreign_files", 1);
    let (b1, d2) = save(f, &*d1)?;
    ensure!(d2.debug() == d1.debug(), "{} {:?}: saving twice changed the content: {}", rf.fmt, rf.version, first_diff(&d1.debug(), &d2.debug()));
    ensure!(b1 == b || rf.fmt == "Anim", "{}: saving twice changed the bytes", f.name);
    steps(c, f, d2, 4)
}
fn set_version(d: &dyn DataVal, ver: (u16, u16)) -> BoxData {
    if let Some(x) = d.any().downcast_ref::<MeshData>() {
        return Box::new(MeshData { major_version: ver.0, minor_version: ver.1, objects: x.objects.clone() });
    }
    let x = d.any().downcast_ref::<AnimData>().unwrap();
    Box::new(AnimData { major_version: ver.0, minor_version: ver.1, final_frame_index: x.final_frame_index, groups: x.groups.clone() })
}
fn version(d: &dyn DataVal) -> (u16, u16) {
    match d.any().downcast_ref::<MeshData>() {
        Some(x) => (x.major_version, x.minor_version),
        None => d.any().downcast_ref::<AnimData>().map(|x| (x.major_version, x.minor_version)).unwrap(),
    }
}
fn versions(c: &mut Case) -> R {
    let (name, all): (_, &[(u16, u16)]) = if c.rng.bool() { ("MeshData", &[(1, 8), (1, 9), (1, 10)]) } else { ("AnimData", &[(2, 0), (2, 1)]) };
    let f = dfmt(name);
    let Some(mut d) = start(c, f, 5) else { return Ok(()) };
    // pass through every version once: content that only some versions can hold is given up here
    for ver in all {
        let n = set_version(&*d, *ver);
        let Ok(b) = n.write_vec() else { c.count("refused_versions", 1); return Ok(()) };
        d = f.read_bytes(&b).map_err(v)?;
    }
    (_, d) = save(f, &*d)?;
    let want = set_version(&*d, (0, 0)).debug();
    for _ in 0..4 {
        let ver = *c.rng.pick(all);
        let n = set_version(&*d, ver);
        let b = n.write_vec().map_err(|e| v(format!("{name}: content of version {ver:?} can't be saved: {e}")))?;
        d = f.read_bytes(&b).map_err(v)?;
        ensure!(version(&*d) == ver, "{name}: saved as {ver:?} but loaded as {:?}", version(&*d));
        let j = set_version(&*d, (0, 0)).debug();
        ensure!(j == want, "{name}: changing the version to {ver:?} changed the content: {}", first_diff(&want, &j));
        c.count("version_changes", 1);
    }
    Ok(())
}
fn show(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Key(k) => format!(".{k}"), Step::At(i) => format!("[{i}]") }).collect()
}
/// Everything but the edited value stays.
fn edit(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let Some(d) = start(c, f, 6) else { return Ok(()) };
    let (_, d) = save(f, &*d)?;
    let j0 = d.json().map_err(v)?;
    let l = leaves(&j0);
    let mut p = {
        let set = if c.rng.bool() && !l.texts.is_empty() { &l.texts } else { &l.numbers };
        if set.is_empty() { return Ok(()) }
        c.rng.pick(set).clone()
    };
    if matches!(p.first(), Some(Step::Key(k)) if k.ends_with("_version")) {
        return Ok(());
    }
    let mut j = j0.clone();
    {
        let x = at(&mut j, &p).unwrap();
        *x = match &*x {
            Value::String(s) if is_variant(s) => return Ok(()),
            Value::String(s) => json!(match c.rng.below(3) { 0 => format!("{s}x"), 1 => "renamed".to_string(), _ => format!("é{s}") }),
            Value::Number(n) if n.is_f64() => json!(*c.rng.pick(&[0.5f32, 1.0, -2.0, 0.25, 0.0])),
            Value::Number(n) => match n.as_u64() { Some(0) => json!(1), Some(k) => json!(k - 1), None => json!(-1) },
            _ => return Ok(()),
        };
    }
    let Ok(e) = (f.from_json)(&j.to_string()) else { c.count("not_an_edit", 1); return Ok(()) };
    let Ok(b) = e.write_vec() else { c.count("edits_refused", 1); return Ok(()) };
    let mut got = f.read_bytes(&b).map_err(v)?.json().map_err(v)?;
    // animation tracks choose their ranges from all of their values, so a track is the unit there
    if f.name == "AnimData" {
        if let Some(i) = p.iter().position(|s| matches!(s, Step::Key(k) if k == "values")) {
            p.truncate(i + 1);
        }
    }
    let (exact, mut want) = (j.clone(), j);
    if let (Some(x), Some(y)) = (at(&mut want, &p), at(&mut got, &p)) {
        if f.name == "AnimData" || f.name == "MeshData" {
            // stored with the format's precision: judged by C11 and C13
            *x = Value::Null;
            *y = Value::Null;
        }
    }
    let _ = exact;
    if let Some(m) = diff(&want, &got, "") {
        return viol(format!("{}: editing {} also changed {m}", f.name, show(&p)));
    }
    c.count("edits_kept", 1);
    c.count(&format!("edits_{}", f.name), 1);
    Ok(())
}
fn lists(name: &str) -> &'static [&'static str] {
    match name {
        "AdjData" | "MatlData" | "ModlData" => &["entries"],
        "AnimData" => &["groups"],
        "MeshData" => &["objects"],
        "MeshExData" => &["mesh_object_groups"],
        "HlpbData" => &["aim_constraints", "orient_constraints"],
        _ => &[],
    }
}
/// Joining, splitting and reordering entries gives the joined, split and reordered content.
fn compose(c: &mut Case) -> R {
    const N: [&str; 7] = ["AdjData", "AnimData", "MatlData", "MeshData", "MeshExData", "ModlData", "HlpbData"];
    let f = dfmt(N[c.idx as usize % 7]);
    let (Some(a), Some(b)) = (start(c, f, 5), start(c, f, 5)) else { return Ok(()) };
    let (_, a) = save(f, &*a)?;
    let (_, b) = save(f, &*b)?;
    let t = a.debug() + &b.debug();
    if nonfinite(&t) {
        return Ok(()); // values outside the half-precision range
    }
    let (mut ja, jb) = (a.json().map_err(v)?, b.json().map_err(v)?);
    if f.name == "MeshData" && ja["minor_version"] != jb["minor_version"] {
        return Ok(());
    }
    let how = c.rng.below(4);
    for l in lists(f.name) {
        let y = jb[*l].as_array().unwrap().clone();
        let x = ja[*l].as_array_mut().unwrap();
        match how {
            0 => x.extend(y),
            1 => {
                let k = c.rng.below(x.len() + 1);
                x.drain(..k);
            }
            2 => {
                for i in (1..x.len()).rev() {
                    let k = c.rng.below(i + 1);
                    x.swap(i, k);
                }
            }
            _ => {
                for z in y {
                    let at = c.rng.below(x.len() + 1);
                    x.insert(at, z);
                }
                let k = c.rng.below(x.len() + 1);
                x.truncate(k.max(1));
            }
        }
        if f.name == "MeshData" {
            // a name and subindex identify an object
            let mut used = std::collections::HashSet::new();
            x.retain(|o| used.insert((o["name"].to_string(), o["subindex"].to_string())));
        }
    }
    let d = (f.from_json)(&ja.to_string()).map_err(v)?;
    let Ok(bytes) = d.write_vec() else { c.count("compositions_refused", 1); return Ok(()) };
    let got = f.read_bytes(&bytes).map_err(v)?.json().map_err(v)?;
    if let Some(m) = diff(&ja, &got, "") {
        return viol(format!("{}: composition {how} changed an entry: {m}", f.name));
    }
    c.count(if how == 0 || how == 3 { "joined" } else { "split" }, 1);
    Ok(())
}

/// An entry and a copy of it that differs in one value are stored like each of them alone.
fn twins(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let Some(d) = start(c, f, 6) else { return Ok(()) };
    let (_, d) = save(f, &*d)?;
    let t = d.debug();
    if nonfinite(&t) {
        return Ok(());
    }
    let j0 = d.json().map_err(v)?;
    let l = leaves(&j0);
    let p = {
        let set = if c.rng.chance(1, 4) && !l.texts.is_empty() { &l.texts } else { &l.numbers };
        if set.is_empty() { return Ok(()) }
        c.rng.pick(set).clone()
    };
    // the entries (objects in lists) around the value
    let mut around = vec![];
    for k in 0..p.len() {
        if matches!(&p[k], Step::Key(k) if k == "values" && f.name == "AnimData") {
            break; // the frames of a track share their ranges
        }
        if f.name == "MeshData" && k > 2 && !matches!(&p[k - 1], Step::Key(k) if k == "bone_influences") {
            continue; // vertex attributes are named by their position
        }
        if let Step::At(i) = p[k] {
            let mut j = j0.clone();
            if at(&mut j, &p[..=k]).is_some_and(|x| x.is_object()) {
                around.push((k, i));
            }
        }
    }
    if around.is_empty() { return Ok(()) }
    let (k, i) = *c.rng.pick(&around);
    let mut j = j0.clone();
    let entry = at(&mut j, &p[..=k]).unwrap().clone();
    let mut twin = entry.clone();
    {
        let x = at(&mut twin, &p[k + 1..]).unwrap();
        *x = match &*x {
            Value::String(s) if is_variant(s) => return Ok(()),
            Value::String(s) => json!(format!("{s}x")),
            Value::Number(n) if n.is_f64() => { let f = n.as_f64().unwrap() as f32; json!(match c.rng.below(3) { 0 => -f, 1 => f * 0.5, _ => *c.rng.pick(&[0.5f32, 1.0, 0.0]) }) },
            Value::Number(n) => match n.as_u64() { Some(0) => json!(1), Some(k) => json!(k - 1), None => json!(-1) },
            _ => return Ok(()),
        };
    }
    if f.name == "MeshData" && k == 1 {
        // a name and subindex identify an object
        twin["subindex"] = json!(twin["subindex"].as_u64().unwrap_or(0) ^ 0x5a5a5a);
    }
    let through = |j: &Value| -> Result<Option<Value>, Viol> {
        let Ok(e) = (f.from_json)(&j.to_string()) else { return Ok(None) };
        let Ok(b) = e.write_vec() else { return Ok(None) };
        f.read_bytes(&b).map_err(v)?.json().map(Some).map_err(v)
    };
    let list = &p[..k];
    // the twin instead of the entry
    *at(&mut j, &p[..=k]).unwrap() = twin.clone();
    let Some(mut alone) = through(&j)? else { c.count("twins_refused", 1); return Ok(()) };
    let Some(want_twin) = at(&mut alone, &p[..=k]).cloned() else { return viol(format!("{}: {} is gone after an edit", f.name, show(&p[..=k]))) };
    // both
    *at(&mut j, &p[..=k]).unwrap() = entry.clone();
    let where_ = { let n = at(&mut j, list).unwrap().as_array().unwrap().len(); if c.rng.bool() { i + 1 } else { n } };
    at(&mut j, list).unwrap().as_array_mut().unwrap().insert(where_, twin);
    let Some(mut got) = through(&j)? else { c.count("twins_refused", 1); return Ok(()) };
    let stored = at(&mut got, list).and_then(|x| x.as_array_mut()).map(|x| (x.len() > where_).then(|| x.remove(where_))).flatten();
    let Some(stored) = stored else { return viol(format!("{}: a copy of {} is gone", f.name, show(&p[..=k]))) };
    if let Some(m) = diff(&want_twin, &stored, "") {
        return viol(format!("{}: a copy of {} with another {} is stored differently next to the original than instead of it: {m}", f.name, show(&p[..=k]), show(&p[k + 1..])));
    }
    if let Some(m) = diff(&j0, &got, "") {
        return viol(format!("{}: adding a copy of {} with another {} changed {m}", f.name, show(&p[..=k]), show(&p[k + 1..])));
    }
    c.count("twins", 1);
    c.count(&format!("twins_{}", f.name), 1);
    Ok(())
}
