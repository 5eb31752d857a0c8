//! Animation properties: C10, C11, C12.
use crate::core::*;
use crate::ensure;
use crate::gen_anim::{self, *};
use ssbh_data::anim_data::*;
use ssbh_lib::formats::anim::{Anim, CompressionType, Group, Node, TrackFlags, TrackV2, TransformFlags as LibFlags};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            level: "exploration",
            rule: "distinct written animations (whole files) whose structure, flags, track placement and values were compared with the source and with an independent decoder",
            assumptions: &["names without NUL characters; finite values; compensate-scale only on transform tracks with at least one frame (documented meaning)"],
            must: &["tracks", "exact_tracks", "compressed_tracks", "constant_collapsed", "multi_track_files", "index_tracks_compressed", "bool_tracks_compressed"],
            units: vec![unit("roundtrip", 250_000, 8_000_000, c10_roundtrip), unit("long", 2_000, 10_000, c10_long), unit("lists", 160, 5_000, c10_lists), unit("frames", 16, 160, c10_frames), unit("many_tracks", 200, 5_000, c10_many)],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "distinct lossy tracks (sequence of values) whose every decoded component was compared with the original against the step of the range stored in the file",
            assumptions: &["tolerance: 2.5 quantisation steps plus 4 float roundings of the largest range bound (the encoder works in single precision); rotation w compared through its square; finite values, unit quaternions (norm within 1e-6)"],
            must: &["components", "transform_frames", "uv_frames", "float_frames", "vector_frames", "extremes_checked", "constant_components", "negative_w"],
            units: vec![unit("tracks", 300_000, 8_000_000, c11_tracks), unit("long", 200, 8_000, c11_long)],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "distinct hand-encoded track buffers (any widths, ranges, defaults, flags, placement) decoded by the library and by an independent decoder",
            assumptions: &["bit widths 0..32; finite ranges; the reference decoder is an independent reimplementation of the documented formula"],
            must: &["compressed_tracks", "uncompressed_tracks", "frames_compared", "rejections_agreed", "zero_bit_components", "uniform_scale", "wide_components"],
            units: vec![unit("compressed", 400_000, 12_000_000, c12_compressed), unit("uncompressed", 80_000, 2_000_000, c12_uncompressed), unit("hostile", 200_000, 6_000_000, c12_hostile)],
        },
    ]
}

struct TrackRef<'a> {
    node: &'a str,
    t: &'a TrackData,
}
fn flat(d: &AnimData) -> Vec<TrackRef<'_>> {
    d.groups.iter().flat_map(|g| g.nodes.iter().flat_map(|n| n.tracks.iter().map(move |t| TrackRef { node: &n.name, t }))).collect()
}
fn parts(a: &Anim) -> Option<(&Vec<Group>, &Vec<u8>, f32)> {
    match a {
        Anim::V12 { .. } => None,
        Anim::V20 { groups, buffer, final_frame_index, .. } => Some((&groups.elements, &buffer.elements, *final_frame_index)),
        Anim::V21 { groups, buffer, final_frame_index, .. } => Some((&groups.elements, &buffer.elements, *final_frame_index)),
    }
}
fn lib_tracks(a: &Anim) -> Vec<&TrackV2> {
    parts(a).map(|(g, _, _)| g.iter().flat_map(|g| g.nodes.elements.iter().flat_map(|n| n.tracks.elements.iter())).collect()).unwrap_or_default()
}
fn slice<'a>(t: &TrackV2, buf: &'a [u8]) -> Option<&'a [u8]> {
    let s = t.data_offset as usize;
    buf.get(s..s.checked_add(t.data_size as usize)?)
}
/// Is every component the same in all frames (by value)?
fn constant(w: &[Vec<u32>]) -> bool {
    w.windows(2).all(|p| fl(&p[0]) == fl(&p[1]))
}
const EPS: f64 = 1.1920929e-7;

/// Compares a lossy frame with its original; `None` if all is well.
fn lossy_frame(kind: usize, orig: &[f64], got: &[f64], dec: &Decoded) -> Option<String> {
    for (i, (o, g)) in orig.iter().zip(got).enumerate() {
        match comp_of(kind, dec.flags, i) {
            Some(k) => {
                let c = &dec.comps[k];
                let big = (c.min.abs() as f64).max(c.max.abs() as f64);
                if !((c.min as f64) <= *o && *o <= c.max as f64) {
                    return Some(format!("component {i} value {o} outside the stored range {c:?}"));
                }
                let tol = 2.5 * c.step() + 4.0 * EPS * big + 1e-44;
                // the range bounds and constant components come back (up to rounding)
                let tight = 2.0 * EPS * big + 1e-44;
                let t = if c.used() == 0 || *o == c.min as f64 || *o == c.max as f64 { tight } else { tol };
                if !((o - g).abs() <= t) {
                    return Some(format!("component {i}: original {o} decoded {g} (tolerance {t:e}, range {c:?})"));
                }
            }
            None => {
                // w, rebuilt from xyz
                let mut tol = 4e-6;
                for j in 3..6 {
                    tol += 2.0 * (orig[j].abs() + 0.01) * 2.5 * dec.comps[j].step();
                }
                if !((o * o - g * g).abs() <= tol) {
                    return Some(format!("rotation w: original {o} decoded {g} (square tolerance {tol:e})"));
                }
                if *o != 0.0 && *g != 0.0 && (*o < 0.0) != (*g < 0.0) {
                    return Some(format!("rotation w changed sign: original {o} decoded {g}"));
                }
                let norm: f64 = got[3..7].iter().map(|x| x * x).sum();
                if !((norm - 1.0).abs() <= tol) {
                    return Some(format!("decoded rotation is not a unit quaternion (|q|^2 = {norm})"));
                }
            }
        }
    }
    None
}

fn check_anim(c: &mut Case, d: &AnimData) -> R {
    let lib: Anim = match Anim::try_from(d) {
        Ok(a) => a,
        Err(e) => return viol(format!("valid animation rejected: {e}; {}", brief(d))),
    };
    let mut cur = Cursor::new(vec![]);
    if let Err(e) = d.write(&mut cur) {
        return viol(format!("valid animation cannot be written: {e}"));
    }
    let bytes = cur.into_inner();
    c.artifact = bytes.clone();
    c.seen(&bytes);
    c.sample(|| brief(d));
    let back = match AnimData::read(&mut Cursor::new(&bytes)) {
        Ok(b) => b,
        Err(e) => return viol(format!("written animation cannot be read: {e}")),
    };
    let back2 = match AnimData::try_from(&lib) {
        Ok(b) => b,
        Err(e) => return viol(format!("created Anim cannot be converted back: {e}")),
    };
    ensure!(format!("{back:?}") == format!("{back2:?}"), "reading the file and converting the value disagree");
    ensure!((back.major_version, back.minor_version) == (d.major_version, d.minor_version), "version changed to {}.{}", back.major_version, back.minor_version);
    ensure!(back.final_frame_index.to_bits() == d.final_frame_index.to_bits(), "final frame index {} -> {}", d.final_frame_index, back.final_frame_index);
    ensure!(back.groups.len() == d.groups.len(), "group count {} -> {}", d.groups.len(), back.groups.len());
    for (g, h) in d.groups.iter().zip(&back.groups) {
        ensure!(g.group_type == h.group_type, "group type or order changed: {:?} -> {:?}", g.group_type, h.group_type);
        let (a, b): (Vec<_>, Vec<_>) = (g.nodes.iter().map(|n| &n.name).collect(), h.nodes.iter().map(|n| &n.name).collect());
        ensure!(a == b, "node names {a:?} -> {b:?}");
        for (n, m) in g.nodes.iter().zip(&h.nodes) {
            let (a, b): (Vec<_>, Vec<_>) = (n.tracks.iter().map(|n| &n.name).collect(), m.tracks.iter().map(|n| &n.name).collect());
            ensure!(a == b, "track names {a:?} -> {b:?}");
        }
    }
    let Some((_, buf, _)) = parts(&lib) else { return viol("version 1.2 written") };
    let lt = lib_tracks(&lib);
    let (src, got) = (flat(d), flat(&back));
    ensure!(lt.len() == src.len() && got.len() == src.len(), "track count changed");
    if src.len() > 1 {
        c.count("multi_track_files", 1);
    }
    // Placement.
    let mut ranges: Vec<(u64, u64, usize)> = vec![];
    for (i, t) in lt.iter().enumerate() {
        let (s, e) = (t.data_offset as u64, t.data_offset as u64 + t.data_size);
        ensure!(e <= buf.len() as u64, "track {i} range {s}..{e} outside the buffer of {} bytes", buf.len());
        ensure!(t.frame_count as usize == src[i].t.values.len(), "track {i} stores frame count {} for {} frames", t.frame_count, src[i].t.values.len());
        if e > s {
            ranges.push((s, e, i));
        }
    }
    ranges.sort();
    for p in ranges.windows(2) {
        ensure!(p[0].1 <= p[1].0, "tracks {} and {} overlap in the buffer", p[0].2, p[1].2);
    }
    for i in 0..src.len() {
        c.count("tracks", 1);
        let (s, g, t) = (src[i].t, got[i].t, lt[i]);
        let at = || format!("track {i} ({:?} of node {:?}, {} frames)", s.name, src[i].node, s.values.len());
        ensure!(s.transform_flags == g.transform_flags, "{}: transform flags {:?} -> {:?}", at(), s.transform_flags, g.transform_flags);
        ensure!(s.compensate_scale == g.compensate_scale, "{}: compensate_scale {} -> {}", at(), s.compensate_scale, g.compensate_scale);
        let (k, w) = words(&s.values);
        let (k2, w2) = words(&g.values);
        ensure!(k == k2 && kind_of(t.flags.track_type) == k, "{}: track type changed", at());
        let Some(b) = slice(t, buf) else { return viol(format!("{}: bad range", at())) };
        let dec = match decode(k, t.flags.compression_type, b, w.len()) {
            Ok(d) => d,
            Err(e) => return viol(format!("{}: the independent decoder rejects the stored bytes: {e}", at())),
        };
        if t.flags.compression_type != CompressionType::Compressed || k == 3 || k == 4 {
            ensure!(w2 == w, "{}: exact values changed: {:?} -> {:?}", at(), diff(&w, &w2), w2.len());
            ensure!(dec.exact == w, "{}: stored values differ from the source: {:?}", at(), diff(&w, &dec.exact));
            if t.flags.compression_type == CompressionType::Compressed {
                c.count(if k == 3 { "index_tracks_compressed" } else { "bool_tracks_compressed" }, 1);
            }
            c.count("exact_tracks", 1);
            continue;
        }
        c.count("compressed_tracks", 1);
        let orig: Vec<Vec<f64>> = w.iter().map(|x| fl(x)).collect();
        let lib_vals: Vec<Vec<f64>> = w2.iter().map(|x| fl(x)).collect();
        if w2.len() == w.len() {
            for (f, (o, g)) in orig.iter().zip(&lib_vals).enumerate() {
                if let Some(m) = lossy_frame(k, o, g, &dec) {
                    return viol(format!("{} frame {f}: {m}", at()));
                }
            }
        } else {
            ensure!(w2.len() == 1 && constant(&w), "{}: {} frames became {}", at(), w.len(), w2.len());
            ensure!(k != 0, "{}: a transform track lost its frames", at());
            ensure!(orig[0] == lib_vals[0], "{}: constant value {:?} -> {:?}", at(), orig[0], lib_vals[0]);
            c.count("constant_collapsed", 1);
        }
    }
    Ok(())
}
fn diff(a: &[Vec<u32>], b: &[Vec<u32>]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("frame {i}: {x:x?} vs {y:x?}");
        }
    }
    format!("lengths {} vs {}", a.len(), b.len())
}
fn brief(d: &AnimData) -> String {
    let mut s = format!("anim {}.{} final {}", d.major_version, d.minor_version, d.final_frame_index);
    for t in flat(d) {
        s += &format!(" [{:?}/{:?} kind {} x{} comp {}]", t.node, t.t.name, words(&t.t.values).0, t.t.values.len(), t.t.compensate_scale);
    }
    s
}
fn c10_roundtrip(c: &mut Case) -> R {
    let d = gen_anim::anim(&mut c.rng, 70);
    check_anim(c, &d)
}
fn c10_long(c: &mut Case) -> R {
    let d = gen_anim::anim(&mut c.rng, 3000);
    check_anim(c, &d)
}
fn c10_lists(c: &mut Case) -> R {
    let d = crate::gen_data::with_wide_lists(&mut c.rng, |r| gen_anim::anim(r, 6));
    c.max("groups", d.groups.len() as u64);
    c.max("nodes", d.groups.iter().map(|g| g.nodes.len()).max().unwrap_or(0) as u64);
    check_anim(c, &d)
}
/// Tracks on both sides of the 16-bit limit.
fn c10_frames(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[65_535usize, 65_536, 65_537, 70_000]);
    let k = r.below(6);
    let mut tracks = vec![TrackData { name: "T".into(), compensate_scale: false, transform_flags: TransformFlags::default(), values: gen_anim::values(r, k, n) }];
    let k = r.below(6);
    let m = r.range(1, 9);
    tracks.push(TrackData { name: "U".into(), compensate_scale: k == 0 && r.bool(), transform_flags: TransformFlags::default(), values: gen_anim::values(r, k, m) });
    let d = AnimData { major_version: 2, minor_version: r.below(2) as u16, final_frame_index: n as f32, groups: vec![GroupData { group_type: *r.pick(&GROUPS), nodes: vec![NodeData { name: "n".into(), tracks }] }] };
    c.max("frames", n as u64);
    check_anim(c, &d)
}
fn c10_many(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(50, 600);
    let mut nodes = vec![];
    let mut longest = 0;
    for i in 0..n {
        let k = r.below(6);
        let f = frames(r, 40);
        longest = longest.max(f);
        nodes.push(NodeData {
            name: format!("node{i}"),
            tracks: vec![TrackData { name: format!("t{k}"), compensate_scale: k == 0 && f > 0 && i % 2 == 0, transform_flags: TransformFlags::default(), values: gen_anim::values(r, k, f) }],
        });
    }
    let d = AnimData { major_version: 2, minor_version: (n % 2) as u16, final_frame_index: longest as f32, groups: vec![GroupData { group_type: *r.pick(&GROUPS), nodes }] };
    check_anim(c, &d)
}

// ---------------------------------------------------------------- C11
fn c11_tracks(c: &mut Case) -> R {
    let n = c.rng.range(2, 120);
    c11(c, n)
}
fn c11_long(c: &mut Case) -> R {
    let n = c.rng.range(500, 6000);
    c11(c, n)
}
fn c11(c: &mut Case, n: usize) -> R {
    let k = [0, 0, 0, 1, 2, 5, 1, 5, 2, 0][c.idx as usize / 8 % 10];
    let r = &mut c.rng;
    let vals = gen_anim::values(r, k, n);
    let pre = r.bool();
    let comp = k == 0 && r.bool();
    let flags = TransformFlags { override_translation: r.bool(), override_rotation: r.bool(), override_scale: r.bool(), override_compensate_scale: r.bool() };
    let mk = |name: &str, v: TrackValues| TrackData { name: name.into(), compensate_scale: comp, transform_flags: flags, values: v };
    let mut tracks = vec![];
    if pre {
        let m = r.range(0, 9);
        let mut t = mk("other", TrackValues::Boolean((0..m).map(|i| i % 3 == 0).collect()));
        t.compensate_scale = false;
        tracks.push(t);
    }
    let at = tracks.len();
    tracks.push(mk("T", vals.clone()));
    let d = AnimData { major_version: 2, minor_version: r.below(2) as u16, final_frame_index: n.max(10) as f32, groups: vec![GroupData { group_type: GROUPS[2], nodes: vec![NodeData { name: "n".into(), tracks }] }] };
    let lib = match Anim::try_from(&d) {
        Ok(a) => a,
        Err(e) => return viol(format!("valid animation rejected: {e}")),
    };
    let t = lib_tracks(&lib)[at];
    let (_, w) = words(&vals);
    if t.flags.compression_type != CompressionType::Compressed {
        c.count("stored_without_loss", 1);
        return Ok(());
    }
    let buf = parts(&lib).unwrap().1;
    let b = slice(t, buf).unwrap_or(&[]);
    c.seen(b);
    c.artifact = b.to_vec();
    let dec = match decode(k, t.flags.compression_type, b, n) {
        Ok(d) => d,
        Err(e) => return viol(format!("independent decoder rejects the stored track: {e}")),
    };
    let mut cur = Cursor::new(vec![]);
    let back = d.write(&mut cur).map_err(|e| e.to_string()).and_then(|_| AnimData::read(&mut Cursor::new(cur.into_inner())).map_err(|e| e.to_string()));
    let back = match back {
        Ok(b) => b,
        Err(e) => return viol(format!("write/read failed: {e}")),
    };
    let bt = &back.groups[0].nodes[0].tracks[at];
    ensure!(bt.transform_flags == flags && bt.compensate_scale == comp, "flags changed by compression: {:?} {} -> {:?} {}", flags, comp, bt.transform_flags, bt.compensate_scale);
    let (k2, w2) = words(&bt.values);
    ensure!(k2 == k, "track type changed");
    let orig: Vec<Vec<f64>> = w.iter().map(|x| fl(x)).collect();
    if w2.len() != n {
        ensure!(w2.len() == 1 && constant(&w) && k != 0, "{n} frames of a varying track became {}", w2.len());
        ensure!(fl(&w2[0]) == orig[0], "constant track {:?} -> {:?}", orig[0], fl(&w2[0]));
        c.count("constant_tracks", 1);
        return Ok(());
    }
    c.count(["transform_frames", "uv_frames", "float_frames", "", "", "vector_frames"][k], n as u64);
    c.sample(|| format!("kind {k}, {n} frames, first {:?}, ranges {:?}", orig[0], dec.comps));
    for f in 0..n {
        let got = fl(&w2[f]);
        if let Some(m) = lossy_frame(k, &orig[f], &got, &dec) {
            return viol(format!("kind {k} frame {f} of {n}: {m}"));
        }
        if let Some(m) = lossy_frame(k, &orig[f], &dec.frames[f], &dec) {
            return viol(format!("kind {k} frame {f} of {n}, decoded independently: {m}"));
        }
        c.count("components", got.len() as u64);
        for i in 0..got.len() {
            if let Some(j) = comp_of(k, dec.flags, i) {
                let cp = &dec.comps[j];
                if cp.used() == 0 {
                    c.count("constant_components", 1);
                } else if orig[f][i] == cp.min as f64 || orig[f][i] == cp.max as f64 {
                    c.count("extremes_checked", 1);
                }
            } else if orig[f][i] < 0.0 {
                c.count("negative_w", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
struct Enc {
    kind: usize,
    ctype: CompressionType,
    bytes: Vec<u8>,
    count: usize,
    has_zero: bool,
    wide: bool,
    uniform: bool,
}
fn push_bits(out: &mut Vec<bool>, v: u64, n: u64) {
    for i in 0..n {
        out.push((v >> i) & 1 == 1);
    }
}
/// A compressed track with arbitrary widths, ranges, defaults, flags and placement.
fn enc_compressed(r: &mut Rng, hostile: bool) -> Enc {
    let kind = r.below(6);
    let count = match r.below(6) {
        0 => r.below(3),
        1..=4 => r.range(1, 12),
        _ => r.range(1, 200),
    };
    let flags: u16 = match kind {
        0 => if r.bool() { 0b1101 | ((r.bool() as u16) << 1) } else { r.below(16) as u16 },
        1 => if r.bool() { 0b1111 } else { r.below(16) as u16 },
        _ => if r.bool() { 0 } else { r.below(16) as u16 },
    };
    let uniform = flags & 2 != 0;
    let mut comps: Vec<Comp> = (0..NCOMP[kind])
        .map(|i| {
            let bits = match r.below(8) {
                0 | 1 => 0,
                2 => 24,
                3 => *r.pick(&[1, 2, 31, 32, 8, 16, 7, 9, 25]),
                _ => r.below(33) as u64,
            };
            let rot = kind == 0 && (3..6).contains(&i);
            let (mut min, mut max) = if rot {
                (r.f32_in(-1.0, 0.3), r.f32_in(-0.3, 1.0))
            } else {
                match r.below(6) {
                    0 => (0.0, 1.0),
                    1 => (r.f32_finite(), r.f32_finite()),
                    2 => (r.f32_in(-100.0, 100.0), r.f32_in(-100.0, 100.0)),
                    3 => (1.0, -1.0),
                    4 => (r.f32_in(-1e-3, 0.0), r.f32_in(0.0, 1e-3)),
                    _ => (r.f32_in(-5.0, 0.0), r.f32_in(0.0, 5.0)),
                }
            };
            if r.chance(1, 8) {
                max = min;
            }
            if rot && min > max {
                std::mem::swap(&mut min, &mut max);
            }
            Comp { min, max, bits }
        })
        .collect();
    if kind == 3 {
        let b = comps[0].bits;
        let lim = if b >= 32 { 0 } else { u32::MAX - ((1u64 << b) - 1) as u32 };
        let min = if hostile && r.chance(1, 4) { r.u32() } else if lim == 0 { 0 } else { r.u32() % lim.min(1 + r.u32() % 100_000) };
        comps[0].min = f32::from_bits(min);
        comps[0].max = f32::from_bits(min.wrapping_add(r.u32() % 1000));
    }
    let sum = |i: std::ops::Range<usize>| comps[i].iter().map(|c| c.used()).sum::<u64>();
    // The order in which widths appear in one frame's bits.
    let mut order: Vec<u64> = vec![];
    match kind {
        0 => {
            if flags & 1 != 0 {
                if uniform { order.push(comps[0].used()) } else { order.extend(comps[0..3].iter().map(|c| c.used())) }
            }
            if flags & 4 != 0 {
                order.extend(comps[3..6].iter().map(|c| c.used()));
            }
            if flags & 8 != 0 {
                order.extend(comps[6..9].iter().map(|c| c.used()));
            }
            if flags & 4 != 0 {
                order.push(1);
            }
        }
        1 => {
            order.push(comps[0].used());
            if !uniform {
                order.push(comps[1].used());
            }
            order.extend(comps[2..5].iter().map(|c| c.used()));
        }
        3 => order.push(comps[0].bits),
        4 => order.push(1),
        _ => order.extend(comps.iter().map(|c| c.used())),
    }
    let _ = sum;
    let mut total: u64 = order.iter().sum();
    let mut bits: Vec<bool> = vec![];
    for _ in 0..count {
        for n in &order {
            let v = match r.below(4) {
                0 => 0,
                1 => u64::MAX,
                _ => r.u64(),
            };
            push_bits(&mut bits, v, *n);
        }
    }
    let mut data: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b as u8) << i))).collect();
    let mut default: Vec<u8> = vec![];
    if kind == 4 {
        default.push(r.below(2) as u8);
    } else {
        for i in 0..SIZES[kind] / 4 {
            if kind == 0 && i == 10 {
                default.extend((r.below(3) as u32).to_le_bytes());
            } else if kind == 0 && (3..7).contains(&i) {
                default.extend(r.f32_in(-0.5, 0.5).to_le_bytes());
            } else {
                default.extend(r.f32_finite().to_le_bytes());
            }
        }
    }
    let body = 16 + 16 * NCOMP[kind];
    // Placement of default and data: in either order, with optional gaps; data needs to run to the end.
    let gap = if r.bool() { 0 } else { r.below(9) };
    let mut out = vec![0u8; body];
    out.extend(r.bytes(gap));
    let mut default_at = out.len();
    out.extend(&default);
    let gap2 = if r.bool() { 0 } else { r.below(9) };
    out.extend(r.bytes(gap2));
    let mut data_at = out.len();
    if hostile && r.chance(1, 6) && !data.is_empty() {
        let n = r.below(data.len());
        data.truncate(n);
    }
    out.extend(&data);
    if r.chance(1, 4) {
        let n = r.below(6);
        out.extend(r.bytes(n));
    }
    if hostile {
        match r.below(7) {
            0 => total = total.wrapping_add(1),
            1 => total = total.saturating_sub(1),
            2 => default_at = *r.pick(&[0, out.len() + 1, out.len(), out.len() - 1, 65535]),
            3 => data_at = *r.pick(&[0, out.len() + 4, out.len(), 1 << 20]),
            4 => {
                let i = r.below(comps.len());
                comps[i].bits = *r.pick(&[33, 64, 1 << 32, u64::MAX, 5]);
            }
            5 => {
                let n = r.below(out.len());
                out.truncate(n.max(1));
            }
            _ => {}
        }
    }
    let put = |out: &mut Vec<u8>, p: usize, b: &[u8]| {
        if p + b.len() <= out.len() {
            out[p..p + b.len()].copy_from_slice(b)
        }
    };
    put(&mut out, 0, &4u16.to_le_bytes());
    put(&mut out, 2, &flags.to_le_bytes());
    put(&mut out, 4, &(default_at as u16).to_le_bytes());
    put(&mut out, 6, &(total as u16).to_le_bytes());
    put(&mut out, 8, &(data_at as u32).to_le_bytes());
    put(&mut out, 12, &(count as u32).to_le_bytes());
    if kind != 4 {
        for (i, c) in comps.iter().enumerate() {
            put(&mut out, 16 + 16 * i, &c.min.to_bits().to_le_bytes());
            put(&mut out, 20 + 16 * i, &c.max.to_bits().to_le_bytes());
            put(&mut out, 24 + 16 * i, &c.bits.to_le_bytes());
        }
    }
    let has_zero = kind != 4 && comps.iter().any(|c| c.used() == 0);
    let wide = comps.iter().any(|c| c.used() > 24);
    Enc { kind, ctype: CompressionType::Compressed, bytes: out, count, has_zero, wide, uniform }
}
fn place(r: &mut Rng, encs: &[Enc]) -> (Vec<TrackV2>, Vec<u8>) {
    let mut buf = vec![];
    let mut tracks = vec![];
    for (i, e) in encs.iter().enumerate() {
        if r.bool() {
            let n = r.below(17);
            buf.extend(r.bytes(n));
        }
        tracks.push(TrackV2 {
            name: format!("t{i}").as_str().into(),
            flags: TrackFlags { track_type: type_of(e.kind), compression_type: e.ctype },
            frame_count: e.count as u32,
            transform_flags: LibFlags::new().with_override_rotation(i % 2 == 0),
            data_offset: buf.len() as u32,
            data_size: e.bytes.len() as u64,
        });
        buf.extend(&e.bytes);
    }
    (tracks, buf)
}
fn mk_anim(minor: u16, tracks: &[TrackV2], buf: &[u8]) -> Anim {
    let groups: ssbh_lib::SsbhArray<Group> = vec![Group {
        group_type: GROUPS[0],
        nodes: vec![Node { name: "node".into(), tracks: tracks.to_vec().into() }].into(),
    }]
    .into();
    if minor == 0 {
        Anim::V20 { final_frame_index: 5.0, unk1: 1, unk2: 3, name: "x".into(), groups, buffer: buf.to_vec().into() }
    } else {
        Anim::V21 {
            final_frame_index: 5.0,
            unk1: 1,
            unk2: 3,
            name: "x".into(),
            groups,
            buffer: buf.to_vec().into(),
            unk_data: ssbh_lib::formats::anim::UnkData { unk1: ssbh_lib::SsbhArray::new(), unk2: ssbh_lib::SsbhArray::new() },
        }
    }
}
/// Library values against the independent decoder.
fn agree(dec: &Decoded, v: &TrackValues) -> Option<String> {
    let (k, w) = words(v);
    if k != dec.kind {
        return Some("track type differs".into());
    }
    let n = if dec.frames.is_empty() { dec.exact.len() } else { dec.frames.len() };
    if n != w.len() {
        return Some(format!("{} frames decoded, expected {n}", w.len()));
    }
    if !dec.exact.is_empty() {
        return (dec.exact != w).then(|| format!("values differ: {}", diff(&dec.exact, &w)));
    }
    for f in 0..n {
        let g = fl(&w[f]);
        let e = &dec.frames[f];
        for i in 0..g.len() {
            let ok = match comp_of(k, dec.flags, i) {
                Some(j) => {
                    let cp = &dec.comps[j];
                    let big = (cp.min.abs() as f64).max(cp.max.abs() as f64).max(e[i].abs());
                    // defaults and range ends are exact; everything else up to float rounding
                    (g[i] - e[i]).abs() <= 2.0 * EPS * big + 1e-44 && !(cp.used() == 0 && (g[i] - e[i]).abs() > 0.0)
                }
                None => {
                    if dec.flags & 4 == 0 {
                        g[i] == e[i]
                    } else {
                        let s: f64 = (3..6).map(|j| e[j] * e[j]).sum();
                        let sq = |x: f64| if x.is_sign_negative() { -x * x } else { x * x };
                        (sq(g[i]) - sq(e[i])).abs() <= 4e-6 * (1.0 + s.min(1e6))
                    }
                }
            };
            if !ok {
                return Some(format!("frame {f} component {i}: decoded {} expected {} (flags {:#b}, ranges {:?})", g[i], e[i], dec.flags, dec.comps));
            }
        }
    }
    None
}
fn c12_run(c: &mut Case, encs: Vec<Enc>) -> R {
    let (tracks, buf) = place(&mut c.rng, &encs);
    let mut key = buf.clone();
    key.push(encs.len() as u8);
    c.seen(&key);
    c.artifact = buf.clone();
    let r20 = AnimData::try_from(&mk_anim(0, &tracks, &buf)).map_err(|e| e.to_string());
    let r21 = AnimData::try_from(&mk_anim(1, &tracks, &buf)).map_err(|e| e.to_string());
    let expected: Vec<Result<Decoded, String>> = encs.iter().map(|e| decode(e.kind, e.ctype, &e.bytes, e.count)).collect();
    c.sample(|| format!("{:?}", encs.iter().map(|e| (e.kind, e.ctype, e.count, e.bytes.len())).collect::<Vec<_>>()));
    match (&r20, &r21) {
        (Ok(a), Ok(b)) => {
            ensure!(format!("{:?}", a.groups) == format!("{:?}", b.groups), "versions 2.0 and 2.1 decode differently");
            if let Some(i) = expected.iter().position(|e| e.is_err()) {
                return viol(format!("track {i} of kind {} is malformed ({}) but decoded without an error", encs[i].kind, expected[i].as_ref().unwrap_err()));
            }
            for (i, t) in a.groups[0].nodes[0].tracks.iter().enumerate() {
                let dec = expected[i].as_ref().unwrap();
                if let Some(m) = agree(dec, &t.values) {
                    return viol(format!("track {i} kind {} {:?}: {m}", encs[i].kind, encs[i].ctype));
                }
                if encs[i].kind == 0 {
                    ensure!(t.compensate_scale == dec.compensate, "compensate_scale {} expected {}", t.compensate_scale, dec.compensate);
                }
                ensure!(t.transform_flags.override_rotation == (i % 2 == 0) && !t.transform_flags.override_scale, "transform flags decoded wrongly");
                c.count("frames_compared", dec.frames.len().max(dec.exact.len()) as u64);
                c.count(if encs[i].ctype == CompressionType::Compressed { "compressed_tracks" } else { "uncompressed_tracks" }, 1);
                c.count("zero_bit_components", encs[i].has_zero as u64);
                c.count("uniform_scale", (encs[i].uniform && encs[i].kind < 2) as u64);
                c.count("wide_components", encs[i].wide as u64);
            }
        }
        (Err(_), Err(_)) => {
            ensure!(expected.iter().any(|e| e.is_err()), "well-formed tracks rejected: {} (kinds {:?})", r20.as_ref().unwrap_err(), encs.iter().map(|e| e.kind).collect::<Vec<_>>());
            c.count("rejections_agreed", 1);
        }
        _ => return viol("versions 2.0 and 2.1 disagree about validity"),
    }
    Ok(())
}
fn c12_compressed(c: &mut Case) -> R {
    let n = c.rng.range(1, 3);
    let encs = (0..n).map(|_| enc_compressed(&mut c.rng, false)).collect();
    c12_run(c, encs)
}
fn c12_hostile(c: &mut Case) -> R {
    let e = enc_compressed(&mut c.rng, true);
    c12_run(c, vec![e])
}
fn c12_uncompressed(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(1, 4);
    let encs = (0..n)
        .map(|_| {
            let kind = r.below(6);
            let ctype = *r.pick(&[CompressionType::Direct, CompressionType::Constant, CompressionType::ConstTransform]);
            let count = if ctype == CompressionType::Direct { r.size(40) } else { r.below(3) };
            let mut bytes = vec![];
            for _ in 0..count {
                if kind == 4 {
                    bytes.push(*r.pick(&[0, 1, 1, 0, 2, 255]));
                } else {
                    for i in 0..SIZES[kind] / 4 {
                        if kind == 0 && i == 10 {
                            bytes.extend((r.below(2) as u32).to_le_bytes());
                        } else if kind == 3 {
                            bytes.extend(r.u32().to_le_bytes());
                        } else {
                            bytes.extend(r.f32_finite().to_le_bytes());
                        }
                    }
                }
            }
            if r.chance(1, 5) {
                let n = r.below(5);
                bytes.extend(r.bytes(n));
            }
            if r.chance(1, 12) && !bytes.is_empty() {
                bytes.pop();
            }
            Enc { kind, ctype, bytes, count, has_zero: false, wide: false, uniform: false }
        })
        .collect();
    c12_run(c, encs)
}
/// An animation whose tracks other programs could have written: any widths, ranges, defaults and placement.
pub fn foreign_anim(r: &mut Rng) -> Anim {
    let encs: Vec<Enc> = (0..r.range(1, 3)).map(|_| enc_compressed(r, false)).collect();
    let (tracks, buf) = place(r, &encs);
    let mut a = mk_anim(r.below(2) as u16, &tracks, &buf);
    match &mut a {
        Anim::V20 { final_frame_index, .. } | Anim::V21 { final_frame_index, .. } => *final_frame_index = 250.0,
        _ => {}
    }
    a
}
