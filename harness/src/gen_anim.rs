//! Generators for animation data and an independent codec for track buffers.
use crate::core::Rng;
use ssbh_data::anim_data::*;
use ssbh_lib::formats::anim::{CompressionType, GroupType, TrackTypeV2};
use ssbh_lib::{Vector3, Vector4};

pub const GROUPS: [GroupType; 4] = [GroupType::Transform, GroupType::Visibility, GroupType::Material, GroupType::Camera];

/// One scalar channel: sequences of a particular shape.
pub fn channel(r: &mut Rng, n: usize) -> Vec<f32> {
    let style = r.below(12);
    let a = match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => r.f32_in(-1.0, 1.0),
        3 => r.f32_in(-50.0, 50.0),
        4 => r.f32_in(-1e6, 1e6),
        5 => r.f32_in(-1e-4, 1e-4),
        6 => r.f32_in(0.0, 1e30),
        _ => r.f32_in(-180.0, 180.0),
    };
    let d = match r.below(9) {
        0 => 1.0,
        1 => r.f32_in(-1e-3, 1e-3),
        2 => r.f32_in(-10.0, 10.0),
        3 => r.f32_in(-1e5, 1e5),
        4 => a.abs() * 1e-6,
        5 => 1e-41,
        6 => r.f32_in(-1e31, 1e31),
        _ => r.f32_in(-2.0, 2.0),
    };
    (0..n)
        .map(|i| {
            let v = match style {
                0 | 1 => a,
                2 => a + d * i as f32,
                3 => a - d * i as f32,
                4 => a + d * ((i as f32) * 0.37).sin(),
                5 => if i == n / 2 { a + d } else { a },
                6 => if r.bool() { a } else { a + d },
                7 => a + d * r.unit() as f32,
                8 => r.f32_in(-1.0, 1.0),
                9 => if i % 2 == 0 { a } else { -a },
                10 if n > 1 && r.chance(1, 3) => *r.pick(&[f32::MAX, f32::MIN, 0.0, 1.0]),
                _ => a + d * r.f32_in(-1.0, 1.0),
            };
            if v.is_finite() { v } else { f32::MAX }
        })
        .collect()
}
pub fn quat(r: &mut Rng) -> Vector4 {
    let style = r.below(10);
    let mut v: [f64; 4] = std::array::from_fn(|_| r.unit() * 2.0 - 1.0);
    match style {
        0 => v = [0.0, 0.0, 0.0, if r.bool() { 1.0 } else { -1.0 }],
        1 => v = [v[0], 0.0, 0.0, v[3]],
        2 => v[3] *= 1e-4,
        3 => {
            v = [0.0; 4];
            v[r.below(4)] = if r.bool() { 1.0 } else { -1.0 };
        }
        4 => v = [v[0] * 1e-3, v[1] * 1e-3, v[2] * 1e-3, v[3].signum()],
        _ => {}
    }
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n < 1e-9 {
        return Vector4::new(0.0, 0.0, 0.0, 1.0);
    }
    Vector4::new((v[0] / n) as f32, (v[1] / n) as f32, (v[2] / n) as f32, (v[3] / n) as f32)
}
pub fn transforms(r: &mut Rng, n: usize) -> Vec<Transform> {
    let uniform = r.below(4) == 0;
    let s: Vec<Vec<f32>> = (0..3).map(|_| if r.chance(1, 2) { vec![1.0; n] } else { channel(r, n) }).collect();
    let t: Vec<Vec<f32>> = (0..3).map(|_| channel(r, n)).collect();
    let style = r.below(4);
    let (q0, q1) = (quat(r), quat(r));
    let axis = r.below(3);
    (0..n)
        .map(|i| {
            let rotation = match style {
                0 => q0,
                1 => if r.bool() { q0 } else { q1 },
                2 => {
                    let a = i as f64 * 0.21 + 0.1;
                    let mut v = [0.0f32, 0.0, 0.0, (a / 2.0).cos() as f32];
                    v[axis] = (a / 2.0).sin() as f32;
                    Vector4::new(v[0], v[1], v[2], v[3])
                }
                _ => quat(r),
            };
            let scale = if uniform { Vector3::new(s[0][i], s[0][i], s[0][i]) } else { Vector3::new(s[0][i], s[1][i], s[2][i]) };
            Transform { scale, rotation, translation: Vector3::new(t[0][i], t[1][i], t[2][i]) }
        })
        .collect()
}
pub fn values(r: &mut Rng, kind: usize, n: usize) -> TrackValues {
    match kind {
        0 => TrackValues::Transform(transforms(r, n)),
        1 => {
            let uniform = r.below(3) == 0;
            let c: Vec<Vec<f32>> = (0..5).map(|_| channel(r, n)).collect();
            TrackValues::UvTransform(
                (0..n)
                    .map(|i| UvTransform { scale_u: c[0][i], scale_v: if uniform { c[0][i] } else { c[1][i] }, rotation: c[2][i], translate_u: c[3][i], translate_v: c[4][i] })
                    .collect(),
            )
        }
        2 => TrackValues::Float(channel(r, n)),
        3 => {
            let base = match r.below(4) {
                0 => 0,
                1 => r.below(100) as u32,
                2 => r.u32(),
                _ => u32::MAX - 1000,
            };
            let span = match r.below(6) {
                0 => 1,
                1 => 1 << 24,
                2 => u32::MAX,
                3 => (1 << 24) - 1,
                _ => 1 + r.below(300) as u32,
            };
            TrackValues::PatternIndex((0..n).map(|_| base.saturating_add(if r.chance(1, 8) { span } else { (r.u64() % (span as u64 + 1)) as u32 })).collect())
        }
        4 => {
            let style = r.below(4);
            TrackValues::Boolean((0..n).map(|i| match style { 0 => true, 1 => false, 2 => i % 2 == 0, _ => r.bool() }).collect())
        }
        _ => {
            let c: Vec<Vec<f32>> = (0..4).map(|_| channel(r, n)).collect();
            TrackValues::Vector4((0..n).map(|i| Vector4::new(c[0][i], c[1][i], c[2][i], c[3][i])).collect())
        }
    }
}
pub fn frames(r: &mut Rng, max: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4..=6 => r.range(2, 8.min(max.max(2))),
        7..=9 => r.range(2, 40.min(max.max(2))),
        _ => r.range(2, max.max(2)),
    }
}
pub fn clean_name(r: &mut Rng) -> String {
    if r.chance(1, 600) {
        return crate::gen_data::clean(r);
    }
    r.name().replace('\0', "")
}
fn wide(r: &mut Rng, max: usize) -> usize {
    let n = r.size(max);
    crate::gen_data::wide(r, n)
}
pub fn anim(r: &mut Rng, max_frames: usize) -> AnimData {
    let mut longest = 0;
    let ng = wide(r, 5);
    let groups = (0..ng)
        .map(|_| GroupData {
            group_type: *r.pick(&GROUPS),
            nodes: {
                let n = wide(r, 5);
                (0..n)
                    .map(|_| NodeData {
                        name: clean_name(r),
                        tracks: {
                            let n = wide(r, 4);
                            (0..n)
                                .map(|_| {
                                    let n = frames(r, max_frames);
                                    let n = crate::gen_data::wide(r, n);
                                    longest = longest.max(n);
                                    let kind = r.below(6);
                                    TrackData {
                                        name: clean_name(r),
                                        compensate_scale: r.bool() && kind == 0 && n > 0,
                                        transform_flags: TransformFlags { override_translation: r.bool(), override_rotation: r.bool(), override_scale: r.bool(), override_compensate_scale: r.bool() },
                                        values: values(r, kind, n),
                                    }
                                })
                                .collect()
                        },
                    })
                    .collect()
            },
        })
        .collect();
    let extra = match r.below(4) {
        0 => 0.0,
        1 => 0.5,
        _ => r.below(100) as f32,
    };
    AnimData { major_version: 2, minor_version: r.below(2) as u16, final_frame_index: (longest as f32 - 1.0).max(0.0) + extra, groups }
}

// ---------------------------------------------------------------- independent decoder
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Comp {
    pub min: f32,
    pub max: f32,
    pub bits: u64,
}
impl Comp {
    pub fn used(&self) -> u64 {
        if self.min == self.max { 0 } else { self.bits }
    }
    pub fn step(&self) -> f64 {
        if self.used() == 0 { 0.0 } else { (self.max as f64 - self.min as f64) / ((1u128 << self.bits) - 1) as f64 }
    }
}
/// Every decoded frame as f64 components, in the order of the value's fields.
#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub kind: usize,
    pub frames: Vec<Vec<f64>>,
    pub exact: Vec<Vec<u32>>,
    pub compensate: bool,
    pub comps: Vec<Comp>,
    pub flags: u16,
    pub collapsed: bool,
}
pub fn kind_of(t: TrackTypeV2) -> usize {
    match t {
        TrackTypeV2::Transform => 0,
        TrackTypeV2::UvTransform => 1,
        TrackTypeV2::Float => 2,
        TrackTypeV2::PatternIndex => 3,
        TrackTypeV2::Boolean => 4,
        TrackTypeV2::Vector4 => 5,
    }
}
pub fn type_of(k: usize) -> TrackTypeV2 {
    [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4][k]
}
/// (bytes of one uncompressed value, number of 32-bit words; Booleans have one byte)
pub const SIZES: [usize; 6] = [44, 20, 4, 4, 1, 16];
pub const NCOMP: [usize; 6] = [9, 5, 1, 1, 1, 4];
struct Bits<'a> {
    b: &'a [u8],
    i: usize,
}
impl Bits<'_> {
    fn get(&mut self, n: u64) -> Result<u64, String> {
        let mut v = 0u64;
        for k in 0..n {
            let byte = *self.b.get(self.i / 8).ok_or("out of bits")?;
            v |= (((byte >> (self.i % 8)) & 1) as u64) << k;
            self.i += 1;
        }
        Ok(v)
    }
}
fn u16_at(b: &[u8], p: usize) -> Result<u16, String> {
    b.get(p..p + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "short".into())
}
fn u32_at(b: &[u8], p: usize) -> Result<u32, String> {
    b.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "short".into())
}
fn u64_at(b: &[u8], p: usize) -> Result<u64, String> {
    b.get(p..p + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "short".into())
}
/// Decodes one track's bytes. Transform frames have 10 components (scale, rotation xyzw, translation).
pub fn decode(kind: usize, compression: CompressionType, b: &[u8], count: usize) -> Result<Decoded, String> {
    let mut out = Decoded { kind, ..Default::default() };
    if compression != CompressionType::Compressed {
        let sz = SIZES[kind];
        for i in 0..count {
            let v = b.get(i * sz..(i + 1) * sz).ok_or("track data too short")?;
            if kind == 4 {
                out.exact.push(vec![(v[0] != 0) as u32]);
                continue;
            }
            let mut w: Vec<u32> = v.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            if kind == 0 {
                let comp = w.pop().unwrap() != 0;
                if i == 0 {
                    out.compensate = comp;
                }
            }
            out.frames.push(w.iter().map(|x| f32::from_bits(*x) as f64).collect());
            out.exact.push(w);
        }
        return Ok(out);
    }
    out.flags = u16_at(b, 2)?;
    let (has_scale, uniform, has_rot, has_trans) = (out.flags & 1 != 0, out.flags & 2 != 0, out.flags & 4 != 0, out.flags & 8 != 0);
    let default_at = u16_at(b, 4)? as usize;
    let entry_bits = u16_at(b, 6)? as u64;
    let data_at = u32_at(b, 8)? as usize;
    if data_at == 0 {
        return Err("null pointer".into());
    }
    let sz = SIZES[kind];
    let zeros = vec![0u8; sz];
    // A missing default only matters once a frame is decoded.
    let def = if default_at == 0 { &zeros[..] } else { b.get(default_at..default_at + sz).ok_or("default out of range")? };
    let data = b.get(data_at.min(b.len())..).unwrap_or(&[]);
    if kind != 4 {
        for k in 0..NCOMP[kind] {
            let p = 16 + 16 * k;
            out.comps.push(Comp { min: f32::from_bits(u32_at(b, p)?), max: f32::from_bits(u32_at(b, p + 4)?), bits: u64_at(b, p + 8)? });
        }
        if out.comps.iter().any(|c| c.bits > 32) {
            return Err("bit count".into());
        }
    } else {
        b.get(16..32).ok_or("short")?;
    }
    let cs = out.comps.clone();
    let sum = |i: std::ops::Range<usize>| cs[i].iter().map(|c| c.used()).sum::<u64>();
    let total = match kind {
        0 => {
            (if has_trans { sum(6..9) } else { 0 })
                + (if has_scale { if uniform { cs[0].used() } else { sum(0..3) } } else { 0 })
                + (if has_rot { sum(3..6) + 1 } else { 0 })
        }
        1 => cs[0].used() + if uniform { 0 } else { cs[1].used() } + sum(2..5),
        3 => cs[0].bits,
        4 => 1,
        _ => sum(0..NCOMP[kind]),
    };
    if total != entry_bits {
        return Err("bits per entry".into());
    }
    let n = if total == 0 && count > 0 { 1 } else { count };
    if default_at == 0 && n > 0 {
        return Err("null default".into());
    }
    out.collapsed = n != count;
    let d: Vec<f64> = if kind == 4 { vec![] } else { def.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap()) as f64).collect() };
    let mut bits = Bits { b: data, i: 0 };
    fn val(bits: &mut Bits, c: &Comp, def: f64) -> Result<f64, String> {
        if c.used() == 0 {
            return Ok(def);
        }
        let v = bits.get(c.bits)?;
        let t = v as f64 / ((1u128 << c.bits) - 1) as f64;
        Ok(c.min as f64 * (1.0 - t) + c.max as f64 * t)
    }
    if kind == 0 {
        out.compensate = n > 0 && u32::from_le_bytes(def[40..44].try_into().unwrap()) != 0;
    }
    for _ in 0..n {
        match kind {
            0 => {
                let mut f = vec![0.0; 10];
                if has_scale && !uniform {
                    for k in 0..3 {
                        f[k] = val(&mut bits, &cs[k], d[k])?;
                    }
                } else if uniform {
                    let s = if has_scale { val(&mut bits, &cs[0], d[0])? } else { d[0] };
                    f[0] = s;
                    f[1] = s;
                    f[2] = s;
                } else {
                    f[..3].copy_from_slice(&d[..3]);
                }
                for k in 0..3 {
                    f[3 + k] = if has_rot { val(&mut bits, &cs[3 + k], d[3 + k])? } else { d[3 + k] };
                }
                for k in 0..3 {
                    f[7 + k] = if has_trans { val(&mut bits, &cs[6 + k], d[7 + k])? } else { d[7 + k] };
                }
                f[6] = if has_rot {
                    let neg = bits.get(1)? == 1;
                    let w2 = 1.0 - (f[3] * f[3] + f[4] * f[4] + f[5] * f[5]);
                    let w = w2.max(0.0).sqrt();
                    if neg { -w } else { w }
                } else {
                    d[6]
                };
                out.frames.push(f);
            }
            1 => {
                let mut f = vec![0.0; 5];
                f[0] = val(&mut bits, &cs[0], d[0])?;
                f[1] = if uniform { f[0] } else { val(&mut bits, &cs[1], d[1])? };
                for k in 2..5 {
                    f[k] = val(&mut bits, &cs[k], d[k])?;
                }
                out.frames.push(f);
            }
            3 => {
                let v = bits.get(cs[0].bits)?;
                let min = cs[0].min.to_bits() as u64;
                if v + min > u32::MAX as u64 {
                    return Err("index overflow".into());
                }
                out.exact.push(vec![(v + min) as u32]);
            }
            4 => out.exact.push(vec![bits.get(1)? as u32]),
            k => {
                let mut f = vec![0.0; NCOMP[k]];
                for (i, x) in f.iter_mut().enumerate() {
                    *x = val(&mut bits, &cs[i], d[i])?;
                }
                out.frames.push(f);
            }
        }
    }
    Ok(out)
}
/// The library's values as words (exact) in the same component order.
pub fn words(v: &TrackValues) -> (usize, Vec<Vec<u32>>) {
    match v {
        TrackValues::Transform(t) => (
            0,
            t.iter()
                .map(|t| [t.scale.x, t.scale.y, t.scale.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w, t.translation.x, t.translation.y, t.translation.z].iter().map(|x| x.to_bits()).collect())
                .collect(),
        ),
        TrackValues::UvTransform(t) => (1, t.iter().map(|t| [t.scale_u, t.scale_v, t.rotation, t.translate_u, t.translate_v].iter().map(|x| x.to_bits()).collect()).collect()),
        TrackValues::Float(t) => (2, t.iter().map(|x| vec![x.to_bits()]).collect()),
        TrackValues::PatternIndex(t) => (3, t.iter().map(|x| vec![*x]).collect()),
        TrackValues::Boolean(t) => (4, t.iter().map(|x| vec![*x as u32]).collect()),
        TrackValues::Vector4(t) => (5, t.iter().map(|v| [v.x, v.y, v.z, v.w].iter().map(|x| x.to_bits()).collect()).collect()),
    }
}
pub fn fl(w: &[u32]) -> Vec<f64> {
    w.iter().map(|x| f32::from_bits(*x) as f64).collect()
}
/// Component index in a frame -> index of its range in `comps`.
pub fn comp_of(kind: usize, flags: u16, i: usize) -> Option<usize> {
    match (kind, i) {
        (0, 0..=2) => Some(if flags & 2 != 0 { 0 } else { i }),
        (0, 3..=5) => Some(i),
        (0, 6) => None,
        (0, _) => Some(i - 1),
        (1, 1) => Some(if flags & 2 != 0 { 0 } else { 1 }),
        _ => Some(i),
    }
}
