//! C28: the shared building blocks (coded names, strings, pointers, arrays, vectors, small conversions).
use crate::core::*;
use crate::ensure;
use crate::gen_data;
use binrw::{BinRead, BinReaderExt};
use serde_json::{json, Value};
use ssbh_data::matl_data::*;
use ssbh_data::mesh_data::{AttributeData, MeshObjectData, VectorData};
use ssbh_lib::formats::{anim, hlpb, matl, mesh, nrpd, shdr, skel};
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::collections::HashMap;
use std::fmt::Debug;
use std::io::{Cursor, Seek, SeekFrom};
use std::str::FromStr;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "every variant of every coded enumeration and every code up to 65535 plus random and aliasing codes; distinct strings, pointer graphs, arrays, vectors and state values passed through every constructor, conversion, reader and writer of the shared building blocks and compared with plain re-implementations",
        assumptions: &["the documented code tables are the ones in harness/src/schema.txt"],
        must: &["variants", "unknown_codes_rejected", "near_names_rejected", "strings", "strings_same", "strings_different", "strings_cut", "invalid_utf8", "blocks", "nulls", "argument_reads", "moved_reads", "reads_anywhere", "reads_adjacent", "reads_backwards", "reads_cut", "narrow_ok", "narrow_rejected", "bad_offsets_rejected", "vectors", "conversions", "counts_equal", "counts_differ"],
        units: vec![
            unit("names", 24, 400, names),
            unit("strings", 300_000, 6_000_000, strings),
            unit("containers", 200_000, 4_000_000, containers),
            unit("narrow", 400, 10_000, narrow),
            unit("vectors", 500_000, 9_000_000, vectors),
            unit("conversions", 300_000, 6_000_000, conversions),
        ],
    }]
}
fn v<T>(m: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: m.into(), known: None })
}

// ---------------------------------------------------------------- coded names
/// enumeration -> (width in bytes, [(variant, code)])
fn tables() -> &'static HashMap<String, (usize, Vec<(String, u64)>)> {
    static T: std::sync::OnceLock<HashMap<String, (usize, Vec<(String, u64)>)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        include_str!("schema.txt")
            .lines()
            .filter(|l| l.starts_with("E "))
            .map(|l| {
                let mut w = l.split_whitespace().skip(1);
                let name = w.next().unwrap().to_string();
                let width = w.next().unwrap()[1..].parse::<usize>().unwrap() / 8;
                (name, (width, w.map(|x| x.split_once('=').unwrap()).map(|(n, c)| (n.to_string(), c.parse().unwrap())).collect()))
            })
            .collect()
    })
}
/// Names that look like a variant but are none.
fn near(name: &str) -> Vec<String> {
    vec![
        name.to_lowercase(),
        name.to_uppercase(),
        format!("{name} "),
        format!(" {name}"),
        format!("{name}\0"),
        format!("{name}0"),
        name[..name.len() - 1].to_string(),
        name.replace('_', ""),
        String::new(),
    ]
}
fn coded<T>(c: &mut Case, name: &str) -> R
where
    T: Debug + PartialEq + Clone + SsbhWrite + for<'a> BinRead<Args<'a> = ()> + serde::Serialize + serde::de::DeserializeOwned,
{
    let (width, table) = tables().get(name).unwrap_or_else(|| panic!("no table for {name}"));
    let codes: HashMap<u64, &str> = table.iter().map(|(n, c)| (*c, n.as_str())).collect();
    let known: std::collections::HashSet<&str> = table.iter().map(|(n, _)| n.as_str()).collect();
    let read = |code: u64| -> Result<T, String> {
        let b = code.to_le_bytes();
        let mut cur = Cursor::new(&b[..*width]);
        let x: T = cur.read_le().map_err(|e| e.to_string())?;
        if cur.position() != *width as u64 {
            return Err(format!("reading {name} {code} consumed {} bytes", cur.position()));
        }
        Ok(x)
    };
    for (n, code) in table {
        let Ok(x) = read(*code) else { return v(format!("{name}: code {code} ({n}) is rejected: {:?}", read(*code))) };
        ensure!(&format!("{x:?}") == n, "{name}: code {code} reads as {x:?}, expected {n}");
        let mut out = Cursor::new(Vec::new());
        x.write(&mut out).map_err(|e| Viol { msg: format!("{name}::{n} not writable: {e}"), known: None })?;
        ensure!(out.get_ref() == &code.to_le_bytes()[..*width], "{name}::{n} writes {:02x?}, expected code {code} in {width} bytes", out.get_ref());
        ensure!(x.size_in_bytes() == *width as u64, "{name}::{n} reports {} bytes, occupies {width}", x.size_in_bytes());
        let j = serde_json::to_value(&x).map_err(|e| Viol { msg: format!("{name}::{n}: {e}"), known: None })?;
        ensure!(j == json!(n), "{name}::{n} is {j} in JSON");
        let y: T = serde_json::from_value(json!(n)).map_err(|e| Viol { msg: format!("{name}: JSON {n:?} is rejected: {e}"), known: None })?;
        ensure!(y == x, "{name}: JSON {n:?} gives {y:?}");
        for w in near(n) {
            if !known.contains(w.as_str()) {
                let r: Result<T, _> = serde_json::from_value(json!(w));
                ensure!(r.is_err(), "{name}: JSON accepts {w:?} as {:?}", r.unwrap());
                c.count("near_names_rejected", 1);
            }
        }
        c.count("variants", 1);
        c.seen(format!("{name}::{n}").as_bytes());
    }
    let mask = if *width == 8 { u64::MAX } else { (1u64 << (8 * *width)) - 1 };
    let mut probe: Vec<u64> = if c.idx == 0 { (0..65536).collect() } else { (0..2048).collect() };
    for (_, code) in table {
        for k in [8, 16, 24, 31, 32, 40, 48, 56, 63] {
            probe.push(code ^ (1 << k));
            probe.push(code.wrapping_add(1u64 << k).wrapping_sub(1));
        }
        probe.push(code.swap_bytes());
        probe.push((*code as u32).swap_bytes() as u64);
        probe.push(!code);
        probe.push(code.wrapping_neg());
    }
    for _ in 0..2000 {
        let k = c.rng.below(64);
        probe.push(c.rng.u64() >> k);
    }
    for p in probe {
        let p = p & mask;
        let r = read(p);
        match codes.get(&p) {
            Some(n) => ensure!(r.as_ref().is_ok_and(|x| &format!("{x:?}") == n), "{name}: code {p} reads as {r:?}, expected {n}"),
            None => {
                ensure!(r.is_err(), "{name}: undefined code {p} reads as {:?}", r.unwrap());
                c.count("unknown_codes_rejected", 1);
            }
        }
        c.eval(1);
    }
    Ok(())
}
macro_rules! listed {
    ($c:expr, $t:ty, $name:expr) => {{
        coded::<$t>($c, $name)?;
        let (_, table) = &tables()[$name];
        let codes: HashMap<usize, &str> = table.iter().map(|(n, c)| (*c as usize, n.as_str())).collect();
        let known: std::collections::HashSet<&str> = table.iter().map(|(n, _)| n.as_str()).collect();
        let all: Vec<$t> = <$t as strum::IntoEnumIterator>::iter().collect();
        ensure!(all.len() == table.len(), "{}: the iterator has {} variants, the format {}", $name, all.len(), table.len());
        for x in &all {
            let shown = x.to_string();
            ensure!(shown == format!("{x:?}"), "{}: {x:?} is displayed as {shown}", $name);
            ensure!(<$t>::from_str(&shown).is_ok_and(|y| y == *x), "{}: the name {shown} does not parse back", $name);
            ensure!(codes.get(&(*x as usize)) == Some(&shown.as_str()), "{}: {shown} has code {}", $name, *x as usize);
            for w in near(&shown) {
                if !known.contains(w.as_str()) {
                    ensure!(<$t>::from_str(&w).is_err(), "{}: {w:?} parses as a variant", $name);
                    $c.count("near_names_rejected", 1);
                }
            }
        }
        for code in (0..4096usize).chain([65536, 1 << 31, 1 << 32, usize::MAX]) {
            let r = <$t>::from_repr(code as _);
            let same_width = r.is_none() || r.map(|x| x as usize) == Some(code) || code > 255;
            ensure!(same_width, "{}: from_repr({code}) gives {r:?}", $name);
            if code < 4096 && code < 256 {
                ensure!(r.map(|x| format!("{x:?}")).as_deref() == codes.get(&code).copied(), "{}: from_repr({code}) gives {r:?}", $name);
            } else if code < 4096 && std::mem::size_of::<$t>() > 1 {
                ensure!(r.map(|x| format!("{x:?}")).as_deref() == codes.get(&code).copied(), "{}: from_repr({code}) gives {r:?}", $name);
            }
        }
    }};
}
fn names(c: &mut Case) -> R {
    listed!(c, matl::ParamId, "ParamId");
    listed!(c, matl::FillMode, "FillMode");
    listed!(c, matl::CullMode, "CullMode");
    listed!(c, matl::WrapMode, "WrapMode");
    listed!(c, matl::MinFilter, "MinFilter");
    listed!(c, matl::MagFilter, "MagFilter");
    listed!(c, matl::FilteringType, "FilteringType");
    listed!(c, matl::MaxAnisotropy, "MaxAnisotropy");
    listed!(c, matl::BlendFactor, "BlendFactor");
    listed!(c, matl::BlendOperation, "BlendOperation");
    listed!(c, anim::GroupType, "GroupType");
    listed!(c, skel::BillboardType, "BillboardType");
    listed!(c, nrpd::UnkFormat, "UnkFormat");
    coded::<hlpb::ConstraintType>(c, "ConstraintType")?;
    coded::<anim::TrackTypeV1>(c, "TrackTypeV1")?;
    coded::<anim::TrackTypeV2>(c, "TrackTypeV2")?;
    coded::<anim::CompressionType>(c, "CompressionType")?;
    coded::<shdr::ShaderStage>(c, "ShaderStage")?;
    coded::<mesh::DrawElementType>(c, "DrawElementType")?;
    coded::<mesh::AttributeDataTypeV10>(c, "AttributeDataTypeV10")?;
    coded::<mesh::AttributeDataTypeV8>(c, "AttributeDataTypeV8")?;
    coded::<mesh::AttributeUsageV9>(c, "AttributeUsageV9")?;
    coded::<mesh::AttributeUsageV8>(c, "AttributeUsageV8")?;
    ensure!(matl::MaxAnisotropy::default() == matl::MaxAnisotropy::One, "the default anisotropy is not One");
    c.sample(|| "all coded enumerations".into());
    Ok(())
}

// ---------------------------------------------------------------- strings
fn text(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(4) {
        0 => r.name().into_bytes(),
        1 => {
            let n = r.size(40);
            r.bytes(n)
        }
        2 => {
            let n = r.size(12);
            (0..n).flat_map(|_| char::from_u32(r.u32() % 0x11_0000).unwrap_or('é').to_string().into_bytes()).collect()
        }
        _ => {
            let n = *r.pick(&[1usize, 3, 4, 5, 7, 8, 9, 63, 64, 255, 256, 1000]);
            (0..n).map(|i| b'a' + (i % 26) as u8).collect()
        }
    };
    if r.chance(1, 12) {
        // what text handling likes to strip or replace
        let odd = *r.pick(&["\u{feff}", " ", "\t", "\r\n", "\u{a0}", "\u{200b}", "\u{fffd}", "\u{85}", "\u{2028}", "\"", "\u{7f}"]);
        if r.chance(2, 3) { b = [odd.as_bytes(), &b].concat() } else { b.extend(odd.as_bytes()) }
    }
    if r.chance(1, 3) && !b.is_empty() {
        let at = r.below(b.len());
        b[at] = 0;
    }
    b
}
fn cstring<const N: usize>(c: &mut Case, b: &[u8]) -> R {
    let cut: &[u8] = b.split(|x| *x == 0).next().unwrap();
    let s = CString::<N>::from_bytes(b);
    let utf = std::str::from_utf8(cut).ok();
    ensure!(s.to_str() == utf, "CString<{N}> of {b:?} gives {:?}, expected {utf:?}", s.to_str());
    ensure!(s.to_string_lossy() == utf.unwrap_or(""), "CString<{N}> of {b:?} gives {:?} as a lossy string", s.to_string_lossy());
    // writing: the bytes and a terminator, or N zeros when empty
    let at = c.rng.below(20) as u64;
    let mut w = Cursor::new(vec![0xEEu8; at as usize]);
    w.seek(SeekFrom::Start(at)).unwrap();
    let mut ptr = 0;
    s.ssbh_write(&mut w, &mut ptr).map_err(|e| Viol { msg: e.to_string(), known: None })?;
    let mut want = vec![0xEEu8; at as usize];
    if cut.is_empty() {
        want.extend(vec![0u8; N]);
    } else {
        want.extend(cut);
        want.push(0);
    }
    ensure!(w.get_ref() == &want, "CString<{N}> of {b:?} writes {:?}, expected {want:?}", w.get_ref());
    ensure!(<CString<N> as SsbhWrite>::alignment_in_bytes() == N as u64, "CString<{N}> is aligned to {}", <CString<N> as SsbhWrite>::alignment_in_bytes());
    // reading: exactly up to and including the terminator
    let mut file = want.clone();
    file.extend([7u8, 0, 8, 0]);
    let mut rd = Cursor::new(&file);
    rd.set_position(at);
    let back: CString<N> = rd.read_le().map_err(|e| Viol { msg: format!("{e}"), known: None })?;
    ensure!(back == s, "CString<{N}> of {b:?} reads back as {back:?}");
    ensure!(rd.position() == at + cut.len() as u64 + 1, "reading a CString<{N}> of {} bytes moved by {}", cut.len(), rd.position() - at);
    // no terminator: an error
    let r: Result<CString<N>, _> = Cursor::new(cut).read_le();
    ensure!(r.is_err(), "an unterminated string {cut:?} reads as {r:?}");
    if let Ok(t) = std::str::from_utf8(b) {
        let forms: [CString<N>; 5] = [t.into(), (&t.to_string()).into(), t.to_string().into(), t.parse().unwrap(), FromStr::from_str(t).unwrap()];
        for f in forms {
            ensure!(f == s, "a CString<{N}> built from text {t:?} is {f:?}, from bytes {s:?}");
        }
        let j = serde_json::to_value(&s).map_err(|e| Viol { msg: e.to_string(), known: None })?;
        ensure!(j == json!(utf.unwrap()), "CString<{N}> of {t:?} is {j} in JSON");
        let y: CString<N> = serde_json::from_value(j).map_err(|e| Viol { msg: e.to_string(), known: None })?;
        ensure!(y == s, "CString<{N}> of {t:?} reads back from JSON as {y:?}");
        let direct: Result<CString<N>, _> = serde_json::from_value(json!(t));
        ensure!(direct.is_ok() != t.contains('\0'), "JSON text {t:?} gives {direct:?}");
    } else {
        c.count("invalid_utf8", 1);
    }
    if cut.len() < b.len() {
        c.count("strings_cut", 1);
    }
    Ok(())
}
macro_rules! pointed {
    ($c:expr, $t:ty, $n:expr, $b:expr) => {{
        let b: &[u8] = $b;
        let cut: &[u8] = b.split(|x| *x == 0).next().unwrap();
        let s = <$t>::from_bytes(b);
        let utf = std::str::from_utf8(cut).ok();
        ensure!(s.to_str() == utf, "{} of {b:?} gives {:?}, expected {utf:?}", stringify!($t), s.to_str());
        ensure!(s.to_string_lossy() == utf.unwrap_or(""), "{} of {b:?} gives {:?} as a lossy string", stringify!($t), s.to_string_lossy());
        let mut w = Cursor::new(Vec::new());
        s.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
        let mut want = 8u64.to_le_bytes().to_vec();
        if cut.is_empty() {
            want.extend(vec![0u8; $n]);
        } else {
            want.extend(cut);
            want.push(0);
        }
        ensure!(w.get_ref() == &want, "{} of {b:?} writes {:?}, expected {want:?}", stringify!($t), w.get_ref());
        let mut rd = Cursor::new(&want);
        let back: $t = rd.read_le().map_err(|e| Viol { msg: format!("{e}"), known: None })?;
        ensure!(back == s && rd.position() == 8, "{} of {b:?} reads back as {back:?} leaving position {}", stringify!($t), rd.position());
        // null offset: no text
        let null: $t = Cursor::new([0u8; 8]).read_le().map_err(|e| Viol { msg: format!("{e}"), known: None })?;
        ensure!(null.to_str().is_none() && null.to_string_lossy().is_empty() && null != s, "a null {} reads as {null:?}", stringify!($t));
        let mut w = Cursor::new(Vec::new());
        null.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
        ensure!(w.get_ref() == &vec![0u8; 8], "a null {} writes {:?}", stringify!($t), w.get_ref());
        if let Ok(t) = std::str::from_utf8(b) {
            let forms: [$t; 4] = [t.into(), (&t.to_string()).into(), t.to_string().into(), t.parse().unwrap()];
            for f in forms {
                ensure!(f == s, "a {} built from text {t:?} is {f:?}, from bytes {s:?}", stringify!($t));
            }
        }
    }};
}
fn strings(c: &mut Case) -> R {
    let b = text(&mut c.rng);
    c.seen(&b);
    cstring::<1>(c, &b)?;
    cstring::<4>(c, &b)?;
    cstring::<8>(c, &b)?;
    cstring::<16>(c, &b)?;
    pointed!(c, SsbhString, 4, &b);
    pointed!(c, SsbhString8, 8, &b);
    // Two strings are the same when their text up to the first zero is.
    let mut other = match c.rng.below(4) {
        0 => text(&mut c.rng),
        1 => b[..c.rng.range(0, b.len())].to_vec(),
        2 => [&b[..], &[0], &text(&mut c.rng)].concat(),
        _ => b.clone(),
    };
    if !other.is_empty() && c.rng.bool() {
        let i = c.rng.below(other.len());
        other[i] = *c.rng.pick(&[other[i] ^ 0x20, other[i] ^ 0x80, 0xff, 0xfe, 0xc3, 0]);
    }
    let cut = |v: &[u8]| v.iter().copied().take_while(|&x| x != 0).collect::<Vec<u8>>();
    let same = cut(&b) == cut(&other);
    ensure!((CString::<4>::from_bytes(&b) == CString::<4>::from_bytes(&other)) == same, "strings of {b:?} and {other:?} compare as {}", !same);
    ensure!((SsbhString::from_bytes(&b) == SsbhString::from_bytes(&other)) == same, "pointed strings of {b:?} and {other:?} compare as {}", !same);
    ensure!((SsbhString8::from_bytes(&b) == SsbhString8::from_bytes(&other)) == same, "8 byte aligned strings of {b:?} and {other:?} compare as {}", !same);
    c.count("strings_compared", 1);
    c.count(if same { "strings_same" } else { "strings_different" }, 1);
    c.count("strings", 1);
    c.sample(|| format!("{b:?}"));
    Ok(())
}

// ---------------------------------------------------------------- pointers and arrays
#[derive(BinRead, Debug, PartialEq, Clone)]
#[br(import(k: u32))]
struct Tagged {
    #[br(calc = k)]
    tag: u32,
    value: u16,
}
#[derive(BinRead, SsbhWrite, Debug, PartialEq, Clone, serde::Serialize, serde::Deserialize)]
struct Leaf {
    a: u32,
    b: u8,
    #[br(pad_before = 3)]
    #[ssbhwrite(align_after = 4)]
    name: SsbhString,
}
#[derive(BinRead, SsbhWrite, Debug, PartialEq, Clone, serde::Serialize, serde::Deserialize)]
#[br(import(kind: u64))]
enum Kind {
    #[br(pre_assert(kind == 1))]
    Number(f32),
    #[br(pre_assert(kind == 2))]
    Text(SsbhString8),
    #[br(pre_assert(kind == 5))]
    Bytes(SsbhByteBuffer),
    #[br(pre_assert(kind == 9))]
    List(SsbhArray<u16>),
}
impl DataType for Kind {
    fn data_type(&self) -> u64 {
        match self {
            Kind::Number(_) => 1,
            Kind::Text(_) => 2,
            Kind::Bytes(_) => 5,
            Kind::List(_) => 9,
        }
    }
}
/// Every block in one record: nulls, nesting, shared writers.
#[derive(BinRead, SsbhWrite, Debug, PartialEq, Clone, serde::Serialize, serde::Deserialize)]
struct Blocks {
    p16: Ptr16<u32>,
    q16: Ptr16<SsbhString>,
    pad: u32,
    p32: Ptr32<[u16; 3]>,
    q32: Ptr32<u8>,
    p64: Ptr64<SsbhArray<u32>>,
    r: RelPtr64<RelPtr64<u64>>,
    strings: SsbhArray<SsbhString>,
    nested: SsbhArray<SsbhArray<SsbhString8>>,
    bytes: SsbhByteBuffer,
    kinds: SsbhArray<SsbhEnum64<Kind>>,
    one: SsbhEnum64<Kind>,
    ptrs: SsbhArray<RelPtr64<SsbhByteBuffer>>,
    tail: u64,
}
fn small(r: &mut Rng) -> String {
    let n = r.size(9);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', '_', 'é', '漢'])).collect()
}
fn kind(r: &mut Rng) -> SsbhEnum64<Kind> {
    let k = match r.below(5) {
        0 => None,
        1 => Some(Kind::Number(r.f32_finite())),
        2 => Some(Kind::Text(small(r).into())),
        3 => {
            let n = r.size(9);
            Some(Kind::Bytes(r.bytes(n).into()))
        }
        _ => {
            let n = r.size(5);
            Some(Kind::List((0..n).map(|_| r.u32() as u16).collect()))
        }
    };
    SsbhEnum64 { data: k.into() }
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 4) { None } else { Some(f(r)) }
}
fn ptr<P, T>(o: Option<T>) -> Ptr<P, T> {
    match o {
        Some(x) => Ptr::new(x),
        None => Ptr::null(),
    }
}
fn blocks(r: &mut Rng) -> Blocks {
    let list = |r: &mut Rng| r.size(5);
    Blocks {
        p16: ptr(opt(r, |r| r.u32())),
        q16: ptr(opt(r, |r| small(r).into())),
        pad: r.u32(),
        p32: ptr(opt(r, |r| [r.u32() as u16, r.u32() as u16, r.u32() as u16])),
        q32: ptr(opt(r, |r| r.u8())),
        p64: ptr(opt(r, |r| {
            let n = r.size(6);
            SsbhArray::from_vec((0..n).map(|_| r.u32()).collect())
        })),
        r: opt(r, |r| RelPtr64::from(opt(r, |r| r.u64()))).into(),
        strings: (0..list(r)).map(|_| small(r).into()).collect(),
        nested: (0..list(r)).map(|_| (0..list(r)).map(|_| small(r).into()).collect()).collect(),
        bytes: {
            let n = r.size(30);
            SsbhByteBuffer::from_vec(r.bytes(n))
        },
        kinds: (0..list(r)).map(|_| kind(r)).collect(),
        one: kind(r),
        ptrs: {
            let n = list(r);
            SsbhArray::from_vec(
                (0..n)
                    .map(|_| {
                        let n = r.size(8);
                        let b = r.bytes(n);
                        opt(r, |_| SsbhByteBuffer::from(b)).into()
                    })
                    .collect(),
            )
        },
        tail: r.u64(),
    }
}
fn containers(c: &mut Case) -> R {
    let x = blocks(&mut c.rng);
    c.sample(|| format!("{x:?}"));
    let mut w = Cursor::new(Vec::new());
    x.write(&mut w).map_err(|e| Viol { msg: format!("{x:?} is not writable: {e}"), known: None })?;
    let b = w.into_inner();
    c.seen(&b);
    c.count("blocks", 1);
    let mut rd = Cursor::new(&b);
    let y: Blocks = rd.read_le().map_err(|e| Viol { msg: format!("{x:?} was written but does not read back: {e}"), known: None })?;
    ensure!(y == x, "wrote {x:?}\nread {y:?}");
    ensure!(rd.position() == x.size_in_bytes(), "reading left the reader at {}, the record has {} bytes", rd.position(), x.size_in_bytes());
    for (n, null) in [
        ("p16", x.p16.is_none() == (b[0..2] == [0; 2])),
        ("q16", x.q16.is_none() == (b[2..4] == [0; 2])),
        ("p32", x.p32.is_none() == (b[8..12] == [0; 4])),
        ("q32", x.q32.is_none() == (b[12..16] == [0; 4])),
        ("p64", x.p64.is_none() == (b[16..24] == [0; 8])),
        ("r", x.r.is_none() == (b[24..32] == [0; 8])),
    ] {
        ensure!(null, "the offset of {n} does not tell null from present in {x:?}: {:?}", &b[..32]);
    }
    c.count("nulls", [x.p16.is_none(), x.q16.is_none(), x.p32.is_none(), x.p64.is_none(), x.r.is_none()].iter().filter(|n| **n).count() as u64);
    // clones are equal and independent, accessors reach the value
    let mut z = x.clone();
    ensure!(z == x, "a clone differs from its original: {x:?}");
    if let Some(p) = &mut *z.p32 {
        p[1] ^= 1;
        ensure!(z != x && x.p32.unwrap()[1] ^ 1 == z.p32.unwrap()[1], "changing a clone through its pointer had the wrong effect");
        *z.p32 = None;
        ensure!(z.p32 == Ptr::null() && z.p32 != x.p32, "clearing a pointer did not make it null");
    }
    *z.r = Some(RelPtr64::new(1));
    ensure!(z.r == RelPtr64::new(RelPtr64::new(1)) && z.r == Some(RelPtr64::from(Some(1))).into(), "a relative pointer set through its accessor is {:?}", z.r);
    z.strings.elements.push("x".into());
    ensure!(z.strings != x.strings && z.strings.elements.len() == x.strings.elements.len() + 1, "changing a cloned array had the wrong effect");
    let numbers: Vec<u32> = (0..c.rng.size(9)).map(|_| c.rng.u32()).collect();
    let forms: [SsbhArray<u32>; 3] = [SsbhArray::from_vec(numbers.clone()), numbers.clone().into(), numbers.iter().copied().collect()];
    for f in &forms {
        ensure!(f.elements == numbers && *f == forms[0], "an array built from {numbers:?} holds {:?}", f.elements);
    }
    let raw: Vec<u8> = numbers.iter().map(|n| *n as u8).collect();
    ensure!(SsbhByteBuffer::from_vec(raw.clone()) == SsbhByteBuffer::from(raw.clone()) && SsbhByteBuffer::from(raw.clone()).elements == raw, "a buffer built from {raw:?} differs");
    ensure!(SsbhByteBuffer::default() == SsbhByteBuffer::new() && SsbhByteBuffer::new().elements.is_empty(), "a new buffer is not empty");
    ensure!(SsbhArray::<u8>::default() == SsbhArray::new() && SsbhArray::<u8>::new().elements.is_empty(), "a new array is not empty");
    // JSON
    let j = serde_json::to_value(&x).map_err(|e| Viol { msg: e.to_string(), known: None })?;
    let hex: String = x.bytes.elements.iter().map(|b| format!("{b:02x}")).collect();
    ensure!(j["bytes"] == json!(hex), "bytes {:?} are {} in JSON", x.bytes.elements, j["bytes"]);
    ensure!(j["p16"] == x.p16.map_or(Value::Null, |n| json!(n)), "{:?} is {} in JSON", x.p16, j["p16"]);
    ensure!(j["strings"] == json!(x.strings.elements.iter().map(|s| s.to_string_lossy()).collect::<Vec<_>>()), "{:?} is {} in JSON", x.strings, j["strings"]);
    let y: Blocks = serde_json::from_value(j.clone()).map_err(|e| Viol { msg: format!("{j}: {e}"), known: None })?;
    // Some(null pointer) and null share one JSON form, so compare what is written
    let mut w = Cursor::new(Vec::new());
    let mut expect = x.clone();
    if matches!(&*expect.r, Some(p) if p.is_none()) {
        *expect.r = None;
    }
    ensure!(y == expect, "{x:?}\nreads back from JSON as {y:?}");
    y.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
    for bad in [json!("0"), json!("zz"), json!("0g"), json!("12 3"), json!("0x12"), json!([300]), json!({})] {
        let r: Result<SsbhByteBuffer, _> = serde_json::from_value(bad.clone());
        ensure!(r.is_err(), "JSON {bad} is accepted as bytes {:?}", r.unwrap());
    }
    arguments(c)?;
    positions(c)?;
    anywhere(c)
}
/// Arguments reach the pointed-to values and every array element.
fn arguments(c: &mut Case) -> R {
    let k = c.rng.u32();
    let vals: Vec<u16> = (0..c.rng.range(1, 6)).map(|_| c.rng.u32() as u16).collect();
    let body: Vec<u8> = vals.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut f = 16u64.to_le_bytes().to_vec();
    f.extend((vals.len() as u64).to_le_bytes());
    f.extend(&body);
    let first = Tagged { tag: k, value: vals[0] };
    let e = |n: &str, got: String| v::<()>(format!("{n} read with argument {k} gives {got}, stored {vals:?}"));
    let r: Result<SsbhArray<Tagged>, _> = Cursor::new(&f).read_le_args((k,));
    match r {
        Ok(a) if a.elements.iter().all(|t| t.tag == k) && a.elements.iter().map(|t| t.value).eq(vals.iter().copied()) => {}
        r => return e("an array", format!("{r:?}")),
    }
    let r: Result<RelPtr64<Tagged>, _> = Cursor::new(&f).read_le_args((k,));
    if !r.as_ref().is_ok_and(|p| p.as_ref() == Some(&first)) {
        return e("a relative pointer", format!("{r:?}"));
    }
    let r: Result<Ptr64<Tagged>, _> = Cursor::new(&f).read_le_args((k,));
    if !r.as_ref().is_ok_and(|p| p.as_ref() == Some(&first)) {
        return e("a pointer", format!("{r:?}"));
    }
    let r: Result<Ptr16<Tagged>, _> = Cursor::new(&f).read_le_args((k,));
    if !r.as_ref().is_ok_and(|p| p.as_ref() == Some(&first)) {
        return e("a narrow pointer", format!("{r:?}"));
    }
    // arrays of pointers, pointers to arrays
    let mut g = 8u64.to_le_bytes().to_vec();
    g.extend(&f);
    let r: Result<RelPtr64<SsbhArray<Tagged>>, _> = Cursor::new(&g).read_le_args((k,));
    if !r.as_ref().is_ok_and(|p| p.as_ref().is_some_and(|a| a.elements.len() == vals.len() && a.elements[0] == first && a.elements.iter().all(|t| t.tag == k))) {
        return e("a pointer to an array", format!("{r:?}"));
    }
    c.count("argument_reads", 1);
    Ok(())
}
/// Every kind of offset may lead anywhere - in front of, into, right behind or far behind itself - and the reader goes on behind the header.
fn anywhere(c: &mut Case) -> R {
    let n = c.rng.range(24, 120);
    let mut f = c.rng.bytes(n);
    for b in f.iter_mut() {
        if *b > 0xC0 {
            *b = 0; // ends of strings
        } else if *b > 0x7f {
            *b &= 0x7f;
        }
    }
    let kind = c.rng.below(8);
    let size = [8usize, 2, 4, 8, 16, 16, 8, 16][kind];
    let at = c.rng.below(n - size + 1);
    let absolute = matches!(kind, 1..=3);
    // where to
    let to = match c.rng.below(5) {
        0 => at + size,
        1 => at + size + c.rng.below(9),
        2 => at + c.rng.below(size),
        3 if absolute => c.rng.below(at + 1),
        _ => c.rng.below(n),
    };
    if to >= n || (absolute && to == 0) || (!absolute && to <= at) {
        return Ok(());
    }
    let off = if absolute { to } else { to - at } as u64;
    f[at..at + size.min(8)].copy_from_slice(&off.to_le_bytes()[..size.min(8)]);
    let count = c.rng.below(6);
    match kind {
        4 | 5 => f[at + 8..at + 16].copy_from_slice(&(count as u64).to_le_bytes()),
        7 => f[at + 8..at + 16].copy_from_slice(&1u64.to_le_bytes()),
        _ => {}
    }
    let rest = &f[to..];
    let num = (rest.len() >= 4).then(|| u32::from_le_bytes(rest[..4].try_into().unwrap()));
    let mut rd = Cursor::new(&f);
    rd.set_position(at as u64);
    // what is there, as text; None if it does not fit
    let want: Option<String> = match kind {
        0..=3 => num.map(|n| format!("{n}")),
        4 => (rest.len() >= 2 * count).then(|| format!("{:?}", rest.chunks(2).take(count).map(|x| x[0] as u32 + 256 * x[1] as u32).collect::<Vec<_>>())),
        5 => (rest.len() >= count).then(|| format!("{:?}", &rest[..count])),
        6 => rest.iter().position(|b| *b == 0).map(|k| String::from_utf8_lossy(&rest[..k]).into_owned()),
        _ => num.map(|n| format!("{}", n)),
    };
    let got: Result<String, String> = match kind {
        0 => rd.read_le::<RelPtr64<u32>>().map(|p| format!("{}", p.unwrap())),
        1 => rd.read_le::<Ptr16<u32>>().map(|p| format!("{}", p.unwrap())),
        2 => rd.read_le::<Ptr32<u32>>().map(|p| format!("{}", p.unwrap())),
        3 => rd.read_le::<Ptr64<u32>>().map(|p| format!("{}", p.unwrap())),
        4 => rd.read_le::<SsbhArray<u16>>().map(|a| format!("{:?}", a.elements)),
        5 => rd.read_le::<SsbhByteBuffer>().map(|a| format!("{:?}", a.elements)),
        6 => rd.read_le::<SsbhString>().map(|a| a.to_string_lossy()),
        _ => rd.read_le::<SsbhEnum64<Kind>>().map(|e| match e.data.as_ref() {
            Some(Kind::Number(x)) => format!("{}", x.to_bits()),
            x => format!("{x:?}"),
        }),
    }
    .map_err(|e| e.to_string());
    const NAMES: [&str; 8] = ["relative pointer", "16-bit pointer", "32-bit pointer", "64-bit pointer", "array", "buffer", "string", "tagged value"];
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            ensure!(w == g, "a {} at {at} leading to {to} gives {g}, stored is {w} ({f:?})", NAMES[kind]);
            ensure!(rd.position() == (at + size) as u64, "reading a {} at {at} leading to {to} left the reader at {} instead of {}", NAMES[kind], rd.position(), at + size);
            c.count("reads_anywhere", 1);
            if to == at + size {
                c.count("reads_adjacent", 1);
            } else if to < at {
                c.count("reads_backwards", 1);
            }
        }
        (None, Err(_)) => c.count("reads_cut", 1),
        (w, g) => return v(format!("a {} at {at} leading to {to} in {} bytes gives {g:?}, stored is {w:?}", NAMES[kind], f.len())),
    }
    Ok(())
}
/// Blocks read from any position, with the data in front of or behind the header, continue right behind it.
fn positions(c: &mut Case) -> R {
    let at = c.rng.range(0, 40);
    let value = c.rng.u32() | 1;
    let gap = c.rng.range(0, 40);
    let mut f = c.rng.bytes(at);
    f.extend(((8 + gap) as u64).to_le_bytes());
    f.extend(c.rng.bytes(gap));
    f.extend(value.to_le_bytes());
    let mut rd = Cursor::new(&f);
    rd.set_position(at as u64);
    let p: RelPtr64<u32> = rd.read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(*p == Some(value) && rd.position() == at as u64 + 8, "a relative pointer at {at} to +{} gives {p:?} (expected {value}) at {}", 8 + gap, rd.position());
    // absolute, pointing in front of the pointer itself when there is room
    if at >= 6 {
        let mut f = c.rng.bytes(at);
        let to = c.rng.range(1, at - 4);
        f[to..to + 4].copy_from_slice(&value.to_le_bytes());
        f.extend((to as u32).to_le_bytes());
        let mut rd = Cursor::new(&f);
        rd.set_position(at as u64);
        let p: Ptr32<u32> = rd.read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
        ensure!(*p == Some(value) && rd.position() == at as u64 + 4, "a pointer at {at} to {to} gives {p:?} (expected {value}) at {}", rd.position());
        c.count("moved_reads", 1);
    }
    // arrays anywhere behind
    let n = c.rng.range(0, 5);
    let items: Vec<u16> = (0..n).map(|_| c.rng.u32() as u16).collect();
    let mut f = c.rng.bytes(at);
    f.extend(((16 + gap) as u64).to_le_bytes());
    f.extend((n as u64).to_le_bytes());
    f.extend(c.rng.bytes(gap));
    f.extend(items.iter().flat_map(|x| x.to_le_bytes()));
    let mut rd = Cursor::new(&f);
    rd.set_position(at as u64);
    let a: SsbhArray<u16> = rd.read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(a.elements == items && rd.position() == at as u64 + 16, "an array at {at} gives {:?} (expected {items:?}) at {}", a.elements, rd.position());
    rd.set_position(at as u64);
    let mut g = f.clone();
    g[at + 8..at + 16].copy_from_slice(&(2 * n as u64).to_le_bytes());
    let mut rd = Cursor::new(&g);
    rd.set_position(at as u64);
    let a: SsbhByteBuffer = rd.read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(a.elements == f[f.len() - 2 * n..] && rd.position() == at as u64 + 16, "a buffer at {at} gives {:?} at {}", a.elements, rd.position());
    // offsets that wrap or leave the file are errors
    for bad in [u64::MAX, (u64::MAX - at as u64).wrapping_add(1).max(1 << 62), 1 << 63, f.len() as u64 + 1, u64::MAX - 7] {
        let mut g = f.clone();
        g[at..at + 8].copy_from_slice(&bad.to_le_bytes());
        g[at + 8..at + 16].copy_from_slice(&1u64.to_le_bytes());
        let go = |name: &str, ok: bool| if ok { v::<()>(format!("a {name} at {at} with offset {bad:#x} in {} bytes is accepted", g.len())) } else { Ok(()) };
        let mut rd = Cursor::new(&g);
        rd.set_position(at as u64);
        go("relative pointer", no_panic(|| rd.read_le::<RelPtr64<u32>>().is_ok()).map_err(|m| Viol { msg: m, known: None })?)?;
        rd.set_position(at as u64);
        go("array", no_panic(|| rd.read_le::<SsbhArray<u16>>().is_ok()).map_err(|m| Viol { msg: m, known: None })?)?;
        rd.set_position(at as u64);
        go("buffer", no_panic(|| rd.read_le::<SsbhByteBuffer>().is_ok()).map_err(|m| Viol { msg: m, known: None })?)?;
        rd.set_position(at as u64);
        go("pointer", no_panic(|| rd.read_le::<Ptr64<u32>>().is_ok()).map_err(|m| Viol { msg: m, known: None })?)?;
        c.count("bad_offsets_rejected", 4);
    }
    Ok(())
}
/// Narrow pointers: exact up to the last representable offset, an error beyond, never a wrapped offset.
#[derive(BinRead, SsbhWrite, Debug, PartialEq)]
struct Narrow {
    first: SsbhByteBuffer,
    p: Ptr16<u32>,
    #[br(pad_after = 6)]
    #[ssbhwrite(pad_after = 6)]
    q: Ptr32<SsbhString>,
}
fn narrow(c: &mut Case) -> R {
    let n = if c.rng.bool() { c.rng.range(65_400, 65_700) } else { *c.rng.pick(&[0, 1, 100, 32_767, 32_768, 60_000, 65_536, 131_072, 200_000]) };
    let x = Narrow { first: vec![0x5A; n].into(), p: Ptr::new(c.rng.u32()), q: Ptr::new("name".into()) };
    let mut w = Cursor::new(Vec::new());
    let r = x.write(&mut w);
    // header 16 + 2 + 4 + 6, buffer from the next multiple of 8, then the number from the next multiple of 4
    let at = (32 + n as u64).div_ceil(4) * 4;
    c.seen(&(n as u64).to_le_bytes());
    c.sample(|| format!("{n} bytes in front of a 16-bit pointer: {}", if r.is_ok() { "written" } else { "rejected" }));
    match r {
        Ok(()) => {
            ensure!(at <= 0xFFFF, "an offset of {at} was written to a 16-bit pointer");
            let b = w.into_inner();
            let y: Narrow = Cursor::new(&b).read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
            ensure!(y == x, "{n} bytes and a narrow pointer: wrote {:?} {:?}, read {:?} {:?}", x.p, x.q, y.p, y.q);
            c.count("narrow_ok", 1);
        }
        Err(e) => {
            ensure!(at > 0xFFFF, "an offset of {at} is rejected by a 16-bit pointer: {e}");
            c.count("narrow_rejected", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- vectors
fn bits<const N: usize>(a: [f32; N]) -> [u32; N] {
    a.map(|x| x.to_bits())
}
fn same<const N: usize>(a: [f32; N], b: [f32; N]) -> bool {
    // min and max leave the sign of a zero and the payload of a NaN open
    a.iter().zip(&b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}
fn any(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => f32::NAN,
        1 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY]),
        2 => f32::from_bits(r.u32()),
        _ => r.f32_finite(),
    }
}
fn vectors(c: &mut Case) -> R {
    let a: [f32; 4] = std::array::from_fn(|_| any(&mut c.rng));
    let mut b: [f32; 4] = std::array::from_fn(|_| any(&mut c.rng));
    if c.rng.bool() {
        let i = c.rng.below(4);
        b[i] = a[i];
    }
    c.seen(format!("{a:?}{b:?}").as_bytes());
    c.sample(|| format!("{a:?} {b:?}"));
    c.count("vectors", 1);
    let min = |x: f32, y: f32| if x.is_nan() { y } else if y.is_nan() || x < y { x } else { y };
    let max = |x: f32, y: f32| if x.is_nan() { y } else if y.is_nan() || x > y { x } else { y };
    let (a3, b3) = ([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    let v3 = Vector3::new(a[0], a[1], a[2]);
    let w3 = Vector3::from(b3);
    let v4 = Vector4::new(a[0], a[1], a[2], a[3]);
    let w4 = Vector4::from(b);
    ensure!(bits([v3.x, v3.y, v3.z]) == bits(a3) && bits(v3.to_array()) == bits(a3) && bits(v3.into()) == bits(a3), "Vector3 of {a3:?} is {v3:?}");
    ensure!(bits([v4.x, v4.y, v4.z, v4.w]) == bits(a) && bits(v4.to_array()) == bits(a) && bits(v4.into()) == bits(a), "Vector4 of {a:?} is {v4:?}");
    ensure!(bits(w3.to_array()) == bits(b3) && bits(w4.to_array()) == bits(b), "vectors of {b:?} are {w3:?} {w4:?}");
    let t3: (f32, f32, f32) = v3.into();
    let t4: (f32, f32, f32, f32) = v4.into();
    ensure!(bits([t3.0, t3.1, t3.2]) == bits(a3) && bits(Vector3::from(t3).to_array()) == bits(a3), "Vector3 of {a3:?} is the tuple {t3:?}");
    ensure!(bits([t4.0, t4.1, t4.2, t4.3]) == bits(a) && bits(Vector4::from(t4).to_array()) == bits(a), "Vector4 of {a:?} is the tuple {t4:?}");
    ensure!(bits(v3.extend(a[3]).to_array()) == bits(a), "{v3:?} extended by {} is {:?}", a[3], v3.extend(a[3]));
    ensure!(bits(v4.xyz().to_array()) == bits(a3), "the first three of {v4:?} are {:?}", v4.xyz());
    for (x, y, p, q) in [(v3, w3, a3, b3), (w3, v3, b3, a3)] {
        ensure!(same(x.min(y).to_array(), std::array::from_fn(|i| min(p[i], q[i]))), "min of {x:?} and {y:?} is {:?}", x.min(y));
        ensure!(same(x.max(y).to_array(), std::array::from_fn(|i| max(p[i], q[i]))), "max of {x:?} and {y:?} is {:?}", x.max(y));
    }
    for (x, y, p, q) in [(v4, w4, a, b), (w4, v4, b, a)] {
        ensure!(same(x.min(y).to_array(), std::array::from_fn(|i| min(p[i], q[i]))), "min of {x:?} and {y:?} is {:?}", x.min(y));
        ensure!(same(x.max(y).to_array(), std::array::from_fn(|i| max(p[i], q[i]))), "max of {x:?} and {y:?} is {:?}", x.max(y));
    }
    ensure!(Vector3::ZERO.to_array() == [0.0; 3] && Vector3::default().to_array() == [0.0; 3] && Vector4::ZERO.to_array() == [0.0; 4] && Vector4::default().to_array() == [0.0; 4], "zero vectors are not zero");
    // matrices: columns in order, on disk column after column
    let m: [[f32; 4]; 4] = std::array::from_fn(|_| std::array::from_fn(|_| any(&mut c.rng)));
    let x = Matrix4x4::from_cols_array(&m);
    for (col, want) in [(x.col1, m[0]), (x.col2, m[1]), (x.col3, m[2]), (x.col4, m[3])] {
        ensure!(bits(col.to_array()) == bits(want), "Matrix4x4 of {m:?} is {x:?}");
    }
    ensure!(x.to_cols_array().map(bits) == m.map(bits), "Matrix4x4 {x:?} gives {:?}", x.to_cols_array());
    let n: [[f32; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| m[i][j]));
    let y = Matrix3x3::from_cols_array(&n);
    for (col, want) in [(y.col1, n[0]), (y.col2, n[1]), (y.col3, n[2])] {
        ensure!(bits(col.to_array()) == bits(want), "Matrix3x3 of {n:?} is {y:?}");
    }
    ensure!(y.to_cols_array().map(bits) == n.map(bits), "Matrix3x3 {y:?} gives {:?}", y.to_cols_array());
    ensure!(Matrix4x4::identity().to_cols_array() == std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f32)), "the identity is {:?}", Matrix4x4::identity());
    ensure!(Matrix3x3::identity().to_cols_array() == std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f32)), "the identity is {:?}", Matrix3x3::identity());
    let color = Color4f { r: a[0], g: a[1], b: a[2], a: a[3] };
    disk(&v3, &a3)?;
    disk(&v4, &a)?;
    disk(&color, &a)?;
    disk(&x, &m.concat())?;
    disk(&y, &n.concat())?;
    // colours read back by component
    let back: Color4f = Cursor::new(a.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()).read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(bits([back.r, back.g, back.b, back.a]) == bits(a), "the colour {a:?} reads as {back:?}");
    if a.iter().all(|x| x.is_finite()) {
        let j = serde_json::to_value(color).unwrap();
        ensure!(serde_json::from_value::<Color4f>(j.clone()).is_ok_and(|k| k == color) && j["r"].as_f64() == Some(a[0] as f64) && j["a"].as_f64() == Some(a[3] as f64), "the colour {color:?} is {j} in JSON");
    }
    Ok(())
}
fn disk<T: SsbhWrite + Debug + for<'a> BinRead<Args<'a> = ()>>(x: &T, want: &[f32]) -> R {
    let want: Vec<u8> = want.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut w = Cursor::new(Vec::new());
    x.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(w.get_ref() == &want, "{x:?} writes {:02x?}, expected {want:02x?}", w.get_ref());
    ensure!(x.size_in_bytes() == want.len() as u64, "{x:?} reports {} bytes, occupies {}", x.size_in_bytes(), want.len());
    let y: T = Cursor::new(&want).read_le().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    let mut w = Cursor::new(Vec::new());
    y.write(&mut w).map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(w.get_ref() == &want, "{x:?} reads back as {y:?}");
    Ok(())
}

// ---------------------------------------------------------------- data-layer conversions
fn dbg(x: impl Debug) -> String {
    format!("{x:?}")
}
fn conversions(c: &mut Case) -> R {
    c.count("conversions", 1);
    let s = gen_data::sampler(&mut c.rng);
    let lib = matl::Sampler::from(&s);
    c.sample(|| format!("{s:?}"));
    c.seen(dbg(&s).as_bytes());
    ensure!(dbg(matl::Sampler::from(s.clone())) == dbg(&lib), "{s:?} converts differently by value and by reference");
    ensure!(dbg(SamplerData::from(&lib)) == dbg(&s) && dbg(SamplerData::from(lib.clone())) == dbg(&s), "{s:?} comes back as {:?}", SamplerData::from(&lib));
    let want = if s.max_anisotropy == MaxAnisotropy::One { matl::FilteringType::Default } else { matl::FilteringType::AnisotropicFiltering };
    ensure!(lib.texture_filtering_type == want && dbg(lib.border_color) == dbg(s.border_color) && lib.lod_bias.to_bits() == s.lod_bias.to_bits() && [lib.wraps, lib.wrapt, lib.wrapr] == [s.wraps, s.wrapt, s.wrapr] && lib.min_filter == s.min_filter && lib.mag_filter == s.mag_filter && lib.max_anisotropy == s.max_anisotropy, "{s:?} converts to {lib:?}");
    let r = &mut c.rng;
    let b = BlendStateData {
        source_color: gen_data::any(r),
        color_operation: gen_data::any(r),
        destination_color: gen_data::any(r),
        source_alpha: gen_data::any(r),
        alpha_operation: gen_data::any(r),
        destination_alpha: gen_data::any(r),
        alpha_sample_to_coverage: r.bool(),
    };
    let lib = matl::BlendStateV16::from(&b);
    ensure!(dbg(matl::BlendStateV16::from(b.clone())) == dbg(&lib), "{b:?} converts differently by value and by reference");
    ensure!(BlendStateData::from(&lib) == b && BlendStateData::from(lib.clone()) == b, "{b:?} comes back as {:?}", BlendStateData::from(&lib));
    ensure!((lib.alpha_sample_to_coverage, lib.source_color, lib.destination_alpha, lib.alpha_operation) == (b.alpha_sample_to_coverage as u32, b.source_color, b.destination_alpha, b.alpha_operation), "{b:?} converts to {lib:?}");
    let old: matl::BlendStateV15 = gen_data::any(r);
    let d = BlendStateData::from(&old);
    ensure!(BlendStateData::from(old.clone()) == d, "{old:?} converts differently by value and by reference");
    ensure!((d.source_color, d.color_operation, d.destination_color, d.source_alpha, d.alpha_operation, d.destination_alpha) == (old.source_color, old.color_operation, old.destination_color, old.source_alpha, old.alpha_operation, old.destination_alpha), "{old:?} converts to {d:?}");
    let x = RasterizerStateData { fill_mode: gen_data::any(r), cull_mode: gen_data::any(r), depth_bias: any(r) };
    let lib = matl::RasterizerStateV16::from(&x);
    ensure!(dbg(matl::RasterizerStateV16::from(x.clone())) == dbg(&lib), "{x:?} converts differently by value and by reference");
    ensure!(dbg(RasterizerStateData::from(&lib)) == dbg(&x) && dbg(RasterizerStateData::from(lib.clone())) == dbg(&x), "{x:?} comes back as {:?}", RasterizerStateData::from(&lib));
    let old = matl::RasterizerStateV15::from(&x);
    ensure!(matl::RasterizerStateV15::from(x.clone()) == old && old.cull_mode == x.cull_mode && RasterizerStateData::from(&old).cull_mode == x.cull_mode && RasterizerStateData::from(old.clone()) == RasterizerStateData::from(&old), "{x:?} converts to {old:?}");
    let id: ParamId = gen_data::any(r);
    let p = ParamData::new(id, x.depth_bias.to_bits());
    ensure!(p == ParamData { param_id: id, data: x.depth_bias.to_bits() }, "a parameter {id:?} is built as {p:?}");
    // element counts
    let kind = r.range(2, 4);
    let n = r.size(9);
    let data = match kind {
        2 => VectorData::Vector2(vec![[1.0; 2]; n]),
        3 => VectorData::Vector3(vec![[1.0; 3]; n]),
        _ => VectorData::Vector4(vec![[1.0; 4]; n]),
    };
    ensure!(data.len() == n && data.is_empty() == (n == 0), "{n} vectors of {kind} are counted as {} (empty: {})", data.len(), data.is_empty());
    let k = r.below(6);
    let t = crate::gen_anim::values(r, k, n);
    let (_, words) = crate::gen_anim::words(&t);
    ensure!(t.len() == words.len() && t.len() == n && t.is_empty() == (n == 0), "{n} track values of kind {k} are counted as {} (empty: {})", t.len(), t.is_empty());
    // vertex counts: the common length, or an error
    let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
    let mut lens = vec![];
    let differ = r.chance(1, 3);
    for slot in 0..6 {
        for _ in 0..r.size(2) {
            let len = if differ && r.chance(1, 3) { n + r.range(0, 2) } else { n };
            lens.push(len);
            let data = if slot == 4 { VectorData::Vector2(vec![[0.5; 2]; len]) } else { VectorData::Vector4(vec![[0.5; 4]; len]) };
            let list = match slot {
                0 => &mut o.positions,
                1 => &mut o.normals,
                2 => &mut o.binormals,
                3 => &mut o.tangents,
                4 => &mut o.texture_coordinates,
                _ => &mut o.color_sets,
            };
            list.push(AttributeData { name: "a".into(), data });
        }
    }
    let got = o.vertex_count();
    if lens.iter().all(|l| *l == *lens.first().unwrap_or(&0)) {
        let want = lens.first().copied().unwrap_or(0);
        ensure!(got.as_ref().is_ok_and(|g| *g == want), "attribute lengths {lens:?} give the vertex count {got:?}");
        c.count("counts_equal", 1);
    } else {
        ensure!(got.is_err(), "attribute lengths {lens:?} give the vertex count {got:?}");
        c.count("counts_differ", 1);
    }
    Ok(())
}
