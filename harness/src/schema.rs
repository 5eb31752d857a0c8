//! Reference model of the container formats, driven by the frozen table in schema.txt.
//! Generates random files, encodes them following ssbh_offsets.md and predicts their JSON.
use crate::core::Rng;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(usize, bool),
    F32,
    Str(u64),
    CStr(u64),
    Buf,
    Arr(Box<Ty>),
    Rel(Box<Ty>),
    Abs(Box<Ty>),
    List(Box<Ty>),
    Tagged(String),
    Named(String),
    Bits(usize),
    Fixed(Box<Ty>, usize),
    Unit,
}
#[derive(Debug)]
pub struct Struct {
    pub pad: u64,
    pub align: u64,
    pub fields: Vec<(String, Ty)>,
}
#[derive(Debug)]
pub struct UEnum {
    pub width: usize,
    pub items: Vec<(String, u64)>,
}
#[derive(Debug)]
pub struct Root {
    pub file: String,
    pub major: u16,
    pub minor: u16,
    pub variant: String,
    pub newtype: bool,
    pub pad: u64,
    pub after: u64,
    pub body: Struct,
}
#[derive(Default)]
pub struct Schema {
    pub structs: HashMap<String, Struct>,
    pub enums: HashMap<String, UEnum>,
    pub tagged: HashMap<String, Vec<(u64, String, Ty)>>,
    pub roots: Vec<Root>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Int(u64),
    F32(u32),
    Str(Option<Vec<u8>>),
    Buf(Vec<u8>),
    Seq(Vec<Node>),
    Opt(Option<Box<Node>>),
    Tag(Option<(usize, Box<Node>)>),
    Enum(usize),
    Unit,
}
pub fn magic_of(file: &str) -> &'static [u8; 4] {
    match file {
        "Hlpb" => b"BPLH",
        "Matl" => b"LTAM",
        "Modl" => b"LDOM",
        "Mesh" => b"HSEM",
        "Skel" => b"LEKS",
        "Anim" => b"MINA",
        "Nlst" => b"TSLN",
        "Nrpd" => b"DPRN",
        "Nufx" => b"XFUN",
        "Shdr" => b"RDHS",
        _ => unreachable!(),
    }
}

pub fn schema() -> &'static Schema {
    static S: std::sync::OnceLock<Schema> = std::sync::OnceLock::new();
    S.get_or_init(parse)
}
fn parse() -> Schema {
    let text = include_str!("schema.txt");
    let mut s = Schema::default();
    let mut names: Vec<String> = vec![];
    for l in text.lines() {
        if l.starts_with("S ") || l.starts_with("E ") || l.starts_with("T ") {
            names.push(l[2..].split([' ', ':']).next().unwrap().to_string());
        }
    }
    let resolve = |module: &str, n: &str| -> String {
        let own = format!("{module}.{n}");
        if names.contains(&own) {
            return own;
        }
        let suffix = format!(".{n}");
        let mut c = names.iter().filter(|x| *x == n || x.ends_with(&suffix));
        let r = c.next().unwrap_or_else(|| panic!("unknown type {n}")).clone();
        assert!(c.next().is_none(), "ambiguous {n}");
        r
    };
    fn ty(t: &str, r: &dyn Fn(&str) -> String) -> Ty {
        let t = t.trim();
        match t {
            "u8" => return Ty::Int(1, false),
            "u16" => return Ty::Int(2, false),
            "u32" => return Ty::Int(4, false),
            "u64" => return Ty::Int(8, false),
            "i16" => return Ty::Int(2, true),
            "i32" => return Ty::Int(4, true),
            "f32" => return Ty::F32,
            "str4" => return Ty::Str(4),
            "str8" => return Ty::Str(8),
            "cstr4" => return Ty::CStr(4),
            "cstr16" => return Ty::CStr(16),
            "buf" => return Ty::Buf,
            "unit" => return Ty::Unit,
            "bits4" => return Ty::Bits(4),
            "bits2" => return Ty::Bits(2),
            _ => {}
        }
        if let Some(x) = t.strip_prefix('[') {
            return Ty::Arr(Box::new(ty(x.strip_suffix(']').unwrap(), r)));
        }
        if let Some(x) = t.strip_prefix('*') {
            return Ty::Rel(Box::new(ty(x, r)));
        }
        if let Some(x) = t.strip_prefix('@') {
            return Ty::Abs(Box::new(ty(x, r)));
        }
        if let Some(x) = t.strip_prefix("vec ") {
            return Ty::List(Box::new(ty(x, r)));
        }
        if let Some(x) = t.strip_prefix('?') {
            return Ty::Tagged(r(x));
        }
        if let Some((a, b)) = t.split_once('x') {
            if let Ok(n) = b.parse() {
                return Ty::Fixed(Box::new(ty(a, r)), n);
            }
        }
        Ty::Named(r(t))
    }
    let opt = |head: &str, k: &str| -> u64 {
        head.split(' ').find_map(|w| w.strip_prefix(k)).map(|v| v.parse().unwrap()).unwrap_or(0)
    };
    let fields = |body: &str, module: &str| -> Vec<(String, Ty)> {
        body.split(" ; ")
            .map(|f| {
                let (n, t) = f.trim().split_once(' ').unwrap();
                (n.to_string(), ty(t, &|x| resolve(module, x)))
            })
            .collect()
    };
    for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
        let kind = &l[..1];
        match kind {
            "E" => {
                let mut w = l[2..].split(' ');
                let n = w.next().unwrap().to_string();
                let width = match w.next().unwrap() {
                    "u8" => 1,
                    "u32" => 4,
                    "u64" => 8,
                    x => panic!("{x}"),
                };
                let items = w.map(|i| i.split_once('=').map(|(a, b)| (a.to_string(), b.parse().unwrap())).unwrap()).collect();
                s.enums.insert(n, UEnum { width, items });
            }
            "S" => {
                let (head, body) = l[2..].split_once(':').unwrap();
                let name = head.split(' ').next().unwrap();
                let module = name.split('.').next().unwrap();
                let st = Struct { pad: opt(head, "pad="), align: opt(head, "align="), fields: fields(body, module) };
                s.structs.insert(name.to_string(), st);
            }
            "T" => {
                let mut w = l[2..].split(' ');
                let name = w.next().unwrap().to_string();
                let module = name.split('.').next().unwrap().to_string();
                let v = w
                    .map(|x| {
                        let mut p = x.splitn(3, ':');
                        let tag = p.next().unwrap().parse().unwrap();
                        let var = p.next().unwrap().to_string();
                        (tag, var, ty(p.next().unwrap(), &|x| resolve(&module, x)))
                    })
                    .collect();
                s.tagged.insert(name, v);
            }
            "R" => {
                let (head, body) = l[2..].split_once(':').unwrap();
                let w: Vec<&str> = head.split(' ').collect();
                let module = w[0].to_lowercase();
                let newtype = w.contains(&"newtype");
                let fs = if newtype {
                    vec![(String::new(), ty(body, &|x| resolve(&module, x)))]
                } else {
                    fields(body, &module)
                };
                s.roots.push(Root {
                    file: w[0].into(),
                    major: w[1].parse().unwrap(),
                    minor: w[2].parse().unwrap(),
                    variant: w[3].into(),
                    newtype,
                    pad: opt(head, "pad="),
                    after: opt(head, "after="),
                    body: Struct { pad: 0, align: 0, fields: fs },
                });
            }
            _ => panic!("{l}"),
        }
    }
    s
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    /// only valid UTF-8 and finite floats, so the value is representable in JSON
    pub json: bool,
    pub max_array: usize,
    pub budget: usize,
    pub max_buf: usize,
    pub nulls: bool,
}
thread_local! {
    /// (lists to pass by, target): the list that gets very many entries while a file is generated.
    static SPIKE: std::cell::Cell<Option<(usize, usize)>> = const { std::cell::Cell::new(None) };
}
/// A file of the given kind in which one list or buffer, wherever it is, has about `len` entries.
/// None if the generated value has no list.
pub fn gen_spike(k: usize, r: &mut Rng, len: usize, json: bool) -> Option<RefFile> {
    for pass in [r.below(3), 0, 0] {
        SPIKE.set(Some((pass, len)));
        let o = GenOpts { json, max_array: 3, budget: 12, max_buf: 20, nulls: false };
        let rf = gen_file(k, r, o);
        if SPIKE.take().is_none() {
            return Some(rf);
        }
    }
    None
}
fn nodes(n: &Node) -> usize {
    match n {
        Node::Seq(v) => 1 + v.iter().map(nodes).sum::<usize>(),
        Node::Opt(Some(v)) => 1 + nodes(v),
        Node::Tag(Some((_, v))) => 1 + nodes(v),
        Node::Str(Some(s)) => 1 + s.len() / 32,
        _ => 1,
    }
}
fn spike() -> Option<usize> {
    match SPIKE.get() {
        Some((0, n)) => {
            SPIKE.set(None);
            Some(n)
        }
        Some((k, n)) => {
            SPIKE.set(Some((k - 1, n)));
            None
        }
        None => None,
    }
}
/// Lengths around the limits an implementation may have for text.
pub fn long_len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => *r.pick(&[65_534usize, 65_535, 65_536, 70_000]),
        1..=4 => *r.pick(&[127usize, 128, 255, 256, 257, 511, 512, 513]),
        5..=8 => *r.pick(&[1023usize, 1024, 1025, 2048, 4095, 4096, 4097]),
        _ => r.range(100, 9000),
    }
}
pub fn gen_string(r: &mut Rng, json: bool) -> Vec<u8> {
    if !json && r.chance(1, 6) {
        let n = r.size(24);
        return (0..n).map(|_| r.u8().max(1)).collect();
    }
    if r.chance(1, 400) {
        let n = long_len(r);
        return (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    }
    r.name().into_bytes().into_iter().filter(|b| *b != 0).collect()
}
fn gen_f32(r: &mut Rng, json: bool) -> u32 {
    if json {
        let mut v = r.f32_finite();
        if !v.is_finite() {
            v = 1.5;
        }
        v.to_bits()
    } else {
        match r.below(4) {
            0 => r.u32(),
            1 => *r.pick(&[0x7fc00000u32, 0x7f800001, 0xffc12345, 0x7f800000, 0xff800000, 0x80000000, 1]),
            _ => r.f32_finite().to_bits(),
        }
    }
}
impl Schema {
    pub fn gen(&self, t: &Ty, r: &mut Rng, o: &mut GenOpts) -> Node {
        match t {
            Ty::Int(w, _) => {
                let m = if *w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                Node::Int(match r.below(4) {
                    0 => r.u64() & m,
                    1 => *r.pick(&[0u64, 1, 2, 255, 256, 0xffff, 0x8000, 0x7fff, 0xffff_ffff, 0x8000_0000, u64::MAX]) & m,
                    _ => r.below(40) as u64 & m,
                })
            }
            Ty::F32 => Node::F32(gen_f32(r, o.json)),
            Ty::Str(_) => Node::Str(if o.nulls && r.chance(1, 6) { None } else { Some(gen_string(r, o.json)) }),
            Ty::CStr(_) => Node::Str(Some(gen_string(r, o.json))),
            Ty::Buf => {
                if let Some(n) = spike() {
                    return Node::Buf(r.bytes(n * 8));
                }
                let n = if r.bool() { r.size(12) } else { r.size(o.max_buf) };
                Node::Buf(r.bytes(n))
            }
            Ty::Arr(e) | Ty::List(e) => {
                if let Some(n) = spike() {
                    // Few different elements, so that long lists are cheap to make.
                    let some: Vec<Node> = (0..40).map(|_| self.gen(e, r, &mut GenOpts { budget: if n > 100_000 { 0 } else { 2 }, max_array: 2, max_buf: 6, ..*o })).collect();
                    // Lists of large elements stay below a few million values.
                    let n = n.min(1_200_000 / some.iter().map(nodes).max().unwrap_or(1)).max(66_000.min(n));
                    return Node::Seq((0..n).map(|i| some[(i * 7 + i / 40) % 40].clone()).collect());
                }
                let n = r.size(o.max_array).min(o.budget);
                o.budget -= n;
                Node::Seq((0..n).map(|_| self.gen(e, r, o)).collect())
            }
            Ty::Rel(e) | Ty::Abs(e) => {
                if o.nulls && r.chance(1, 4) {
                    Node::Opt(None)
                } else {
                    Node::Opt(Some(Box::new(self.gen(e, r, o))))
                }
            }
            Ty::Tagged(n) => {
                if o.nulls && r.chance(1, 8) {
                    return Node::Tag(None);
                }
                let v = &self.tagged[n];
                let i = r.below(v.len());
                Node::Tag(Some((i, Box::new(self.gen(&v[i].2, r, o)))))
            }
            Ty::Named(n) => {
                if let Some(e) = self.enums.get(n) {
                    Node::Enum(r.below(e.items.len()))
                } else {
                    Node::Seq(self.structs[n].fields.iter().map(|f| self.gen(&f.1, r, o)).collect())
                }
            }
            Ty::Bits(w) => Node::Int(if r.bool() { r.u64() & ((1u64 << (8 * w)) - 1) } else { r.below(16) as u64 }),
            Ty::Fixed(e, n) => Node::Seq((0..*n).map(|_| self.gen(e, r, o)).collect()),
            Ty::Unit => Node::Unit,
        }
    }
    pub fn gen_root(&self, root: &Root, r: &mut Rng, o: &mut GenOpts) -> Node {
        Node::Seq(root.body.fields.iter().map(|f| self.gen(&f.1, r, o)).collect())
    }
    /// inline size, padding included
    pub fn size(&self, t: &Ty, n: &Node) -> u64 {
        match t {
            Ty::Int(w, _) => *w as u64,
            Ty::F32 => 4,
            Ty::Str(_) | Ty::Rel(_) | Ty::Abs(_) => 8,
            Ty::CStr(_) => 0,
            Ty::Buf | Ty::Arr(_) | Ty::Tagged(_) => 16,
            Ty::Bits(w) => *w as u64,
            Ty::Unit => 0,
            Ty::Fixed(e, _) | Ty::List(e) => match n {
                Node::Seq(v) => v.iter().map(|x| self.size(e, x)).sum(),
                _ => unreachable!(),
            },
            Ty::Named(name) => {
                if let Some(e) = self.enums.get(name) {
                    e.width as u64
                } else {
                    let s = &self.structs[name];
                    let Node::Seq(v) = n else { unreachable!() };
                    s.fields.iter().zip(v).map(|(f, x)| self.size(&f.1, x)).sum::<u64>() + s.pad
                }
            }
        }
    }
    /// alignment of data a pointer refers to
    fn target_align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Named(n) => {
                if let Some(s) = self.structs.get(n) {
                    if s.align > 0 {
                        return s.align;
                    }
                    if s.fields.iter().all(|f| matches!(f.1, Ty::Int(4, _) | Ty::F32)) {
                        return 4;
                    }
                }
                8
            }
            Ty::List(e) => match &**e {
                // extended-mesh flags are a 16-aligned block
                Ty::Bits(2) => 16,
                e => self.target_align(e),
            },
            Ty::CStr(a) => *a,
            _ => 8,
        }
    }
}

#[derive(Default)]
pub struct Enc {
    pub out: Vec<u8>,
    pub ptr: u64,
    pub pointers: u64,
    pub max_depth: u64,
    /// emulate `write_all(&[])` past the end of an in-memory stream, which zero-extends it
    pub extend: bool,
    pub extended: bool,
    /// positions of array / buffer element counts and of pointer fields
    pub arr_counts: Vec<u64>,
    pub buf_counts: Vec<u64>,
    pub ptr_fields: Vec<u64>,
}
fn up(v: u64, n: u64) -> u64 {
    v.div_ceil(n) * n
}
impl Enc {
    pub fn put(&mut self, pos: u64, b: &[u8]) {
        let e = pos as usize + b.len();
        if self.out.len() < e && !b.is_empty() {
            self.out.resize(e, 0);
        }
        self.out[pos as usize..e].copy_from_slice(b);
    }
    fn int(&mut self, pos: u64, v: u64, w: usize) {
        self.put(pos, &v.to_le_bytes()[..w]);
    }
    /// Encodes `n` at `pos`; returns the end of its inline bytes.
    pub fn enc(&mut self, s: &Schema, t: &Ty, n: &Node, pos: u64, depth: u64) -> u64 {
        self.max_depth = self.max_depth.max(depth);
        let size = s.size(t, n);
        match (t, n) {
            (Ty::Int(w, _), Node::Int(v)) => self.int(pos, *v, *w),
            (Ty::Bits(w), Node::Int(v)) => {
                self.ptr = self.ptr.max(pos + size);
                self.int(pos, *v, *w)
            }
            (Ty::F32, Node::F32(v)) => self.int(pos, *v as u64, 4),
            (Ty::Named(name), Node::Enum(i)) => {
                self.ptr = self.ptr.max(pos + size);
                let e = &s.enums[name];
                self.int(pos, e.items[*i].1, e.width)
            }
            (Ty::Unit, _) => {}
            (Ty::CStr(a), Node::Str(Some(b))) => {
                // inline text: terminator, or N zero bytes when empty
                if b.is_empty() {
                    self.put(pos, &vec![0u8; *a as usize]);
                    return pos + a;
                }
                self.put(pos, b);
                self.put(pos + b.len() as u64, &[0]);
                return pos + b.len() as u64 + 1;
            }
            (Ty::Str(a), Node::Str(v)) => {
                self.ptr = self.ptr.max(pos + 8);
                match v {
                    None => self.int(pos, 0, 8),
                    Some(b) => self.pointee(s, &Ty::CStr(*a), &Node::Str(Some(b.clone())), pos, pos, *a, depth),
                }
            }
            (Ty::Buf, Node::Buf(b)) => {
                self.ptr = up(self.ptr.max(pos + 16), 8);
                self.pointers += 1;
                self.int(pos, if b.is_empty() { 0 } else { self.ptr - pos }, 8);
                self.int(pos + 8, b.len() as u64, 8);
                self.buf_counts.push(pos + 8);
                self.ptr_fields.push(pos);
                let p = self.ptr;
                if !b.is_empty() {
                    self.put(p, b);
                } else if self.out.len() < p as usize {
                    self.extended = true;
                    if self.extend {
                        self.out.resize(p as usize, 0);
                    }
                }
                self.ptr += b.len() as u64;
            }
            (Ty::Arr(e), Node::Seq(v)) => {
                self.ptr = up(self.ptr.max(pos + 16), 8);
                self.pointers += 1;
                self.int(pos, if v.is_empty() { 0 } else { self.ptr - pos }, 8);
                self.int(pos + 8, v.len() as u64, 8);
                self.arr_counts.push(pos + 8);
                self.ptr_fields.push(pos);
                let p = self.ptr;
                self.list(s, e, v, p, depth + 1);
            }
            (Ty::List(e), Node::Seq(v)) => {
                self.list(s, e, v, pos, depth);
            }
            (Ty::Rel(e), Node::Opt(v)) => {
                self.ptr = self.ptr.max(pos + 8);
                match v {
                    None => self.int(pos, 0, 8),
                    Some(x) => self.pointee(s, e, x, pos, pos, s.target_align(e), depth),
                }
            }
            (Ty::Abs(e), Node::Opt(v)) => {
                self.ptr = self.ptr.max(pos + 8);
                match v {
                    None => self.int(pos, 0, 8),
                    Some(x) => self.pointee(s, e, x, pos, 0, s.target_align(e), depth),
                }
            }
            (Ty::Tagged(name), Node::Tag(v)) => {
                self.ptr = self.ptr.max(pos + 16);
                match v {
                    None => {
                        self.int(pos, 0, 8);
                        self.int(pos + 8, 0, 8);
                    }
                    Some((i, x)) => {
                        let (tag, _, ty) = &s.tagged[name][*i];
                        self.int(pos + 8, *tag, 8);
                        self.ptr = up(self.ptr, 8);
                        let p = self.ptr;
                        self.pointers += 1;
                        self.ptr_fields.push(pos);
                        self.int(pos, p - pos, 8);
                        self.ptr = self.ptr.max(p + s.size(ty, x));
                        let end = self.enc(s, ty, x, p, depth + 1);
                        if end > self.ptr {
                            self.ptr = up(end, 8);
                        }
                    }
                }
            }
            (Ty::Fixed(e, _), Node::Seq(v)) => {
                self.list(s, e, v, pos, depth);
            }
            (Ty::Named(name), Node::Seq(v)) => {
                self.ptr = self.ptr.max(pos + size);
                let st = &s.structs[name];
                let mut p = pos;
                for (f, x) in st.fields.iter().zip(v) {
                    p = self.enc(s, &f.1, x, p, depth);
                }
                self.put(p, &vec![0u8; st.pad as usize]);
            }
            x => panic!("{x:?}"),
        }
        pos + size
    }
    fn list(&mut self, s: &Schema, e: &Ty, v: &[Node], pos: u64, depth: u64) {
        let total: u64 = v.iter().map(|x| s.size(e, x)).sum();
        self.ptr = self.ptr.max(pos + total);
        let mut p = pos;
        for x in v {
            p = self.enc(s, e, x, p, depth);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn pointee(&mut self, s: &Schema, t: &Ty, n: &Node, pos: u64, base: u64, align: u64, depth: u64) {
        self.pointers += 1;
        self.ptr_fields.push(pos);
        self.ptr = up(self.ptr, align);
        let p = self.ptr;
        self.int(pos, p - base, 8);
        let end = self.enc(s, t, n, p, depth + 1);
        if end > self.ptr {
            self.ptr = up(end, align);
        }
    }
}
impl Schema {
    pub fn encode(&self, root: &Root, n: &Node) -> Enc {
        self.encode_with(root, n, true)
    }
    pub fn encode_with(&self, root: &Root, n: &Node, extend: bool) -> Enc {
        let mut e = Enc { extend, ..Default::default() };
        e.put(0, b"HBSS");
        e.put(4, &64u64.to_le_bytes());
        e.put(12, &0u32.to_le_bytes());
        e.put(16, magic_of(&root.file));
        e.put(20, &root.major.to_le_bytes());
        e.put(22, &root.minor.to_le_bytes());
        let Node::Seq(v) = n else { unreachable!() };
        let size: u64 = root.body.fields.iter().zip(v).map(|(f, x)| self.size(&f.1, x)).sum::<u64>() + root.pad;
        e.ptr = 24 + size;
        let mut p = 24;
        for (f, x) in root.body.fields.iter().zip(v) {
            p = e.enc(self, &f.1, x, p, 0);
        }
        e.put(p, &vec![0u8; root.pad as usize]);
        if root.after > 0 {
            let l = e.out.len() as u64;
            e.out.resize(up(l, root.after) as usize, 0);
        }
        e
    }
    pub fn json(&self, t: &Ty, n: &Node) -> Value {
        match (t, n) {
            (Ty::Int(w, true), Node::Int(v)) => match w {
                2 => json!(*v as i16),
                4 => json!(*v as i32),
                _ => unreachable!(),
            },
            (Ty::Int(..), Node::Int(v)) => json!(v),
            (Ty::F32, Node::F32(b)) => json!(f32::from_bits(*b)),
            (Ty::Str(_), Node::Str(None)) => Value::Null,
            (Ty::Str(_) | Ty::CStr(_), Node::Str(Some(b))) => json!(String::from_utf8_lossy(b)),
            (Ty::Buf, Node::Buf(b)) => json!(crate::core::hex(b)),
            (Ty::Arr(e) | Ty::List(e) | Ty::Fixed(e, _), Node::Seq(v)) => Value::Array(v.iter().map(|x| self.json(e, x)).collect()),
            (Ty::Rel(e) | Ty::Abs(e), Node::Opt(v)) => v.as_ref().map(|x| self.json(e, x)).unwrap_or(Value::Null),
            (Ty::Tagged(name), Node::Tag(v)) => match v {
                None => json!({ "data": null }),
                Some((i, x)) => {
                    let (_, var, ty) = &self.tagged[name][*i];
                    json!({"data": {var.as_str(): self.json(ty, x)}})
                }
            },
            (Ty::Named(name), Node::Enum(i)) => json!(self.enums[name].items[*i].0),
            (Ty::Named(name), Node::Seq(v)) => self.json_struct(&self.structs[name], v),
            (Ty::Bits(w), Node::Int(v)) => json!({ "bytes": v.to_le_bytes()[..*w].to_vec() }),
            (Ty::Unit, _) => Value::Null,
            x => panic!("{x:?}"),
        }
    }
    fn json_struct(&self, s: &Struct, v: &[Node]) -> Value {
        let mut m = Map::new();
        for (f, x) in s.fields.iter().zip(v) {
            m.insert(f.0.clone(), self.json(&f.1, x));
        }
        Value::Object(m)
    }
    pub fn json_root(&self, root: &Root, n: &Node) -> Value {
        let Node::Seq(v) = n else { unreachable!() };
        let inner = if root.newtype { self.json(&root.body.fields[0].1, &v[0]) } else { self.json_struct(&root.body, v) };
        json!({ root.variant.as_str(): inner })
    }
}

// ---------------------------------------------------------------- the two non-container formats
pub struct MeshExRef {
    pub fields: Vec<(String, Ty)>,
}
pub fn meshex_fields() -> Vec<(String, Ty)> {
    let n = |x: &str| Ty::Named(format!("meshex.{x}"));
    vec![
        ("all_data".into(), Ty::Abs(Box::new(n("AllData")))),
        ("mesh_object_groups".into(), Ty::Abs(Box::new(Ty::List(Box::new(n("MeshObjectGroup")))))),
        ("entries".into(), Ty::Abs(Box::new(Ty::List(Box::new(n("MeshEntry")))))),
        ("entry_flags".into(), Ty::Abs(Box::new(Ty::List(Box::new(Ty::Bits(2)))))),
        ("unk1".into(), Ty::Int(4, false)),
    ]
}
pub fn gen_meshex(r: &mut Rng, o: &mut GenOpts) -> Vec<Node> {
    let s = schema();
    let f = meshex_fields();
    let mut v: Vec<Node> = f.iter().map(|x| s.gen(&x.1, r, o)).collect();
    // entry and flag counts must agree
    let n = match &v[2] {
        Node::Opt(Some(x)) => match &**x {
            Node::Seq(s) => s.len(),
            _ => 0,
        },
        _ => 0,
    };
    v[3] = if n == 0 && r.bool() {
        Node::Opt(None)
    } else {
        Node::Opt(Some(Box::new(Node::Seq((0..n).map(|_| s.gen(&Ty::Bits(2), r, o)).collect()))))
    };
    v
}
pub fn encode_meshex(v: &[Node]) -> Enc {
    encode_meshex_with(v, true)
}
fn encode_meshex_with(v: &[Node], extend: bool) -> Enc {
    let s = schema();
    let f = meshex_fields();
    let count = |n: &Node| match n {
        Node::Opt(Some(x)) => match &**x {
            Node::Seq(s) => s.len() as u32,
            _ => 0,
        },
        _ => 0,
    };
    let mut e = Enc { extend, ..Default::default() };
    e.put(0, &0u64.to_le_bytes());
    e.put(8, &count(&v[2]).to_le_bytes());
    e.put(12, &count(&v[1]).to_le_bytes());
    e.ptr = 64;
    let mut p = 16;
    for (t, n) in f.iter().zip(v) {
        p = e.enc(s, &t.1, n, p, 0);
    }
    let l = up(e.out.len() as u64, 16);
    e.out.resize(l as usize, 0);
    e.put(0, &l.to_le_bytes());
    e
}
pub fn json_meshex(v: &[Node]) -> Value {
    let s = schema();
    let mut m = Map::new();
    for (t, n) in meshex_fields().iter().zip(v) {
        m.insert(t.0.clone(), s.json(&t.1, n));
    }
    Value::Object(m)
}
/// (json, bytes)
pub fn gen_adj(r: &mut Rng, max: usize) -> (Value, Vec<u8>) {
    let n = spike().unwrap_or_else(|| r.size(max));
    let m = spike().unwrap_or_else(|| r.size(max * 4));
    let entries: Vec<(u32, u32)> = (0..n).map(|_| if r.bool() { (r.u32(), r.u32()) } else { (r.below(9) as u32, r.below(90) as u32) }).collect();
    let idx: Vec<i16> = (0..m).map(|_| r.u32() as i16).collect();
    let mut b = (n as u32).to_le_bytes().to_vec();
    for (a, o) in &entries {
        b.extend(a.to_le_bytes());
        b.extend(o.to_le_bytes());
    }
    for i in &idx {
        b.extend(i.to_le_bytes());
    }
    let e: Vec<Value> = entries.iter().map(|(a, o)| json!({"mesh_object_index": a, "index_buffer_offset": o})).collect();
    (json!({"entries": e, "index_buffer": idx}), b)
}

pub struct RefFile {
    pub fmt: &'static str,
    pub bytes: Vec<u8>,
    /// the same file when the stream does not zero-extend on empty writes
    pub alt: Option<Vec<u8>>,
    pub json: Value,
    pub depth: u64,
    pub pointers: u64,
    pub version: Option<(u16, u16)>,
    pub arr_counts: Vec<u64>,
    pub buf_counts: Vec<u64>,
    pub ptr_fields: Vec<u64>,
    pub loose: Vec<u8>,
}
impl RefFile {
    pub fn matches(&self, b: &[u8]) -> bool {
        b == self.bytes || self.alt.as_deref() == Some(b)
    }
}
/// One random reference file of format number k (roots, then MeshEx, then Adj).
pub fn gen_file(k: usize, r: &mut Rng, o: GenOpts) -> RefFile {
    gen_any(k, r, o, false)
}
/// Also fills `loose`: the same content in an unusual but valid layout.
pub fn gen_loose(k: usize, r: &mut Rng, o: GenOpts) -> RefFile {
    gen_any(k, r, o, true)
}
fn gen_any(k: usize, r: &mut Rng, mut o: GenOpts, loose: bool) -> RefFile {
    let s = schema();
    let n = s.roots.len();
    let k = k % (n + 2);
    if k < n {
        let root = &s.roots[k];
        let node = s.gen_root(root, r, &mut o);
        let e = s.encode(root, &node);
        let alt = if e.extended { Some(s.encode_with(root, &node, false).out) } else { None };
        let loose = if loose { loose_root(root, &node, r) } else { vec![] };
        RefFile { fmt: &root.file, alt, json: s.json_root(root, &node), depth: e.max_depth, pointers: e.pointers, bytes: e.out, version: Some((root.major, root.minor)), arr_counts: e.arr_counts, buf_counts: e.buf_counts, ptr_fields: e.ptr_fields, loose }
    } else if k == n {
        let v = gen_meshex(r, &mut o);
        let e = encode_meshex(&v);
        let loose = if loose { loose_meshex(&v, r) } else { vec![] };
        RefFile { fmt: "MeshEx", alt: None, json: json_meshex(&v), depth: e.max_depth, pointers: e.pointers, bytes: e.out, version: None, arr_counts: vec![8, 12], buf_counts: vec![], ptr_fields: e.ptr_fields, loose }
    } else {
        let (json, bytes) = gen_adj(r, o.max_array * 3);
        RefFile { fmt: "Adj", json, loose: bytes.clone(), bytes, alt: None, depth: 0, pointers: 0, version: None, arr_counts: vec![0], buf_counts: vec![], ptr_fields: vec![] }
    }
}

/// Encoder for unusual layouts: pointed-to data in random order with random unaligned gaps full of garbage,
/// shared strings, non-null offsets for empty arrays and trailing garbage.
struct Loose<'a> {
    out: Vec<u8>,
    r: &'a mut Rng,
    jobs: Vec<(u64, u64, Ty, Node)>,
    strings: HashMap<Vec<u8>, u64>,
    buffers: HashMap<Vec<u8>, u64>,
}
impl Loose<'_> {
    fn put(&mut self, pos: u64, b: &[u8]) {
        let p = pos as usize;
        self.out[p..p + b.len()].copy_from_slice(b);
    }
    fn int(&mut self, pos: u64, v: u64, w: usize) {
        self.put(pos, &v.to_le_bytes()[..w]);
    }
    fn alloc(&mut self, n: u64) -> u64 {
        let gap = match self.r.below(4) {
            0 => 0,
            1 => 4,
            _ => self.r.below(23),
        };
        for _ in 0..gap {
            let b = self.r.u8();
            self.out.push(b);
        }
        let p = self.out.len();
        self.out.resize(p + n as usize, 0);
        p as u64
    }
    fn inline(&mut self, s: &Schema, t: &Ty, n: &Node, pos: u64) {
        match (t, n) {
            (Ty::Int(w, _), Node::Int(v)) => self.int(pos, *v, *w),
            (Ty::Bits(w), Node::Int(v)) => self.int(pos, *v, *w),
            (Ty::F32, Node::F32(v)) => self.int(pos, *v as u64, 4),
            (Ty::Named(name), Node::Enum(i)) => {
                let e = &s.enums[name];
                self.int(pos, e.items[*i].1, e.width)
            }
            (Ty::Unit, _) => {}
            (Ty::Str(a), Node::Str(v)) => {
                if let Some(b) = v {
                    self.jobs.push((pos, pos, Ty::CStr(*a), Node::Str(Some(b.clone()))));
                }
            }
            (Ty::Rel(e), Node::Opt(v)) | (Ty::Abs(e), Node::Opt(v)) => {
                let base = if matches!(t, Ty::Rel(_)) { pos } else { 0 };
                if let Some(x) = v {
                    self.jobs.push((pos, base, (**e).clone(), (**x).clone()));
                }
            }
            (Ty::Buf, Node::Buf(v)) => {
                self.int(pos + 8, v.len() as u64, 8);
                self.jobs.push((pos, pos, Ty::Buf, n.clone()));
            }
            (Ty::Arr(e), Node::Seq(v)) => {
                self.int(pos + 8, v.len() as u64, 8);
                self.jobs.push((pos, pos, Ty::List(e.clone()), n.clone()));
            }
            (Ty::List(e), Node::Seq(v)) | (Ty::Fixed(e, _), Node::Seq(v)) => {
                let mut p = pos;
                for x in v {
                    self.inline(s, e, x, p);
                    p += s.size(e, x);
                }
            }
            (Ty::Tagged(name), Node::Tag(v)) => match v {
                None => {
                    // the tag of a null pointer carries no meaning
                    let _ = name;
                }
                Some((i, x)) => {
                    let (tag, _, ty) = &s.tagged[name][*i];
                    self.int(pos + 8, *tag, 8);
                    self.jobs.push((pos, pos, ty.clone(), (**x).clone()));
                }
            },
            (Ty::Named(name), Node::Seq(v)) => {
                let st = &s.structs[name];
                let mut p = pos;
                for (f, x) in st.fields.iter().zip(v) {
                    self.inline(s, &f.1, x, p);
                    p += s.size(&f.1, x);
                }
                for k in 0..st.pad {
                    let g = self.r.u8();
                    self.put(p + k, &[g]);
                }
            }
            x => panic!("{x:?}"),
        }
    }
    fn run(&mut self, s: &Schema) {
        while !self.jobs.is_empty() {
            let i = self.r.below(self.jobs.len());
            let (field, base, t, n) = self.jobs.swap_remove(i);
            match (&t, &n) {
                (Ty::CStr(_), Node::Str(Some(b))) => {
                    if b.is_empty() && base == field && self.r.chance(1, 3) {
                        // the upper bytes of the offset itself are the empty string
                        let v = self.r.range(1, 7) as u64;
                        self.int(field, v, 8);
                        continue;
                    }
                    let shared = self.strings.get(b).copied().filter(|p| *p > base);
                    let p = match shared {
                        Some(p) => p,
                        None => {
                            let p = self.alloc(b.len() as u64 + 1);
                            self.put(p, b);
                            self.strings.insert(b.clone(), p);
                            p
                        }
                    };
                    self.int(field, p - base, 8);
                }
                (Ty::Buf, Node::Buf(b)) => {
                    if b.is_empty() {
                        let v = match self.r.below(4) { 0 => 0, 1 => self.r.range(1, 16) as u64, 2 => self.r.below(self.out.len()) as u64, _ => self.out.len() as u64 };
                        self.int(field, v, 8);
                        continue;
                    }
                    let shared = self.buffers.get(b).copied().filter(|p| *p > base && self.r.bool());
                    let p = shared.unwrap_or_else(|| {
                        let p = self.alloc(b.len() as u64);
                        self.put(p, b);
                        p
                    });
                    self.buffers.insert(b.clone(), p);
                    self.int(field, p - base, 8);
                }
                (Ty::List(_), Node::Seq(v)) => {
                    if v.is_empty() && base == field && self.r.chance(1, 3) {
                        let v = self.r.range(1, 16) as u64;
                        self.int(field, v, 8);
                        continue;
                    }
                    let p = self.alloc(s.size(&t, &n));
                    if !v.is_empty() || base == 0 || self.r.bool() {
                        self.int(field, p - base, 8);
                    }
                    self.inline(s, &t, &n, p);
                }
                _ => {
                    let p = self.alloc(s.size(&t, &n));
                    self.int(field, p - base, 8);
                    self.inline(s, &t, &n, p);
                }
            }
        }
        let n = self.r.below(20);
        let g = self.r.bytes(n);
        self.out.extend(g);
    }
}
fn loose_root(root: &Root, n: &Node, r: &mut Rng) -> Vec<u8> {
    let s = schema();
    let Node::Seq(v) = n else { unreachable!() };
    let size: u64 = root.body.fields.iter().zip(v).map(|(f, x)| s.size(&f.1, x)).sum::<u64>();
    let mut l = Loose { out: vec![0; 24 + size as usize], r, jobs: vec![], strings: HashMap::new(), buffers: HashMap::new() };
    l.put(0, b"HBSS");
    l.int(4, 64, 8);
    l.put(16, magic_of(&root.file));
    l.int(20, root.major as u64, 2);
    l.int(22, root.minor as u64, 2);
    let mut p = 24;
    for (f, x) in root.body.fields.iter().zip(v) {
        l.inline(s, &f.1, x, p);
        p += s.size(&f.1, x);
    }
    l.alloc(root.pad);
    l.run(s);
    l.out
}
fn loose_meshex(v: &[Node], r: &mut Rng) -> Vec<u8> {
    let s = schema();
    let count = |n: &Node| match n {
        Node::Opt(Some(x)) => match &**x {
            Node::Seq(s) => s.len() as u64,
            _ => 0,
        },
        _ => 0,
    };
    let mut l = Loose { out: vec![0; 64], r, jobs: vec![], strings: HashMap::new(), buffers: HashMap::new() };
    l.int(8, count(&v[2]), 4);
    l.int(12, count(&v[1]), 4);
    let mut p = 16;
    for (t, n) in meshex_fields().iter().zip(v) {
        l.inline(s, &t.1, n, p);
        p += s.size(&t.1, n);
    }
    l.run(s);
    let len = l.out.len() as u64;
    l.int(0, len, 8);
    l.out
}
pub fn kinds() -> usize {
    schema().roots.len() + 2
}
pub fn opts(r: &mut Rng, json: bool) -> GenOpts {
    let big = r.chance(1, 8);
    GenOpts {
        json,
        max_array: if big { 40 } else { *r.pick(&[1usize, 3, 6, 10]) },
        budget: if big { 600 } else { r.range(1, 120) },
        max_buf: if big { 3000 } else { 60 },
        nulls: r.chance(3, 4),
    }
}
