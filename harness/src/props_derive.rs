//! C23: generated structures using the writer derive, against an independent layout interpreter.
use crate::core::*;
use crate::derive_types::shapes;
use crate::ensure;
use crate::io::RecWriter;
use ssbh_lib::{Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};
use ssbh_write::SsbhWrite;
use std::fmt::Debug;
use std::num::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        level: "exploration",
        rule: "a case is distinct by structure, value layout and start position",
        assumptions: &["structure shapes are those of a committed random sample (tools/gen_derive.py)", "null-terminated strings appear behind pointers only, as in every format", "align_after is judged where the padded end is the end of the stream"],
        must: &["writes", "shapes_with_pointers", "magic_written", "padding_bytes", "padded_ends", "option_none", "pointer_targets", "unfit_pointers"],
        units: vec![unit("generated", 26_000, 800_000, c23_generated), unit("primitives", 2_000, 40_000, c23_primitives), unit("collections", 3_000, 60_000, c23_collections), unit("align_after_shape", 1, 1, c23_align_shape)],
    }]
}

// ---------------------------------------------------------------- expected layout
pub enum Node {
    Prim(Vec<u8>),
    /// nothing at all (unit, absent value)
    Nothing,
    /// elements or the value of an option
    Coll(Vec<Node>),
    Rec { magic: Vec<u8>, items: Vec<(Node, u64, u64)>, vpad: u64, valign: u64, pad: u64, align: u64 },
    Rel(Option<(Box<Node>, u64)>),
    Abs(u64, Option<(Box<Node>, u64)>),
    Arr(Vec<Node>),
    Buf(Vec<u8>),
    /// terminated text and what the empty one looks like
    Text(Vec<u8>, u64),
}
use Node::*;
impl Node {
    pub fn size(&self) -> u64 {
        match self {
            Prim(b) => b.len() as u64,
            Nothing => 0,
            Coll(v) => v.iter().map(|n| n.size()).sum(),
            Rec { magic, items, vpad, pad, .. } => magic.len() as u64 + items.iter().map(|i| i.0.size() + i.1).sum::<u64>() + vpad + pad,
            Rel(_) => 8,
            Abs(w, _) => *w,
            Arr(_) | Buf(_) => 16,
            Text(b, _) => b.len() as u64,
        }
    }
}
#[derive(Default)]
pub struct Layout {
    pub out: Vec<u8>,
    pub pos: u64,
    pub dp: u64,
    pub targets: u64,
    pub misaligned: bool,
    pub pads: u64,
    pub magic: u64,
    pub ends: u64,
}
fn up(v: u64, n: u64) -> u64 {
    if v % n == 0 { v } else { v + n - v % n }
}
impl Layout {
    fn bytes(&mut self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let e = self.pos as usize + b.len();
        if self.out.len() < e {
            self.out.resize(e, 0);
        }
        self.out[self.pos as usize..e].copy_from_slice(b);
        self.pos = e as u64;
    }
    fn zeros(&mut self, n: u64) {
        self.pads += n;
        self.bytes(&vec![0; n as usize]);
    }
    fn claim(&mut self, n: u64) {
        self.dp = self.dp.max(self.pos + n);
    }
    fn end(&mut self, n: u64) {
        if n > 0 {
            self.pos = self.out.len() as u64;
            let p = up(self.pos, n) - self.pos;
            self.zeros(p);
            self.ends += 1;
        }
    }
    fn target(&mut self, n: &Node, align: u64) -> Result<(), ()> {
        let back = self.pos;
        self.pos = self.dp;
        self.targets += 1;
        self.put(n)?;
        if self.pos > self.dp {
            self.dp = up(self.pos, align);
        }
        self.pos = back;
        Ok(())
    }
    pub fn put(&mut self, n: &Node) -> Result<(), ()> {
        match n {
            Prim(b) => self.bytes(b),
            Nothing => {}
            Coll(v) => {
                self.claim(n.size());
                for x in v {
                    self.put(x)?;
                }
            }
            Rec { magic, items, vpad, valign, pad, align } => {
                self.claim(n.size());
                self.magic += magic.len() as u64;
                self.bytes(magic);
                for (x, p, a) in items {
                    self.put(x)?;
                    self.zeros(*p);
                    self.end(*a);
                }
                self.zeros(*vpad);
                self.end(*valign);
                self.zeros(*pad);
                self.end(*align);
            }
            Rel(None) => {
                self.claim(8);
                self.bytes(&[0; 8]);
            }
            Rel(Some((x, a))) => {
                self.claim(8);
                self.dp = up(self.dp, *a);
                let o = self.dp - self.pos;
                self.bytes(&o.to_le_bytes());
                self.target(x, *a)?;
            }
            Abs(w, x) => {
                self.claim(*w);
                match x {
                    None => self.bytes(&vec![0; *w as usize]),
                    Some((x, a)) => {
                        self.dp = up(self.dp, *a);
                        if *w < 8 && self.dp >> (8 * w) != 0 {
                            return Err(());
                        }
                        let o = self.dp.to_le_bytes();
                        self.bytes(&o[..*w as usize]);
                        self.target(x, *a)?;
                    }
                }
            }
            Arr(v) => {
                self.claim(16);
                self.dp = up(self.dp, 8);
                let o = if v.is_empty() { 0 } else { self.dp - self.pos };
                self.bytes(&o.to_le_bytes());
                self.bytes(&(v.len() as u64).to_le_bytes());
                let back = self.pos;
                self.pos = self.dp;
                self.claim(v.iter().map(|x| x.size()).sum());
                for x in v {
                    self.put(x)?;
                }
                self.pos = back;
            }
            Buf(b) => {
                self.claim(16);
                self.dp = up(self.dp, 8);
                let o = if b.is_empty() { 0 } else { self.dp - self.pos };
                self.bytes(&o.to_le_bytes());
                self.bytes(&(b.len() as u64).to_le_bytes());
                let back = self.pos;
                self.pos = self.dp;
                self.bytes(b);
                self.dp += b.len() as u64;
                self.pos = back;
            }
            Text(b, n) => {
                if b.is_empty() {
                    self.bytes(&vec![0; *n as usize]);
                } else {
                    self.bytes(b);
                    self.bytes(&[0]);
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- values with their layouts
pub struct G {
    pub r: Rng,
    pub budget: usize,
}
impl G {
    pub fn pick(&mut self, n: usize) -> usize {
        self.r.below(n)
    }
    fn len(&mut self, max: usize) -> usize {
        let n = self.r.below(max + 1).min(self.budget);
        self.budget -= n;
        n
    }
}
pub trait Gen: SsbhWrite + Debug {
    fn gen(r: &mut G) -> (Self, Node);
    fn align() -> u64;
}
macro_rules! prims {
    ($($t:ident $n:ident),*) => { $(
        impl Gen for $t {
            fn gen(r: &mut G) -> (Self, Node) {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                let n = b.len(); b.copy_from_slice(&r.r.bytes(n));
                if r.pick(4) == 0 { b[r.pick(std::mem::size_of::<$t>())] = 0; }
                ($t::from_le_bytes(b), Prim(b.to_vec()))
            }
            fn align() -> u64 { std::mem::align_of::<$t>() as u64 }
        }
    )* };
}
prims!(u8 a, u16 a, u32 a, u64 a, u128 a, i8 a, i16 a, i32 a, i64 a, i128 a, f32 a, f64 a);
macro_rules! nz {
    ($($t:ident $p:ident),*) => { $(
        impl Gen for $t {
            fn gen(r: &mut G) -> (Self, Node) {
                let mut b = [0u8; std::mem::size_of::<$p>()];
                let n = b.len(); b.copy_from_slice(&r.r.bytes(n));
                let v = $p::from_le_bytes(b);
                let v = if v == 0 { 1 } else { v };
                ($t::new(v).unwrap(), Prim(v.to_le_bytes().to_vec()))
            }
            fn align() -> u64 { std::mem::align_of::<$p>() as u64 }
        }
    )* };
}
nz!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroUsize usize);
impl Gen for () {
    fn gen(_: &mut G) -> (Self, Node) {
        ((), Nothing)
    }
    fn align() -> u64 {
        1
    }
}
fn many<T: Gen>(r: &mut G, n: usize) -> (Vec<T>, Vec<Node>) {
    (0..n).map(|_| T::gen(r)).unzip()
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut G) -> (Self, Node) {
        let n = r.len(3);
        let (v, n) = many(r, n);
        (v, Coll(n))
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut G) -> (Self, Node) {
        if r.pick(3) == 0 {
            return (None, Nothing);
        }
        let (v, n) = T::gen(r);
        (Some(v), Coll(vec![n]))
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut G) -> (Self, Node) {
        let (v, n) = many(r, N);
        (v.try_into().unwrap(), Coll(n))
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: Gen> Gen for RelPtr64<T> {
    fn gen(r: &mut G) -> (Self, Node) {
        if r.len(1) == 0 && r.pick(2) == 0 {
            return (RelPtr64::null(), Rel(None));
        }
        let (v, n) = T::gen(r);
        (RelPtr64::new(v), Rel(Some((Box::new(n), T::align()))))
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
macro_rules! ptr {
    ($($t:ident $w:expr),*) => { $(
        impl<T: Gen> Gen for $t<T> {
            fn gen(r: &mut G) -> (Self, Node) {
                if r.len(1) == 0 && r.pick(2) == 0 {
                    return ($t::null(), Abs($w, None));
                }
                let (v, n) = T::gen(r);
                ($t::new(v), Abs($w, Some((Box::new(n), T::align()))))
            }
            fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
        }
    )* };
}
ptr!(Ptr16 2, Ptr32 4, Ptr64 8);
impl<T: Gen> Gen for SsbhArray<T> {
    fn gen(r: &mut G) -> (Self, Node) {
        let n = r.len(3);
        let (v, n) = many(r, n);
        (SsbhArray::from_vec(v), Arr(n))
    }
    fn align() -> u64 {
        8
    }
}
impl Gen for SsbhByteBuffer {
    fn gen(r: &mut G) -> (Self, Node) {
        let n = r.len(12);
        let b = r.r.bytes(n);
        (SsbhByteBuffer::from_vec(b.clone()), Buf(b))
    }
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}
macro_rules! text {
    ($($t:ident $n:expr),*) => { $(
        impl Gen for $t {
            fn gen(r: &mut G) -> (Self, Node) {
                let n = r.pick(12);
                let b: Vec<u8> = r.r.bytes(n).into_iter().map(|b| b.max(1)).collect();
                ($t::from_bytes(&b), Rel(Some((Box::new(Text(b, $n)), $n))))
            }
            fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
        }
    )* };
}
text!(SsbhString 4, SsbhString8 8);

// ---------------------------------------------------------------- the check
pub struct Shape {
    pub name: &'static str,
    /// no end padding: sizes are exact
    pub plain: bool,
    pub run: fn(&mut Case, &'static str, bool) -> R,
}
impl Shape {
    pub fn new<T: Gen>(name: &'static str, plain: bool) -> Shape {
        Shape { name, plain, run: check::<T> }
    }
}
fn check<T: Gen>(c: &mut Case, name: &str, plain: bool) -> R {
    let mut g = G { r: c.rng.clone(), budget: c.rng.below(40) };
    let (v, n) = T::gen(&mut g);
    c.rng = g.r;
    ensure!(T::alignment_in_bytes() == T::align(), "{name}: reports alignment {}, declared {}", T::alignment_in_bytes(), T::align());
    let debug = format!("{v:?}");
    ensure!(v.size_in_bytes() == n.size(), "{name}: reports {} bytes, its fields take {}; {debug}", v.size_in_bytes(), n.size());
    c.eval(1);
    if matches!(n, Rec { .. }) && has_none(&n) {
        c.count("option_none", 1);
    }
    let start = match c.rng.below(8) {
        0..=2 => 0,
        3..=5 => c.rng.below(100) as u64,
        6 => c.rng.below(4096) as u64,
        _ => 65536 - c.rng.below(128) as u64,
    };
    let dp = match c.rng.below(4) {
        0 => 0,
        1 => start,
        2 => start + c.rng.below(40) as u64,
        _ => start + n.size() + c.rng.below(100) as u64,
    };
    let mut l = Layout { out: vec![0xaa; start as usize], pos: start, dp, ..Default::default() };
    let fits = l.put(&n);
    let mut w = RecWriter { data: vec![0xaa; start as usize], hits: vec![1; start as usize], pos: start, ..Default::default() };
    let mut got = dp;
    let r = v.ssbh_write(&mut w, &mut got);
    c.seen(&[name.as_bytes(), &w.data[start as usize..], &start.to_le_bytes()].concat());
    c.sample(|| format!("{name} at {start}: {debug}"));
    if fits.is_err() {
        c.count("unfit_pointers", 1);
        ensure!(r.is_err(), "{name}: an offset that does not fit its pointer was written; {debug}");
        return Ok(());
    }
    if let Err(e) = r {
        return viol(format!("{name}: not written: {e}; {debug}"));
    }
    c.count("writes", 1);
    c.count("pointer_targets", l.targets);
    c.count("padding_bytes", l.pads);
    c.count("magic_written", l.magic);
    c.count("padded_ends", l.ends);
    if l.targets > 0 {
        c.count("shapes_with_pointers", 1);
    }
    let at = |w: &[u8]| {
        let k = w.iter().zip(&l.out).position(|(a, b)| a != b).unwrap_or(w.len().min(l.out.len()));
        format!("first difference at {k} (start {start}); lengths {} and {}; {debug}", w.len(), l.out.len())
    };
    ensure!(w.data == l.out, "{name}: bytes differ from the declared layout: {}", at(&w.data));
    ensure!(w.pos == l.pos, "{name}: writer left at {} instead of {} (start {start}); {debug}", w.pos, l.pos);
    ensure!(got == l.dp, "{name}: data pointer {got}, expected {} (start {start}, initial {dp}); {debug}", l.dp);
    if plain {
        ensure!(w.pos == start + v.size_in_bytes(), "{name}: {} inline bytes for a reported size of {}; {debug}", w.pos - start, v.size_in_bytes());
        ensure!(got >= dp, "{name}: the data pointer moved back");
        // text of a pointer at the very end is covered by the rounded data pointer
        ensure!(got >= w.data.len() as u64 || matches!(n, Prim(_) | Nothing), "{name}: data pointer {got} does not cover {} bytes; {debug}", w.data.len());
        ensure!(w.hits.iter().all(|h| *h <= 1), "{name}: a byte was written twice; {debug}");
    }
    ensure!(format!("{v:?}") == debug, "{name}: writing changed the value");
    if start == 0 {
        // the convenience method starts with a data pointer of zero
        let mut a = std::io::Cursor::new(vec![]);
        let mut b = Layout::default();
        let _ = b.put(&n);
        ensure!(SsbhWrite::write(&v, &mut a).is_ok() && a.into_inner() == b.out, "{name}: write() differs from ssbh_write() with a zero data pointer");
    }
    Ok(())
}
fn has_none(n: &Node) -> bool {
    match n {
        Nothing => true,
        Coll(v) | Arr(v) => v.iter().any(has_none),
        Rec { items, .. } => items.iter().any(|i| has_none(&i.0)),
        Rel(Some((x, _))) | Abs(_, Some((x, _))) => has_none(x),
        _ => false,
    }
}
fn c23_generated(c: &mut Case) -> R {
    static S: std::sync::OnceLock<Vec<Shape>> = std::sync::OnceLock::new();
    let s = S.get_or_init(shapes);
    let x = &s[c.idx as usize % s.len()];
    (x.run)(c, x.name, x.plain)
}
fn c23_primitives(c: &mut Case) -> R {
    macro_rules! each {
        ($($t:ty),*) => {{
            let f: &[fn(&mut Case, &str, bool) -> R] = &[$(check::<$t>),*];
            let n: &[&str] = &[$(stringify!($t)),*];
            let k = c.idx as usize % f.len();
            f[k](c, n[k], true)
        }};
    }
    each!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, (), NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroUsize)
}
fn c23_collections(c: &mut Case) -> R {
    macro_rules! each {
        ($($t:ty),*) => {{
            let f: &[fn(&mut Case, &str, bool) -> R] = &[$(check::<$t>),*];
            let n: &[&str] = &[$(stringify!($t)),*];
            let k = c.idx as usize % f.len();
            f[k](c, n[k], true)
        }};
    }
    each!(
        Vec<u8>,
        Vec<Vec<u16>>,
        Vec<Option<u32>>,
        Option<Vec<u64>>,
        Option<Option<i16>>,
        [u16; 3],
        [Option<u8>; 4],
        [Vec<u32>; 2],
        SsbhArray<u8>,
        SsbhArray<SsbhArray<u32>>,
        SsbhArray<SsbhString>,
        SsbhArray<RelPtr64<SsbhArray<u16>>>,
        SsbhArray<Option<u64>>,
        SsbhByteBuffer,
        RelPtr64<RelPtr64<u8>>,
        RelPtr64<Vec<SsbhString8>>,
        RelPtr64<Option<u32>>,
        RelPtr64<[u128; 2]>,
        Ptr64<Ptr32<Ptr16<u64>>>,
        Ptr16<SsbhArray<u8>>,
        Vec<RelPtr64<Vec<Ptr64<u8>>>>,
        RelPtr64<()>,
        Vec<SsbhByteBuffer>,
        [RelPtr64<SsbhString>; 3]
    )
}
/// End padding of a field in the middle, after a pointer.
#[derive(Debug, SsbhWrite)]
struct Middle {
    #[ssbhwrite(align_after = 8)]
    a: RelPtr64<u8>,
    b: u32,
}
fn c23_align_shape(c: &mut Case) -> R {
    let v = Middle { a: RelPtr64::new(7), b: 0x01020304 };
    let mut w = RecWriter::default();
    let mut dp = 0;
    let _ = v.ssbh_write(&mut w, &mut dp);
    c.eval(1);
    c.count("writes", 1);
    if w.pos != v.size_in_bytes() || w.data.get(8..12) != Some(&[4, 3, 2, 1]) {
        return c.known("align-after-middle", format!("a field after a pointer field with align_after is written at the end of the stream instead of inside its structure: {}", hex(&w.data)));
    }
    Ok(())
}
