//! Reads framed inputs (u8 kind, u32 length, bytes) from stdin and prints, for each, digests of everything the libraries
//! make of it. Built once per feature set and profile; the output must not depend on either.
use ssbh_data::prelude::*;
use ssbh_data::shdr_data::{MetaData, ShdrData};
use ssbh_lib::prelude::*;
use std::fmt::Debug;
use std::io::{Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn h(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for &b in b {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}.{}", b.len())
}
fn step(out: &mut String, name: &str, f: impl FnOnce() -> Option<String>) {
    let r = catch_unwind(AssertUnwindSafe(f));
    out.push(' ');
    out.push_str(name);
    out.push('=');
    match r {
        Ok(Some(s)) => out.push_str(&s),
        Ok(None) => out.push('E'),
        Err(_) => out.push('P'),
    }
}
fn dbg(x: &impl Debug) -> String {
    h(format!("{x:?}").as_bytes())
}
/// The sign and payload of a computed NaN are left open by the language, so such files are not compared.
macro_rules! computed {
    ($t:ty, $d:expr) => {
        match <$t>::try_from(&$d) {
            Ok(v) if format!("{v:?}").contains("NaN") => Some("N".to_string()),
            _ => bytes!($d).map(|b| h(&b)),
        }
    };
}
macro_rules! bytes {
    ($v:expr) => {{
        let mut c = Cursor::new(Vec::new());
        $v.write(&mut c).ok().map(|_| c.into_inner())
    }};
}
#[cfg(feature = "serde")]
macro_rules! json {
    ($o:expr, $name:expr, $t:ty, $v:expr) => {
        step($o, $name, || {
            let j = serde_json::to_string(&$v).ok()?;
            let w: $t = serde_json::from_str(&j).ok()?;
            Some(dbg(&w))
        });
    };
}
#[cfg(not(feature = "serde"))]
macro_rules! json {
    ($o:expr, $name:expr, $t:ty, $v:expr) => {};
}
macro_rules! lib {
    ($o:expr, $b:expr, $t:ty, $($d:ty)?) => {{
        let o: &mut String = $o;
        let b: &[u8] = $b;
        let mut got: Option<$t> = None;
        step(o, "read", || {
            let v = <$t>::read(&mut Cursor::new(b)).ok()?;
            let s = dbg(&v);
            got = Some(v);
            Some(s)
        });
        if let Some(v) = got {
            step(o, "write", || bytes!(v).map(|b| h(&b)));
            json!(o, "json", $t, v);
            $(
                let mut data: Option<$d> = None;
                step(o, "data", || {
                    let d = <$d>::try_from(&v).ok()?;
                    let s = dbg(&d);
                    data = Some(d);
                    Some(s)
                });
                if let Some(d) = data {
                    step(o, "datawrite", || computed!($t, d));
                    step(o, "back", || <$t>::try_from(&d).ok().map(|x| dbg(&x)));
                    json!(o, "datajson", $d, d);
                    extra(o, &d);
                }
            )?
        }
    }};
}
trait Extra {
    fn extra(&self, _o: &mut String) {}
}
fn extra(o: &mut String, d: &impl Extra) {
    d.extra(o)
}
impl Extra for MatlData {}
impl Extra for AnimData {}
impl Extra for ModlData {}
impl Extra for HlpbData {}
impl Extra for MeshExData {}
impl Extra for AdjData {}
impl Extra for SkelData {
    fn extra(&self, o: &mut String) {
        step(o, "world", || Some(dbg(&self.bones.iter().map(|b| self.calculate_world_transform(b).ok()).collect::<Vec<_>>())));
    }
}
impl Extra for MeshData {
    fn extra(&self, o: &mut String) {
        step(o, "meshex", || Some(dbg(&MeshExData::from_mesh_objects(&self.objects))));
        step(o, "counts", || Some(dbg(&self.objects.iter().map(|o| o.vertex_count().ok()).collect::<Vec<_>>())));
        // another file version of the same content
        for v in [8, 9, 10] {
            step(o, "version", || {
                let mut d = self.clone();
                d.minor_version = v;
                computed!(Mesh, d)
            });
        }
    }
}
fn one(kind: u8, b: &[u8]) -> String {
    let mut o = format!("kind={kind}");
    match kind {
        0 => lib!(&mut o, b, Hlpb, HlpbData),
        1 => lib!(&mut o, b, Matl, MatlData),
        2 => lib!(&mut o, b, Modl, ModlData),
        3 => lib!(&mut o, b, Mesh, MeshData),
        4 => lib!(&mut o, b, Skel, SkelData),
        5 => lib!(&mut o, b, Anim, AnimData),
        6 => lib!(&mut o, b, Nlst,),
        7 => lib!(&mut o, b, Nrpd,),
        8 => lib!(&mut o, b, Nufx,),
        9 => {
            lib!(&mut o, b, Shdr,);
            step(&mut o, "shdrdata", || Shdr::read(&mut Cursor::new(b)).ok().and_then(|s| ShdrData::try_from(s).ok()).map(|d| dbg(&d)));
            step(&mut o, "meta", || MetaData::read(&mut Cursor::new(b)).ok().map(|d| dbg(&d)));
        }
        10 => lib!(&mut o, b, MeshEx, MeshExData),
        _ => lib!(&mut o, b, Adj, AdjData),
    }
    if kind < 10 {
        step(&mut o, "any", || {
            let f = SsbhFile::read(&mut Cursor::new(b)).ok()?;
            Some(format!("{}+{}", dbg(&f), bytes!(f).map(|b| h(&b)).unwrap_or_default()))
        });
        #[cfg(feature = "serde")]
        step(&mut o, "anyjson", || {
            let f = SsbhFile::read(&mut Cursor::new(b)).ok()?;
            let g: SsbhFile = serde_json::from_str(&serde_json::to_string(&f).ok()?).ok()?;
            Some(dbg(&g))
        });
    }
    o
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut all = Vec::new();
    std::io::stdin().read_to_end(&mut all).unwrap();
    let mut out = std::io::stdout().lock();
    let mut p = 0;
    while p + 5 <= all.len() {
        let n = u32::from_le_bytes(all[p + 1..p + 5].try_into().unwrap()) as usize;
        writeln!(out, "{}", one(all[p], &all[p + 5..p + 5 + n])).unwrap();
        p += 5 + n;
    }
}
