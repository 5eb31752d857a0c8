//! The low-level file types behind one object-safe interface.
use crate::core::Rng;
use crate::io::{RS, WS};
use arbitrary::{Arbitrary, Unstructured};
use serde_json::Value;
use ssbh_lib::prelude::*;
use std::any::Any;
use std::io::Cursor;

pub trait LibVal {
    fn write_to(&self, w: &mut dyn WS) -> std::io::Result<()>;
    fn write_file(&self, p: &std::path::Path) -> std::io::Result<()>;
    fn debug(&self) -> String;
    fn same(&self, o: &dyn LibVal) -> bool;
    fn json(&self) -> Result<Value, String>;
    fn json_string(&self) -> Result<String, String>;
    fn any(&self) -> &dyn Any;
    fn fmt_name(&self) -> &'static str;
    fn version(&self) -> Option<(u16, u16)>;
    fn write_vec(&self) -> std::io::Result<Vec<u8>> {
        let mut c = Cursor::new(vec![]);
        self.write_to(&mut c)?;
        Ok(c.into_inner())
    }
}
pub type BoxVal = Box<dyn LibVal>;

pub struct Fmt {
    pub name: &'static str,
    pub magic: Option<[u8; 4]>,
    pub versions: &'static [(u16, u16)],
    pub arb: fn(&mut Unstructured) -> Option<BoxVal>,
    pub read: fn(&mut dyn RS) -> Result<BoxVal, String>,
    pub read_file: fn(&std::path::Path) -> Result<BoxVal, String>,
    pub from_json: fn(&str) -> Result<BoxVal, String>,
    /// into the generic container and out again: (bytes written through the container, value converted back)
    pub via_ssbh: Option<fn(&[u8]) -> Result<(Vec<u8>, BoxVal), String>>,
}
impl Fmt {
    pub fn read_bytes(&self, b: &[u8]) -> Result<BoxVal, String> {
        (self.read)(&mut Cursor::new(b))
    }
}

macro_rules! common {
    ($ty:ident) => {
        fn write_to(&self, w: &mut dyn WS) -> std::io::Result<()> {
            let mut w = w;
            self.write(&mut w)
        }
        fn write_file(&self, p: &std::path::Path) -> std::io::Result<()> {
            self.write_to_file(p)
        }
        fn debug(&self) -> String {
            format!("{self:?}")
        }
        fn same(&self, o: &dyn LibVal) -> bool {
            match o.any().downcast_ref::<$ty>() {
                Some(o) => self == o || (self.debug() == o.debug() && self.write_vec().ok() == o.write_vec().ok()),
                None => false,
            }
        }
        fn json(&self) -> Result<Value, String> {
            serde_json::to_value(self).map_err(|e| e.to_string())
        }
        fn json_string(&self) -> Result<String, String> {
            serde_json::to_string_pretty(self).map_err(|e| e.to_string())
        }
        fn any(&self) -> &dyn Any {
            self
        }
        fn fmt_name(&self) -> &'static str {
            stringify!($ty)
        }
    };
}
macro_rules! fns {
    ($ty:ident) => {
        pub fn arb(u: &mut Unstructured) -> Option<BoxVal> {
            <$ty as Arbitrary>::arbitrary(u).ok().map(|v| Box::new(v) as BoxVal)
        }
        pub fn read(r: &mut dyn RS) -> Result<BoxVal, String> {
            let mut r = r;
            <$ty>::read(&mut r).map(|v| Box::new(v) as BoxVal).map_err(|e| e.to_string())
        }
        pub fn read_file(p: &std::path::Path) -> Result<BoxVal, String> {
            <$ty>::from_file(p).map(|v| Box::new(v) as BoxVal).map_err(|e| e.to_string())
        }
        pub fn from_json(s: &str) -> Result<BoxVal, String> {
            serde_json::from_str::<$ty>(s).map(|v| Box::new(v) as BoxVal).map_err(|e| e.to_string())
        }
    };
}
macro_rules! ssbh {
    ($m:ident, $ty:ident, $magic:expr, $vers:expr) => {
        impl LibVal for $ty {
            common!($ty);
            fn version(&self) -> Option<(u16, u16)> {
                Some(ssbh_lib::Version::major_minor_version(self))
            }
        }
        mod $m {
            use super::*;
            fns!($ty);
            pub fn via(b: &[u8]) -> Result<(Vec<u8>, BoxVal), String> {
                let v = <$ty>::read(&mut Cursor::new(b)).map_err(|e| e.to_string())?;
                let s = SsbhFile { data: Ssbh::$ty(ssbh_lib::Versioned { data: v }) };
                let mut c = Cursor::new(vec![]);
                {
                    let w: &mut dyn WS = &mut c;
                    let mut w = w;
                    s.write(&mut w).map_err(|e| e.to_string())?;
                }
                let back = match SsbhFile::read(&mut Cursor::new(b)).map_err(|e| e.to_string())?.data {
                    Ssbh::$ty(v) => v.data,
                    _ => return Err("generic reader chose another type".to_string()),
                };
                Ok((c.into_inner(), Box::new(back)))
            }
            pub const FMT: Fmt = Fmt { name: stringify!($ty), magic: Some(*$magic), versions: $vers, arb, read, read_file, from_json, via_ssbh: Some(via) };
        }
    };
}
macro_rules! plain {
    ($m:ident, $ty:ident) => {
        impl LibVal for $ty {
            common!($ty);
            fn version(&self) -> Option<(u16, u16)> {
                None
            }
        }
        mod $m {
            use super::*;
            fns!($ty);
            pub const FMT: Fmt = Fmt { name: stringify!($ty), magic: None, versions: &[], arb, read, read_file, from_json, via_ssbh: None };
        }
    };
}
ssbh!(hlpb, Hlpb, b"BPLH", &[(1, 1)]);
ssbh!(matl, Matl, b"LTAM", &[(1, 5), (1, 6)]);
ssbh!(modl, Modl, b"LDOM", &[(1, 7)]);
ssbh!(mesh, Mesh, b"HSEM", &[(1, 8), (1, 9), (1, 10)]);
ssbh!(skel, Skel, b"LEKS", &[(1, 0)]);
ssbh!(anim, Anim, b"MINA", &[(1, 2), (2, 0), (2, 1)]);
ssbh!(nlst, Nlst, b"TSLN", &[(1, 0)]);
ssbh!(nrpd, Nrpd, b"DPRN", &[(1, 6)]);
ssbh!(nufx, Nufx, b"XFUN", &[(1, 0), (1, 1)]);
ssbh!(shdr, Shdr, b"RDHS", &[(1, 2)]);
plain!(meshex, MeshEx);
plain!(adj, Adj);

pub const FORMATS: [Fmt; 12] = [
    hlpb::FMT, matl::FMT, modl::FMT, mesh::FMT, skel::FMT, anim::FMT, nlst::FMT, nrpd::FMT, nufx::FMT, shdr::FMT, meshex::FMT, adj::FMT,
];
pub fn fmt(name: &str) -> &'static Fmt {
    static F: [Fmt; 12] = FORMATS;
    F.iter().find(|f| f.name == name).unwrap()
}

/// Entropy for `Arbitrary` in several styles, so containers get both shallow and deep shapes.
pub fn entropy(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.range(0, 64.min(max)),
        1 => r.range(0, 512.min(max)),
        _ => r.range(max / 8, max),
    };
    let style = r.below(6);
    let p = r.range(1, 9);
    (0..n)
        .map(|_| {
            let b = r.u8();
            match style {
                0 => b,
                1 | 2 => if r.chance(p, 10) { b | 1 } else { b & !1 },
                3 => (b & 0x7f) | (r.chance(p, 10) as u8),
                4 => if r.chance(1, 6) { b } else { b % 4 },
                _ => if r.chance(p, 10) { b'a' + b % 26 } else { b },
            }
        })
        .collect()
}
pub fn arb_val(f: &Fmt, r: &mut Rng, max: usize) -> Option<BoxVal> {
    let e = entropy(r, max);
    let mut u = Unstructured::new(&e);
    (f.arb)(&mut u)
}
/// Fills the null top-level counters that make an extended-mesh file unwritable.
pub fn writable(f: &Fmt, v: &dyn LibVal) -> bool {
    if f.name == "MeshEx" {
        let m = v.any().downcast_ref::<MeshEx>().unwrap();
        let a = m.entries.as_ref().map(|e| e.len()).unwrap_or(0);
        let b = m.entry_flags.as_ref().map(|e| e.0.len()).unwrap_or(0);
        return a == b;
    }
    true
}

/// Reads with the generic container reader; returns the typed value it chose.
pub fn read_generic(r: &mut dyn RS) -> Result<BoxVal, String> {
    let mut r = r;
    let f = SsbhFile::read(&mut r).map_err(|e| e.to_string())?;
    Ok(unwrap_generic(f))
}
pub fn unwrap_generic(f: SsbhFile) -> BoxVal {
    match f.data {
        Ssbh::Hlpb(v) => Box::new(v.data),
        Ssbh::Matl(v) => Box::new(v.data),
        Ssbh::Modl(v) => Box::new(v.data),
        Ssbh::Mesh(v) => Box::new(v.data),
        Ssbh::Skel(v) => Box::new(v.data),
        Ssbh::Anim(v) => Box::new(v.data),
        Ssbh::Nlst(v) => Box::new(v.data),
        Ssbh::Nrpd(v) => Box::new(v.data),
        Ssbh::Nufx(v) => Box::new(v.data),
        Ssbh::Shdr(v) => Box::new(v.data),
    }
}
