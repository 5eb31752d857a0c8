//! The high-level data types behind one object-safe interface.
use crate::core::Rng;
use crate::io::{RS, WS};
use crate::lib_formats::{entropy, BoxVal, LibVal};
use arbitrary::{Arbitrary, Unstructured};
use serde_json::Value;
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use std::any::Any;
use std::io::Cursor;

pub trait DataVal {
    fn write_to(&self, w: &mut dyn WS) -> Result<(), String>;
    fn write_file(&self, p: &std::path::Path) -> Result<(), String>;
    fn to_lib(&self) -> Result<BoxVal, String>;
    fn debug(&self) -> String;
    fn json(&self) -> Result<Value, String>;
    fn json_string(&self) -> Result<String, String>;
    fn any(&self) -> &dyn Any;
    fn write_vec(&self) -> Result<Vec<u8>, String> {
        let mut c = Cursor::new(vec![]);
        self.write_to(&mut c)?;
        Ok(c.into_inner())
    }
}
pub type BoxData = Box<dyn DataVal>;
pub struct DFmt {
    pub name: &'static str,
    pub lib: &'static str,
    pub arb: fn(&mut Unstructured) -> Option<BoxData>,
    pub read: fn(&mut dyn RS) -> Result<BoxData, String>,
    pub read_file: fn(&std::path::Path) -> Result<BoxData, String>,
    pub from_lib: fn(&dyn LibVal) -> Result<BoxData, String>,
    pub from_json: fn(&str) -> Result<BoxData, String>,
}
impl DFmt {
    pub fn read_bytes(&self, b: &[u8]) -> Result<BoxData, String> {
        (self.read)(&mut Cursor::new(b))
    }
}
macro_rules! dfmt {
    ($m:ident, $ty:ident, $lib:ident) => {
        impl DataVal for $ty {
            fn write_to(&self, w: &mut dyn WS) -> Result<(), String> {
                let mut w = w;
                self.write(&mut w).map_err(|e| e.to_string())
            }
            fn write_file(&self, p: &std::path::Path) -> Result<(), String> {
                self.write_to_file(p).map_err(|e| e.to_string())
            }
            fn to_lib(&self) -> Result<BoxVal, String> {
                let v: $lib = self.try_into().map_err(|e| format!("{e}"))?;
                Ok(Box::new(v))
            }
            fn debug(&self) -> String {
                format!("{self:?}")
            }
            fn json(&self) -> Result<Value, String> {
                serde_json::to_value(self).map_err(|e| e.to_string())
            }
            fn json_string(&self) -> Result<String, String> {
                serde_json::to_string_pretty(self).map_err(|e| e.to_string())
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
        mod $m {
            use super::*;
            pub fn arb(u: &mut Unstructured) -> Option<BoxData> {
                <$ty as Arbitrary>::arbitrary(u).ok().map(|v| Box::new(v) as BoxData)
            }
            pub fn read(r: &mut dyn RS) -> Result<BoxData, String> {
                let mut r = r;
                <$ty>::read(&mut r).map(|v| Box::new(v) as BoxData).map_err(|e| e.to_string())
            }
            pub fn read_file(p: &std::path::Path) -> Result<BoxData, String> {
                <$ty>::from_file(p).map(|v| Box::new(v) as BoxData).map_err(|e| e.to_string())
            }
            pub fn from_lib(v: &dyn LibVal) -> Result<BoxData, String> {
                let v = v.any().downcast_ref::<$lib>().ok_or("wrong type")?;
                let d: $ty = v.try_into().map_err(|e| format!("{e}"))?;
                Ok(Box::new(d))
            }
            pub fn from_json(s: &str) -> Result<BoxData, String> {
                serde_json::from_str::<$ty>(s).map(|v| Box::new(v) as BoxData).map_err(|e| e.to_string())
            }
            pub const FMT: DFmt = DFmt { name: stringify!($ty), lib: stringify!($lib), arb, read, read_file, from_lib, from_json };
        }
    };
}
dfmt!(adj, AdjData, Adj);
dfmt!(anim, AnimData, Anim);
dfmt!(matl, MatlData, Matl);
dfmt!(mesh, MeshData, Mesh);
dfmt!(meshex, MeshExData, MeshEx);
dfmt!(modl, ModlData, Modl);
dfmt!(hlpb, HlpbData, Hlpb);
dfmt!(skel, SkelData, Skel);
pub static DFM: [DFmt; 8] = [adj::FMT, anim::FMT, matl::FMT, mesh::FMT, meshex::FMT, modl::FMT, hlpb::FMT, skel::FMT];
pub fn dfmt(name: &str) -> &'static DFmt {
    DFM.iter().find(|f| f.name == name).unwrap()
}
/// The data type for a low-level type.
pub fn dfmt_for_lib(lib: &str) -> Option<&'static DFmt> {
    DFM.iter().find(|f| f.lib == lib)
}
pub fn arb_data(f: &DFmt, r: &mut Rng, max: usize) -> Option<BoxData> {
    let e = entropy(r, max);
    let mut u = Unstructured::new(&e);
    (f.arb)(&mut u)
}
