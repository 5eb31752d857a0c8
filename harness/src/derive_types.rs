// Written by tools/gen_derive.py; do not edit.
#![allow(dead_code)]
use crate::props_derive::{Gen, Node, Shape, G};
use ssbh_lib::{Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};
use ssbh_write::SsbhWrite;
use std::num::*;

#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T0<T: SsbhWrite> {  pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T0<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T0 { g0, g1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T1( pub NonZeroI64);
impl Gen for T1 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <NonZeroI64 as Gen>::gen(r); (T1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 4)]
pub struct T2 { #[ssbhwrite(pad_after = 4)] pub f0: f64,  pub f1: u16,  pub f2: [f32; 2],  pub f3: i128, }
impl Gen for T2 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); let (f2, n_f2) = <[f32; 2] as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); (T2 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
#[ssbhwrite(magic = b"X")]
pub enum T3 { V0 = 23, V1 = 27, V2 = 94, V3 = -4 }
impl Gen for T3 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(4) { 0 => (T3::V0, (23i128 as i64)), 1 => (T3::V1, (27i128 as i64)), 2 => (T3::V2, (94i128 as i64)), _ => (T3::V3, (-4i128 as i64)) }; (v, Node::Rec { magic: b"X".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i64>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T4 {  pub f0: (), }
impl Gen for T4 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <() as Gen>::gen(r); (T4 { f0 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"\x00\x01\x02")]
pub enum T5 { #[ssbhwrite(pad_after = 2)] V0( Ptr32<T3>, #[ssbhwrite(pad_after = 16)] SsbhString8),  V1( u16),  V2 { #[ssbhwrite(pad_after = 16)] f0: RelPtr64<T3>,  f1: RelPtr64<NonZeroU8>, #[ssbhwrite(pad_after = 4)] f2: f64,  f3: u32, }, #[ssbhwrite(pad_after = 4)] V3( T4, #[ssbhwrite(pad_after = 2)] i64) }
impl Gen for T5 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <Ptr32<T3> as Gen>::gen(r); let (f1, n_f1) = <SsbhString8 as Gen>::gen(r); (T5::V0(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 16, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <u16 as Gen>::gen(r); (T5::V1(f0), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <RelPtr64<T3> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<NonZeroU8> as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T5::V2 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 16, 0), (n_f1, 0, 0), (n_f2, 4, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T4 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); (T5::V3(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 2, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, magic = b"X")]
pub struct T6( pub T1,  pub i8,  pub u32);
impl Gen for T6 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T1 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); (T6(f0, f1, f2), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T7<T: SsbhWrite> {  pub g0: T,  pub g1: SsbhArray<T>, }
impl<T: Gen> Gen for T7<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <SsbhArray<T> as Gen>::gen(r); (T7 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T8( pub T6,  pub SsbhArray<T2>,  pub u8,  pub NonZeroU128,  pub u128,  pub NonZeroI8);
impl Gen for T8 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T6 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<T2> as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <NonZeroU128 as Gen>::gen(r); let (f4, n_f4) = <u128 as Gen>::gen(r); let (f5, n_f5) = <NonZeroI8 as Gen>::gen(r); (T8(f0, f1, f2, f3, f4, f5), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T9 {  pub f0: f64,  pub f1: i128,  pub f2: f64, #[ssbhwrite(pad_after = 6)] pub f3: u64,  pub f4: i128, }
impl Gen for T9 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); let (f4, n_f4) = <i128 as Gen>::gen(r); (T9 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 6, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3, magic = b"MAGC")]
pub enum T10 {  V0 { #[ssbhwrite(pad_after = 8)] f0: u128,  f1: f32,  f2: T3, } }
impl Gen for T10 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <T3 as Gen>::gen(r); (T10::V0 { f0, f1, f2 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 8, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u32)]
#[ssbhwrite(repr(u32))]
#[ssbhwrite(pad_after = 5)]
pub enum T11 { V0 = 65244, V1 = 74 }
impl Gen for T11 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T11::V0, (65244i128 as u32)), _ => (T11::V1, (74i128 as u32)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<u32>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub enum T12 { #[ssbhwrite(pad_after = 8)] V0 {  f0: Option<()>, }, #[ssbhwrite(pad_after = 1)] V1( [i32; 1],  [f64; 1],  SsbhString8),  V2 {  f0: SsbhByteBuffer,  f1: i16,  f2: u16, } }
impl Gen for T12 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <Option<()> as Gen>::gen(r); (T12::V0 { f0 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <[i32; 1] as Gen>::gen(r); let (f1, n_f1) = <[f64; 1] as Gen>::gen(r); let (f2, n_f2) = <SsbhString8 as Gen>::gen(r); (T12::V1(f0, f1, f2), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); (T12::V2 { f0, f1, f2 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 8)]
pub struct T13<T: SsbhWrite> {  pub f0: RelPtr64<i128>,  pub g0: T,  pub g1: Vec<T>, }
impl<T: Gen> Gen for T13<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<i128> as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Vec<T> as Gen>::gen(r); (T13 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 8, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub struct T14( pub u16,  pub i16,  pub u8, #[ssbhwrite(pad_after = 6)] pub i16,  pub i8);
impl Gen for T14 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); let (f4, n_f4) = <i8 as Gen>::gen(r); (T14(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 6, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i32)]
#[ssbhwrite(repr(i32))]
#[ssbhwrite(magic = b"X")]
pub enum T15 { V0 = -30, V1 = -81 }
impl Gen for T15 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T15::V0, (-30i128 as i32)), _ => (T15::V1, (-81i128 as i32)) }; (v, Node::Rec { magic: b"X".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i32>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T16 {  pub f0: RelPtr64<u64>, }
impl Gen for T16 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<u64> as Gen>::gen(r); (T16 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct T17 {  pub f0: u8, #[ssbhwrite(pad_after = 6)] pub f1: i32,  pub f2: i8, }
impl Gen for T17 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u8 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); (T17 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 6, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u64)]
#[ssbhwrite(repr(u64))]
#[ssbhwrite(pad_after = 1)]
pub enum T18 { V0 = 65244, V1 = 90, V2 = 61, V3 = 34, V4 = 53 }
impl Gen for T18 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(5) { 0 => (T18::V0, (65244i128 as u64)), 1 => (T18::V1, (90i128 as u64)), 2 => (T18::V2, (61i128 as u64)), 3 => (T18::V3, (34i128 as u64)), _ => (T18::V4, (53i128 as u64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<u64>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16, alignment = 32, magic = b"X")]
pub struct T19(#[ssbhwrite(pad_after = 4)] pub Ptr32<i16>, #[ssbhwrite(pad_after = 1)] pub (),  pub T5,  pub NonZeroI32);
impl Gen for T19 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr32<i16> as Gen>::gen(r); let (f1, n_f1) = <() as Gen>::gen(r); let (f2, n_f2) = <T5 as Gen>::gen(r); let (f3, n_f3) = <NonZeroI32 as Gen>::gen(r); (T19(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 4, 0), (n_f1, 1, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
pub struct T20 {  pub f0: Ptr64<u8>, }
impl Gen for T20 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr64<u8> as Gen>::gen(r); (T20 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub struct T21 {  pub f0: u16, #[ssbhwrite(pad_after = 1)] pub f1: i128,  pub f2: Ptr16<[u64; 3]>,  pub f3: i16,  pub f4: SsbhString8, }
impl Gen for T21 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <Ptr16<[u64; 3]> as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); let (f4, n_f4) = <SsbhString8 as Gen>::gen(r); (T21 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 1, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12, alignment = 3)]
pub struct T22<T: SsbhWrite> { #[ssbhwrite(pad_after = 4)] pub f0: f64, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: RelPtr64<T>, }
impl<T: Gen> Gen for T22<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <RelPtr64<T> as Gen>::gen(r); (T22 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]

pub struct T23 {  pub f0: u64,  pub f1: [RelPtr64<i16>; 1],  pub f2: Ptr64<Ptr64<RelPtr64<T10>>>, #[ssbhwrite(pad_after = 4)] pub f3: Vec<Option<()>>, }
impl Gen for T23 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <[RelPtr64<i16>; 1] as Gen>::gen(r); let (f2, n_f2) = <Ptr64<Ptr64<RelPtr64<T10>>> as Gen>::gen(r); let (f3, n_f3) = <Vec<Option<()>> as Gen>::gen(r); (T23 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 4, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub enum T24 {  V0( SsbhArray<()>,  T5,  Vec<f64>,  SsbhByteBuffer),  V1( Vec<[u64; 3]>,  SsbhArray<Vec<i8>>) }
impl Gen for T24 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <SsbhArray<()> as Gen>::gen(r); let (f1, n_f1) = <T5 as Gen>::gen(r); let (f2, n_f2) = <Vec<f64> as Gen>::gen(r); let (f3, n_f3) = <SsbhByteBuffer as Gen>::gen(r); (T24::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } _ => { let (f0, n_f0) = <Vec<[u64; 3]> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<Vec<i8>> as Gen>::gen(r); (T24::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u64)]
#[ssbhwrite(repr(u64))]
#[ssbhwrite(alignment = 8)]
pub enum T25 { V0 = 65244, V1 = 74, V2 = 79 }
impl Gen for T25 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(3) { 0 => (T25::V0, (65244i128 as u64)), 1 => (T25::V1, (74i128 as u64)), _ => (T25::V2, (79i128 as u64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub enum T26 {  V0 {  f0: Option<[u128; 2]>,  f1: f64, },  V1 {  f0: T3,  f1: Option<RelPtr64<i64>>,  f2: u64, #[ssbhwrite(pad_after = 1)] f3: SsbhString8, },  V2 { #[ssbhwrite(pad_after = 1)] f0: u64,  f1: u128,  f2: T21,  f3: Vec<i32>, }, #[ssbhwrite(pad_after = 2)] V3 {  f0: SsbhArray<f64>, } }
impl Gen for T26 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <Option<[u128; 2]> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T26::V0 { f0, f1 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T3 as Gen>::gen(r); let (f1, n_f1) = <Option<RelPtr64<i64>> as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); let (f3, n_f3) = <SsbhString8 as Gen>::gen(r); (T26::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <T21 as Gen>::gen(r); let (f3, n_f3) = <Vec<i32> as Gen>::gen(r); (T26::V2 { f0, f1, f2, f3 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 1, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <SsbhArray<f64> as Gen>::gen(r); (T26::V3 { f0 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub enum T27 {  V0 {  f0: u8, },  V1 {  f0: RelPtr64<f32>,  f1: RelPtr64<Option<i16>>,  f2: RelPtr64<u64>,  f3: f64, } }
impl Gen for T27 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T27::V0 { f0 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <RelPtr64<f32> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<Option<i16>> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<u64> as Gen>::gen(r); let (f3, n_f3) = <f64 as Gen>::gen(r); (T27::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"MAGC")]
pub struct T28 {  pub f0: SsbhArray<Ptr64<u128>>,  pub f1: SsbhArray<f64>,  pub f2: SsbhArray<u32>,  pub f3: u8, }
impl Gen for T28 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<Ptr64<u128>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<f64> as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<u32> as Gen>::gen(r); let (f3, n_f3) = <u8 as Gen>::gen(r); (T28 { f0, f1, f2, f3 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub enum T29 { #[ssbhwrite(pad_after = 4)] V0( [Vec<u8>; 2],  [RelPtr64<u128>; 2]),  V1 { #[ssbhwrite(pad_after = 3)] f0: SsbhByteBuffer,  f1: i64, },  V2 {  f0: SsbhString8,  f1: f32, } }
impl Gen for T29 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <[Vec<u8>; 2] as Gen>::gen(r); let (f1, n_f1) = <[RelPtr64<u128>; 2] as Gen>::gen(r); (T29::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 4, valign: 0, pad: 4, align: 0 }) } 1 => { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); (T29::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } _ => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); (T29::V2 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 4, magic = b"MAGC")]
pub struct T30 {  pub f0: u64,  pub f1: T15,  pub f2: u32,  pub f3: f64,  pub f4: f32, }
impl Gen for T30 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <T15 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <f64 as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); (T30 { f0, f1, f2, f3, f4 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, alignment = 1)]
pub struct T31<T: SsbhWrite> {  pub f0: Vec<u128>,  pub f1: (), #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: Vec<T>, }
impl<T: Gen> Gen for T31<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<u128> as Gen>::gen(r); let (f1, n_f1) = <() as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Vec<T> as Gen>::gen(r); (T31 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]

pub struct T32 { #[ssbhwrite(pad_after = 8)] pub f0: Option<SsbhArray<u8>>,  pub f1: RelPtr64<u32>,  pub f2: Vec<f64>, #[ssbhwrite(pad_after = 1)] pub f3: i16,  pub f4: f32,  pub f5: i128, }
impl Gen for T32 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<SsbhArray<u8>> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<u32> as Gen>::gen(r); let (f2, n_f2) = <Vec<f64> as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); let (f5, n_f5) = <i128 as Gen>::gen(r); (T32 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 8, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 1, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T33 { #[ssbhwrite(pad_after = 1)] V0(#[ssbhwrite(pad_after = 1)] f64,  f64,  i16,  u16),  V1 {  f0: Vec<f32>,  f1: Vec<u16>,  f2: u128, } }
impl Gen for T33 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T33::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Vec<f32> as Gen>::gen(r); let (f1, n_f1) = <Vec<u16> as Gen>::gen(r); let (f2, n_f2) = <u128 as Gen>::gen(r); (T33::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T34( pub u8,  pub T2, #[ssbhwrite(pad_after = 8)] pub f64);
impl Gen for T34 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u8 as Gen>::gen(r); let (f1, n_f1) = <T2 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); (T34(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16, alignment = 4)]
pub struct T35<T: SsbhWrite> {  pub f0: T12,  pub f1: T22<i32>,  pub g0: T,  pub g1: Option<T>, }
impl<T: Gen> Gen for T35<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T12 as Gen>::gen(r); let (f1, n_f1) = <T22<i32> as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Option<T> as Gen>::gen(r); (T35 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T36 {  pub f0: (),  pub f1: i32,  pub f2: i16,  pub f3: u8,  pub f4: i128,  pub f5: i8, }
impl Gen for T36 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <u8 as Gen>::gen(r); let (f4, n_f4) = <i128 as Gen>::gen(r); let (f5, n_f5) = <i8 as Gen>::gen(r); (T36 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct T37<T: SsbhWrite> {  pub g0: T,  pub g1: RelPtr64<T>, }
impl<T: Gen> Gen for T37<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <RelPtr64<T> as Gen>::gen(r); (T37 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u16)]
#[ssbhwrite(repr(u16))]
#[ssbhwrite(pad_after = 1, magic = b"X")]
pub enum T38 { V0 = 65244, V1 = 79 }
impl Gen for T38 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T38::V0, (65244i128 as u16)), _ => (T38::V1, (79i128 as u16)) }; (v, Node::Rec { magic: b"X".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<u16>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub struct T39(#[ssbhwrite(pad_after = 4)] pub T22<i8>,  pub i64,  pub f64,  pub u64, #[ssbhwrite(pad_after = 6)] pub i8);
impl Gen for T39 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T22<i8> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); let (f4, n_f4) = <i8 as Gen>::gen(r); (T39(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 6, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
pub enum T40 {  V0 {  f0: SsbhString,  f1: (),  f2: u64, },  V1 {  f0: T13<Ptr64<u32>>,  f1: SsbhString,  f2: Vec<RelPtr64<RelPtr64<i64>>>, } }
impl Gen for T40 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <SsbhString as Gen>::gen(r); let (f1, n_f1) = <() as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); (T40::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } _ => { let (f0, n_f0) = <T13<Ptr64<u32>> as Gen>::gen(r); let (f1, n_f1) = <SsbhString as Gen>::gen(r); let (f2, n_f2) = <Vec<RelPtr64<RelPtr64<i64>>> as Gen>::gen(r); (T40::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
pub struct T41( pub [u16; 1],  pub SsbhArray<i8>, #[ssbhwrite(pad_after = 6)] pub u8);
impl Gen for T41 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[u16; 1] as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<i8> as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T41(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 6, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T42( pub T13<i128>);
impl Gen for T42 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T13<i128> as Gen>::gen(r); (T42(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2, magic = b"HBSSHBSS")]
pub enum T43 {  V0(#[ssbhwrite(pad_after = 1)] u8),  V1( T17,  f64,  i64) }
impl Gen for T43 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T43::V0(f0), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T17 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T43::V1(f0, f1, f2), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub struct T44( pub SsbhArray<u8>,  pub u8,  pub i8,  pub i128,  pub SsbhArray<T0<u128>>);
impl Gen for T44 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<u8> as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); let (f4, n_f4) = <SsbhArray<T0<u128>> as Gen>::gen(r); (T44(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T45 { #[ssbhwrite(pad_after = 2)] pub f0: RelPtr64<i64>,  pub f1: u64,  pub f2: u16,  pub f3: i8, }
impl Gen for T45 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<i64> as Gen>::gen(r); let (f1, n_f1) = <u64 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <i8 as Gen>::gen(r); (T45 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct T46( pub Option<T35<i128>>,  pub i64,  pub f32);
impl Gen for T46 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<T35<i128>> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); (T46(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub enum T47 {  V0( SsbhArray<u8>),  V1( T31<u32>,  i16,  u8),  V2( Option<u32>,  i64, #[ssbhwrite(pad_after = 16)] i8, #[ssbhwrite(pad_after = 8)] u8) }
impl Gen for T47 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <SsbhArray<u8> as Gen>::gen(r); (T47::V0(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T31<u32> as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T47::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Option<u32> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u8 as Gen>::gen(r); (T47::V2(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 16, 0), (n_f3, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T48 {  pub f0: f32,  pub f1: SsbhString,  pub f2: T41,  pub f3: SsbhByteBuffer, }
impl Gen for T48 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <SsbhString as Gen>::gen(r); let (f2, n_f2) = <T41 as Gen>::gen(r); let (f3, n_f3) = <SsbhByteBuffer as Gen>::gen(r); (T48 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub enum T49 {  V0( SsbhByteBuffer,  Option<NonZeroU32>,  f32,  SsbhArray<f32>),  V1 {  f0: i128,  f1: Ptr16<NonZeroI8>, }, #[ssbhwrite(pad_after = 2)] V2 {  f0: f32,  f1: i16,  f2: RelPtr64<RelPtr64<u8>>,  f3: T1, } }
impl Gen for T49 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <Option<NonZeroU32> as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); let (f3, n_f3) = <SsbhArray<f32> as Gen>::gen(r); (T49::V0(f0, f1, f2, f3), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <Ptr16<NonZeroI8> as Gen>::gen(r); (T49::V1 { f0, f1 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<RelPtr64<u8>> as Gen>::gen(r); let (f3, n_f3) = <T1 as Gen>::gen(r); (T49::V2 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T50 {  pub f0: RelPtr64<i128>,  pub f1: T43,  pub f2: i32, #[ssbhwrite(pad_after = 8)] pub f3: i8, #[ssbhwrite(pad_after = 6)] pub f4: i64,  pub f5: u16, }
impl Gen for T50 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<i128> as Gen>::gen(r); let (f1, n_f1) = <T43 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); let (f3, n_f3) = <i8 as Gen>::gen(r); let (f4, n_f4) = <i64 as Gen>::gen(r); let (f5, n_f5) = <u16 as Gen>::gen(r); (T50 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 8, 0), (n_f4, 6, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i32)]
#[ssbhwrite(repr(i32))]
pub enum T51 { V0 = -81 }
impl Gen for T51 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(1) { _ => (T51::V0, (-81i128 as i32)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i32>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T52 {  pub f0: i32,  pub f1: u128,  pub f2: i128, #[ssbhwrite(pad_after = 3)] pub f3: i8, }
impl Gen for T52 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); let (f3, n_f3) = <i8 as Gen>::gen(r); (T52 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T53(#[ssbhwrite(pad_after = 3)] pub Ptr16<SsbhByteBuffer>, #[ssbhwrite(pad_after = 8)] pub i8,  pub T42);
impl Gen for T53 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr16<SsbhByteBuffer> as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <T42 as Gen>::gen(r); (T53(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 8, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
pub struct T54 {  pub f0: SsbhString8,  pub f1: Option<u16>, }
impl Gen for T54 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <Option<u16> as Gen>::gen(r); (T54 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T55 {  V0( SsbhString8,  SsbhByteBuffer,  Vec<u16>, #[ssbhwrite(pad_after = 4)] RelPtr64<T51>) }
impl Gen for T55 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <SsbhByteBuffer as Gen>::gen(r); let (f2, n_f2) = <Vec<u16> as Gen>::gen(r); let (f3, n_f3) = <RelPtr64<T51> as Gen>::gen(r); (T55::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 4, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub enum T56 {  V0( i16, #[ssbhwrite(pad_after = 1)] SsbhArray<u32>,  SsbhArray<i64>) }
impl Gen for T56 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<u32> as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<i64> as Gen>::gen(r); (T56::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 1, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"HBSSHBSS")]
pub struct T57 { #[ssbhwrite(pad_after = 4)] pub f0: Vec<NonZeroI16>,  pub f1: T46,  pub f2: SsbhArray<NonZeroU8>,  pub f3: SsbhArray<i16>, }
impl Gen for T57 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<NonZeroI16> as Gen>::gen(r); let (f1, n_f1) = <T46 as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<NonZeroU8> as Gen>::gen(r); let (f3, n_f3) = <SsbhArray<i16> as Gen>::gen(r); (T57 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 4, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T58(#[ssbhwrite(pad_after = 4)] pub i32, #[ssbhwrite(pad_after = 8)] pub SsbhByteBuffer,  pub RelPtr64<SsbhString8>,  pub NonZeroU16,  pub SsbhArray<f64>);
impl Gen for T58 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <SsbhByteBuffer as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<SsbhString8> as Gen>::gen(r); let (f3, n_f3) = <NonZeroU16 as Gen>::gen(r); let (f4, n_f4) = <SsbhArray<f64> as Gen>::gen(r); (T58(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T59 {  pub f0: T32, #[ssbhwrite(pad_after = 4)] pub f1: i8,  pub f2: Vec<f32>, }
impl Gen for T59 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T32 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <Vec<f32> as Gen>::gen(r); (T59 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct T60 {  pub f0: (),  pub f1: SsbhString8,  pub f2: f64,  pub f3: f64, }
impl Gen for T60 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <SsbhString8 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <f64 as Gen>::gen(r); (T60 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, alignment = 8)]
pub enum T61 {  V0 {  f0: Ptr32<T31<u128>>,  f1: i128,  f2: u8,  f3: i128, }, #[ssbhwrite(pad_after = 4)] V1 {  f0: i64, #[ssbhwrite(pad_after = 8)] f1: u128,  f2: i32, },  V2( i8,  RelPtr64<NonZeroU64>) }
impl Gen for T61 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <Ptr32<T31<u128>> as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); (T61::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } 1 => { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); (T61::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 8, 0), (n_f2, 0, 0)], vpad: 4, valign: 0, pad: 4, align: 0 }) } _ => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<NonZeroU64> as Gen>::gen(r); (T61::V2(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } } } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct T62<T: SsbhWrite> {  pub f0: Vec<i128>,  pub f1: i16,  pub g0: T,  pub g1: T, }
impl<T: Gen> Gen for T62<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<i128> as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <T as Gen>::gen(r); (T62 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub enum T63 {  V0 {  f0: RelPtr64<RelPtr64<i16>>, },  V1 { #[ssbhwrite(pad_after = 6)] f0: Ptr64<SsbhArray<Ptr64<i8>>>, },  V2 {  f0: Option<u32>, },  V3(#[ssbhwrite(pad_after = 3)] NonZeroU16) }
impl Gen for T63 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <RelPtr64<RelPtr64<i16>> as Gen>::gen(r); (T63::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <Ptr64<SsbhArray<Ptr64<i8>>> as Gen>::gen(r); (T63::V1 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 6, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <Option<u32> as Gen>::gen(r); (T63::V2 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <NonZeroU16 as Gen>::gen(r); (T63::V3(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3)]
pub struct T64<T: SsbhWrite> { #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: T, }
impl<T: Gen> Gen for T64<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <T as Gen>::gen(r); (T64 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]

pub struct T65( pub i16,  pub Vec<SsbhString>,  pub Ptr64<u32>,  pub Vec<T16>);
impl Gen for T65 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <Vec<SsbhString> as Gen>::gen(r); let (f2, n_f2) = <Ptr64<u32> as Gen>::gen(r); let (f3, n_f3) = <Vec<T16> as Gen>::gen(r); (T65(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32)]
pub enum T66 { #[ssbhwrite(pad_after = 4)] V0 {  f0: u128, #[ssbhwrite(pad_after = 3)] f1: u32, #[ssbhwrite(pad_after = 2)] f2: SsbhString, },  V1 {  f0: RelPtr64<Option<i8>>,  f1: RelPtr64<u16>,  f2: Option<u8>, } }
impl Gen for T66 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <SsbhString as Gen>::gen(r); (T66::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 3, 0), (n_f2, 2, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <RelPtr64<Option<i8>> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<u16> as Gen>::gen(r); let (f2, n_f2) = <Option<u8> as Gen>::gen(r); (T66::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 3)]
pub struct T67<T: SsbhWrite> {  pub f0: T52, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T67<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T52 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T67 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]

pub enum T68 { #[ssbhwrite(pad_after = 2)] V0 {  f0: T27, #[ssbhwrite(pad_after = 8)] f1: RelPtr64<Option<SsbhArray<i32>>>, } }
impl Gen for T68 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <T27 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<Option<SsbhArray<i32>>> as Gen>::gen(r); (T68::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 8, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5, magic = b"\x00\x01\x02")]
pub struct T69<T: SsbhWrite> {  pub f0: u128,  pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T69<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u128 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T69 { f0, g0, g1 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub enum T70 { #[ssbhwrite(pad_after = 1)] V0 {  f0: i8,  f1: f32,  f2: u32, },  V1(#[ssbhwrite(pad_after = 1)] f64, #[ssbhwrite(pad_after = 16)] u32),  V2( i32,  T1, #[ssbhwrite(pad_after = 1)] f32,  u32) }
impl Gen for T70 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); (T70::V0 { f0, f1, f2 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); (T70::V1(f0, f1), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 1, 0), (n_f1, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <T1 as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T70::V2(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 1, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"HBSSHBSS")]
pub enum T71 {  V0(#[ssbhwrite(pad_after = 16)] u16), #[ssbhwrite(pad_after = 8)] V1 {  f0: Vec<RelPtr64<i64>>,  f1: SsbhArray<()>,  f2: Vec<u64>, },  V2 {  f0: f64,  f1: T54,  f2: i32,  f3: SsbhArray<i8>, } }
impl Gen for T71 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <u16 as Gen>::gen(r); (T71::V0(f0), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <Vec<RelPtr64<i64>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<()> as Gen>::gen(r); let (f2, n_f2) = <Vec<u64> as Gen>::gen(r); (T71::V1 { f0, f1, f2 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <T54 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); let (f3, n_f3) = <SsbhArray<i8> as Gen>::gen(r); (T71::V2 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T72( pub RelPtr64<f64>);
impl Gen for T72 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<f64> as Gen>::gen(r); (T72(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
pub enum T73 {  V0( T0<RelPtr64<RelPtr64<f32>>>,  SsbhArray<T28>,  SsbhString8,  T0<u32>) }
impl Gen for T73 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <T0<RelPtr64<RelPtr64<f32>>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<T28> as Gen>::gen(r); let (f2, n_f2) = <SsbhString8 as Gen>::gen(r); let (f3, n_f3) = <T0<u32> as Gen>::gen(r); (T73::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"MAGC")]
pub struct T74 { #[ssbhwrite(pad_after = 8)] pub f0: Ptr32<u8>,  pub f1: Vec<SsbhByteBuffer>,  pub f2: u8, }
impl Gen for T74 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr32<u8> as Gen>::gen(r); let (f1, n_f1) = <Vec<SsbhByteBuffer> as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T74 { f0, f1, f2 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 8, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]

pub enum T75 {  V0( i128,  u128,  T36, #[ssbhwrite(pad_after = 16)] NonZeroI128),  V1( u128),  V2 {  f0: f64,  f1: Option<u8>,  f2: u16, } }
impl Gen for T75 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <T36 as Gen>::gen(r); let (f3, n_f3) = <NonZeroI128 as Gen>::gen(r); (T75::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <u128 as Gen>::gen(r); (T75::V1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <Option<u8> as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); (T75::V2 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub struct T76 { #[ssbhwrite(pad_after = 4)] pub f0: Option<u16>,  pub f1: f32,  pub f2: i8,  pub f3: u32,  pub f4: u128, }
impl Gen for T76 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<u16> as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); let (f4, n_f4) = <u128 as Gen>::gen(r); (T76 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub enum T77 {  V0( SsbhString, #[ssbhwrite(pad_after = 6)] T18),  V1( u8), #[ssbhwrite(pad_after = 8)] V2 {  f0: f64,  f1: SsbhArray<u16>, #[ssbhwrite(pad_after = 3)] f2: i64, #[ssbhwrite(pad_after = 8)] f3: u16, } }
impl Gen for T77 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <SsbhString as Gen>::gen(r); let (f1, n_f1) = <T18 as Gen>::gen(r); (T77::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 6, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T77::V1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<u16> as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T77::V2 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 3, 0), (n_f3, 8, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub enum T78 { #[ssbhwrite(pad_after = 2)] V0( SsbhArray<RelPtr64<u16>>,  T2,  f32),  V1( u64), #[ssbhwrite(pad_after = 8)] V2 {  f0: Vec<u128>,  f1: Option<RelPtr64<u32>>,  f2: i8, } }
impl Gen for T78 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <SsbhArray<RelPtr64<u16>> as Gen>::gen(r); let (f1, n_f1) = <T2 as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); (T78::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <u64 as Gen>::gen(r); (T78::V1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Vec<u128> as Gen>::gen(r); let (f1, n_f1) = <Option<RelPtr64<u32>> as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); (T78::V2 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
#[ssbhwrite(pad_after = 2, alignment = 4)]
pub enum T79 { V0 = -8, V1 = 85 }
impl Gen for T79 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T79::V0, (-8i128 as i64)), _ => (T79::V1, (85i128 as i64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]

pub enum T80 {  V0 {  f0: i32,  f1: f64, } }
impl Gen for T80 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T80::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T81 {  pub f0: f32, }
impl Gen for T81 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f32 as Gen>::gen(r); (T81 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3)]
pub struct T82 {  pub f0: u16,  pub f1: RelPtr64<f32>,  pub f2: f64,  pub f3: u64, }
impl Gen for T82 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<f32> as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T82 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"HBSSHBSS")]
pub enum T83 {  V0( [i64; 1]),  V1 {  f0: Option<i64>, #[ssbhwrite(pad_after = 8)] f1: u32,  f2: T9,  f3: i128, },  V2( u32,  i8), #[ssbhwrite(pad_after = 2)] V3 { #[ssbhwrite(pad_after = 3)] f0: T14,  f1: u32,  f2: [u128; 1],  f3: T36, } }
impl Gen for T83 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <[i64; 1] as Gen>::gen(r); (T83::V0(f0), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <Option<i64> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <T9 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); (T83::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); (T83::V2(f0, f1), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T14 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <[u128; 1] as Gen>::gen(r); let (f3, n_f3) = <T36 as Gen>::gen(r); (T83::V3 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T84( pub [Ptr64<i64>; 3],  pub RelPtr64<Ptr64<Vec<u16>>>,  pub RelPtr64<RelPtr64<Option<i8>>>,  pub SsbhArray<T31<i16>>,  pub (),  pub i32);
impl Gen for T84 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[Ptr64<i64>; 3] as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<Ptr64<Vec<u16>>> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<RelPtr64<Option<i8>>> as Gen>::gen(r); let (f3, n_f3) = <SsbhArray<T31<i16>> as Gen>::gen(r); let (f4, n_f4) = <() as Gen>::gen(r); let (f5, n_f5) = <i32 as Gen>::gen(r); (T84(f0, f1, f2, f3, f4, f5), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32)]
pub struct T85 {  pub f0: u8,  pub f1: u8,  pub f2: i16,  pub f3: i8,  pub f4: u64, #[ssbhwrite(pad_after = 4)] pub f5: Vec<f32>, }
impl Gen for T85 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u8 as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <i8 as Gen>::gen(r); let (f4, n_f4) = <u64 as Gen>::gen(r); let (f5, n_f5) = <Vec<f32> as Gen>::gen(r); (T85 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 4, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5, magic = b"X")]
pub struct T86<T: SsbhWrite> { #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: RelPtr64<T>, }
impl<T: Gen> Gen for T86<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <RelPtr64<T> as Gen>::gen(r); (T86 { g0, g1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T87 {  pub f0: T57, #[ssbhwrite(pad_after = 4)] pub f1: i32,  pub f2: i8,  pub f3: f64, #[ssbhwrite(pad_after = 16)] pub f4: f32,  pub f5: u128, }
impl Gen for T87 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T57 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <f64 as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); let (f5, n_f5) = <u128 as Gen>::gen(r); (T87 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 16, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub enum T88 {  V0( RelPtr64<i16>) }
impl Gen for T88 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <RelPtr64<i16> as Gen>::gen(r); (T88::V0(f0), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T89 {  V0 {  f0: Vec<u16>,  f1: SsbhString8, },  V1(#[ssbhwrite(pad_after = 3)] Ptr64<RelPtr64<T35<i64>>>,  f64,  RelPtr64<T51>),  V2 {  f0: Vec<SsbhArray<i128>>,  f1: T53,  f2: SsbhArray<i64>, } }
impl Gen for T89 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <Vec<u16> as Gen>::gen(r); let (f1, n_f1) = <SsbhString8 as Gen>::gen(r); (T89::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <Ptr64<RelPtr64<T35<i64>>> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<T51> as Gen>::gen(r); (T89::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Vec<SsbhArray<i128>> as Gen>::gen(r); let (f1, n_f1) = <T53 as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<i64> as Gen>::gen(r); (T89::V2 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32)]
pub enum T90 {  V0( T49,  f64, #[ssbhwrite(pad_after = 2)] RelPtr64<u16>), #[ssbhwrite(pad_after = 2)] V1( i32), #[ssbhwrite(pad_after = 4)] V2 {  f0: Ptr16<i16>,  f1: RelPtr64<RelPtr64<u8>>,  f2: T67<RelPtr64<i32>>, } }
impl Gen for T90 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <T49 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<u16> as Gen>::gen(r); (T90::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i32 as Gen>::gen(r); (T90::V1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Ptr16<i16> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<RelPtr64<u8>> as Gen>::gen(r); let (f2, n_f2) = <T67<RelPtr64<i32>> as Gen>::gen(r); (T90::V2 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
pub enum T91 { V0 = 79, V1 = 35, V2 = 94, V3 = -53 }
impl Gen for T91 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(4) { 0 => (T91::V0, (79i128 as i64)), 1 => (T91::V1, (35i128 as i64)), 2 => (T91::V2, (94i128 as i64)), _ => (T91::V3, (-53i128 as i64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i64>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T92 { #[ssbhwrite(pad_after = 1)] V0 { #[ssbhwrite(pad_after = 16)] f0: Ptr32<NonZeroUsize>, #[ssbhwrite(pad_after = 6)] f1: i64,  f2: T71, },  V1 { #[ssbhwrite(pad_after = 2)] f0: Option<SsbhArray<NonZeroU16>>,  f1: u16, } }
impl Gen for T92 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <Ptr32<NonZeroUsize> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <T71 as Gen>::gen(r); (T92::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 16, 0), (n_f1, 6, 0), (n_f2, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Option<SsbhArray<NonZeroU16>> as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); (T92::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T93 {  pub f0: f64, #[ssbhwrite(pad_after = 3)] pub f1: SsbhArray<SsbhString>,  pub f2: RelPtr64<SsbhString>,  pub f3: u64,  pub f4: i16,  pub f5: RelPtr64<RelPtr64<Option<u8>>>, }
impl Gen for T93 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<SsbhString> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<SsbhString> as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); let (f4, n_f4) = <i16 as Gen>::gen(r); let (f5, n_f5) = <RelPtr64<RelPtr64<Option<u8>>> as Gen>::gen(r); (T93 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 3, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T94<T: SsbhWrite> {  pub f0: u64, #[ssbhwrite(pad_after = 4)] pub f1: NonZeroU32, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T94<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <NonZeroU32 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T94 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T95 {  pub f0: NonZeroU8,  pub f1: i64,  pub f2: f64,  pub f3: RelPtr64<RelPtr64<T45>>,  pub f4: RelPtr64<i32>, }
impl Gen for T95 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <NonZeroU8 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <RelPtr64<RelPtr64<T45>> as Gen>::gen(r); let (f4, n_f4) = <RelPtr64<i32> as Gen>::gen(r); (T95 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3, magic = b"\x00\x01\x02")]
pub enum T96 { #[ssbhwrite(pad_after = 2)] V0( SsbhArray<Ptr64<SsbhArray<u8>>>,  f32,  ()),  V1 { #[ssbhwrite(pad_after = 3)] f0: T65,  f1: Ptr64<NonZeroU128>, #[ssbhwrite(pad_after = 4)] f2: Vec<f32>,  f3: i32, },  V2( T66, #[ssbhwrite(pad_after = 8)] i8, #[ssbhwrite(pad_after = 3)] T48), #[ssbhwrite(pad_after = 8)] V3( T57,  i8) }
impl Gen for T96 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <SsbhArray<Ptr64<SsbhArray<u8>>> as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <() as Gen>::gen(r); (T96::V0(f0, f1, f2), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T65 as Gen>::gen(r); let (f1, n_f1) = <Ptr64<NonZeroU128> as Gen>::gen(r); let (f2, n_f2) = <Vec<f32> as Gen>::gen(r); let (f3, n_f3) = <i32 as Gen>::gen(r); (T96::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 4, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <T66 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <T48 as Gen>::gen(r); (T96::V2(f0, f1, f2), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 8, 0), (n_f2, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T57 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); (T96::V3(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]

pub struct T97<T: SsbhWrite> {  pub f0: f64,  pub g0: T,  pub g1: SsbhArray<T>, }
impl<T: Gen> Gen for T97<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <SsbhArray<T> as Gen>::gen(r); (T97 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u16)]
#[ssbhwrite(repr(u16))]
#[ssbhwrite(pad_after = 5, alignment = 2)]
pub enum T98 { V0 = 65244 }
impl Gen for T98 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(1) { _ => (T98::V0, (65244i128 as u16)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T99 { #[ssbhwrite(pad_after = 2)] pub f0: i32,  pub f1: i128,  pub f2: u8, #[ssbhwrite(pad_after = 4)] pub f3: (),  pub f4: f32, }
impl Gen for T99 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <() as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); (T99 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 4, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]

pub struct T100 {  pub f0: SsbhArray<f32>,  pub f1: u32,  pub f2: i128,  pub f3: i64, #[ssbhwrite(pad_after = 3)] pub f4: u16,  pub f5: u128, }
impl Gen for T100 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<f32> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); let (f3, n_f3) = <i64 as Gen>::gen(r); let (f4, n_f4) = <u16 as Gen>::gen(r); let (f5, n_f5) = <u128 as Gen>::gen(r); (T100 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 3, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T101 {  pub f0: SsbhArray<T63>,  pub f1: T51, }
impl Gen for T101 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<T63> as Gen>::gen(r); let (f1, n_f1) = <T51 as Gen>::gen(r); (T101 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub enum T102 { #[ssbhwrite(pad_after = 2)] V0 {  f0: RelPtr64<T62<i64>>,  f1: u32, },  V1 {  f0: u16,  f1: u32, }, #[ssbhwrite(pad_after = 8)] V2( u64,  SsbhArray<Ptr64<SsbhByteBuffer>>,  Option<Vec<i64>>),  V3( u8) }
impl Gen for T102 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <RelPtr64<T62<i64>> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); (T102::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 2, valign: 0, pad: 12, align: 0 }) } 1 => { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); (T102::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } 2 => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<Ptr64<SsbhByteBuffer>> as Gen>::gen(r); let (f2, n_f2) = <Option<Vec<i64>> as Gen>::gen(r); (T102::V2(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 8, valign: 0, pad: 12, align: 0 }) } _ => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T102::V3(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
pub struct T103<T: SsbhWrite> { #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T103<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T103 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T104 {  pub f0: RelPtr64<Ptr64<Ptr64<u64>>>, }
impl Gen for T104 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<Ptr64<Ptr64<u64>>> as Gen>::gen(r); (T104 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T105 {  V0 { #[ssbhwrite(pad_after = 6)] f0: i16, #[ssbhwrite(pad_after = 3)] f1: NonZeroU16,  f2: u64,  f3: i32, },  V1( i64) }
impl Gen for T105 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <NonZeroU16 as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); let (f3, n_f3) = <i32 as Gen>::gen(r); (T105::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 6, 0), (n_f1, 3, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i64 as Gen>::gen(r); (T105::V1(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub struct T106<T: SsbhWrite> {  pub f0: u32,  pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T106<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T106 { f0, g0, g1 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T107 {  V0 {  f0: f64, #[ssbhwrite(pad_after = 1)] f1: i128,  f2: i64, },  V1(#[ssbhwrite(pad_after = 1)] i128, #[ssbhwrite(pad_after = 16)] T3,  u16,  u32),  V2 {  f0: Option<u64>,  f1: f64, },  V3 {  f0: f32,  f1: [u32; 3],  f2: u64, } }
impl Gen for T107 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T107::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 1, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <T3 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T107::V1(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 16, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <Option<u64> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T107::V2 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <[u32; 3] as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); (T107::V3 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8, magic = b"HBSSHBSS")]
pub struct T108 {  pub f0: T104,  pub f1: f64, }
impl Gen for T108 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T104 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T108 { f0, f1 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 3)]
pub struct T109(#[ssbhwrite(pad_after = 3)] pub RelPtr64<u64>,  pub u128, #[ssbhwrite(pad_after = 16)] pub u16,  pub u32,  pub u32);
impl Gen for T109 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<u64> as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); let (f4, n_f4) = <u32 as Gen>::gen(r); (T109(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 16, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3)]
pub struct T110( pub f32);
impl Gen for T110 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f32 as Gen>::gen(r); (T110(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
#[ssbhwrite(alignment = 4, magic = b"MAGC")]
pub enum T111 { V0 = -99, V1 = 52 }
impl Gen for T111 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T111::V0, (-99i128 as i64)), _ => (T111::V1, (52i128 as i64)) }; (v, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]

pub struct T112 { #[ssbhwrite(pad_after = 8)] pub f0: f64, #[ssbhwrite(pad_after = 8)] pub f1: SsbhString8,  pub f2: i8,  pub f3: i16,  pub f4: i16, }
impl Gen for T112 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <SsbhString8 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); let (f4, n_f4) = <i16 as Gen>::gen(r); (T112 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 8, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T113 {  pub f0: Option<T18>,  pub f1: u128,  pub f2: f64,  pub f3: i128,  pub f4: f32, }
impl Gen for T113 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<T18> as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); (T113 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T114 {  pub f0: u32, #[ssbhwrite(pad_after = 2)] pub f1: u16,  pub f2: NonZeroU128, }
impl Gen for T114 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); let (f2, n_f2) = <NonZeroU128 as Gen>::gen(r); (T114 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T115( pub Option<SsbhString>,  pub [f64; 2],  pub SsbhByteBuffer, #[ssbhwrite(pad_after = 3)] pub T110,  pub i16);
impl Gen for T115 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<SsbhString> as Gen>::gen(r); let (f1, n_f1) = <[f64; 2] as Gen>::gen(r); let (f2, n_f2) = <SsbhByteBuffer as Gen>::gen(r); let (f3, n_f3) = <T110 as Gen>::gen(r); let (f4, n_f4) = <i16 as Gen>::gen(r); (T115(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 3, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i8)]
#[ssbhwrite(repr(i8))]
#[ssbhwrite(alignment = 1, magic = b"X")]
pub enum T116 { V0 = -96, V1 = -100 }
impl Gen for T116 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T116::V0, (-96i128 as i8)), _ => (T116::V1, (-100i128 as i8)) }; (v, Node::Rec { magic: b"X".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8, magic = b"X")]
pub struct T117( pub u16,  pub Option<Vec<i16>>,  pub f32,  pub i16,  pub u128);
impl Gen for T117 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <Option<Vec<i16>> as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); let (f4, n_f4) = <u128 as Gen>::gen(r); (T117(f0, f1, f2, f3, f4), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]

pub struct T118<T: SsbhWrite> {  pub g0: T,  pub g1: RelPtr64<T>, }
impl<T: Gen> Gen for T118<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <RelPtr64<T> as Gen>::gen(r); (T118 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub enum T119 { V0 = 8, V1 = 42, V2 = 79, V3 = 59, V4 = 107 }
impl Gen for T119 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(5) { 0 => (T119::V0, (8i128 as i64)), 1 => (T119::V1, (42i128 as i64)), 2 => (T119::V2, (79i128 as i64)), 3 => (T119::V3, (59i128 as i64)), _ => (T119::V4, (107i128 as i64)) }; (v, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i64>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T120 {  pub f0: SsbhArray<u128>, }
impl Gen for T120 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<u128> as Gen>::gen(r); (T120 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T121 {  V0 {  f0: u32, #[ssbhwrite(pad_after = 2)] f1: RelPtr64<[Ptr64<u128>; 3]>, }, #[ssbhwrite(pad_after = 1)] V1 {  f0: SsbhString, } }
impl Gen for T121 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<[Ptr64<u128>; 3]> as Gen>::gen(r); (T121::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <SsbhString as Gen>::gen(r); (T121::V1 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T122 {  pub f0: RelPtr64<f32>, #[ssbhwrite(pad_after = 4)] pub f1: u8,  pub f2: u8, }
impl Gen for T122 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<f32> as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T122 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12, alignment = 8, magic = b"X")]
pub struct T123(#[ssbhwrite(pad_after = 6)] pub T113, #[ssbhwrite(pad_after = 4)] pub u128,  pub i64,  pub u128);
impl Gen for T123 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T113 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <u128 as Gen>::gen(r); (T123(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 6, 0), (n_f1, 4, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12, magic = b"\x00\x01\x02")]
pub enum T124 {  V0( T79, #[ssbhwrite(pad_after = 6)] u16), #[ssbhwrite(pad_after = 1)] V1 {  f0: [u64; 2], } }
impl Gen for T124 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <T79 as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); (T124::V0(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 6, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } _ => { let (f0, n_f0) = <[u64; 2] as Gen>::gen(r); (T124::V1 { f0 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 1, valign: 0, pad: 12, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T125 {  pub f0: [RelPtr64<SsbhString8>; 3], }
impl Gen for T125 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[RelPtr64<SsbhString8>; 3] as Gen>::gen(r); (T125 { f0 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub enum T126 { #[ssbhwrite(pad_after = 2)] V0( NonZeroU16,  SsbhString,  RelPtr64<f32>,  RelPtr64<i16>),  V1(#[ssbhwrite(pad_after = 4)] u128, #[ssbhwrite(pad_after = 3)] i8),  V2(#[ssbhwrite(pad_after = 4)] T70) }
impl Gen for T126 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <NonZeroU16 as Gen>::gen(r); let (f1, n_f1) = <SsbhString as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<f32> as Gen>::gen(r); let (f3, n_f3) = <RelPtr64<i16> as Gen>::gen(r); (T126::V0(f0, f1, f2, f3), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); (T126::V1(f0, f1), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 4, 0), (n_f1, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T70 as Gen>::gen(r); (T126::V2(f0), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 4, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1, magic = b"HBSSHBSS")]
pub struct T127 {  pub f0: u16, #[ssbhwrite(pad_after = 8)] pub f1: Option<Ptr32<Option<f64>>>,  pub f2: T69<i64>, }
impl Gen for T127 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <Option<Ptr32<Option<f64>>> as Gen>::gen(r); let (f2, n_f2) = <T69<i64> as Gen>::gen(r); (T127 { f0, f1, f2 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 8, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 8, alignment = 8)]
pub struct T128 {  pub f0: u64,  pub f1: (), #[ssbhwrite(pad_after = 4)] pub f2: i32,  pub f3: T104,  pub f4: SsbhArray<f64>,  pub f5: SsbhArray<Option<u128>>, }
impl Gen for T128 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <() as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); let (f3, n_f3) = <T104 as Gen>::gen(r); let (f4, n_f4) = <SsbhArray<f64> as Gen>::gen(r); let (f5, n_f5) = <SsbhArray<Option<u128>> as Gen>::gen(r); (T128 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 4, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 8, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T129 {  pub f0: u8, }
impl Gen for T129 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u8 as Gen>::gen(r); (T129 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T130( pub SsbhArray<Ptr64<T98>>,  pub u128,  pub T120,  pub RelPtr64<RelPtr64<f32>>,  pub SsbhByteBuffer);
impl Gen for T130 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<Ptr64<T98>> as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <T120 as Gen>::gen(r); let (f3, n_f3) = <RelPtr64<RelPtr64<f32>> as Gen>::gen(r); let (f4, n_f4) = <SsbhByteBuffer as Gen>::gen(r); (T130(f0, f1, f2, f3, f4), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 8, magic = b"MAGC")]
pub enum T131 { #[ssbhwrite(pad_after = 4)] V0( u64,  i16, #[ssbhwrite(pad_after = 1)] Option<RelPtr64<SsbhString8>>),  V1 {  f0: Ptr64<i32>, #[ssbhwrite(pad_after = 16)] f1: i16,  f2: RelPtr64<f64>, } }
impl Gen for T131 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <Option<RelPtr64<SsbhString8>> as Gen>::gen(r); (T131::V0(f0, f1, f2), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 1, 0)], vpad: 4, valign: 0, pad: 8, align: 0 }) } _ => { let (f0, n_f0) = <Ptr64<i32> as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<f64> as Gen>::gen(r); (T131::V1 { f0, f1, f2 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 16, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 8, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T132 {  pub f0: RelPtr64<i128>,  pub f1: SsbhString,  pub f2: i64, }
impl Gen for T132 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<i128> as Gen>::gen(r); let (f1, n_f1) = <SsbhString as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T132 { f0, f1, f2 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T133 { #[ssbhwrite(pad_after = 8)] V0( Ptr64<f64>),  V1( i16,  Vec<f64>, #[ssbhwrite(pad_after = 16)] u8) }
impl Gen for T133 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <Ptr64<f64> as Gen>::gen(r); (T133::V0(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <Vec<f64> as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T133::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u64)]
#[ssbhwrite(repr(u64))]
#[ssbhwrite(alignment = 4)]
pub enum T134 { V0 = 65244, V1 = 115, V2 = 119 }
impl Gen for T134 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(3) { 0 => (T134::V0, (65244i128 as u64)), 1 => (T134::V1, (115i128 as u64)), _ => (T134::V2, (119i128 as u64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub enum T135 { #[ssbhwrite(pad_after = 2)] V0 {  f0: RelPtr64<RelPtr64<RelPtr64<i64>>>,  f1: SsbhArray<SsbhByteBuffer>,  f2: RelPtr64<Vec<i32>>, }, #[ssbhwrite(pad_after = 1)] V1 {  f0: (), #[ssbhwrite(pad_after = 2)] f1: Ptr64<NonZeroI16>, },  V2( u16), #[ssbhwrite(pad_after = 2)] V3 { #[ssbhwrite(pad_after = 8)] f0: [RelPtr64<f64>; 1],  f1: NonZeroI128,  f2: RelPtr64<Ptr64<T114>>, } }
impl Gen for T135 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <RelPtr64<RelPtr64<RelPtr64<i64>>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<SsbhByteBuffer> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<Vec<i32>> as Gen>::gen(r); (T135::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 12, align: 0 }) } 1 => { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <Ptr64<NonZeroI16> as Gen>::gen(r); (T135::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0)], vpad: 1, valign: 0, pad: 12, align: 0 }) } 2 => { let (f0, n_f0) = <u16 as Gen>::gen(r); (T135::V2(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } _ => { let (f0, n_f0) = <[RelPtr64<f64>; 1] as Gen>::gen(r); let (f1, n_f1) = <NonZeroI128 as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<Ptr64<T114>> as Gen>::gen(r); (T135::V3 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 8, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 12, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T136 { #[ssbhwrite(pad_after = 8)] V0 {  f0: f64, #[ssbhwrite(pad_after = 6)] f1: i64, } }
impl Gen for T136 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); (T136::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 6, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"X")]
pub struct T137 {  pub f0: SsbhArray<i8>,  pub f1: u128, #[ssbhwrite(pad_after = 2)] pub f2: f64,  pub f3: u64,  pub f4: i128,  pub f5: i128, }
impl Gen for T137 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<i8> as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); let (f4, n_f4) = <i128 as Gen>::gen(r); let (f5, n_f5) = <i128 as Gen>::gen(r); (T137 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T138 {  pub f0: u32,  pub f1: Option<f32>, }
impl Gen for T138 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <Option<f32> as Gen>::gen(r); (T138 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub enum T139 { #[ssbhwrite(pad_after = 4)] V0 { #[ssbhwrite(pad_after = 3)] f0: Ptr64<u128>,  f1: u8,  f2: u8,  f3: u16, },  V1( RelPtr64<i16>,  u64,  i8,  u16),  V2 {  f0: i128, },  V3 {  f0: Ptr32<i128>,  f1: i64,  f2: u16, } }
impl Gen for T139 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <Ptr64<u128> as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T139::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <RelPtr64<i16> as Gen>::gen(r); let (f1, n_f1) = <u64 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T139::V1(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <i128 as Gen>::gen(r); (T139::V2 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Ptr32<i128> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); (T139::V3 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]

pub struct T140 {  pub f0: f32,  pub f1: Ptr64<RelPtr64<[u64; 2]>>,  pub f2: T105, #[ssbhwrite(pad_after = 3)] pub f3: i32, }
impl Gen for T140 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <Ptr64<RelPtr64<[u64; 2]>> as Gen>::gen(r); let (f2, n_f2) = <T105 as Gen>::gen(r); let (f3, n_f3) = <i32 as Gen>::gen(r); (T140 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T141 { #[ssbhwrite(pad_after = 2)] V0 {  f0: i8, } }
impl Gen for T141 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <i8 as Gen>::gen(r); (T141::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16, alignment = 32)]
pub enum T142 { #[ssbhwrite(pad_after = 8)] V0(#[ssbhwrite(pad_after = 16)] RelPtr64<NonZeroU32>, #[ssbhwrite(pad_after = 6)] [u16; 2]),  V1( Option<Vec<i128>>,  Vec<u16>,  i64) }
impl Gen for T142 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <RelPtr64<NonZeroU32> as Gen>::gen(r); let (f1, n_f1) = <[u16; 2] as Gen>::gen(r); (T142::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 16, 0), (n_f1, 6, 0)], vpad: 8, valign: 0, pad: 16, align: 0 }) } _ => { let (f0, n_f0) = <Option<Vec<i128>> as Gen>::gen(r); let (f1, n_f1) = <Vec<u16> as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T142::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } } } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T143 { #[ssbhwrite(pad_after = 2)] pub f0: [u8; 2],  pub f1: RelPtr64<u16>, #[ssbhwrite(pad_after = 8)] pub f2: SsbhString, }
impl Gen for T143 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[u8; 2] as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<u16> as Gen>::gen(r); let (f2, n_f2) = <SsbhString as Gen>::gen(r); (T143 { f0, f1, f2 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 2, 0), (n_f1, 0, 0), (n_f2, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2)]
pub struct T144 {  pub f0: NonZeroI128,  pub f1: RelPtr64<SsbhString8>, #[ssbhwrite(pad_after = 1)] pub f2: f64, }
impl Gen for T144 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <NonZeroI128 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<SsbhString8> as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); (T144 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T145 {  pub f0: SsbhString8,  pub f1: T67<i8>,  pub f2: i16,  pub f3: u16, }
impl Gen for T145 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <T67<i8> as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T145 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct T146( pub i32, #[ssbhwrite(pad_after = 3)] pub Option<u32>, #[ssbhwrite(pad_after = 8)] pub i8, #[ssbhwrite(pad_after = 6)] pub u32);
impl Gen for T146 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <Option<u32> as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T146(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 3, 0), (n_f2, 8, 0), (n_f3, 6, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u32)]
#[ssbhwrite(repr(u32))]
#[ssbhwrite(pad_after = 2, alignment = 4)]
pub enum T147 { V0 = 65244 }
impl Gen for T147 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(1) { _ => (T147::V0, (65244i128 as u32)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub struct T148( pub RelPtr64<i64>, #[ssbhwrite(pad_after = 6)] pub SsbhArray<SsbhArray<Option<i128>>>);
impl Gen for T148 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<i64> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<SsbhArray<Option<i128>>> as Gen>::gen(r); (T148(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 6, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T149( pub i64,  pub Ptr64<T124>, #[ssbhwrite(pad_after = 2)] pub SsbhArray<f64>,  pub u64);
impl Gen for T149 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <Ptr64<T124> as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<f64> as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T149(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, magic = b"\x00\x01\x02")]
pub struct T150 {  pub f0: f64,  pub f1: f32, #[ssbhwrite(pad_after = 3)] pub f2: Option<i64>,  pub f3: u32, }
impl Gen for T150 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <Option<i64> as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T150 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 3, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 3)]
pub struct T151 {  pub f0: i128, }
impl Gen for T151 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i128 as Gen>::gen(r); (T151 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i64)]
#[ssbhwrite(repr(i64))]
pub enum T152 { V0 = 4, V1 = -85 }
impl Gen for T152 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T152::V0, (4i128 as i64)), _ => (T152::V1, (-85i128 as i64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i64>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub struct T153 {  pub f0: u32,  pub f1: u128,  pub f2: i64, }
impl Gen for T153 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T153 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T154<T: SsbhWrite> {  pub g0: T,  pub g1: Vec<T>, }
impl<T: Gen> Gen for T154<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Vec<T> as Gen>::gen(r); (T154 { g0, g1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub enum T155 {  V0( Vec<i8>,  Option<i128>), #[ssbhwrite(pad_after = 1)] V1( T1,  i32),  V2( f32,  u128,  u16, #[ssbhwrite(pad_after = 8)] Option<f64>), #[ssbhwrite(pad_after = 2)] V3( Option<[f32; 3]>) }
impl Gen for T155 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <Vec<i8> as Gen>::gen(r); let (f1, n_f1) = <Option<i128> as Gen>::gen(r); (T155::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T1 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); (T155::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <Option<f64> as Gen>::gen(r); (T155::V2(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Option<[f32; 3]> as Gen>::gen(r); (T155::V3(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub enum T156 {  V0 {  f0: u16, }, #[ssbhwrite(pad_after = 8)] V1( [f32; 2]),  V2 {  f0: T7<i16>,  f1: u128, },  V3( i8, #[ssbhwrite(pad_after = 6)] T64<i8>,  i64,  u128) }
impl Gen for T156 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <u16 as Gen>::gen(r); (T156::V0 { f0 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <[f32; 2] as Gen>::gen(r); (T156::V1(f0), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <T7<i16> as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); (T156::V2 { f0, f1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <T64<i8> as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <u128 as Gen>::gen(r); (T156::V3(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 6, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
pub struct T157( pub u128,  pub Option<f32>, #[ssbhwrite(pad_after = 16)] pub f64, #[ssbhwrite(pad_after = 8)] pub i64,  pub u128,  pub i128);
impl Gen for T157 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <Option<f32> as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <i64 as Gen>::gen(r); let (f4, n_f4) = <u128 as Gen>::gen(r); let (f5, n_f5) = <i128 as Gen>::gen(r); (T157(f0, f1, f2, f3, f4, f5), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 16, 0), (n_f3, 8, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 4)]
pub enum T158 {  V0( RelPtr64<Vec<i128>>,  T114,  i64,  f32),  V1 {  f0: SsbhArray<Vec<u32>>, #[ssbhwrite(pad_after = 3)] f1: SsbhArray<u8>, } }
impl Gen for T158 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <RelPtr64<Vec<i128>> as Gen>::gen(r); let (f1, n_f1) = <T114 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T158::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } _ => { let (f0, n_f0) = <SsbhArray<Vec<u32>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<u8> as Gen>::gen(r); (T158::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 3, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } } } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]

pub enum T159 {  V0 { #[ssbhwrite(pad_after = 3)] f0: u8, },  V1( f64, #[ssbhwrite(pad_after = 4)] u32,  i16),  V2( i32,  i8, #[ssbhwrite(pad_after = 6)] u64,  u16),  V3( T119) }
impl Gen for T159 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T159::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); (T159::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T159::V2(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 6, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T119 as Gen>::gen(r); (T159::V3(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub struct T160 {  pub f0: Vec<i64>,  pub f1: u32,  pub f2: f64,  pub f3: u64, }
impl Gen for T160 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<i64> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T160 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub struct T161( pub [u32; 1],  pub SsbhArray<Option<Vec<i64>>>,  pub RelPtr64<f32>,  pub Option<Option<i128>>,  pub Vec<i16>);
impl Gen for T161 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[u32; 1] as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<Option<Vec<i64>>> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<f32> as Gen>::gen(r); let (f3, n_f3) = <Option<Option<i128>> as Gen>::gen(r); let (f4, n_f4) = <Vec<i16> as Gen>::gen(r); (T161(f0, f1, f2, f3, f4), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]

pub enum T162 { #[ssbhwrite(pad_after = 4)] V0( RelPtr64<i64>,  u8,  i8, #[ssbhwrite(pad_after = 6)] u64),  V1( i128,  SsbhByteBuffer,  i8),  V2( f64,  i64,  i32) }
impl Gen for T162 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <RelPtr64<i64> as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T162::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 6, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <SsbhByteBuffer as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); (T162::V1(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); (T162::V2(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T163 {  V0( i8),  V1 {  f0: T14,  f1: i128, },  V2 {  f0: T113,  f1: u32, #[ssbhwrite(pad_after = 16)] f2: u8, } }
impl Gen for T163 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <i8 as Gen>::gen(r); (T163::V0(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T14 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); (T163::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T113 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); (T163::V2 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12, alignment = 1)]
pub struct T164 {  pub f0: T106<RelPtr64<Vec<f64>>>, #[ssbhwrite(pad_after = 16)] pub f1: SsbhArray<i32>,  pub f2: SsbhByteBuffer, }
impl Gen for T164 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T106<RelPtr64<Vec<f64>>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<i32> as Gen>::gen(r); let (f2, n_f2) = <SsbhByteBuffer as Gen>::gen(r); (T164 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 16, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16, magic = b"HBSSHBSS")]
pub enum T165 { #[ssbhwrite(pad_after = 2)] V0( u8,  NonZeroI8,  u32),  V1( Ptr32<i16>,  i32,  i8,  u128), #[ssbhwrite(pad_after = 2)] V2 {  f0: SsbhString,  f1: [i16; 3],  f2: u128, }, #[ssbhwrite(pad_after = 4)] V3(#[ssbhwrite(pad_after = 16)] T138,  i8) }
impl Gen for T165 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <u8 as Gen>::gen(r); let (f1, n_f1) = <NonZeroI8 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); (T165::V0(f0, f1, f2), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 16, align: 0 }) } 1 => { let (f0, n_f0) = <Ptr32<i16> as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <u128 as Gen>::gen(r); (T165::V1(f0, f1, f2, f3), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } 2 => { let (f0, n_f0) = <SsbhString as Gen>::gen(r); let (f1, n_f1) = <[i16; 3] as Gen>::gen(r); let (f2, n_f2) = <u128 as Gen>::gen(r); (T165::V2 { f0, f1, f2 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 2, valign: 0, pad: 16, align: 0 }) } _ => { let (f0, n_f0) = <T138 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); (T165::V3(f0, f1), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 16, 0), (n_f1, 0, 0)], vpad: 4, valign: 0, pad: 16, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T166 {  V0( [RelPtr64<u128>; 2],  T152,  Vec<Ptr64<u32>>),  V1( T136,  RelPtr64<i128>),  V2( SsbhString,  i128, #[ssbhwrite(pad_after = 2)] Option<T144>) }
impl Gen for T166 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <[RelPtr64<u128>; 2] as Gen>::gen(r); let (f1, n_f1) = <T152 as Gen>::gen(r); let (f2, n_f2) = <Vec<Ptr64<u32>> as Gen>::gen(r); (T166::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T136 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<i128> as Gen>::gen(r); (T166::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <SsbhString as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <Option<T144> as Gen>::gen(r); (T166::V2(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T167 {  pub f0: f32,  pub f1: u8,  pub f2: NonZeroU16, #[ssbhwrite(pad_after = 1)] pub f3: RelPtr64<SsbhByteBuffer>, }
impl Gen for T167 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <NonZeroU16 as Gen>::gen(r); let (f3, n_f3) = <RelPtr64<SsbhByteBuffer> as Gen>::gen(r); (T167 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32, magic = b"HBSSHBSS")]
pub struct T168 {  pub f0: Ptr64<NonZeroI64>,  pub f1: u64,  pub f2: u32,  pub f3: T159, }
impl Gen for T168 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr64<NonZeroI64> as Gen>::gen(r); let (f1, n_f1) = <u64 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <T159 as Gen>::gen(r); (T168 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"HBSSHBSS")]
pub enum T169 {  V0 {  f0: (),  f1: i8, #[ssbhwrite(pad_after = 8)] f2: f64, },  V1 {  f0: T11,  f1: u16,  f2: i64,  f3: u8, } }
impl Gen for T169 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); (T169::V0 { f0, f1, f2 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T11 as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <u8 as Gen>::gen(r); (T169::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 1)]
pub struct T170<T: SsbhWrite> {  pub f0: i16, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: SsbhArray<T>, }
impl<T: Gen> Gen for T170<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i16 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <SsbhArray<T> as Gen>::gen(r); (T170 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u64)]
#[ssbhwrite(repr(u64))]
#[ssbhwrite(alignment = 1)]
pub enum T171 { V0 = 65244, V1 = 86, V2 = 45 }
impl Gen for T171 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(3) { 0 => (T171::V0, (65244i128 as u64)), 1 => (T171::V1, (86i128 as u64)), _ => (T171::V2, (45i128 as u64)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, magic = b"HBSSHBSS")]
pub enum T172 {  V0 {  f0: RelPtr64<RelPtr64<RelPtr64<i128>>>, #[ssbhwrite(pad_after = 3)] f1: u16,  f2: [Ptr64<[i16; 1]>; 2], },  V1( u8,  i64, #[ssbhwrite(pad_after = 2)] Vec<u64>),  V2(#[ssbhwrite(pad_after = 1)] T164,  i32),  V3 {  f0: NonZeroI16,  f1: Ptr32<T106<u64>>, } }
impl Gen for T172 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <RelPtr64<RelPtr64<RelPtr64<i128>>> as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); let (f2, n_f2) = <[Ptr64<[i16; 1]>; 2] as Gen>::gen(r); (T172::V0 { f0, f1, f2 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 3, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } 1 => { let (f0, n_f0) = <u8 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <Vec<u64> as Gen>::gen(r); (T172::V1(f0, f1, f2), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } 2 => { let (f0, n_f0) = <T164 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); (T172::V2(f0, f1), Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 1, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } _ => { let (f0, n_f0) = <NonZeroI16 as Gen>::gen(r); let (f1, n_f1) = <Ptr32<T106<u64>> as Gen>::gen(r); (T172::V3 { f0, f1 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12)]
pub struct T173( pub RelPtr64<NonZeroU16>,  pub Vec<T151>,  pub T144,  pub SsbhString8,  pub SsbhArray<Vec<T120>>,  pub Ptr64<u32>);
impl Gen for T173 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<NonZeroU16> as Gen>::gen(r); let (f1, n_f1) = <Vec<T151> as Gen>::gen(r); let (f2, n_f2) = <T144 as Gen>::gen(r); let (f3, n_f3) = <SsbhString8 as Gen>::gen(r); let (f4, n_f4) = <SsbhArray<Vec<T120>> as Gen>::gen(r); let (f5, n_f5) = <Ptr64<u32> as Gen>::gen(r); (T173(f0, f1, f2, f3, f4, f5), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T174( pub f64);
impl Gen for T174 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); (T174(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i32)]
#[ssbhwrite(repr(i32))]
pub enum T175 { V0 = -1, V1 = -52 }
impl Gen for T175 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(2) { 0 => (T175::V0, (-1i128 as i32)), _ => (T175::V1, (-52i128 as i32)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i32>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T176<T: SsbhWrite> {  pub g0: T,  pub g1: Vec<T>, }
impl<T: Gen> Gen for T176<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Vec<T> as Gen>::gen(r); (T176 { g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub enum T177 {  V0(#[ssbhwrite(pad_after = 4)] T172,  u32,  Vec<RelPtr64<i128>>,  T148),  V1( u64, #[ssbhwrite(pad_after = 2)] T97<SsbhString>),  V2( RelPtr64<NonZeroU16>,  i16, #[ssbhwrite(pad_after = 4)] i16,  NonZeroU32) }
impl Gen for T177 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <T172 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <Vec<RelPtr64<i128>> as Gen>::gen(r); let (f3, n_f3) = <T148 as Gen>::gen(r); (T177::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } 1 => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <T97<SsbhString> as Gen>::gen(r); (T177::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } _ => { let (f0, n_f0) = <RelPtr64<NonZeroU16> as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <NonZeroU32 as Gen>::gen(r); (T177::V2(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 4, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 16)]
pub struct T178( pub f64);
impl Gen for T178 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <f64 as Gen>::gen(r); (T178(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub enum T179 { #[ssbhwrite(pad_after = 4)] V0( i8,  SsbhArray<RelPtr64<f64>>,  u8,  T120),  V1( T69<u128>),  V2 {  f0: Option<u32>, } }
impl Gen for T179 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<RelPtr64<f64>> as Gen>::gen(r); let (f2, n_f2) = <u8 as Gen>::gen(r); let (f3, n_f3) = <T120 as Gen>::gen(r); (T179::V0(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T69<u128> as Gen>::gen(r); (T179::V1(f0), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Option<u32> as Gen>::gen(r); (T179::V2 { f0 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1, alignment = 1, magic = b"X")]
pub enum T180 {  V0(#[ssbhwrite(pad_after = 6)] SsbhString8,  Vec<u32>,  u16,  u32),  V1 {  f0: RelPtr64<f32>,  f1: i64,  f2: i64,  f3: f32, },  V2( RelPtr64<f32>,  u16) }
impl Gen for T180 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <Vec<u32> as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T180::V0(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 6, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } 1 => { let (f0, n_f0) = <RelPtr64<f32> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T180::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } _ => { let (f0, n_f0) = <RelPtr64<f32> as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); (T180::V2(f0, f1), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } } } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8, magic = b"X")]
pub struct T181( pub i64);
impl Gen for T181 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i64 as Gen>::gen(r); (T181(f0), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5, alignment = 2)]
pub struct T182 {  pub f0: (),  pub f1: SsbhArray<f64>, #[ssbhwrite(pad_after = 6)] pub f2: u64, }
impl Gen for T182 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<f64> as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); (T182 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 6, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub struct T183 { #[ssbhwrite(pad_after = 1)] pub f0: SsbhArray<[i128; 1]>,  pub f1: RelPtr64<SsbhArray<i128>>,  pub f2: SsbhArray<u128>,  pub f3: i64,  pub f4: i64, }
impl Gen for T183 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<[i128; 1]> as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<SsbhArray<i128>> as Gen>::gen(r); let (f2, n_f2) = <SsbhArray<u128> as Gen>::gen(r); let (f3, n_f3) = <i64 as Gen>::gen(r); let (f4, n_f4) = <i64 as Gen>::gen(r); (T183 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T184 {  pub f0: [RelPtr64<u16>; 3],  pub f1: Option<[f64; 1]>,  pub f2: RelPtr64<f64>,  pub f3: Option<Vec<i64>>,  pub f4: SsbhArray<i32>, }
impl Gen for T184 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[RelPtr64<u16>; 3] as Gen>::gen(r); let (f1, n_f1) = <Option<[f64; 1]> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<f64> as Gen>::gen(r); let (f3, n_f3) = <Option<Vec<i64>> as Gen>::gen(r); let (f4, n_f4) = <SsbhArray<i32> as Gen>::gen(r); (T184 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]

pub struct T185( pub T120,  pub u16);
impl Gen for T185 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T120 as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); (T185(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub struct T186<T: SsbhWrite> {  pub f0: i64,  pub f1: T185, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: SsbhArray<T>, }
impl<T: Gen> Gen for T186<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <T185 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <SsbhArray<T> as Gen>::gen(r); (T186 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 8, magic = b"\x00\x01\x02")]
pub enum T187 { #[ssbhwrite(pad_after = 4)] V0 {  f0: RelPtr64<i8>,  f1: f64,  f2: u32,  f3: f32, },  V1( Vec<f64>, #[ssbhwrite(pad_after = 16)] f64) }
impl Gen for T187 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <RelPtr64<i8> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T187::V0 { f0, f1, f2, f3 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 4, valign: 0, pad: 8, align: 0 }) } _ => { let (f0, n_f0) = <Vec<f64> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T187::V1(f0, f1), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 16, 0)], vpad: 0, valign: 0, pad: 8, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5, alignment = 8, magic = b"\x00\x01\x02")]
pub struct T188 {  pub f0: i16,  pub f1: u128, #[ssbhwrite(pad_after = 6)] pub f2: i32, }
impl Gen for T188 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); (T188 { f0, f1, f2 }, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 6, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 8)]
pub enum T189 {  V0( RelPtr64<i16>,  u32,  u32) }
impl Gen for T189 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <RelPtr64<i16> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); (T189::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 8, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T190<T: SsbhWrite> {  pub f0: Ptr64<T81>, #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: SsbhArray<T>, }
impl<T: Gen> Gen for T190<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Ptr64<T81> as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <SsbhArray<T> as Gen>::gen(r); (T190 { f0, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T191( pub i16,  pub RelPtr64<u32>,  pub i8);
impl Gen for T191 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<u32> as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); (T191(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub enum T192 {  V0 {  f0: Option<u32>,  f1: i128, }, #[ssbhwrite(pad_after = 1)] V1( i16,  i8, #[ssbhwrite(pad_after = 2)] i8),  V2 { #[ssbhwrite(pad_after = 16)] f0: u128, },  V3( T116,  T98) }
impl Gen for T192 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <Option<u32> as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); (T192::V0 { f0, f1 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); (T192::V1(f0, f1, f2), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <u128 as Gen>::gen(r); (T192::V2 { f0 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 16, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <T116 as Gen>::gen(r); let (f1, n_f1) = <T98 as Gen>::gen(r); (T192::V3(f0, f1), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32)]
pub struct T193<T: SsbhWrite> {  pub f0: SsbhByteBuffer,  pub f1: [f32; 1], #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: Option<T>, }
impl<T: Gen> Gen for T193<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <[f32; 1] as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <Option<T> as Gen>::gen(r); (T193 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(u32)]
#[ssbhwrite(repr(u32))]
#[ssbhwrite(alignment = 2, magic = b"\x00\x01\x02")]
pub enum T194 { V0 = 65244, V1 = 109, V2 = 59 }
impl Gen for T194 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(3) { 0 => (T194::V0, (65244i128 as u32)), 1 => (T194::V1, (109i128 as u32)), _ => (T194::V2, (59i128 as u32)) }; (v, Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub enum T195 {  V0 {  f0: RelPtr64<u8>,  f1: SsbhByteBuffer, #[ssbhwrite(pad_after = 1)] f2: T180, },  V1( Vec<NonZeroU16>, #[ssbhwrite(pad_after = 2)] SsbhByteBuffer,  (),  u32),  V2 { #[ssbhwrite(pad_after = 16)] f0: i8,  f1: SsbhString8, },  V3( Option<T168>,  T141) }
impl Gen for T195 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <RelPtr64<u8> as Gen>::gen(r); let (f1, n_f1) = <SsbhByteBuffer as Gen>::gen(r); let (f2, n_f2) = <T180 as Gen>::gen(r); (T195::V0 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <Vec<NonZeroU16> as Gen>::gen(r); let (f1, n_f1) = <SsbhByteBuffer as Gen>::gen(r); let (f2, n_f2) = <() as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T195::V1(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <SsbhString8 as Gen>::gen(r); (T195::V2 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 16, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Option<T168> as Gen>::gen(r); let (f1, n_f1) = <T141 as Gen>::gen(r); (T195::V3(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T196<T: SsbhWrite> {  pub f0: i128,  pub f1: i32,  pub g0: T,  pub g1: T, }
impl<T: Gen> Gen for T196<T> { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <T as Gen>::gen(r); (T196 { f0, f1, g0, g1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T197 {  pub f0: Option<i16>, }
impl Gen for T197 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<i16> as Gen>::gen(r); (T197 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 32)]
pub struct T198( pub RelPtr64<T176<u8>>);
impl Gen for T198 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<T176<u8>> as Gen>::gen(r); (T198(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]

pub struct T199( pub i32);
impl Gen for T199 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); (T199(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
pub enum T200 { #[ssbhwrite(pad_after = 1)] V0(#[ssbhwrite(pad_after = 8)] u128, #[ssbhwrite(pad_after = 8)] T116,  NonZeroUsize,  Vec<i8>), #[ssbhwrite(pad_after = 4)] V1( NonZeroU16,  u8), #[ssbhwrite(pad_after = 8)] V2 {  f0: u8, } }
impl Gen for T200 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <T116 as Gen>::gen(r); let (f2, n_f2) = <NonZeroUsize as Gen>::gen(r); let (f3, n_f3) = <Vec<i8> as Gen>::gen(r); (T200::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 8, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 1, valign: 0, pad: 1, align: 0 }) } 1 => { let (f0, n_f0) = <NonZeroU16 as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); (T200::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 4, valign: 0, pad: 1, align: 0 }) } _ => { let (f0, n_f0) = <u8 as Gen>::gen(r); (T200::V2 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 1, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 8)]
pub struct T201(#[ssbhwrite(pad_after = 1)] pub i8,  pub T153);
impl Gen for T201 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <T153 as Gen>::gen(r); (T201(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]

pub enum T202 { #[ssbhwrite(pad_after = 4)] V0( i32, #[ssbhwrite(pad_after = 16)] T70),  V1( T169,  f64), #[ssbhwrite(pad_after = 1)] V2( i16, #[ssbhwrite(pad_after = 1)] T85, #[ssbhwrite(pad_after = 8)] f64,  i64),  V3 {  f0: i16,  f1: u64, } }
impl Gen for T202 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <T70 as Gen>::gen(r); (T202::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 16, 0)], vpad: 4, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T169 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); (T202::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <T85 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); let (f3, n_f3) = <i64 as Gen>::gen(r); (T202::V2(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 1, 0), (n_f2, 8, 0), (n_f3, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i16 as Gen>::gen(r); let (f1, n_f1) = <u64 as Gen>::gen(r); (T202::V3 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T203 {  pub f0: NonZeroU128, #[ssbhwrite(pad_after = 4)] pub f1: i16,  pub f2: T75, #[ssbhwrite(pad_after = 8)] pub f3: u128, #[ssbhwrite(pad_after = 6)] pub f4: T178,  pub f5: f64, }
impl Gen for T203 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <NonZeroU128 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <T75 as Gen>::gen(r); let (f3, n_f3) = <u128 as Gen>::gen(r); let (f4, n_f4) = <T178 as Gen>::gen(r); let (f5, n_f5) = <f64 as Gen>::gen(r); (T203 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 4, 0), (n_f2, 0, 0), (n_f3, 8, 0), (n_f4, 6, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"X")]
pub struct T204<T: SsbhWrite> {  pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T204<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T204 { g0, g1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_g0, 0, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"HBSSHBSS")]
pub struct T205<T: SsbhWrite> { #[ssbhwrite(pad_after = 4)] pub g0: T,  pub g1: [T; 2], }
impl<T: Gen> Gen for T205<T> { fn gen(r: &mut G) -> (Self, Node) { let (g0, n_g0) = <T as Gen>::gen(r); let (g1, n_g1) = <[T; 2] as Gen>::gen(r); (T205 { g0, g1 }, Node::Rec { magic: b"HBSSHBSS".to_vec(), items: vec![(n_g0, 4, 0), (n_g1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 12, alignment = 2)]
pub struct T206( pub RelPtr64<RelPtr64<f32>>, #[ssbhwrite(pad_after = 2)] pub Ptr32<T160>,  pub NonZeroI8);
impl Gen for T206 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<RelPtr64<f32>> as Gen>::gen(r); let (f1, n_f1) = <Ptr32<T160> as Gen>::gen(r); let (f2, n_f2) = <NonZeroI8 as Gen>::gen(r); (T206(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 2, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 12, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 1)]
pub struct T207 { #[ssbhwrite(pad_after = 3)] pub f0: RelPtr64<Vec<i16>>,  pub f1: SsbhArray<i128>, #[ssbhwrite(pad_after = 4)] pub f2: RelPtr64<i16>, }
impl Gen for T207 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <RelPtr64<Vec<i16>> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<i128> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<i16> as Gen>::gen(r); (T207 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 3, 0), (n_f1, 0, 0), (n_f2, 4, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite, Clone, Copy)]
#[repr(i8)]
#[ssbhwrite(repr(i8))]
pub enum T208 { V0 = 77, V1 = -32, V2 = -67, V3 = 46, V4 = 53 }
impl Gen for T208 { fn gen(r: &mut G) -> (Self, Node) { let (v, n) = match r.pick(5) { 0 => (T208::V0, (77i128 as i8)), 1 => (T208::V1, (-32i128 as i8)), 2 => (T208::V2, (-67i128 as i8)), 3 => (T208::V3, (46i128 as i8)), _ => (T208::V4, (53i128 as i8)) }; (v, Node::Rec { magic: vec![], items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<i8>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
pub struct T209 { #[ssbhwrite(pad_after = 2)] pub f0: u32, }
impl Gen for T209 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); (T209 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T210 {  pub f0: Option<u64>,  pub f1: u8,  pub f2: u64,  pub f3: u16,  pub f4: T98,  pub f5: u8, }
impl Gen for T210 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Option<u64> as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); let (f4, n_f4) = <T98 as Gen>::gen(r); let (f5, n_f5) = <u8 as Gen>::gen(r); (T210 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1, alignment = 8, magic = b"MAGC")]
pub enum T211 {  V0( SsbhString8) }
impl Gen for T211 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); (T211::V0(f0), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } } } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 4)]
pub enum T212 { #[ssbhwrite(pad_after = 1)] V0 {  f0: f64,  f1: Vec<u128>,  f2: Vec<i16>,  f3: SsbhString, },  V1 {  f0: T153, #[ssbhwrite(pad_after = 8)] f1: f64,  f2: f64, },  V2 {  f0: Option<T62<f64>>,  f1: i128,  f2: i128,  f3: f32, }, #[ssbhwrite(pad_after = 8)] V3( Ptr64<f64>, #[ssbhwrite(pad_after = 8)] Vec<i16>) }
impl Gen for T212 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <Vec<u128> as Gen>::gen(r); let (f2, n_f2) = <Vec<i16> as Gen>::gen(r); let (f3, n_f3) = <SsbhString as Gen>::gen(r); (T212::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <T153 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <f64 as Gen>::gen(r); (T212::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 8, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <Option<T62<f64>> as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T212::V2 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <Ptr64<f64> as Gen>::gen(r); let (f1, n_f1) = <Vec<i16> as Gen>::gen(r); (T212::V3(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 8, 0)], vpad: 8, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
pub struct T213( pub [u128; 3]);
impl Gen for T213 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[u128; 3] as Gen>::gen(r); (T213(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, alignment = 16)]
pub struct T214 {  pub f0: T192,  pub f1: SsbhArray<T165>, }
impl Gen for T214 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T192 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<T165> as Gen>::gen(r); (T214 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]

pub struct T215 { #[ssbhwrite(pad_after = 1)] pub f0: i32, #[ssbhwrite(pad_after = 8)] pub f1: u64,  pub f2: i128,  pub f3: f32, #[ssbhwrite(pad_after = 4)] pub f4: i64, }
impl Gen for T215 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <u64 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); let (f4, n_f4) = <i64 as Gen>::gen(r); (T215 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 4, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
pub enum T216 { #[ssbhwrite(pad_after = 8)] V0 {  f0: SsbhByteBuffer, },  V1 { #[ssbhwrite(pad_after = 2)] f0: SsbhArray<Option<SsbhString8>>, #[ssbhwrite(pad_after = 4)] f1: f64,  f2: i128, } }
impl Gen for T216 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); (T216::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 5, align: 0 }) } _ => { let (f0, n_f0) = <SsbhArray<Option<SsbhString8>> as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); (T216::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 4, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 5, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T217 {  pub f0: u64,  pub f1: f64,  pub f2: u16,  pub f3: u64, }
impl Gen for T217 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T217 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, alignment = 3, magic = b"MAGC")]
pub enum T218 { #[ssbhwrite(pad_after = 2)] V0 {  f0: f32,  f1: f32, } }
impl Gen for T218 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); (T218::V0 { f0, f1 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 2, valign: 0, pad: 2, align: 0 }) } } } fn align() -> u64 { 3 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
pub struct T219 {  pub f0: [Vec<T110>; 2],  pub f1: SsbhArray<T192>, }
impl Gen for T219 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[Vec<T110>; 2] as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<T192> as Gen>::gen(r); (T219 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 1, align_after = 16)]
pub struct T300 { #[ssbhwrite(align_after = 8)] pub f0: i64,  pub f1: Option<f64>,  pub f2: Vec<u16>,  pub f3: u64, }
impl Gen for T300 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <Option<f64> as Gen>::gen(r); let (f2, n_f2) = <Vec<u16> as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T300 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 8), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 1, align: 16 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T301 {  pub f0: [SsbhString; 2],  pub f1: Ptr64<SsbhString8>,  pub f2: i64, }
impl Gen for T301 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <[SsbhString; 2] as Gen>::gen(r); let (f1, n_f1) = <Ptr64<SsbhString8> as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T301 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 16)]
pub enum T302 { #[ssbhwrite(align_after = 4)] V0 {  f0: i16, }, #[ssbhwrite(pad_after = 2)] V1( Option<i16>,  Vec<i16>,  [f64; 1],  i16), #[ssbhwrite(pad_after = 1)] V2 {  f0: u128, #[ssbhwrite(align_after = 32)] f1: T134, } }
impl Gen for T302 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <i16 as Gen>::gen(r); (T302::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 4, pad: 0, align: 16 }) } 1 => { let (f0, n_f0) = <Option<i16> as Gen>::gen(r); let (f1, n_f1) = <Vec<i16> as Gen>::gen(r); let (f2, n_f2) = <[f64; 1] as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); (T302::V1(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 2, valign: 0, pad: 0, align: 16 }) } _ => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <T134 as Gen>::gen(r); (T302::V2 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 32)], vpad: 1, valign: 0, pad: 0, align: 16 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 8)]
pub enum T303 { #[ssbhwrite(pad_after = 8)] V0(#[ssbhwrite(pad_after = 1)] f64,  i16), #[ssbhwrite(pad_after = 1)] V1 {  f0: i8,  f1: i64, },  V2( u64, #[ssbhwrite(align_after = 2)] Vec<u128>,  i32),  V3( Option<f32>,  i64,  i128) }
impl Gen for T303 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); (T303::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 8 }) } 1 => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); (T303::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 1, valign: 0, pad: 0, align: 8 }) } 2 => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <Vec<u128> as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); (T303::V2(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 2), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 8 }) } _ => { let (f0, n_f0) = <Option<f32> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); (T303::V3(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 8 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 64, magic = b"X")]
pub enum T304 { #[ssbhwrite(align_after = 8)] V0 {  f0: T201,  f1: f64,  f2: i128,  f3: f32, }, #[ssbhwrite(pad_after = 1)] V1 {  f0: f32, #[ssbhwrite(pad_after = 2)] f1: T174, #[ssbhwrite(pad_after = 1)] f2: f32, #[ssbhwrite(align_after = 16)] f3: u16, }, #[ssbhwrite(pad_after = 4)] V2( i64,  i16,  u64, #[ssbhwrite(align_after = 16)] u16), #[ssbhwrite(align_after = 4)] V3 {  f0: T119,  f1: SsbhArray<u8>,  f2: f32, #[ssbhwrite(pad_after = 6, align_after = 32)] f3: i128, } }
impl Gen for T304 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <T201 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T304::V0 { f0, f1, f2, f3 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 8, pad: 0, align: 64 }) } 1 => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <T174 as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T304::V1 { f0, f1, f2, f3 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 2, 0), (n_f2, 1, 0), (n_f3, 0, 16)], vpad: 1, valign: 0, pad: 0, align: 64 }) } 2 => { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); let (f2, n_f2) = <u64 as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T304::V2(f0, f1, f2, f3), Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 16)], vpad: 4, valign: 0, pad: 0, align: 64 }) } _ => { let (f0, n_f0) = <T119 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<u8> as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); (T304::V3 { f0, f1, f2, f3 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 6, 32)], vpad: 0, valign: 4, pad: 0, align: 64 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4, alignment = 16)]
pub enum T305 {  V0 {  f0: i16, } }
impl Gen for T305 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <i16 as Gen>::gen(r); (T305::V0 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 4 }) } } } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]

pub enum T306 {  V0(#[ssbhwrite(align_after = 4)] i8),  V1 { #[ssbhwrite(pad_after = 2)] f0: i8,  f1: u128,  f2: u128, },  V2(#[ssbhwrite(align_after = 16)] u128), #[ssbhwrite(pad_after = 4, align_after = 4)] V3 { #[ssbhwrite(align_after = 8)] f0: u32, #[ssbhwrite(align_after = 4)] f1: Vec<i16>, #[ssbhwrite(align_after = 4)] f2: u32,  f3: u32, } }
impl Gen for T306 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <i8 as Gen>::gen(r); (T306::V0(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 4)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 1 => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <u128 as Gen>::gen(r); (T306::V1 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } 2 => { let (f0, n_f0) = <u128 as Gen>::gen(r); (T306::V2(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 16)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <Vec<i16> as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <u32 as Gen>::gen(r); (T306::V3 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 8), (n_f1, 0, 4), (n_f2, 0, 4), (n_f3, 0, 0)], vpad: 4, valign: 4, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2, align_after = 64, alignment = 32, magic = b"\x00\x01\x02")]
pub struct T307(#[ssbhwrite(align_after = 2)] pub Vec<u16>);
impl Gen for T307 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<u16> as Gen>::gen(r); (T307(f0), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 2)], vpad: 0, valign: 0, pad: 2, align: 64 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 8)]
pub enum T308 {  V0( T0<f32>),  V1 { #[ssbhwrite(align_after = 8)] f0: i64, }, #[ssbhwrite(pad_after = 8)] V2( T174) }
impl Gen for T308 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <T0<f32> as Gen>::gen(r); (T308::V0(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 8 }) } 1 => { let (f0, n_f0) = <i64 as Gen>::gen(r); (T308::V1 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 8)], vpad: 0, valign: 0, pad: 0, align: 8 }) } _ => { let (f0, n_f0) = <T174 as Gen>::gen(r); (T308::V2(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 8, valign: 0, pad: 0, align: 8 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T309 {  pub f0: u64,  pub f1: u8, #[ssbhwrite(pad_after = 1)] pub f2: f32, }
impl Gen for T309 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <u8 as Gen>::gen(r); let (f2, n_f2) = <f32 as Gen>::gen(r); (T309 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub enum T310 { #[ssbhwrite(align_after = 4)] V0 {  f0: Option<u8>,  f1: u16,  f2: T152,  f3: i128, },  V1( u64,  Vec<i32>) }
impl Gen for T310 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <Option<u8> as Gen>::gen(r); let (f1, n_f1) = <u16 as Gen>::gen(r); let (f2, n_f2) = <T152 as Gen>::gen(r); let (f3, n_f3) = <i128 as Gen>::gen(r); (T310::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 4, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <Vec<i32> as Gen>::gen(r); (T310::V1(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4)]
pub struct T311(#[ssbhwrite(pad_after = 16)] pub SsbhByteBuffer,  pub NonZeroU64,  pub T181,  pub T219,  pub u128, #[ssbhwrite(align_after = 2)] pub RelPtr64<SsbhArray<SsbhString>>);
impl Gen for T311 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <NonZeroU64 as Gen>::gen(r); let (f2, n_f2) = <T181 as Gen>::gen(r); let (f3, n_f3) = <T219 as Gen>::gen(r); let (f4, n_f4) = <u128 as Gen>::gen(r); let (f5, n_f5) = <RelPtr64<SsbhArray<SsbhString>> as Gen>::gen(r); (T311(f0, f1, f2, f3, f4, f5), Node::Rec { magic: vec![], items: vec![(n_f0, 16, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 2)], vpad: 0, valign: 0, pad: 0, align: 4 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 16, align_after = 64)]
pub struct T312 {  pub f0: u32, }
impl Gen for T312 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); (T312 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 16, align: 64 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T313 { #[ssbhwrite(pad_after = 2)] pub f0: T168,  pub f1: i16, }
impl Gen for T313 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T168 as Gen>::gen(r); let (f1, n_f1) = <i16 as Gen>::gen(r); (T313 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4)]
pub enum T314 {  V0(#[ssbhwrite(pad_after = 6)] f64, #[ssbhwrite(pad_after = 8, align_after = 16)] [T111; 2]),  V1 { #[ssbhwrite(pad_after = 1)] f0: i64,  f1: u32,  f2: (),  f3: u16, }, #[ssbhwrite(pad_after = 2)] V2( Vec<T114>, #[ssbhwrite(align_after = 2)] i64, #[ssbhwrite(align_after = 16)] ()), #[ssbhwrite(pad_after = 4)] V3(#[ssbhwrite(pad_after = 8)] u16,  f32,  i16) }
impl Gen for T314 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <f64 as Gen>::gen(r); let (f1, n_f1) = <[T111; 2] as Gen>::gen(r); (T314::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 6, 0), (n_f1, 8, 16)], vpad: 0, valign: 0, pad: 0, align: 4 }) } 1 => { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <() as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); (T314::V1 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 4 }) } 2 => { let (f0, n_f0) = <Vec<T114> as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <() as Gen>::gen(r); (T314::V2(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 2), (n_f2, 0, 16)], vpad: 2, valign: 0, pad: 0, align: 4 }) } _ => { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <f32 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); (T314::V3(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 8, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 4, valign: 0, pad: 0, align: 4 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4, magic = b"X")]
pub struct T315 {  pub f0: SsbhByteBuffer,  pub f1: SsbhArray<u32>, }
impl Gen for T315 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<u32> as Gen>::gen(r); (T315 { f0, f1 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 64, alignment = 32, magic = b"X")]
pub struct T316 {  pub f0: T79, #[ssbhwrite(pad_after = 2, align_after = 4)] pub f1: i32,  pub f2: u16, #[ssbhwrite(align_after = 4)] pub f3: i32,  pub f4: u64, }
impl Gen for T316 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T79 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <u16 as Gen>::gen(r); let (f3, n_f3) = <i32 as Gen>::gen(r); let (f4, n_f4) = <u64 as Gen>::gen(r); (T316 { f0, f1, f2, f3, f4 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 2, 4), (n_f2, 0, 0), (n_f3, 0, 4), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 64 }) } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 8, alignment = 32)]
pub enum T317 { #[ssbhwrite(pad_after = 4)] V0 {  f0: f32,  f1: T70, },  V1 { #[ssbhwrite(align_after = 16)] f0: T192, #[ssbhwrite(align_after = 8)] f1: Vec<u128>, }, #[ssbhwrite(align_after = 4)] V2 {  f0: u128,  f1: f64, #[ssbhwrite(pad_after = 3)] f2: i8, #[ssbhwrite(align_after = 4)] f3: i8, } }
impl Gen for T317 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(3) { 0 => { let (f0, n_f0) = <f32 as Gen>::gen(r); let (f1, n_f1) = <T70 as Gen>::gen(r); (T317::V0 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0)], vpad: 4, valign: 0, pad: 0, align: 8 }) } 1 => { let (f0, n_f0) = <T192 as Gen>::gen(r); let (f1, n_f1) = <Vec<u128> as Gen>::gen(r); (T317::V1 { f0, f1 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 16), (n_f1, 0, 8)], vpad: 0, valign: 0, pad: 0, align: 8 }) } _ => { let (f0, n_f0) = <u128 as Gen>::gen(r); let (f1, n_f1) = <f64 as Gen>::gen(r); let (f2, n_f2) = <i8 as Gen>::gen(r); let (f3, n_f3) = <i8 as Gen>::gen(r); (T317::V2 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 3, 0), (n_f3, 0, 4)], vpad: 0, valign: 4, pad: 0, align: 8 }) } } } fn align() -> u64 { 32 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub enum T318 { #[ssbhwrite(align_after = 4)] V0( Vec<f32>, #[ssbhwrite(align_after = 32)] u32, #[ssbhwrite(pad_after = 3)] Vec<f64>) }
impl Gen for T318 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <Vec<f32> as Gen>::gen(r); let (f1, n_f1) = <u32 as Gen>::gen(r); let (f2, n_f2) = <Vec<f64> as Gen>::gen(r); (T318::V0(f0, f1, f2), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 32), (n_f2, 3, 0)], vpad: 0, valign: 4, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 16, alignment = 16)]
pub struct T319( pub u32,  pub i128,  pub i128);
impl Gen for T319 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <i128 as Gen>::gen(r); (T319(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 16 }) } fn align() -> u64 { 16 } }
#[derive(Debug, SsbhWrite)]

pub enum T320 {  V0( u32, #[ssbhwrite(pad_after = 8, align_after = 4)] i8,  T215),  V1 {  f0: i8,  f1: Vec<u64>,  f2: u32, #[ssbhwrite(pad_after = 1)] f3: Option<u8>, } }
impl Gen for T320 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(2) { 0 => { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <T215 as Gen>::gen(r); (T320::V0(f0, f1, f2), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 8, 4), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } _ => { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <Vec<u64> as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <Option<u8> as Gen>::gen(r); (T320::V1 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 1, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4, alignment = 4, magic = b"MAGC")]
pub enum T321 {  V0 {  f0: SsbhString8,  f1: T162,  f2: i16, }, #[ssbhwrite(align_after = 4)] V1(#[ssbhwrite(align_after = 4)] RelPtr64<i8>), #[ssbhwrite(pad_after = 4, align_after = 4)] V2 { #[ssbhwrite(pad_after = 2)] f0: SsbhString8, #[ssbhwrite(pad_after = 8)] f1: SsbhArray<Option<u32>>,  f2: RelPtr64<i8>, #[ssbhwrite(pad_after = 2, align_after = 32)] f3: f32, }, #[ssbhwrite(pad_after = 2)] V3 { #[ssbhwrite(align_after = 32)] f0: T187, } }
impl Gen for T321 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <T162 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); (T321::V0 { f0, f1, f2 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 4 }) } 1 => { let (f0, n_f0) = <RelPtr64<i8> as Gen>::gen(r); (T321::V1(f0), Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 4)], vpad: 0, valign: 4, pad: 0, align: 4 }) } 2 => { let (f0, n_f0) = <SsbhString8 as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<Option<u32>> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<i8> as Gen>::gen(r); let (f3, n_f3) = <f32 as Gen>::gen(r); (T321::V2 { f0, f1, f2, f3 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 2, 0), (n_f1, 8, 0), (n_f2, 0, 0), (n_f3, 2, 32)], vpad: 4, valign: 4, pad: 0, align: 4 }) } _ => { let (f0, n_f0) = <T187 as Gen>::gen(r); (T321::V3 { f0 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 32)], vpad: 2, valign: 0, pad: 0, align: 4 }) } } } fn align() -> u64 { 4 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
pub struct T322(#[ssbhwrite(pad_after = 4)] pub Vec<u64>);
impl Gen for T322 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<u64> as Gen>::gen(r); (T322(f0), Node::Rec { magic: vec![], items: vec![(n_f0, 4, 0)], vpad: 0, valign: 0, pad: 2, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(alignment = 2, magic = b"X")]
pub struct T323 { #[ssbhwrite(pad_after = 2)] pub f0: SsbhArray<f32>,  pub f1: SsbhArray<SsbhArray<RelPtr64<f32>>>,  pub f2: u32,  pub f3: SsbhArray<T194>, #[ssbhwrite(pad_after = 6)] pub f4: Vec<u128>, }
impl Gen for T323 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhArray<f32> as Gen>::gen(r); let (f1, n_f1) = <SsbhArray<SsbhArray<RelPtr64<f32>>> as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <SsbhArray<T194> as Gen>::gen(r); let (f4, n_f4) = <Vec<u128> as Gen>::gen(r); (T323 { f0, f1, f2, f3, f4 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 2, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 6, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { 2 } }
#[derive(Debug, SsbhWrite)]

pub struct T324 {  pub f0: u64, #[ssbhwrite(align_after = 2)] pub f1: u128,  pub f2: i64, #[ssbhwrite(align_after = 32)] pub f3: i16, }
impl Gen for T324 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); let (f1, n_f1) = <u128 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); let (f3, n_f3) = <i16 as Gen>::gen(r); (T324 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 2), (n_f2, 0, 0), (n_f3, 0, 32)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 64, magic = b"X")]
pub struct T325 { #[ssbhwrite(align_after = 16)] pub f0: u64, }
impl Gen for T325 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u64 as Gen>::gen(r); (T325 { f0 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 0, 16)], vpad: 0, valign: 0, pad: 0, align: 64 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T326 {  pub f0: i8,  pub f1: SsbhString, #[ssbhwrite(pad_after = 2)] pub f2: RelPtr64<Ptr64<u8>>,  pub f3: Option<i16>, #[ssbhwrite(align_after = 2)] pub f4: [u8; 1], }
impl Gen for T326 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i8 as Gen>::gen(r); let (f1, n_f1) = <SsbhString as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<Ptr64<u8>> as Gen>::gen(r); let (f3, n_f3) = <Option<i16> as Gen>::gen(r); let (f4, n_f4) = <[u8; 1] as Gen>::gen(r); (T326 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 2, 0), (n_f3, 0, 0), (n_f4, 0, 2)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T327 {  pub f0: T201, }
impl Gen for T327 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <T201 as Gen>::gen(r); (T327 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"\x00\x01\x02")]
pub struct T328( pub u32,  pub T152,  pub i64);
impl Gen for T328 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u32 as Gen>::gen(r); let (f1, n_f1) = <T152 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T328(f0, f1, f2), Node::Rec { magic: b"\x00\x01\x02".to_vec(), items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 64, alignment = 1)]
pub struct T329 { #[ssbhwrite(pad_after = 1)] pub f0: u16, #[ssbhwrite(pad_after = 1)] pub f1: i8,  pub f2: i16, #[ssbhwrite(pad_after = 16, align_after = 16)] pub f3: T155,  pub f4: u16, }
impl Gen for T329 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <i8 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <T155 as Gen>::gen(r); let (f4, n_f4) = <u16 as Gen>::gen(r); (T329 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 1, 0), (n_f2, 0, 0), (n_f3, 16, 16), (n_f4, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 64 }) } fn align() -> u64 { 1 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(magic = b"MAGC")]
pub struct T330 { #[ssbhwrite(align_after = 16)] pub f0: i32, #[ssbhwrite(pad_after = 8)] pub f1: i128, #[ssbhwrite(pad_after = 1)] pub f2: i16,  pub f3: i64, #[ssbhwrite(align_after = 16)] pub f4: u8, #[ssbhwrite(pad_after = 16, align_after = 32)] pub f5: u32, }
impl Gen for T330 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i32 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <i16 as Gen>::gen(r); let (f3, n_f3) = <i64 as Gen>::gen(r); let (f4, n_f4) = <u8 as Gen>::gen(r); let (f5, n_f5) = <u32 as Gen>::gen(r); (T330 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: b"MAGC".to_vec(), items: vec![(n_f0, 0, 16), (n_f1, 8, 0), (n_f2, 1, 0), (n_f3, 0, 0), (n_f4, 0, 16), (n_f5, 16, 32)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 8, alignment = 8)]
pub struct T331 {  pub f0: SsbhByteBuffer,  pub f1: RelPtr64<Ptr32<f64>>,  pub f2: RelPtr64<f64>,  pub f3: u16, #[ssbhwrite(pad_after = 8)] pub f4: u16, }
impl Gen for T331 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <SsbhByteBuffer as Gen>::gen(r); let (f1, n_f1) = <RelPtr64<Ptr32<f64>> as Gen>::gen(r); let (f2, n_f2) = <RelPtr64<f64> as Gen>::gen(r); let (f3, n_f3) = <u16 as Gen>::gen(r); let (f4, n_f4) = <u16 as Gen>::gen(r); (T331 { f0, f1, f2, f3, f4 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 8, 0)], vpad: 0, valign: 0, pad: 0, align: 8 }) } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 16)]
pub enum T332 {  V0 { #[ssbhwrite(align_after = 32)] f0: i128,  f1: Option<i32>,  f2: Vec<u8>, #[ssbhwrite(align_after = 16)] f3: T151, },  V1( u16, #[ssbhwrite(pad_after = 6)] Option<T98>,  i32, #[ssbhwrite(align_after = 2)] [f32; 1]), #[ssbhwrite(pad_after = 8)] V2 { #[ssbhwrite(pad_after = 1)] f0: i8, }, #[ssbhwrite(align_after = 8)] V3 {  f0: T105,  f1: i128,  f2: i64, } }
impl Gen for T332 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(4) { 0 => { let (f0, n_f0) = <i128 as Gen>::gen(r); let (f1, n_f1) = <Option<i32> as Gen>::gen(r); let (f2, n_f2) = <Vec<u8> as Gen>::gen(r); let (f3, n_f3) = <T151 as Gen>::gen(r); (T332::V0 { f0, f1, f2, f3 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 32), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 16)], vpad: 0, valign: 0, pad: 0, align: 16 }) } 1 => { let (f0, n_f0) = <u16 as Gen>::gen(r); let (f1, n_f1) = <Option<T98> as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); let (f3, n_f3) = <[f32; 1] as Gen>::gen(r); (T332::V1(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 6, 0), (n_f2, 0, 0), (n_f3, 0, 2)], vpad: 0, valign: 0, pad: 0, align: 16 }) } 2 => { let (f0, n_f0) = <i8 as Gen>::gen(r); (T332::V2 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0)], vpad: 8, valign: 0, pad: 0, align: 16 }) } _ => { let (f0, n_f0) = <T105 as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); let (f2, n_f2) = <i64 as Gen>::gen(r); (T332::V3 { f0, f1, f2 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0), (n_f1, 0, 0), (n_f2, 0, 0)], vpad: 0, valign: 8, pad: 0, align: 16 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 16)]
pub struct T333 {  pub f0: Vec<Ptr64<u64>>, }
impl Gen for T333 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <Vec<Ptr64<u64>> as Gen>::gen(r); (T333 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 16 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 5, align_after = 16, alignment = 8)]
pub enum T334 {  V0(#[ssbhwrite(pad_after = 2)] (), #[ssbhwrite(align_after = 8)] i128) }
impl Gen for T334 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <() as Gen>::gen(r); let (f1, n_f1) = <i128 as Gen>::gen(r); (T334::V0(f0, f1), Node::Rec { magic: vec![], items: vec![(n_f0, 2, 0), (n_f1, 0, 8)], vpad: 0, valign: 0, pad: 5, align: 16 }) } } } fn align() -> u64 { 8 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 64)]
pub enum T335 { #[ssbhwrite(pad_after = 2)] V0(#[ssbhwrite(align_after = 2)] [f64; 1],  T107, #[ssbhwrite(pad_after = 16)] i32, #[ssbhwrite(align_after = 4)] u64) }
impl Gen for T335 { fn gen(r: &mut G) -> (Self, Node) { match r.pick(1) { _ => { let (f0, n_f0) = <[f64; 1] as Gen>::gen(r); let (f1, n_f1) = <T107 as Gen>::gen(r); let (f2, n_f2) = <i32 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); (T335::V0(f0, f1, f2, f3), Node::Rec { magic: vec![], items: vec![(n_f0, 0, 2), (n_f1, 0, 0), (n_f2, 16, 0), (n_f3, 0, 4)], vpad: 2, valign: 0, pad: 0, align: 64 }) } } } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(pad_after = 4)]
pub struct T336 { #[ssbhwrite(pad_after = 1)] pub f0: i64,  pub f1: i32,  pub f2: u32,  pub f3: u64,  pub f4: f32,  pub f5: f64, }
impl Gen for T336 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i64 as Gen>::gen(r); let (f1, n_f1) = <i32 as Gen>::gen(r); let (f2, n_f2) = <u32 as Gen>::gen(r); let (f3, n_f3) = <u64 as Gen>::gen(r); let (f4, n_f4) = <f32 as Gen>::gen(r); let (f5, n_f5) = <f64 as Gen>::gen(r); (T336 { f0, f1, f2, f3, f4, f5 }, Node::Rec { magic: vec![], items: vec![(n_f0, 1, 0), (n_f1, 0, 0), (n_f2, 0, 0), (n_f3, 0, 0), (n_f4, 0, 0), (n_f5, 0, 0)], vpad: 0, valign: 0, pad: 4, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"X")]
pub struct T337 { #[ssbhwrite(pad_after = 16)] pub f0: NonZeroU64,  pub f1: i64, #[ssbhwrite(pad_after = 2)] pub f2: u128,  pub f3: u8, }
impl Gen for T337 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <NonZeroU64 as Gen>::gen(r); let (f1, n_f1) = <i64 as Gen>::gen(r); let (f2, n_f2) = <u128 as Gen>::gen(r); let (f3, n_f3) = <u8 as Gen>::gen(r); (T337 { f0, f1, f2, f3 }, Node::Rec { magic: b"X".to_vec(), items: vec![(n_f0, 16, 0), (n_f1, 0, 0), (n_f2, 2, 0), (n_f3, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 4 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]

pub struct T338 {  pub f0: i8, }
impl Gen for T338 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i8 as Gen>::gen(r); (T338 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 0 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }
#[derive(Debug, SsbhWrite)]
#[ssbhwrite(align_after = 4)]
pub struct T339 {  pub f0: i16, }
impl Gen for T339 { fn gen(r: &mut G) -> (Self, Node) { let (f0, n_f0) = <i16 as Gen>::gen(r); (T339 { f0 }, Node::Rec { magic: vec![], items: vec![(n_f0, 0, 0)], vpad: 0, valign: 0, pad: 0, align: 4 }) } fn align() -> u64 { std::mem::align_of::<Self>() as u64 } }

pub fn shapes() -> Vec<Shape> {
    vec![
        Shape::new::<T0<u32>>("T0<u32>", true),
        Shape::new::<T1>("T1", true),
        Shape::new::<T2>("T2", true),
        Shape::new::<T3>("T3", true),
        Shape::new::<T4>("T4", true),
        Shape::new::<T5>("T5", true),
        Shape::new::<T6>("T6", true),
        Shape::new::<T7<i32>>("T7<i32>", true),
        Shape::new::<T8>("T8", true),
        Shape::new::<T9>("T9", true),
        Shape::new::<T10>("T10", true),
        Shape::new::<T11>("T11", true),
        Shape::new::<T12>("T12", true),
        Shape::new::<T13<u128>>("T13<u128>", true),
        Shape::new::<T14>("T14", true),
        Shape::new::<T15>("T15", true),
        Shape::new::<T16>("T16", true),
        Shape::new::<T17>("T17", true),
        Shape::new::<T18>("T18", true),
        Shape::new::<T19>("T19", true),
        Shape::new::<T20>("T20", true),
        Shape::new::<T21>("T21", true),
        Shape::new::<T22<T14>>("T22<T14>", true),
        Shape::new::<T23>("T23", true),
        Shape::new::<T24>("T24", true),
        Shape::new::<T25>("T25", true),
        Shape::new::<T26>("T26", true),
        Shape::new::<T27>("T27", true),
        Shape::new::<T28>("T28", true),
        Shape::new::<T29>("T29", true),
        Shape::new::<T30>("T30", true),
        Shape::new::<T31<u128>>("T31<u128>", true),
        Shape::new::<T32>("T32", true),
        Shape::new::<T33>("T33", true),
        Shape::new::<T34>("T34", true),
        Shape::new::<T35<T33>>("T35<T33>", true),
        Shape::new::<T36>("T36", true),
        Shape::new::<T37<T32>>("T37<T32>", true),
        Shape::new::<T38>("T38", true),
        Shape::new::<T39>("T39", true),
        Shape::new::<T40>("T40", true),
        Shape::new::<T41>("T41", true),
        Shape::new::<T42>("T42", true),
        Shape::new::<T43>("T43", true),
        Shape::new::<T44>("T44", true),
        Shape::new::<T45>("T45", true),
        Shape::new::<T46>("T46", true),
        Shape::new::<T47>("T47", true),
        Shape::new::<T48>("T48", true),
        Shape::new::<T49>("T49", true),
        Shape::new::<T50>("T50", true),
        Shape::new::<T51>("T51", true),
        Shape::new::<T52>("T52", true),
        Shape::new::<T53>("T53", true),
        Shape::new::<T54>("T54", true),
        Shape::new::<T55>("T55", true),
        Shape::new::<T56>("T56", true),
        Shape::new::<T57>("T57", true),
        Shape::new::<T58>("T58", true),
        Shape::new::<T59>("T59", true),
        Shape::new::<T60>("T60", true),
        Shape::new::<T61>("T61", true),
        Shape::new::<T62<T57>>("T62<T57>", true),
        Shape::new::<T63>("T63", true),
        Shape::new::<T64<T56>>("T64<T56>", true),
        Shape::new::<T65>("T65", true),
        Shape::new::<T66>("T66", true),
        Shape::new::<T67<T55>>("T67<T55>", true),
        Shape::new::<T68>("T68", true),
        Shape::new::<T69<T63>>("T69<T63>", true),
        Shape::new::<T70>("T70", true),
        Shape::new::<T71>("T71", true),
        Shape::new::<T72>("T72", true),
        Shape::new::<T73>("T73", true),
        Shape::new::<T74>("T74", true),
        Shape::new::<T75>("T75", true),
        Shape::new::<T76>("T76", true),
        Shape::new::<T77>("T77", true),
        Shape::new::<T78>("T78", true),
        Shape::new::<T79>("T79", true),
        Shape::new::<T80>("T80", true),
        Shape::new::<T81>("T81", true),
        Shape::new::<T82>("T82", true),
        Shape::new::<T83>("T83", true),
        Shape::new::<T84>("T84", true),
        Shape::new::<T85>("T85", true),
        Shape::new::<T86<T75>>("T86<T75>", true),
        Shape::new::<T87>("T87", true),
        Shape::new::<T88>("T88", true),
        Shape::new::<T89>("T89", true),
        Shape::new::<T90>("T90", true),
        Shape::new::<T91>("T91", true),
        Shape::new::<T92>("T92", true),
        Shape::new::<T93>("T93", true),
        Shape::new::<T94<u8>>("T94<u8>", true),
        Shape::new::<T95>("T95", true),
        Shape::new::<T96>("T96", true),
        Shape::new::<T97<T89>>("T97<T89>", true),
        Shape::new::<T98>("T98", true),
        Shape::new::<T99>("T99", true),
        Shape::new::<T100>("T100", true),
        Shape::new::<T101>("T101", true),
        Shape::new::<T102>("T102", true),
        Shape::new::<T103<i16>>("T103<i16>", true),
        Shape::new::<T104>("T104", true),
        Shape::new::<T105>("T105", true),
        Shape::new::<T106<u64>>("T106<u64>", true),
        Shape::new::<T107>("T107", true),
        Shape::new::<T108>("T108", true),
        Shape::new::<T109>("T109", true),
        Shape::new::<T110>("T110", true),
        Shape::new::<T111>("T111", true),
        Shape::new::<T112>("T112", true),
        Shape::new::<T113>("T113", true),
        Shape::new::<T114>("T114", true),
        Shape::new::<T115>("T115", true),
        Shape::new::<T116>("T116", true),
        Shape::new::<T117>("T117", true),
        Shape::new::<T118<T102>>("T118<T102>", true),
        Shape::new::<T119>("T119", true),
        Shape::new::<T120>("T120", true),
        Shape::new::<T121>("T121", true),
        Shape::new::<T122>("T122", true),
        Shape::new::<T123>("T123", true),
        Shape::new::<T124>("T124", true),
        Shape::new::<T125>("T125", true),
        Shape::new::<T126>("T126", true),
        Shape::new::<T127>("T127", true),
        Shape::new::<T128>("T128", true),
        Shape::new::<T129>("T129", true),
        Shape::new::<T130>("T130", true),
        Shape::new::<T131>("T131", true),
        Shape::new::<T132>("T132", true),
        Shape::new::<T133>("T133", true),
        Shape::new::<T134>("T134", true),
        Shape::new::<T135>("T135", true),
        Shape::new::<T136>("T136", true),
        Shape::new::<T137>("T137", true),
        Shape::new::<T138>("T138", true),
        Shape::new::<T139>("T139", true),
        Shape::new::<T140>("T140", true),
        Shape::new::<T141>("T141", true),
        Shape::new::<T142>("T142", true),
        Shape::new::<T143>("T143", true),
        Shape::new::<T144>("T144", true),
        Shape::new::<T145>("T145", true),
        Shape::new::<T146>("T146", true),
        Shape::new::<T147>("T147", true),
        Shape::new::<T148>("T148", true),
        Shape::new::<T149>("T149", true),
        Shape::new::<T150>("T150", true),
        Shape::new::<T151>("T151", true),
        Shape::new::<T152>("T152", true),
        Shape::new::<T153>("T153", true),
        Shape::new::<T154<T135>>("T154<T135>", true),
        Shape::new::<T155>("T155", true),
        Shape::new::<T156>("T156", true),
        Shape::new::<T157>("T157", true),
        Shape::new::<T158>("T158", true),
        Shape::new::<T159>("T159", true),
        Shape::new::<T160>("T160", true),
        Shape::new::<T161>("T161", true),
        Shape::new::<T162>("T162", true),
        Shape::new::<T163>("T163", true),
        Shape::new::<T164>("T164", true),
        Shape::new::<T165>("T165", true),
        Shape::new::<T166>("T166", true),
        Shape::new::<T167>("T167", true),
        Shape::new::<T168>("T168", true),
        Shape::new::<T169>("T169", true),
        Shape::new::<T170<u32>>("T170<u32>", true),
        Shape::new::<T171>("T171", true),
        Shape::new::<T172>("T172", true),
        Shape::new::<T173>("T173", true),
        Shape::new::<T174>("T174", true),
        Shape::new::<T175>("T175", true),
        Shape::new::<T176<i128>>("T176<i128>", true),
        Shape::new::<T177>("T177", true),
        Shape::new::<T178>("T178", true),
        Shape::new::<T179>("T179", true),
        Shape::new::<T180>("T180", true),
        Shape::new::<T181>("T181", true),
        Shape::new::<T182>("T182", true),
        Shape::new::<T183>("T183", true),
        Shape::new::<T184>("T184", true),
        Shape::new::<T185>("T185", true),
        Shape::new::<T186<f64>>("T186<f64>", true),
        Shape::new::<T187>("T187", true),
        Shape::new::<T188>("T188", true),
        Shape::new::<T189>("T189", true),
        Shape::new::<T190<u64>>("T190<u64>", true),
        Shape::new::<T191>("T191", true),
        Shape::new::<T192>("T192", true),
        Shape::new::<T193<u16>>("T193<u16>", true),
        Shape::new::<T194>("T194", true),
        Shape::new::<T195>("T195", true),
        Shape::new::<T196<T175>>("T196<T175>", true),
        Shape::new::<T197>("T197", true),
        Shape::new::<T198>("T198", true),
        Shape::new::<T199>("T199", true),
        Shape::new::<T200>("T200", true),
        Shape::new::<T201>("T201", true),
        Shape::new::<T202>("T202", true),
        Shape::new::<T203>("T203", true),
        Shape::new::<T204<T184>>("T204<T184>", true),
        Shape::new::<T205<T203>>("T205<T203>", true),
        Shape::new::<T206>("T206", true),
        Shape::new::<T207>("T207", true),
        Shape::new::<T208>("T208", true),
        Shape::new::<T209>("T209", true),
        Shape::new::<T210>("T210", true),
        Shape::new::<T211>("T211", true),
        Shape::new::<T212>("T212", true),
        Shape::new::<T213>("T213", true),
        Shape::new::<T214>("T214", true),
        Shape::new::<T215>("T215", true),
        Shape::new::<T216>("T216", true),
        Shape::new::<T217>("T217", true),
        Shape::new::<T218>("T218", true),
        Shape::new::<T219>("T219", true),
        Shape::new::<T300>("T300", false),
        Shape::new::<T301>("T301", false),
        Shape::new::<T302>("T302", false),
        Shape::new::<T303>("T303", false),
        Shape::new::<T304>("T304", false),
        Shape::new::<T305>("T305", false),
        Shape::new::<T306>("T306", false),
        Shape::new::<T307>("T307", false),
        Shape::new::<T308>("T308", false),
        Shape::new::<T309>("T309", false),
        Shape::new::<T310>("T310", false),
        Shape::new::<T311>("T311", false),
        Shape::new::<T312>("T312", false),
        Shape::new::<T313>("T313", false),
        Shape::new::<T314>("T314", false),
        Shape::new::<T315>("T315", false),
        Shape::new::<T316>("T316", false),
        Shape::new::<T317>("T317", false),
        Shape::new::<T318>("T318", false),
        Shape::new::<T319>("T319", false),
        Shape::new::<T320>("T320", false),
        Shape::new::<T321>("T321", false),
        Shape::new::<T322>("T322", false),
        Shape::new::<T323>("T323", false),
        Shape::new::<T324>("T324", false),
        Shape::new::<T325>("T325", false),
        Shape::new::<T326>("T326", false),
        Shape::new::<T327>("T327", false),
        Shape::new::<T328>("T328", false),
        Shape::new::<T329>("T329", false),
        Shape::new::<T330>("T330", false),
        Shape::new::<T331>("T331", false),
        Shape::new::<T332>("T332", false),
        Shape::new::<T333>("T333", false),
        Shape::new::<T334>("T334", false),
        Shape::new::<T335>("T335", false),
        Shape::new::<T336>("T336", false),
        Shape::new::<T337>("T337", false),
        Shape::new::<T338>("T338", false),
        Shape::new::<T339>("T339", false),
    ]
}
