//! Hostile byte mutations shared by the robustness checks.
use crate::core::Rng;

pub const NASTY64: &[u64] = &[
    0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 40, 63, 64, 65, 100, 255, 256, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, 1 << 27, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 60, (1 << 61) + 1,
    i64::MAX as u64, 1 << 63, u64::MAX - 64, u64::MAX - 8, u64::MAX - 7, u64::MAX - 1, u64::MAX,
];
pub fn put(b: &mut [u8], pos: usize, v: u64, w: usize) {
    if pos + w <= b.len() {
        b[pos..pos + w].copy_from_slice(&v.to_le_bytes()[..w]);
    }
}
pub fn get(b: &[u8], pos: usize, w: usize) -> u64 {
    let mut x = [0u8; 8];
    if pos + w <= b.len() {
        x[..w].copy_from_slice(&b[pos..pos + w]);
    }
    u64::from_le_bytes(x)
}
/// Applies one random mutation; header bytes 0..24 are mostly left alone.
pub fn mutate(b: &mut Vec<u8>, r: &mut Rng, fields: &[u64]) {
    if b.is_empty() {
        b.push(r.u8());
        return;
    }
    let lo = if b.len() > 25 && !r.chance(1, 12) { 24 } else { 0 };
    let pos = lo + r.below(b.len() - lo);
    match r.below(14) {
        0 => b[pos] ^= 1 << r.below(8),
        1 => b[pos] = r.u8(),
        2 => {
            let n = r.below(b.len() + 1);
            b.truncate(n)
        }
        3 => {
            let n = r.below(40);
            let e = r.bytes(n);
            b.extend(e)
        }
        4 | 5 if !fields.is_empty() => {
            let f = *r.pick(fields) as usize;
            let v = *r.pick(NASTY64);
            put(b, f, v, 8);
        }
        6 | 7 if !fields.is_empty() => {
            // offset that points at something else in the file
            let f = *r.pick(fields) as usize;
            let v = (r.below(b.len() + 16) as u64).wrapping_sub(if r.bool() { f as u64 } else { 0 });
            put(b, f, v, 8);
        }
        8 if !fields.is_empty() => {
            let f = *r.pick(fields) as usize;
            let v = get(b, f, 8).wrapping_add(r.below(9) as u64).wrapping_sub(4);
            put(b, f, v, 8);
        }
        9 => {
            let p = pos & !3;
            let v = *r.pick(NASTY64);
            put(b, p, v, 4);
        }
        10 => {
            let p = pos & !7;
            let v = *r.pick(NASTY64);
            put(b, p, v, 8);
        }
        11 => {
            let n = r.range(1, 16).min(b.len() - pos);
            b.drain(pos..pos + n);
        }
        12 => {
            let n = r.range(1, 16);
            let e = r.bytes(n);
            b.splice(pos..pos, e);
        }
        _ => {
            let n = r.range(1, 24).min(b.len() - pos);
            let src = r.below(b.len() - n + 1);
            b.copy_within(src..src + n, pos);
        }
    }
}
pub fn header(magic: &[u8; 4], major: u16, minor: u16) -> Vec<u8> {
    let mut b = b"HBSS".to_vec();
    b.extend(64u64.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend(magic);
    b.extend(major.to_le_bytes());
    b.extend(minor.to_le_bytes());
    b
}
