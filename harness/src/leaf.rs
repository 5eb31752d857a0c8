//! Field-level corruption of a value through its JSON form.
use crate::core::Rng;
use crate::mutate::NASTY64;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    At(usize),
}
pub type Path = Vec<Step>;
#[derive(Default)]
pub struct Leaves {
    pub numbers: Vec<Path>,
    pub texts: Vec<Path>,
    pub lists: Vec<Path>,
}
fn walk(v: &Value, p: &mut Path, out: &mut Leaves) {
    match v {
        Value::Number(_) => out.numbers.push(p.clone()),
        Value::String(_) => out.texts.push(p.clone()),
        Value::Array(a) => {
            out.lists.push(p.clone());
            for (i, x) in a.iter().enumerate().take(64) {
                p.push(Step::At(i));
                walk(x, p, out);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Step::Key(k.clone()));
                walk(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
pub fn leaves(v: &Value) -> Leaves {
    let mut l = Leaves::default();
    walk(v, &mut vec![], &mut l);
    l
}
pub fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => v.get_mut(k)?,
            Step::At(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}
/// variant name -> the other variants of an enumeration that has it
fn siblings() -> &'static HashMap<String, Vec<String>> {
    static C: std::sync::OnceLock<HashMap<String, Vec<String>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut m: HashMap<String, Vec<String>> = HashMap::new();
        for l in include_str!("schema.txt").lines().filter(|l| l.starts_with("E ")) {
            let names: Vec<String> = l.split_whitespace().skip(3).map(|x| x.split_once('=').unwrap().0.to_string()).collect();
            for n in &names {
                m.entry(n.clone()).or_default().extend(names.iter().cloned());
            }
        }
        m
    })
}
pub fn is_variant(s: &str) -> bool {
    siblings().contains_key(s)
}
fn is_hex(s: &str) -> bool {
    s.len() >= 2 && s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
}
/// A hostile integer, often close to the old value or small enough for a narrow field.
pub fn nasty(r: &mut Rng, old: u64) -> u64 {
    let v = match r.below(6) {
        0 => old.wrapping_add(r.below(5) as u64).wrapping_sub(2),
        1 => old / 2,
        2 => r.below(300) as u64,
        _ => *r.pick(NASTY64),
    };
    match r.below(6) {
        0 => v & 0xff,
        1 => v & 0xffff,
        2 | 3 => v & 0xffff_ffff,
        _ => v,
    }
}
/// Changes one leaf; returns a short description or None if nothing was applicable.
pub fn mutate(v: &mut Value, r: &mut Rng) -> Option<&'static str> {
    let l = leaves(v);
    match r.below(10) {
        0..=4 if !l.numbers.is_empty() => {
            let p = r.pick(&l.numbers).clone();
            let x = at(v, &p)?;
            if x.is_f64() {
                *x = match r.below(6) {
                    0 => json!(1e38),
                    1 => json!(-1e38),
                    2 => json!(0.0),
                    3 => json!(-1.0),
                    4 => json!(1e-40),
                    _ => json!(r.f32_finite() as f64),
                };
                return Some("float");
            }
            let old = x.as_u64().unwrap_or(0);
            *x = match r.below(12) {
                0 => json!(-1),
                1 => json!(-32768),
                _ => json!(nasty(r, old)),
            };
            Some("integer")
        }
        5 | 6 if !l.lists.is_empty() => {
            let p = r.pick(&l.lists).clone();
            let a = at(v, &p)?.as_array_mut()?;
            if a.is_empty() {
                return None;
            }
            let k = r.below(a.len());
            match r.below(4) {
                0 => {
                    a.truncate(k);
                }
                1 => {
                    a.remove(k);
                }
                2 => {
                    let x = a[k].clone();
                    a.push(x);
                }
                _ => {
                    let j = r.below(a.len());
                    a.swap(k, j);
                }
            }
            Some("list")
        }
        _ if !l.texts.is_empty() => {
            let p = r.pick(&l.texts).clone();
            let x = at(v, &p)?;
            let s = x.as_str()?.to_string();
            if let Some(sib) = siblings().get(&s) {
                *x = json!(r.pick(sib));
                return Some("enumeration");
            }
            if is_hex(&s) {
                let mut b: Vec<u8> = crate::core::unhex(&s);
                match r.below(6) {
                    0 => b.truncate(r.below(b.len())),
                    1 => {
                        let n = r.below(40);
                        let e = r.bytes(n);
                        b.extend(e)
                    }
                    2 => {
                        let n = b.len();
                        b[r.below(n)] ^= 1 << r.below(8)
                    }
                    3 => {
                        let n = b.len();
                        // the first bytes hold the compression header
                        let p = r.below(n.min(64)) & !1;
                        let v = nasty(r, 0);
                        crate::mutate::put(&mut b, p, v, 2)
                    }
                    4 => {
                        let n = b.len();
                        let p = r.below(n.min(200)) & !3;
                        let v = nasty(r, 0);
                        crate::mutate::put(&mut b, p, v, 4)
                    }
                    _ => b.clear(),
                }
                *x = json!(b.iter().map(|b| format!("{b:02x}")).collect::<String>());
                return Some("buffer");
            }
            *x = json!(r.name().replace('\0', ""));
            Some("text")
        }
        _ => None,
    }
}
