//! C08, C09, C25: JSON conversion and the command line tools, observed through the real binaries.
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::leaf;
use crate::lib_formats::*;
use crate::model::{data_json, diff};
use crate::mutate::mutate;
use crate::props_lib::Scratch;
use crate::schema::{self, gen_file, gen_loose, GenOpts};
use serde_json::{json, Value};
use ssbh_lib::Vector4;
use std::collections::BTreeMap;
use std::io::Read as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            level: "exploration",
            rule: "a value is distinct by its JSON text",
            assumptions: &["text is valid UTF-8 and numbers are finite", "unknown keys of foreign JSON are ignored, as serde does by default"],
            must: &["files_through_model", "files_through_tool", "edited_accepted", "edited_rejected", "floats_checked"],
            units: vec![
                unit("model", 6_000, 200_000, c08_model),
                unit("arbitrary", 2_400, 100_000, c08_arb),
                unit("tool", 700, 20_000, c08_tool),
                unit("edited", 9_000, 300_000, c08_edited),
                unit("tool_edited", 500, 20_000, c08_tool_edited),
                unit("floats", 160, 65_536, c08_floats),
            ],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "a value is distinct by its JSON text",
            assumptions: &["numbers are finite", "optional fields of older JSON take their documented defaults"],
            must: &["values", "tree_comparisons", "tool_runs", "files_against_model", "defaults_filled"],
            units: vec![
                unit("values", 4_000, 150_000, c09_values),
                unit("files", 4_000, 150_000, c09_files),
                unit("tool", 500, 20_000, c09_tool),
                unit("defaults", 400, 8_000, c09_defaults),
                unit("edited", 4_000, 150_000, c09_edited),
            ],
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "an invocation is distinct by tool, arguments and input content",
            assumptions: &["file names are valid UTF-8 and do not begin with a dash", "the binaries are dev builds of the same sources"],
            must: &["lib_tool_runs", "data_tool_runs", "expected_failures", "expected_successes", "default_names", "batch_runs", "batch_bad_files", "batch_good_files"],
            units: vec![
                unit("lib_tool", 1_500, 40_000, c25_lib),
                unit("data_tool", 1_500, 40_000, c25_data),
                unit("batch", 120, 4_000, c25_batch),
                unit("arguments", 24, 400, c25_args),
            ],
        },
    ]
}

fn opts(r: &mut Rng) -> GenOpts {
    GenOpts { json: true, max_array: *r.pick(&[1usize, 2, 4, 8]), budget: r.range(2, 80), max_buf: *r.pick(&[8usize, 60, 400]), nulls: r.bool() }
}
fn short(s: &str) -> String {
    let mut e = s.len().min(600);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    s[..e].to_string()
}

// ---------------------------------------------------------------- C08
/// The content of the first null pointer to a null string, which JSON cannot tell from a null pointer.
fn null_behind_pointer(v: &dyn LibVal) -> bool {
    // RelPtr64(Some(SsbhString(RelPtr64(None))))
    v.debug().contains("RelPtr64(Some(SsbhStringN(RelPtr64(None))))")
}
fn through_text(c: &mut Case, f: &Fmt, v: &dyn LibVal, bytes: &[u8]) -> R {
    let pretty = match v.json_string() {
        Ok(s) => s,
        Err(e) => return viol(format!("{} cannot be converted to JSON: {e}", f.name)),
    };
    let compact = v.json().map(|j| j.to_string()).unwrap_or_default();
    for text in [pretty, compact] {
        let back = match no_panic(|| (f.from_json)(&text)) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return viol(format!("{}: its own JSON is not accepted: {e}; {}", f.name, short(&text))),
            Err(p) => return viol(format!("{}: panic while parsing its own JSON: {p}", f.name)),
        };
        let w = match back.write_vec() {
            Ok(w) => w,
            Err(e) => return viol(format!("{}: the value parsed from JSON cannot be written: {e}", f.name)),
        };
        if w != bytes || !back.same(v) {
            c.artifact = bytes.to_vec();
            let msg = format!("{}: JSON and back changes the file: {} bytes and {} bytes, equal values: {}; {}", f.name, bytes.len(), w.len(), back.same(v), short(&text));
            if null_behind_pointer(v) {
                return c.known("json-null-string-pointer", msg);
            }
            return viol(msg);
        }
        ensure!(back.json().ok() == v.json().ok(), "{}: JSON of the parsed value differs from the JSON it came from", f.name);
    }
    Ok(())
}
fn c08_model(c: &mut Case) -> R {
    let o = opts(&mut c.rng);
    let loose = c.idx % 5 == 4;
    let rf = if loose { gen_loose(c.idx as usize, &mut c.rng, o) } else { gen_file(c.idx as usize, &mut c.rng, o) };
    let f = fmt(rf.fmt);
    c.seen(rf.json.to_string().as_bytes());
    c.sample(|| format!("{} {}", rf.fmt, rf.json));
    let input = if loose { &rf.loose } else { &rf.bytes };
    let v = match f.read_bytes(input) {
        Ok(v) => v,
        Err(e) => return viol(format!("{}: a valid file is not readable: {e}", f.name)),
    };
    let b = v.write_vec().map_err(|e| Viol { msg: format!("{}: not writable: {e}", f.name), known: None })?;
    // the JSON carries exactly the content of the file
    match v.json() {
        Ok(j) => {
            if let Some(d) = diff(&j, &rf.json, "") {
                c.artifact = input.clone();
                return viol(format!("{}: JSON differs from the content of the file at {d}", f.name));
            }
        }
        Err(e) => return viol(format!("{}: no JSON: {e}", f.name)),
    }
    c.count("files_through_model", 1);
    through_text(c, f, &*v, &b)
}
fn c08_arb(c: &mut Case) -> R {
    let f = &FORMATS[c.idx as usize % 12];
    let max = *c.rng.pick(&[200usize, 1000, 5000]);
    let Some(v) = arb_val(f, &mut c.rng, max) else { return Ok(()) };
    if !writable(f, &*v) {
        return Ok(());
    }
    let text = match v.json_string() {
        Ok(t) => t,
        Err(e) => return viol(format!("{} cannot be converted to JSON: {e}", f.name)),
    };
    // one pass through JSON leaves text that is not UTF-8 behind
    let clean = match (f.from_json)(&text) {
        Ok(v) => v,
        Err(e) => {
            let d = v.debug();
            ensure!(nonfinite(&d), "{}: its own JSON is not accepted: {e}; {}", f.name, short(&text));
            c.count("values_with_nan", 1);
            return Ok(());
        }
    };
    c.seen(text.as_bytes());
    c.count("arbitrary_values", 1);
    let b = match clean.write_vec() {
        Ok(b) => b,
        Err(e) => return viol(format!("{}: not writable: {e}", f.name)),
    };
    through_text(c, f, &*clean, &b)
}
fn c08_floats(c: &mut Case) -> R {
    // thorough: every 32-bit pattern once
    let base = if c.thorough { (c.idx as u32) << 16 } else { c.rng.u32() & 0xffff_0000 };
    let v: Vec<Vector4> = (0..16384u32)
        .map(|i| {
            let f = |k: u32| {
                let x = f32::from_bits(base | (i * 4 + k));
                if x.is_finite() { x } else { 0.0 }
            };
            Vector4 { x: f(0), y: f(1), z: f(2), w: f(3) }
        })
        .collect();
    let t = serde_json::to_string(&v).unwrap();
    let w: Vec<Vector4> = serde_json::from_str(&t).unwrap();
    for (a, b) in v.iter().zip(&w) {
        for (p, q) in [(a.x, b.x), (a.y, b.y), (a.z, b.z), (a.w, b.w)] {
            ensure!(p.to_bits() == q.to_bits(), "the float {p:?} ({:#010x}) comes back as {q:?} from JSON", p.to_bits());
        }
    }
    c.seen(&base.to_le_bytes());
    c.count("floats_checked", 65536);
    c.eval(16383);
    Ok(())
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub timeout: bool,
}
impl Ran {
    pub fn crashed(&self) -> bool {
        self.timeout || self.signal.is_some() || self.code == Some(101) || self.err.contains("panicked at")
    }
}
pub fn tool(name: &str) -> PathBuf {
    let base = std::env::var("VERIF_CLI").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target-cli/debug"));
    base.join(name)
}
pub fn run(cmd: &mut Command) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    let mut ch = cmd.spawn().unwrap_or_else(|e| panic!("cannot start {cmd:?}: {e}"));
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let h1 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let h2 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let t = Instant::now();
    let mut timeout = false;
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(60) {
            timeout = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let s = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
    Ran { code: st.code(), signal: st.signal(), out: s(h1.join().unwrap()), err: s(h2.join().unwrap()), timeout }
}
fn ext_of(f: &str) -> &'static str {
    match f {
        "Hlpb" => "nuhlpb",
        "Matl" => "numatb",
        "Modl" => "numdlb",
        "Mesh" => "numshb",
        "Skel" => "nusktb",
        "Anim" => "nuanmb",
        "Nlst" => "nulstb",
        "Nrpd" => "nurpdb",
        "Nufx" => "nufxlb",
        "Shdr" => "nushdb",
        "MeshEx" => "numshexb",
        "Adj" => "adjb",
        x => unreachable!("{x}"),
    }
}
fn c08_tool(c: &mut Case) -> R {
    let o = opts(&mut c.rng);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    let f = fmt(rf.fmt);
    let v = match f.read_bytes(&rf.bytes) {
        Ok(v) => v,
        Err(e) => return viol(format!("{}: a valid file is not readable: {e}", f.name)),
    };
    let b = v.write_vec().map_err(|e| Viol { msg: format!("{}: not writable: {e}", f.name), known: None })?;
    c.seen(&rf.bytes);
    c.sample(|| format!("ssbh_lib_json x.{} ; ssbh_lib_json x.json: {}", ext_of(f.name), rf.json));
    let s = Scratch::new();
    let p = s.path(&format!("x.{}", ext_of(f.name)));
    std::fs::write(&p, &rf.bytes).unwrap();
    let j = s.path("x.json");
    let r = run(Command::new(tool("ssbh_lib_json")).arg(&p).arg(&j));
    ensure!(r.code == Some(0), "{}: the tool failed on a valid file: {:?} {}", f.name, r.code, r.err);
    let text = std::fs::read_to_string(&j).unwrap_or_default();
    let Ok(got) = serde_json::from_str::<Value>(&text) else { return viol(format!("{}: the tool's output is not JSON: {}", f.name, short(&text))) };
    let want = if f.magic.is_some() { json!({ f.name: rf.json }) } else { rf.json.clone() };
    if let Some(d) = diff(&got, &want, "") {
        return viol(format!("{}: the tool's JSON differs from the content of the file at {d}", f.name));
    }
    let q = s.path("y.bin");
    let r = run(Command::new(tool("ssbh_lib_json")).arg(&j).arg(&q));
    ensure!(r.code == Some(0), "{}: the tool failed on its own JSON: {:?} {}", f.name, r.code, r.err);
    let w = std::fs::read(&q).unwrap_or_default();
    c.count("files_through_tool", 1);
    if w != b {
        c.artifact = rf.bytes.clone();
        let msg = format!("{}: the tool's JSON comes back as a different file ({} bytes, expected {})", f.name, w.len(), b.len());
        if null_behind_pointer(&*v) {
            return c.known("json-null-string-pointer", msg);
        }
        return viol(msg);
    }
    Ok(())
}
/// Changes the shape or content of JSON text. Returns what was done.
fn edit(v: &mut Value, r: &mut Rng) -> Option<&'static str> {
    if r.chance(2, 3) {
        return leaf::mutate(v, r);
    }
    let l = leaf::leaves(v);
    let mut all: Vec<leaf::Path> = vec![];
    all.extend(l.numbers.iter().cloned());
    all.extend(l.texts.iter().cloned());
    all.extend(l.lists.iter().cloned());
    if all.is_empty() {
        return None;
    }
    let p = r.pick(&all).clone();
    Some(match r.below(9) {
        0 => {
            *leaf::at(v, &p)? = Value::Null;
            "null"
        }
        1 => {
            // drop the key itself
            let (last, parent) = p.split_last()?;
            if let leaf::Step::Key(k) = last {
                leaf::at(v, parent)?.as_object_mut()?.remove(k);
            }
            "missing key"
        }
        2 => {
            let (last, parent) = p.split_last()?;
            if let leaf::Step::Key(k) = last {
                let o = leaf::at(v, parent)?.as_object_mut()?;
                let x = o.remove(k)?;
                o.insert(format!("{k}_"), x);
            }
            "renamed key"
        }
        3 => {
            let (_, parent) = p.split_last()?;
            if let Some(o) = leaf::at(v, parent)?.as_object_mut() {
                o.insert("zz_unknown".into(), json!(1));
            }
            "unknown key"
        }
        4 => {
            *leaf::at(v, &p)? = json!("not a number");
            "text for a value"
        }
        5 => {
            *leaf::at(v, &p)? = json!(true);
            "boolean for a value"
        }
        6 => {
            let t = r.pick(&l.texts.iter().cloned().chain([p]).collect::<Vec<_>>()).clone();
            *leaf::at(v, &t)? = json!(*r.pick(&["a\u{0}b", "\u{0}", "abc", "0", "0G", "ABCDEF", "", "é\u{10ffff}", "V20", "Hlpb"]));
            "odd text"
        }
        7 => {
            let q = r.pick(&all).clone();
            let x = leaf::at(v, &q)?.clone();
            *leaf::at(v, &p)? = x;
            "copied value"
        }
        _ => {
            *leaf::at(v, &p)? = r.pick(&[json!(1.5), json!(-0.0), json!(1e300), json!(u64::MAX), json!(i64::MIN), json!(0.1), json!(16777217u64)]).clone();
            "odd number"
        }
    })
}
/// `got` is what an accepted text means; `text` is what was written there. Unknown keys and missing optional values are allowed.
fn accepted(text: &Value, got: &Value, at: &str) -> Option<String> {
    match (text, got) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, q) in y {
                match x.get(k) {
                    Some(p) => {
                        if let Some(d) = accepted(p, q, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                    None if q.is_null() => {}
                    None => return Some(format!("{at}.{k} was not in the text but is {q}")),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} elements became {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| accepted(p, q, &format!("{at}[{i}]")))
        }
        // a structure written as the list of its values
        (Value::Array(_), Value::Object(_)) => None,
        (Value::Number(x), Value::Null) if x.as_f64().is_some_and(|v| v.abs() > f32::MAX as f64) => None,
        (Value::String(x), Value::String(y)) if x.eq_ignore_ascii_case(y) && y.bytes().all(|b| b.is_ascii_hexdigit()) => None,
        _ => diff(text, got, at),
    }
}
fn edited_value(c: &mut Case) -> (&'static Fmt, Value) {
    let o = GenOpts { json: true, max_array: *c.rng.pick(&[1usize, 2, 4]), budget: c.rng.range(2, 40), max_buf: 24, nulls: c.rng.bool() };
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    let f = fmt(rf.fmt);
    let mut j = rf.json;
    let n = *c.rng.pick(&[1usize, 1, 1, 2, 3]);
    for _ in 0..n {
        if let Some(k) = edit(&mut j, &mut c.rng) {
            c.count(&format!("edit: {k}"), 1);
        }
    }
    (f, j)
}
fn c08_edited(c: &mut Case) -> R {
    let (f, j) = edited_value(c);
    let text = j.to_string();
    c.seen(text.as_bytes());
    c.sample(|| format!("{} {text}", f.name));
    c.artifact = text.clone().into_bytes();
    let v = match no_panic(|| (f.from_json)(&text)) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => {
            c.count("edited_rejected", 1);
            return Ok(());
        }
        Err(p) => return viol(format!("{}: panic on edited JSON: {p}", f.name)),
    };
    let g = v.json().map_err(|e| Viol { msg: format!("no JSON: {e}"), known: None })?;
    if let Some(d) = accepted(&j, &g, "") {
        return viol(format!("{}: edited JSON was accepted but means something else: {d}; {}", f.name, short(&text)));
    }
    let b = match no_panic(|| v.write_vec()) {
        Ok(Ok(b)) => b,
        Ok(Err(_)) => {
            c.count("edited_unwritable", 1);
            return Ok(());
        }
        Err(p) => return viol(format!("{}: panic while writing edited JSON: {p}", f.name)),
    };
    let back = match f.read_bytes(&b) {
        Ok(b) => b,
        Err(e) => return viol(format!("{}: edited JSON gives a file that cannot be read: {e}; {}", f.name, short(&text))),
    };
    if let Some(d) = diff(&back.json().unwrap_or_default(), &g, "") {
        return viol(format!("{}: edited JSON gives a file that reads back differently: {d}; {}", f.name, short(&text)));
    }
    c.count("edited_accepted", 1);
    Ok(())
}
fn c08_tool_edited(c: &mut Case) -> R {
    let (f, j) = edited_value(c);
    let s = Scratch::new();
    let p = s.path("edited.json");
    let mut text = (if f.magic.is_some() { json!({ f.name: j }) } else { j }).to_string();
    if c.rng.chance(1, 8) {
        // not JSON at all, or cut short
        let mut k = c.rng.below(text.len());
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        text.truncate(k);
    }
    std::fs::write(&p, &text).unwrap();
    c.seen(text.as_bytes());
    let q = s.path("out");
    let r = run(Command::new(tool("ssbh_lib_json")).arg(&p).arg(&q));
    ensure!(!r.crashed(), "{}: the tool crashed on edited JSON: {:?} {}; {}", f.name, r.code, r.err, short(&text));
    if r.code != Some(0) {
        ensure!(!q.exists(), "{}: the tool failed on edited JSON but left an output; {}", f.name, short(&text));
        c.count("edited_rejected", 1);
        return Ok(());
    }
    let k = s.path("back.json");
    // the type may have changed with the edit; take whichever reader knows the content
    let b = std::fs::read(&q).unwrap_or_default();
    let e = if b.starts_with(b"HBSS") { "numatb".to_string() } else { ext_of(f.name).to_string() };
    let q2 = s.path(&format!("again.{e}"));
    std::fs::write(&q2, &b).unwrap();
    let r = run(Command::new(tool("ssbh_lib_json")).arg(&q2).arg(&k));
    ensure!(r.code == Some(0), "{}: edited JSON gives a file the tool cannot read: {}; {}", f.name, r.err, short(&text));
    let t: Value = serde_json::from_str(&text).unwrap_or_default();
    let g: Value = serde_json::from_str(&std::fs::read_to_string(&k).unwrap_or_default()).unwrap_or_default();
    if let Some(d) = accepted(&t, &g, "") {
        return viol(format!("{}: edited JSON comes back from the tool differently: {d}; {}", f.name, short(&text)));
    }
    c.count("edited_accepted", 1);
    Ok(())
}

// ---------------------------------------------------------------- C09
/// A value as its `Debug` text shows it.
#[derive(Debug, PartialEq)]
enum Dbg {
    Struct(Vec<(String, Dbg)>),
    Call(String, Vec<Dbg>),
    Unit(String),
    List(Vec<Dbg>),
    Text(String),
    Num(String),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i).is_some_and(|b| b.is_ascii_whitespace() || *b == b',') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while self.s.get(self.i).is_some_and(|b| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-' | b'.' | b'+')) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn list(&mut self, end: u8) -> Option<Vec<Dbg>> {
        self.i += 1;
        let mut v = vec![];
        while self.peek() != end {
            v.push(self.value()?);
        }
        self.i += 1;
        Some(v)
    }
    fn value(&mut self) -> Option<Dbg> {
        match self.peek() {
            b'[' => Some(Dbg::List(self.list(b']')?)),
            b'(' => Some(Dbg::List(self.list(b')')?)),
            b'"' => {
                let a = self.i + 1;
                self.i += 1;
                while *self.s.get(self.i)? != b'"' {
                    self.i += if self.s[self.i] == b'\\' { 2 } else { 1 };
                }
                let t = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                self.i += 1;
                Some(Dbg::Text(t))
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    return None;
                }
                let b = w.as_bytes()[0];
                if b.is_ascii_digit() || b == b'-' {
                    return Some(Dbg::Num(w));
                }
                match self.peek() {
                    b'{' => {
                        self.i += 1;
                        let mut v = vec![];
                        while self.peek() != b'}' {
                            let k = self.word();
                            if k.is_empty() || self.peek() != b':' {
                                return None;
                            }
                            self.i += 1;
                            v.push((k, self.value()?));
                        }
                        self.i += 1;
                        Some(Dbg::Struct(v))
                    }
                    b'(' => Some(Dbg::Call(w, self.list(b')')?)),
                    _ => Some(Dbg::Unit(w)),
                }
            }
        }
    }
}
/// The first place where a JSON value does not spell out the value that `Debug` shows.
fn spells(d: &Dbg, j: &Value, at: &str) -> Option<String> {
    let bad = || Some(format!("{at}: {d:?} became {j}"));
    match (d, j) {
        (Dbg::Struct(f), Value::Object(o)) => {
            for (k, v) in f {
                match o.get(k) {
                    Some(x) => {
                        if let Some(e) = spells(v, x, &format!("{at}.{k}")) {
                            return Some(e);
                        }
                    }
                    None => return Some(format!("{at}.{k} is missing from the JSON")),
                }
            }
            if f.len() != o.len() { Some(format!("{at}: the JSON has extra keys")) } else { None }
        }
        (Dbg::Call(n, a), _) if n == "Some" && a.len() == 1 => spells(&a[0], j, at),
        (Dbg::Unit(n), Value::Null) if n == "None" => None,
        (Dbg::Unit(n), Value::Bool(b)) => if n == &b.to_string() { None } else { bad() },
        (Dbg::Unit(n), Value::String(s)) => if n == s { None } else { bad() },
        (Dbg::Call(n, a), Value::Object(o)) if o.len() == 1 && o.contains_key(n) && a.len() == 1 => spells(&a[0], &o[n], &format!("{at}.{n}")),
        (Dbg::Call(n, a), Value::String(s)) if a.len() == 1 && matches!(a[0], Dbg::Text(_)) && n != s => spells(&a[0], j, at),
        (Dbg::Call(_, a), _) if a.len() == 1 => spells(&a[0], j, at),
        (Dbg::List(a) | Dbg::Call(_, a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: {} elements became {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| spells(x, y, &format!("{at}[{i}]")))
        }
        (Dbg::Text(t), Value::String(s)) => {
            let q = format!("{s:?}");
            if q[1..q.len() - 1] == *t { None } else { bad() }
        }
        (Dbg::Num(t), Value::Number(n)) => {
            let same = match n.as_i64() {
                Some(k) => t.parse() == Ok(k),
                None => match n.as_u64() {
                    Some(k) => t.parse() == Ok(k),
                    None => t.parse::<f32>().is_ok_and(|x| x.to_bits() == (n.as_f64().unwrap() as f32).to_bits()),
                },
            };
            if same { None } else { bad() }
        }
        _ => bad(),
    }
}
fn finite(d: &str) -> bool {
    !nonfinite(d)
}
fn data_value(c: &mut Case) -> Option<(&'static DFmt, BoxData)> {
    let f = &DFM[c.idx as usize % 8];
    if c.rng.chance(2, 5) {
        let m = *c.rng.pick(&[200usize, 1000, 4000]);
        arb_data(f, &mut c.rng, m).map(|v| (f, v))
    } else {
        let n = *c.rng.pick(&[2usize, 6, 14]);
        Some((f, crate::gen_data::valid_or_wide(f.name, &mut c.rng, n)))
    }
}
fn same_after_json(c: &mut Case, f: &DFmt, v: &dyn DataVal) -> R {
    let d = v.debug();
    let text = match v.json_string() {
        Ok(t) => t,
        Err(e) => return viol(format!("{}: no JSON: {e}", f.name)),
    };
    c.seen(text.as_bytes());
    c.artifact = text.clone().into_bytes();
    let compact = v.json().map(|j| j.to_string()).unwrap_or_default();
    for t in [&text, &compact] {
        let back = match no_panic(|| (f.from_json)(t)) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => {
                ensure!(!finite(&d), "{}: its own JSON is not accepted: {e}; {}", f.name, short(&text));
                c.count("values_not_finite", 1);
                return Ok(());
            }
            Err(p) => return viol(format!("{}: panic on its own JSON: {p}", f.name)),
        };
        let e = back.debug();
        if d != e {
            if !finite(&d) {
                c.count("values_not_finite", 1);
                return Ok(());
            }
            let k = d.bytes().zip(e.bytes()).position(|(a, b)| a != b).unwrap_or(d.len().min(e.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(80).min(s.len())..(k + 80).min(s.len())]).into_owned();
            return viol(format!("{}: JSON and back changes the value: …{}… became …{}…", f.name, cut(&d), cut(&e)));
        }
    }
    if finite(&d) {
        let mut p = P { s: d.as_bytes(), i: 0 };
        if let Some(tree) = p.value() {
            let j: Value = serde_json::from_str(&text).unwrap();
            if let Some(e) = spells(&tree, &j, "") {
                return viol(format!("{}: the JSON does not spell out the value: {}", f.name, short(&e)));
            }
            c.count("tree_comparisons", 1);
        }
    }
    c.count("values", 1);
    Ok(())
}
fn c09_values(c: &mut Case) -> R {
    let Some((f, v)) = data_value(c) else { return Ok(()) };
    c.sample(|| v.json_string().unwrap_or_default());
    same_after_json(c, f, &*v)
}
/// Every data value a file can give.
fn c09_files(c: &mut Case) -> R {
    let o = opts(&mut c.rng);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    let Some(f) = dfmt_for_lib(rf.fmt) else { return Ok(()) };
    let Ok(v) = f.read_bytes(&rf.bytes) else {
        c.count("files_not_convertible", 1);
        return Ok(());
    };
    // a pointer to a null name is an empty name here, while the low-level JSON shows null for it
    let ambiguous = fmt(rf.fmt).read_bytes(&rf.bytes).is_ok_and(|v| null_behind_pointer(&*v));
    if let (Some(m), false) = (data_json(rf.fmt, &rf.json), ambiguous) {
        let j = v.json().map_err(|e| Viol { msg: e, known: None })?;
        c.count("files_against_model", 1);
        if let Some(d) = diff(&j, &m, "") {
            c.artifact = rf.bytes.clone();
            return viol(format!("{}: JSON of the data differs from the content of the file at {d}", f.name));
        }
    }
    same_after_json(c, f, &*v)
}
fn c09_tool(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let v = crate::gen_data::valid(f.name, &mut c.rng, 6);
    let Ok(b) = v.write_vec() else { return Ok(()) };
    // what the library makes of that file
    let d = match f.read_bytes(&b) {
        Ok(d) => d,
        Err(e) => return viol(format!("{}: its own file is not readable: {e}", f.name)),
    };
    if !finite(&d.debug()) {
        return Ok(());
    }
    let want = match d.write_vec() {
        Ok(w) => w,
        Err(e) => return viol(format!("{}: the data of its own file cannot be written: {e}", f.name)),
    };
    let s = Scratch::new();
    let p = s.path(&format!("in.{}", ext_of(f.lib)));
    std::fs::write(&p, &b).unwrap();
    c.seen(&b);
    c.sample(|| format!("ssbh_data_json in.{}", ext_of(f.lib)));
    let given = c.rng.bool();
    let j = if given { s.path("mid.json") } else { s.path(&format!("in.{}.json", ext_of(f.lib))) };
    let mut k = Command::new(tool("ssbh_data_json"));
    k.arg(&p);
    if given {
        k.arg(&j);
    }
    let r = run(&mut k);
    ensure!(r.code == Some(0), "{}: the tool failed on a valid file: {}", f.name, r.err);
    let text = std::fs::read_to_string(&j).unwrap_or_default();
    let g: Value = serde_json::from_str(&text).unwrap_or_default();
    if let Some(e) = diff(&g, &d.json().unwrap_or_default(), "") {
        return viol(format!("{}: the tool's JSON differs from the data at {e}", f.name));
    }
    let q = if given { s.path("out.bin") } else { j.with_extension(ext_of(f.lib)) };
    let mut k = Command::new(tool("ssbh_data_json"));
    k.arg(&j);
    if given {
        k.arg(&q);
    }
    let r = run(&mut k);
    ensure!(r.code == Some(0), "{}: the tool failed on its own JSON: {}", f.name, r.err);
    let w = std::fs::read(&q).unwrap_or_default();
    c.count("tool_runs", 2);
    ensure!(w == want, "{}: the tool's file differs from the one the library writes ({} and {} bytes)", f.name, w.len(), want.len());
    Ok(())
}
/// JSON of older releases lacks some fields; they take their defaults and nothing else changes.
fn c09_defaults(c: &mut Case) -> R {
    let v = crate::gen_data::matl(&mut c.rng, 6);
    let mut j = serde_json::to_value(&v).unwrap();
    let mut want = v.clone();
    let d = ssbh_data::matl_data::SamplerData::default();
    let b = ssbh_data::matl_data::BlendStateData::default();
    for (e, w) in j["entries"].as_array_mut().unwrap().iter_mut().zip(&mut want.entries) {
        if c.rng.bool() {
            e.as_object_mut().unwrap().remove("uv_transforms");
            w.uv_transforms = vec![];
            c.count("defaults_filled", 1);
        }
        for (s, w) in e["samplers"].as_array_mut().unwrap().iter_mut().zip(&mut w.samplers) {
            let o = s["data"].as_object_mut().unwrap();
            match c.rng.below(4) {
                0 => {
                    o.insert("max_anisotropy".into(), Value::Null);
                    w.data.max_anisotropy = Default::default();
                }
                1 => {
                    o.remove("max_anisotropy");
                    w.data.max_anisotropy = d.max_anisotropy;
                }
                2 => {
                    o.remove("border_color");
                    w.data.border_color = d.border_color;
                }
                _ => {
                    o.remove("wrapt");
                    o.remove("lod_bias");
                    w.data.wrapt = d.wrapt;
                    w.data.lod_bias = d.lod_bias;
                }
            }
            c.count("defaults_filled", 1);
        }
        for (s, w) in e["blend_states"].as_array_mut().unwrap().iter_mut().zip(&mut w.blend_states) {
            if c.rng.bool() {
                s["data"].as_object_mut().unwrap().remove("source_color");
                w.data.source_color = b.source_color;
                c.count("defaults_filled", 1);
            }
        }
    }
    c.seen(j.to_string().as_bytes());
    match serde_json::from_value::<ssbh_data::matl_data::MatlData>(j) {
        Ok(g) => ensure!(g == want, "JSON without optional material fields gives {g:?}, expected {want:?}"),
        Err(e) => return viol(format!("JSON without optional material fields is rejected: {e}")),
    }
    Ok(())
}
/// Edited JSON is rejected or means what it says.
fn c09_edited(c: &mut Case) -> R {
    let f = &DFM[c.idx as usize % 8];
    let v = crate::gen_data::valid(f.name, &mut c.rng, 4);
    let Ok(mut j) = v.json() else { return Ok(()) };
    for _ in 0..*c.rng.pick(&[1usize, 1, 2]) {
        edit(&mut j, &mut c.rng);
    }
    let text = j.to_string();
    c.artifact = text.clone().into_bytes();
    c.seen(text.as_bytes());
    match no_panic(|| (f.from_json)(&text)) {
        Ok(Ok(v)) => {
            let g = v.json().unwrap_or_default();
            let optional = f.name == "MatlData";
            if let Some(d) = accepted(&j, &g, "") {
                ensure!(optional && d.contains("was not in the text") || d.contains("max_anisotropy"), "{}: edited JSON was accepted but means something else: {d}", f.name);
            }
            c.count("edited_accepted", 1);
        }
        Ok(Err(_)) => c.count("edited_rejected", 1),
        Err(p) => return viol(format!("{}: panic on edited JSON: {p}", f.name)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C25
fn stem(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "model".into(),
        1 => "a.b.c".into(),
        2 => "with space".into(),
        3 => "日本語 é".into(),
        4 => format!("x{}.", r.below(9)),
        5 => ".hidden".into(),
        6 => "json".into(),
        _ => {
            let n = r.range(1, 30);
            (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', '_', '.', '(', ')', '[', ']', '{', '}', '*', '?', '\'', '"', '\\', '~', '$', '#', '%', '&', '!', ';', '😀'])).chain(['q']).collect()
        }
    }
}
/// Every file below a directory with its content.
fn tree(p: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let q = e.path();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(q.join(""), vec![]);
                todo.push(q);
            } else if t.is_file() {
                m.insert(q.clone(), std::fs::read(&q).unwrap_or_default());
            }
        }
    }
    m
}
struct Setup {
    s: Scratch,
    input: PathBuf,
    output: Option<PathBuf>,
    /// the output cannot be created
    blocked: bool,
}
fn place(c: &mut Case, name: &str, content: &[u8]) -> Setup {
    let s = Scratch::new();
    let dir = s.path(*c.rng.pick(&["d", "d.d", "sp ace"]));
    std::fs::create_dir_all(&dir).unwrap();
    let input = dir.join(name);
    std::fs::write(&input, content).unwrap();
    let mut blocked = false;
    let output = match c.rng.below(10) {
        0..=4 => None,
        5 => Some(dir.join("out.json")),
        6 => Some(s.path("out")),
        7 => {
            blocked = true;
            Some(s.path("no/such/dir/out"))
        }
        8 => {
            blocked = true;
            std::fs::create_dir(s.path("adir")).unwrap();
            Some(s.path("adir"))
        }
        _ => {
            // an existing file is replaced on success and kept on failure
            let p = s.path("old.bin");
            std::fs::write(&p, b"previous content").unwrap();
            Some(p)
        }
    };
    Setup { s, input, output, blocked }
}
/// Runs a tool in a prepared place and compares exit status and files with what was expected.
fn judge(c: &mut Case, bin: &str, st: Setup, default: PathBuf, expect: Result<Vec<u8>, String>, is_json: bool, what: &str) -> R {
    let before = tree(&st.s.0);
    let mut k = Command::new(tool(bin));
    k.current_dir(st.input.parent().unwrap());
    // half the time the input is named relative to the working directory
    let relative = c.rng.bool();
    if relative {
        k.arg(st.input.file_name().unwrap());
    } else {
        k.arg(&st.input);
    }
    if let Some(o) = &st.output {
        k.arg(o);
    }
    let target = st.output.clone().unwrap_or(default);
    // a directory in the way also blocks the default name
    let blocked = st.blocked || target.is_dir();
    let r = run(&mut k);
    let after = tree(&st.s.0);
    let desc = format!("{bin} {:?} {:?} ({what})", st.input.file_name().unwrap(), st.output);
    ensure!(!r.crashed(), "{desc}: crashed: code {:?} signal {:?} timeout {} {}", r.code, r.signal, r.timeout, r.err);
    match &expect {
        Ok(want) if !blocked => {
            c.count("expected_successes", 1);
            if st.output.is_none() {
                c.count("default_names", 1);
            }
            ensure!(r.code == Some(0), "{desc}: failed with code {:?}: {}", r.code, r.err);
            let mut exp = before.clone();
            let got = after.get(&target).cloned();
            let Some(got) = got else { return viol(format!("{desc}: no output at {target:?}; files: {:?}", after.keys().collect::<Vec<_>>())) };
            if is_json {
                let (a, b): (Option<Value>, Option<Value>) = (serde_json::from_slice(&got).ok(), serde_json::from_slice(want).ok());
                ensure!(a.is_some() && a == b, "{desc}: wrong JSON in the output");
            } else {
                ensure!(&got == want, "{desc}: wrong bytes in the output ({} and {})", got.len(), want.len());
            }
            exp.insert(target, got);
            ensure!(exp == after, "{desc}: other files changed: {:?}", after.keys().collect::<Vec<_>>());
        }
        _ => {
            c.count("expected_failures", 1);
            ensure!(r.code != Some(0), "{desc}: exit status 0 although {:?}", expect.as_ref().err().cloned().unwrap_or("the output cannot be created".into()));
            ensure!(!r.err.trim().is_empty(), "{desc}: failed without a message");
            ensure!(before == after, "{desc}: failed but changed files: {:?}", after.keys().filter(|k| before.get(*k) != after.get(*k)).collect::<Vec<_>>());
        }
    }
    Ok(())
}
/// Content for a tool: (bytes, description).
fn content(c: &mut Case, k: usize) -> (Vec<u8>, String) {
    let o = opts(&mut c.rng);
    let rf = gen_file(k, &mut c.rng, o);
    match c.rng.below(10) {
        0..=4 => (rf.bytes, format!("valid {}", rf.fmt)),
        5 => {
            let mut b = rf.bytes;
            for _ in 0..c.rng.range(1, 4) {
                mutate(&mut b, &mut c.rng, &[]);
            }
            (b, format!("damaged {}", rf.fmt))
        }
        6 => {
            let n = c.rng.below(rf.bytes.len() + 1);
            (rf.bytes[..n].to_vec(), format!("cut {}", rf.fmt))
        }
        7 => {
            let n = c.rng.size(200);
            (c.rng.bytes(n), "random".into())
        }
        8 => {
            let f = &DFM[c.rng.below(8)];
            let v = crate::gen_data::valid(f.name, &mut c.rng, 4);
            (v.write_vec().unwrap_or_default(), format!("data file {}", f.name))
        }
        _ => (vec![], "empty".into()),
    }
}
fn any_json(c: &mut Case, data: bool) -> (Vec<u8>, String) {
    match c.rng.below(12) {
        0 => (b"{}".to_vec(), "{}".into()),
        1 => (c.rng.pick(&[&b"null"[..], b"[]", b"0", b"\"Hlpb\"", b"{\"Hlpb\":null}", b"", b"\xff\xfe", b"{", b"[[[[[[[["]).to_vec(), "odd JSON".into()),
        2 => (vec![b'['; 100_000], "deep JSON".into()),
        3 | 4 if data => {
            let f = &DFM[c.rng.below(8)];
            let v = crate::gen_data::valid(f.name, &mut c.rng, 4);
            let mut j = v.json().unwrap_or_default();
            for _ in 0..c.rng.range(1, 2) {
                edit(&mut j, &mut c.rng);
            }
            (j.to_string().into_bytes(), format!("edited {}", f.name))
        }
        3 | 4 => {
            let (f, j) = edited_value(c);
            ((if f.magic.is_some() { json!({ f.name: j }) } else { j }).to_string().into_bytes(), format!("edited {}", f.name))
        }
        5 => {
            // the other tool's JSON
            let (f, j) = edited_value(c);
            let f2 = &DFM[c.rng.below(8)];
            if data {
                ((if f.magic.is_some() { json!({ f.name: j }) } else { j }).to_string().into_bytes(), "low-level JSON".into())
            } else {
                (crate::gen_data::valid(f2.name, &mut c.rng, 3).json().unwrap_or_default().to_string().into_bytes(), "high-level JSON".into())
            }
        }
        _ if data => {
            let f = &DFM[c.rng.below(8)];
            let v = crate::gen_data::valid(f.name, &mut c.rng, 5);
            (v.json_string().unwrap_or_default().into_bytes(), format!("JSON of {}", f.name))
        }
        _ => {
            let o = opts(&mut c.rng);
            let k = c.idx as usize;
            let rf = gen_file(k, &mut c.rng, o);
            let f = fmt(rf.fmt);
            let j = if f.magic.is_some() { json!({ rf.fmt: rf.json }) } else { rf.json };
            (serde_json::to_string_pretty(&j).unwrap().into_bytes(), format!("JSON of {}", f.name))
        }
    }
}
fn c25_lib(c: &mut Case) -> R {
    use ssbh_lib::prelude::*;
    let to_json = c.rng.bool();
    c.count("lib_tool_runs", 1);
    let k = c.idx as usize;
    if to_json {
        let (b, what) = content(c, k);
        let kind = c.rng.below(schema::kinds());
        let own = gen_kind_ext(k);
        let other = gen_kind_ext(kind);
        let e = *c.rng.pick(&[own, own, own, other, "nusrcmdlb", "bin", "", "NUMATB", "adjb", "numshexb"]);
        let name = with_ext(&stem(&mut c.rng), e);
        c.seen(&[name.as_bytes(), &b].concat());
        c.sample(|| format!("ssbh_lib_json {name:?}: {what}"));
        let real = Path::new(&name).extension().and_then(|e| e.to_str()).unwrap_or_default().to_string();
        let expect: Result<Vec<u8>, String> = match real.as_str() {
            "adjb" => fmt("Adj").read_bytes(&b).and_then(|v| v.json_string()),
            "numshexb" => fmt("MeshEx").read_bytes(&b).and_then(|v| v.json_string()),
            "json" => return Ok(()),
            _ => SsbhFile::read(&mut std::io::Cursor::new(&b)).map_err(|e| e.to_string()).and_then(|v| serde_json::to_string(&v).map_err(|e| e.to_string())),
        }
        .map(|s| s.into_bytes());
        let st = place(c, &name, &b);
        let default = st.input.parent().unwrap().join(format!("{name}.json"));
        judge(c, "ssbh_lib_json", st, default, expect, true, &what)
    } else {
        let (b, what) = any_json(c, false);
        let name = with_ext(&stem(&mut c.rng), "json");
        c.seen(&[name.as_bytes(), &b].concat());
        c.sample(|| format!("ssbh_lib_json {name:?}: {what}"));
        let text = String::from_utf8(b.clone());
        let mut ext = "";
        let expect: Result<Vec<u8>, String> = match &text {
            Err(e) => Err(e.to_string()),
            Ok(t) => {
                // the type is the one whose reader accepts the text
                if let Ok(s) = serde_json::from_str::<SsbhFile>(t) {
                    let v = unwrap_generic(s);
                    ext = ext_of(v.fmt_name());
                    // bytes as the typed value's own writer gives them
                    v.write_vec().map_err(|e| e.to_string())
                } else if let Ok(v) = (fmt("MeshEx").from_json)(t) {
                    ext = "numshexb";
                    v.write_vec().map_err(|e| e.to_string())
                } else if let Ok(v) = (fmt("Adj").from_json)(t) {
                    ext = "adjb";
                    v.write_vec().map_err(|e| e.to_string())
                } else {
                    Err("no type accepts it".into())
                }
            }
        };
        // valid JSON of a type must be taken for that type
        if let Some(t) = what.strip_prefix("JSON of ") {
            ensure!(ext == ext_of(t), "JSON of {t} is taken for a .{ext} file");
        }
        let st = place(c, &name, &b);
        let s = Path::new(&name).file_stem().unwrap().to_str().unwrap().to_string();
        let default = st.input.parent().unwrap().join(format!("{s}.{ext}"));
        judge(c, "ssbh_lib_json", st, default, expect, false, &what)
    }
}
fn gen_kind_ext(k: usize) -> &'static str {
    let s = schema::schema();
    let n = s.roots.len();
    match k % (n + 2) {
        i if i < n => ext_of(fmt_of_root(i)),
        i if i == n => "numshexb",
        _ => "adjb",
    }
}
fn fmt_of_root(i: usize) -> &'static str {
    let o = GenOpts { json: true, max_array: 1, budget: 2, max_buf: 2, nulls: true };
    gen_file(i, &mut Rng::new(1), o).fmt
}
fn with_ext(stem: &str, e: &str) -> String {
    if e.is_empty() { stem.to_string() } else { format!("{stem}.{e}") }
}
fn c25_data(c: &mut Case) -> R {
    c.count("data_tool_runs", 1);
    let k = c.idx as usize;
    if c.rng.bool() {
        let (b, what, e) = if c.rng.bool() {
            let f = &DFM[c.rng.below(8)];
            let v = crate::gen_data::valid(f.name, &mut c.rng, 6);
            (v.write_vec().unwrap_or_default(), format!("data file {}", f.name), ext_of(f.lib))
        } else {
            let (b, w) = content(c, k);
            (b, w, gen_kind_ext(k))
        };
        let other = ext_of(DFM[c.rng.below(8)].lib);
        let e = *c.rng.pick(&[e, e, e, e, other, "bin", "", "NUMATB", "nulstb"]);
        let name = with_ext(&stem(&mut c.rng), e);
        c.seen(&[name.as_bytes(), &b].concat());
        c.sample(|| format!("ssbh_data_json {name:?}: {what}"));
        let real = Path::new(&name).extension().and_then(|e| e.to_str()).unwrap_or_default().to_string();
        if real == "json" {
            return Ok(());
        }
        let expect = match DFM.iter().find(|f| ext_of(f.lib) == real) {
            Some(f) => match no_panic(|| f.read_bytes(&b)) {
                Ok(x) => x.and_then(|v| v.json_string()).map(|s| s.into_bytes()),
                Err(p) => return viol(format!("{}: panic while reading: {p}", f.name)),
            },
            None => Err("unknown extension".into()),
        };
        let st = place(c, &name, &b);
        let default = st.input.parent().unwrap().join(format!("{name}.json"));
        judge(c, "ssbh_data_json", st, default, expect, true, &what)
    } else {
        let (b, what) = any_json(c, true);
        let name = with_ext(&stem(&mut c.rng), "json");
        c.seen(&[name.as_bytes(), &b].concat());
        c.sample(|| format!("ssbh_data_json {name:?}: {what}"));
        let mut ext = "";
        let expect = match String::from_utf8(b.clone()) {
            Err(e) => Err(e.to_string()),
            Ok(t) => {
                let order = ["MeshData", "SkelData", "AnimData", "ModlData", "MatlData", "HlpbData", "MeshExData", "AdjData"];
                match order.iter().find_map(|n| (dfmt(n).from_json)(&t).ok().map(|v| (dfmt(n), v))) {
                    None => Err("no type accepts it".into()),
                    Some((f, v)) => {
                        ext = ext_of(f.lib);
                        match no_panic(|| v.write_vec()) {
                            Ok(x) => x,
                            Err(p) => return viol(format!("{}: panic while writing: {p}", f.name)),
                        }
                    }
                }
            }
        };
        if let Some(t) = what.strip_prefix("JSON of ") {
            ensure!(ext == ext_of(dfmt(t).lib), "JSON of {t} is taken for a .{ext} file");
        }
        let st = place(c, &name, &b);
        let s = Path::new(&name).file_stem().unwrap().to_str().unwrap().to_string();
        let default = st.input.parent().unwrap().join(format!("{s}.{ext}"));
        judge(c, "ssbh_data_json", st, default, expect, false, &what)
    }
}
/// The batch tool over a folder of good, unusual and broken files.
fn c25_batch(c: &mut Case) -> R {
    let s = Scratch::new();
    // a folder whose name looks like a file's, or a value that can be read but not written, meets known findings
    let rare = c.rng.chance(1, 20);
    let root = s.path(*c.rng.pick(&["dump", "du mp", if rare { "dump.numatb" } else { "dump.d" }, "d[u]mp"]));
    std::fs::create_dir(&root).unwrap();
    let n = c.rng.range(1, 30);
    let mut want: BTreeMap<PathBuf, &'static str> = BTreeMap::new();
    let mut ignored = 0;
    let mut unwritable = false;
    for i in 0..n {
        let k = c.rng.below(schema::kinds());
        let o = opts(&mut c.rng);
        let (b, own) = if c.rng.chance(1, 4) {
            let rf = gen_loose(k, &mut c.rng, o);
            (rf.loose, gen_kind_ext(k))
        } else {
            let (b, _) = content(c, k);
            (b, gen_kind_ext(k))
        };
        let (mut b, mut own) = (b, own);
        if i == 0 && c.idx % 64 == 5 {
            // no entries but flags for some: readable, not writable
            let rf = crate::schema::gen_file((0..schema::kinds()).find(|k| gen_kind_ext(*k) == "numshexb").unwrap(), &mut c.rng, schema::GenOpts { json: true, max_array: 4, budget: 30, max_buf: 10, nulls: false });
            (b, own) = (rf.bytes, "numshexb");
            b[32..40].fill(0);
        }
        let e = match c.rng.below(8) {
            0 => gen_kind_ext(c.rng.below(schema::kinds())),
            1 => *c.rng.pick(&["txt", "json", "bin", ""]),
            _ => own,
        };
        let mut dir = root.clone();
        for _ in 0..c.rng.below(3) {
            dir = dir.join(*c.rng.pick(&["fighter", "a b", "c.d", "日本", if rare { "x.numshb" } else { "x.d" }]));
        }
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join(with_ext(&format!("{}{i}", stem(&mut c.rng)), e));
        let Some(real) = p.extension().and_then(|x| x.to_str()) else { continue };
        let real = real.to_string();
        std::fs::write(&p, &b).unwrap();
        let mut rewrite = |r: Result<BoxVal, String>| -> &'static str {
            match r {
                Err(_) => "Error reading",
                Ok(v) => match v.write_vec() {
                    Ok(w) if w == b => "",
                    Ok(_) => "Read/write not 1:1 for",
                    Err(_) => {
                        unwritable = true;
                        "Read/write not 1:1 for"
                    }
                },
            }
        };
        let verdict = match real.as_str() {
            "adjb" => rewrite(fmt("Adj").read_bytes(&b)),
            "numshexb" => rewrite(fmt("MeshEx").read_bytes(&b)),
            x if FORMATS.iter().any(|f| f.magic.is_some() && ext_of(f.name) == x) => rewrite(read_generic(&mut std::io::Cursor::new(&b))),
            _ => {
                ignored += 1;
                ""
            }
        };
        c.count(if verdict.is_empty() { "batch_good_files" } else { "batch_bad_files" }, 1);
        if !verdict.is_empty() {
            want.insert(p, verdict);
        }
        c.seen(&b);
    }
    c.sample(|| format!("ssbh_test on {n} files, {} to be reported, {ignored} of other kinds", want.len()));
    c.count("batch_runs", 1);
    let before = tree(&root);
    let r = run(Command::new(tool("ssbh_test")).arg(&root));
    ensure!(before == tree(&root), "ssbh_test changed the files");
    if r.code == Some(101) && r.err.contains("Is a directory") && before.keys().any(|p| p.is_dir() && matches!(p.extension().and_then(|x| x.to_str()), Some("numshb" | "numatb"))) {
        return c.known("batch-unreadable-panic", "ssbh_test panics on a path it can't read, such as a folder named x.numshb, instead of reporting it and going on".into());
    }
    if r.code == Some(101) && unwritable {
        return c.known("batch-unwritable-panic", "ssbh_test panics on a readable numshexb file that can't be written (flag count differing from the entry count)".into());
    }
    ensure!(!r.crashed() && r.code == Some(0), "ssbh_test failed: {:?} {:?} {}", r.code, r.signal, r.err);
    let mut got: Vec<String> = r.out.lines().filter(|l| !l.starts_with("Finished in ")).map(|l| l.to_string()).collect();
    let mut exp: Vec<String> = want.iter().map(|(p, v)| format!("{v} {p:?}")).collect();
    got.sort();
    exp.sort();
    // directories whose names look like files are not files
    got.retain(|l| !l.ends_with("x.numshb\"") && !l.ends_with("dump.numatb\""));
    for l in exp.clone() {
        if !got.contains(&l) && l.ends_with(".nulstb\"") {
            exp.retain(|x| *x != l);
            c.known("batch-skips-nulstb", "ssbh_test skips nulstb files, so broken ones are not reported".into())?;
            continue;
        }
        ensure!(got.contains(&l), "ssbh_test does not report: {l}");
    }
    for l in &got {
        ensure!(exp.contains(l), "ssbh_test reports: {l}");
    }
    ensure!(got.len() == exp.len(), "ssbh_test reports a file twice: {got:?}");
    Ok(())
}
/// Argument forms: no arguments, too many, missing input, a directory, odd names, a full device.
fn c25_args(c: &mut Case) -> R {
    let s = Scratch::new();
    let bin = *c.rng.pick(&["ssbh_lib_json", "ssbh_data_json", "ssbh_test"]);
    let f = &DFM[c.rng.below(8)];
    let v = crate::gen_data::valid(f.name, &mut c.rng, 4);
    let p = s.path(&format!("in.{}", ext_of(f.lib)));
    std::fs::write(&p, v.write_vec().unwrap_or_default()).unwrap();
    let form = c.idx % 8;
    c.seen(&[bin.as_bytes(), &[form as u8]].concat());
    let mut k = Command::new(tool(bin));
    k.current_dir(&s.0);
    let before = tree(&s.0);
    let mut want_fail = true;
    match form {
        0 => {}
        1 => {
            k.args(["a", "b", "c"]);
        }
        2 => {
            k.arg("missing.numatb");
            want_fail = bin != "ssbh_test";
        }
        3 => {
            std::fs::create_dir(s.path("dir.numatb")).unwrap();
            k.arg("dir.numatb");
            want_fail = bin != "ssbh_test";
        }
        4 => {
            use std::os::unix::ffi::OsStrExt;
            k.arg(std::ffi::OsStr::from_bytes(b"\xff\xfe.numatb"));
        }
        5 => {
            k.arg("--help");
            want_fail = false;
        }
        6 => {
            k.arg("--version");
            want_fail = false;
        }
        _ => {
            // no space left
            if bin == "ssbh_test" {
                return Ok(());
            }
            k.arg(&p).arg("/dev/full");
        }
    }
    let r = run(&mut k);
    c.sample(|| format!("{bin} argument form {form}"));
    let crashed = r.crashed();
    ensure!(!crashed, "{bin} argument form {form} crashed: {:?} {}", r.code, r.err);
    ensure!((r.code != Some(0)) == want_fail, "{bin} argument form {form} exits with {:?}: {}", r.code, r.err);
    let mut after = tree(&s.0);
    after.retain(|p, _| !p.ends_with("dir.numatb"));
    ensure!(before == after, "{bin} argument form {form} changed files");
    Ok(())
}
