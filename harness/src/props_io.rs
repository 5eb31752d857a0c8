//! C21 (I/O faults) and C22 (determinism).
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::gen_data::{valid, valid_or_wide};
use crate::io::*;
use crate::lib_formats::*;
use crate::props_lib::*;
use crate::schema;
use std::io::{Cursor, ErrorKind};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            level: "exploration",
            rule: "distinct (file or value, operation, fault) runs in which a fault was actually delivered to the code under test, plus runs over streams that split or interrupt transfers",
            assumptions: &["a fault is permanent (device gone) or a single failed operation; kinds: other, timed out, would block, permission denied, invalid input, broken pipe", "reading: a failed operation that the code retried successfully after Interrupted is not a failure"],
            must: &["read_faults", "write_faults", "zero_writes", "split_reads", "split_writes", "interrupted", "data_read_faults", "data_write_faults", "save_failures", "saves_over_longer_file", "unwritable_kept_file"],
            units: vec![
                unit("read_faults", 3_000, 120_000, c21_read),
                unit("write_faults", 3_000, 120_000, c21_write),
                unit("split", 20_000, 800_000, c21_split),
                unit("files", 3_000, 60_000, c21_files),
            ],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "distinct subjects (a file of any kind, a high-level value, a mesh with its derived data) whose complete sequence of results (values, bytes, JSON, errors) was computed several times and compared: in one process between other work and failing calls, on several threads at once, and in separate processes with other environments, directories and address layouts",
            assumptions: &["results are compared as debug text, output bytes and JSON text"],
            must: &["rereads", "rereads_same_length", "rereads_shorter", "repeated", "steps_compared", "concurrent_traces", "threads_started", "processes_compared", "failing_steps", "inputs_unchanged", "lib_subjects", "data_subjects", "derived_subjects", "damaged_subjects", "v12_subjects", "foreign_subjects", "shader_subjects"],
            units: vec![
                unit("repeat", 20_000, 1_000_000, c22_repeat),
                unit("threads", 150, 6_000, c22_threads),
                unit("processes", 24, 400, c22_processes),
                unit("rereads", 2_500, 60_000, c22_rereads),
            ],
        },
    ]
}
// (UnexpectedEof is how the end of the data is reported, so it is not a fault.)
const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::BrokenPipe, ErrorKind::Interrupted, ErrorKind::NotFound, ErrorKind::InvalidData, ErrorKind::WriteZero, ErrorKind::ConnectionReset, ErrorKind::AlreadyExists, ErrorKind::OutOfMemory, ErrorKind::Unsupported];
/// Standard library loops repeat interrupted transfers for ever, so only single interruptions are injected.
fn kind(r: &mut Rng, permanent: bool) -> ErrorKind {
    loop {
        let k = *r.pick(KINDS);
        if !(permanent && k == ErrorKind::Interrupted) {
            return k;
        }
    }
}

/// A subject for reading: name, bytes and the reader.
enum Reader {
    Lib(&'static Fmt),
    Generic,
    Data(&'static DFmt),
    Shaders,
    ShaderMeta,
}
impl Reader {
    fn name(&self) -> String {
        match self {
            Reader::Lib(f) => f.name.into(),
            Reader::Generic => "generic".into(),
            Reader::Data(f) => f.name.into(),
            Reader::Shaders => "ShdrData".into(),
            Reader::ShaderMeta => "MetaData".into(),
        }
    }
    /// Debug text of what was read.
    fn read(&self, r: &mut dyn RS) -> Result<String, String> {
        match self {
            Reader::Lib(f) => (f.read)(r).map(|v| v.debug()),
            Reader::Generic => read_generic(r).map(|v| v.debug()),
            Reader::Data(f) => (f.read)(r).map(|v| v.debug()),
            Reader::Shaders => {
                let mut r = r;
                ssbh_data::prelude::ShdrData::read(&mut r).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
            }
            Reader::ShaderMeta => {
                let mut r = r;
                ssbh_data::shdr_data::MetaData::read(&mut r).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
            }
        }
    }
}
fn read_subject(c: &mut Case) -> (Reader, Vec<u8>) {
    let k = c.rng.below(schema::kinds());
    let rf = if c.rng.chance(1, 4) {
        let o = schema::opts(&mut c.rng, false);
        schema::gen_file(k, &mut c.rng, o)
    } else {
        small_ref(c, k)
    };
    if c.rng.chance(1, 12) {
        let g = crate::props_shdr::gen(&mut c.rng, 3);
        if c.rng.bool() {
            return (Reader::ShaderMeta, g.bytes);
        }
        let s = ssbh_lib::formats::shdr::Shader { name: "a".into(), shader_stage: ssbh_lib::formats::shdr::ShaderStage::Vertex, unk3: 2, binary_size: g.bytes.len() as u64, shader_binary: g.bytes.into() };
        let mut w = Cursor::new(vec![]);
        ssbh_lib::formats::shdr::Shdr::V12 { shaders: vec![s].into() }.write(&mut w).unwrap();
        return (Reader::Shaders, w.into_inner());
    }
    match c.rng.below(3) {
        0 if fmt(rf.fmt).magic.is_some() => (Reader::Generic, rf.bytes),
        1 => {
            let f = c.rng.pick(&DFM).name;
            let f = dfmt(f);
            let n = c.rng.range(1, 6);
            let d = valid(f.name, &mut c.rng, n);
            (Reader::Data(f), d.write_vec().unwrap_or_default())
        }
        _ => (Reader::Lib(fmt(rf.fmt)), rf.bytes),
    }
}
/// All of 0..n when small, otherwise the ends and a random selection.
fn points(r: &mut Rng, n: u64, max: usize) -> Vec<u64> {
    if n as usize <= max {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..max as u64 / 4).chain(n - max as u64 / 4..n).collect();
    v.extend((0..max / 2).map(|_| r.below(n as usize) as u64));
    v
}
fn c21_read(c: &mut Case) -> R {
    let (rd, b) = read_subject(c);
    c.artifact = b.clone();
    let mut p = Probe::new(&b);
    p.count_pos_queries = c.rng.bool();
    let queries = p.count_pos_queries;
    let Ok(want) = rd.read(&mut p) else { return Ok(()) };
    let n = p.op;
    c.max("operations_per_read", n);
    for i in points(&mut c.rng, n, 120) {
        for transient in [false, true] {
            let kind = kind(&mut c.rng, !transient);
            let mut p = Probe::new(&b);
            p.fail_at = Some(i);
            p.transient = transient;
            p.fail_kind = kind;
            p.count_pos_queries = queries;
            let r = no_panic(|| rd.read(&mut p));
            c.eval(1);
            let what = || format!("{}: {} fault ({kind:?}) at operation {i} of {n}", rd.name(), if transient { "single" } else { "permanent" });
            match r {
                Err(e) => return viol(format!("{}: panicked: {e}", what())),
                // trying the next alternative after a single fault may find the right one
                Ok(Ok(v)) if p.failed && transient && v == want => c.count("single_faults_recovered", 1),
                Ok(Ok(v)) if p.failed => return viol(format!("{}: reported success{}", what(), if v == want { "" } else { " with a value built from partial data" })),
                Ok(Ok(_)) => return viol(format!("{}: the operation was not repeated", what())),
                Ok(Err(_)) => ensure!(p.failed, "{}: failed without a fault", what()),
            }
            c.count(if matches!(rd, Reader::Lib(_) | Reader::Generic) { "read_faults" } else { "data_read_faults" }, 1);
        }
    }
    c.seen(&b);
    Ok(())
}
enum Writer {
    Lib(BoxVal),
    Generic(Vec<u8>),
    Data(BoxData),
}
impl Writer {
    fn name(&self) -> String {
        match self {
            Writer::Lib(v) => v.fmt_name().into(),
            Writer::Generic(_) => "generic".into(),
            Writer::Data(d) => d.debug().chars().take(12).collect(),
        }
    }
    fn write(&self, w: &mut dyn WS) -> Result<(), String> {
        match self {
            Writer::Lib(v) => v.write_to(w).map_err(|e| e.to_string()),
            Writer::Generic(b) => {
                let mut w = w;
                ssbh_lib::SsbhFile::read(&mut Cursor::new(b)).map_err(|e| e.to_string())?.write(&mut w).map_err(|e| e.to_string())
            }
            Writer::Data(d) => d.write_to(w),
        }
    }
    fn write_file(&self, p: &std::path::Path) -> Result<(), String> {
        match self {
            Writer::Lib(v) => v.write_file(p).map_err(|e| e.to_string()),
            Writer::Generic(b) => ssbh_lib::SsbhFile::read(&mut Cursor::new(b)).map_err(|e| e.to_string())?.write_to_file(p).map_err(|e| e.to_string()),
            Writer::Data(d) => d.write_file(p),
        }
    }
}
fn write_subject(c: &mut Case) -> Writer {
    match c.rng.below(4) {
        0 => {
            let f = c.rng.pick(&DFM).name;
            let n = c.rng.range(1, 6);
            Writer::Data(valid(f, &mut c.rng, n))
        }
        1 => loop {
            let f = c.rng.pick(&FM).name;
            if let Some(v) = arb_val(fmt(f), &mut c.rng, 600) {
                if writable(fmt(f), &*v) {
                    break Writer::Lib(v);
                }
            }
        },
        k => {
            let kind = c.rng.below(schema::kinds());
            let rf = small_ref(c, kind);
            match (fmt(rf.fmt).magic, k) {
                (Some(_), 2) => Writer::Generic(rf.bytes),
                _ => Writer::Lib(fmt(rf.fmt).read_bytes(&rf.bytes).unwrap_or_else(|e| panic!("{e}"))),
            }
        }
    }
}
fn c21_write(c: &mut Case) -> R {
    let wr = write_subject(c);
    let mut w = FaultWriter::new();
    w.count_pos_queries = c.rng.bool();
    let queries = w.count_pos_queries;
    if wr.write(&mut w).is_err() {
        return Ok(());
    }
    let n = w.op;
    let want = w.inner.into_inner();
    c.artifact = want.clone();
    c.max("operations_per_write", n);
    for i in points(&mut c.rng, n, 120) {
        for mode in 0..3 {
            let kind = kind(&mut c.rng, mode == 0);
            let mut w = FaultWriter::new();
            w.fail_at = Some(i);
            w.transient = mode != 0;
            w.zero_write = mode == 2;
            w.kind = kind;
            w.count_pos_queries = queries;
            let r = no_panic(|| wr.write(&mut w));
            c.eval(1);
            let what = || format!("{}: {} ({kind:?}) at operation {i} of {n}", wr.name(), ["permanent fault", "single fault", "zero-length write"][mode]);
            match r {
                Err(e) => return viol(format!("{}: panicked: {e}", what())),
                // an interrupted transfer is repeated
                Ok(Ok(())) if w.failed && kind == ErrorKind::Interrupted && mode == 1 && w.inner.get_ref() == &want => c.count("interruptions_repeated", 1),
                Ok(Ok(())) if w.failed => return viol(format!("{}: reported success{}", what(), if w.inner.get_ref() == &want { "" } else { " with wrong output" })),
                Ok(Ok(())) => return viol(format!("{}: the operation was not repeated", what())),
                Ok(Err(_)) => ensure!(w.failed, "{}: failed without a fault", what()),
            }
            c.count(if matches!(wr, Writer::Data(_)) { "data_write_faults" } else { "write_faults" }, 1);
            if mode == 2 {
                c.count("zero_writes", 1);
            }
        }
    }
    // a device that is full after some bytes
    for _ in 0..4 {
        if want.len() < 2 {
            break;
        }
        let mut w = FaultWriter::new();
        w.byte_limit = c.rng.below(want.len() - 1) as u64;
        let r = no_panic(|| wr.write(&mut w));
        match r {
            Err(e) => return viol(format!("{}: a full device caused a panic: {e}", wr.name())),
            Ok(Ok(())) => ensure!(!w.failed, "{}: a full device was reported as success", wr.name()),
            Ok(Err(_)) => {}
        }
    }
    c.seen(&want);
    Ok(())
}
fn c21_split(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        let (rd, b) = read_subject(c);
        c.artifact = b.clone();
        let Ok(want) = rd.read(&mut Cursor::new(&b)) else { return Ok(()) };
        c.seen(&b);
        for _ in 0..3 {
            let mut p = Probe::new(&b);
            p.max_chunk = *c.rng.pick(&[1usize, 2, 3, 5, 7, 16, 100]);
            p.interrupt_every = *c.rng.pick(&[0u64, 2, 3, 5]);
            let (chunk, every) = (p.max_chunk, p.interrupt_every);
            match no_panic(|| rd.read(&mut p)) {
                Err(e) => return viol(format!("{}: short reads caused a panic: {e}", rd.name())),
                Ok(Err(e)) => return viol(format!("{}: reading {chunk} bytes at a time (interrupted every {every}) failed: {e}", rd.name())),
                Ok(Ok(v)) => ensure!(v == want, "{}: reading {chunk} bytes at a time gives another value", rd.name()),
            }
            c.count("split_reads", 1);
            if every > 0 {
                c.count("interrupted", 1);
            }
        }
        return Ok(());
    }
    let wr = write_subject(c);
    let mut w = Cursor::new(vec![]);
    if wr.write(&mut w).is_err() {
        return Ok(());
    }
    let want = w.into_inner();
    c.artifact = want.clone();
    c.seen(&want);
    for _ in 0..3 {
        let mut w = FaultWriter::new();
        w.max_chunk = *c.rng.pick(&[1usize, 2, 3, 5, 7, 16, 100]);
        w.interrupt_every = *c.rng.pick(&[0u64, 2, 3, 5]);
        let (chunk, every) = (w.max_chunk, w.interrupt_every);
        match no_panic(|| wr.write(&mut w)) {
            Err(e) => return viol(format!("{}: short writes caused a panic: {e}", wr.name())),
            Ok(Err(e)) => return viol(format!("{}: writing {chunk} bytes at a time (interrupted every {every}) failed: {e}", wr.name())),
            Ok(Ok(())) => ensure!(w.inner.get_ref() == &want, "{}: writing {chunk} bytes at a time gives other bytes", wr.name()),
        }
        c.count("split_writes", 1);
        if every > 0 {
            c.count("interrupted", 1);
        }
    }
    let mut w = RecWriter::default();
    wr.write(&mut w).map_err(|e| Viol { msg: e, known: None })?;
    ensure!(w.data == want, "{}: a plain stream receives other bytes", wr.name());
    // an output that already has contents, and one that starts later in the stream's buffer
    let mut w = Cursor::new(vec![0xee; want.len()]);
    wr.write(&mut w).map_err(|e| Viol { msg: e, known: None })?;
    ensure!(w.get_ref()[..24.min(want.len())] == want[..24.min(want.len())], "{}: existing contents change the header", wr.name());
    Ok(())
}
fn c21_files(c: &mut Case) -> R {
    let wr = write_subject(c);
    let mut w = Cursor::new(vec![]);
    if wr.write(&mut w).is_err() {
        return Ok(());
    }
    let want = w.into_inner();
    c.artifact = want.clone();
    c.seen(&want);
    let s = Scratch::new();
    let p = s.path("file.bin");
    // new file, longer existing file, shorter existing file
    for old in [None, Some(want.len() + c.rng.range(1, 5000)), Some(want.len() / 2)] {
        match old {
            Some(n) => std::fs::write(&p, vec![0xaa; n]).unwrap(),
            None => {}
        }
        match no_panic(|| wr.write_file(&p)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol(format!("{}: saving failed: {e}", wr.name())),
            Err(e) => return viol(format!("{}: saving panicked: {e}", wr.name())),
        }
        ensure!(std::fs::read(&p).unwrap() == want, "{}: the saved file differs from the written bytes (over {old:?} bytes)", wr.name());
        c.count("saves_over_longer_file", old.is_some_and(|n| n > want.len()) as u64);
    }
    // places that cannot be saved to
    let dir = s.path("dir");
    std::fs::create_dir(&dir).unwrap();
    let under_file = p.join("x.bin");
    let full = std::path::PathBuf::from("/dev/full");
    for bad in [dir.as_path(), &s.path("missing/x.bin"), &under_file, &full] {
        if bad == full && !bad.exists() {
            continue;
        }
        match no_panic(|| wr.write_file(bad)) {
            Ok(Err(_)) => c.count("save_failures", 1),
            Ok(Ok(())) if want.is_empty() => {}
            Ok(Ok(())) => return viol(format!("{}: saving to {} reported success", wr.name(), bad.display())),
            Err(e) => return viol(format!("{}: saving to {} panicked: {e}", wr.name(), bad.display())),
        }
    }
    ensure!(dir.is_dir() && !s.path("missing").exists(), "saving to an impossible place changed the directory");
    // places that cannot be read
    for bad in [dir.as_path(), &s.path("missing.bin"), &under_file] {
        for f in FM.iter() {
            match no_panic(|| (f.read_file)(bad).map(|_| ())) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => return viol(format!("{}: reading {} reported success", f.name, bad.display())),
                Err(e) => return viol(format!("{}: reading {} panicked: {e}", f.name, bad.display())),
            }
        }
        for f in DFM.iter() {
            match no_panic(|| (f.read_file)(bad).map(|_| ())) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => return viol(format!("{}: reading {} reported success", f.name, bad.display())),
                Err(e) => return viol(format!("{}: reading {} panicked: {e}", f.name, bad.display())),
            }
        }
        ensure!(ssbh_lib::SsbhFile::from_file(bad).is_err() && ssbh_data::prelude::ShdrData::from_file(bad).is_err() && ssbh_data::shdr_data::MetaData::from_file(bad).is_err(), "reading {} reported success", bad.display());
        c.count("open_failures", 1);
    }
    // a low-level value that cannot be serialised
    let m = loop {
        if let Some(v) = arb_val(fmt("MeshEx"), &mut c.rng, 800) {
            if !writable(fmt("MeshEx"), &*v) {
                break v;
            }
        }
    };
    let old = c.rng.bytes(200);
    std::fs::write(&p, &old).unwrap();
    match no_panic(|| m.write_file(&p)) {
        Ok(Err(_)) => ensure!(std::fs::read(&p).unwrap() == old, "an extended mesh that cannot be written destroyed the existing file"),
        Ok(Ok(())) => return viol("an extended mesh with differing entry and flag counts was written"),
        Err(e) => return viol(format!("saving panicked: {e}")),
    }
    ensure!(m.write_file(&s.path("new.bin")).is_err() && !s.path("new.bin").exists(), "an extended mesh that cannot be written created a file");
    c.count("unwritable_kept_file", 1);
    Ok(())
}

// ---------------------------------------------------------------- C22
/// Every result of one subject, in order: (step, hash of the result, whether it is an error).
type Trace = Vec<(&'static str, u64, bool)>;
pub struct Traced {
    trace: Trace,
    kind: &'static str,
    bytes: Vec<u8>,
    changed: Option<String>,
    unchanged: u64,
}
fn trace(seed: u64) -> Traced {
    let mut r = Rng::new(seed);
    let mut t = Traced { trace: vec![], kind: "", bytes: vec![], changed: None, unchanged: 0 };
    fn put<T: AsRef<[u8]>>(t: &mut Traced, step: &'static str, v: Result<T, String>) -> Option<T> {
        let h = match &v {
            Ok(v) => hash64(v.as_ref()),
            Err(e) => hash64(e.as_bytes()) ^ 1,
        };
        t.trace.push((step, h, v.is_err()));
        v.ok()
    }
    fn lib_steps(t: &mut Traced, v: &dyn LibVal) {
        let before = v.debug();
        let b = put(t, "write", v.write_vec().map_err(|e| e.to_string()));
        put(t, "json", v.json_string());
        if let Some(d) = dfmt_for_lib(v.fmt_name()) {
            if let Ok(d) = (d.from_lib)(v).map_err(|e| put(t, "convert", Err::<String, _>(e))) {
                data_steps(t, &*d);
            }
        }
        if let Some(b) = b {
            put(t, "reread", fmt(v.fmt_name()).read_bytes(&b).map(|v| v.debug()));
        }
        same(t, before, v.debug(), "a low-level value");
    }
    fn same(t: &mut Traced, a: String, b: String, what: &str) {
        t.unchanged += 1;
        if a != b {
            t.changed = Some(format!("{what} changed while it was written or converted"));
        }
    }
    fn data_steps(t: &mut Traced, d: &dyn DataVal) {
        let before = d.debug();
        put(t, "data value", Ok(before.clone()));
        put(t, "data write", d.write_vec());
        put(t, "data json", d.json_string());
        put(t, "data to file value", d.to_lib().map(|v| v.debug()));
        same(t, before, d.debug(), "a high-level value");
    }
    match r.below(10) {
        8 => {
            // tracks of other programs: any widths, ranges, rotations that are not unit quaternions
            t.kind = "foreign_subjects";
            let a = crate::props_anim::foreign_anim(&mut r);
            let v: BoxVal = Box::new(a);
            t.bytes = v.write_vec().unwrap_or_default();
            lib_steps(&mut t, &*v);
        }
        9 => {
            t.kind = "shader_subjects";
            let g = crate::props_shdr::gen(&mut r, 4);
            let mut b = g.bytes;
            if r.chance(1, 3) {
                crate::mutate::mutate(&mut b, &mut r, &[]);
            }
            t.bytes = b.clone();
            put(&mut t, "shader metadata", ssbh_data::shdr_data::MetaData::read(&mut Cursor::new(&b)).map(|v| format!("{v:?}")).map_err(|e| e.to_string()));
        }
        0..=2 => {
            let k = r.below(schema::kinds());
            let o = schema::opts(&mut r, false);
            let rf = schema::gen_file(k, &mut r, o);
            let mut b = rf.bytes.clone();
            t.kind = if rf.fmt == "Anim" && b[20..22] == [1, 0] { "v12_subjects" } else { "lib_subjects" };
            if r.chance(1, 3) {
                t.kind = "damaged_subjects";
                let f = all_fields(&rf);
                crate::mutate::mutate(&mut b, &mut r, &f);
            }
            t.bytes = b.clone();
            let f = fmt(rf.fmt);
            if let Ok(v) = f.read_bytes(&b).map_err(|e| put(&mut t, "read", Err::<String, _>(e))) {
                put(&mut t, "read", Ok(v.debug()));
                lib_steps(&mut t, &*v);
            }
            put(&mut t, "generic read", read_generic(&mut Cursor::new(&b)).map(|v| v.debug()));
        }
        3 => {
            // animations of version 1.2 whose buffers can be converted
            t.kind = "v12_subjects";
            let v = v12(&mut r);
            t.bytes = v.write_vec().unwrap_or_default();
            lib_steps(&mut t, &*v);
        }
        4 | 5 => {
            t.kind = "data_subjects";
            let f = r.pick(&DFM).name;
            let n = r.range(1, 10);
            let d = valid_or_wide(f, &mut r, n);
            data_steps(&mut t, &*d);
            if let Ok(b) = d.write_vec() {
                t.bytes = b.clone();
                put(&mut t, "data read", dfmt(f).read_bytes(&b).map(|d| d.debug()));
            }
        }
        6 => {
            // unchecked values, most of which some step rejects
            t.kind = "data_subjects";
            if let Some(d) = arb_data(r.pick(&DFM), &mut r, 2000) {
                data_steps(&mut t, &*d);
                t.bytes = d.debug().into_bytes();
            }
        }
        _ => {
            use ssbh_data::adj_data::{AdjData, AdjEntryData};
            use ssbh_data::mesh_data::*;
            use ssbh_data::meshex_data::MeshExData;
            t.kind = "derived_subjects";
            let mut o = crate::gen_data::MESH_SMALL;
            o.max_objects = 4;
            let m = crate::gen_data::mesh(&mut r, &o);
            t.bytes = format!("{m:?}").into_bytes();
            let before = format!("{m:?}");
            let adj = AdjData { entries: m.objects.iter().enumerate().map(|(i, o)| AdjEntryData::from_mesh_object(i, o)).collect() };
            data_steps(&mut t, &adj);
            data_steps(&mut t, &MeshExData::from_mesh_objects(&m.objects));
            for o in &m.objects {
                if let (Some(p), Some(n), Some(uv)) = (o.positions.first(), o.normals.first(), o.texture_coordinates.first()) {
                    let normals = calculate_smooth_normals(&p.data, &o.vertex_indices);
                    put(&mut t, "normals", Ok(format!("{normals:?}")));
                    put(&mut t, "tangents", calculate_tangents_vec4(&p.data, &n.data, &uv.data, &o.vertex_indices).map(|v| format!("{v:?}")).map_err(|e| e.to_string()));
                }
            }
            same(&mut t, before, format!("{m:?}"), "a mesh");
        }
    }
    t
}
/// A version 1.2 animation with several tracks and buffers of the known headers.
pub fn v12(r: &mut Rng) -> BoxVal {
    use serde_json::json;
    let n = r.range(1, 6);
    let buffers: Vec<String> = (0..n)
        .map(|_| {
            let h = *r.pick(&[0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409]);
            let mut b = h.to_le_bytes().to_vec();
            b.extend(1u32.to_le_bytes());
            b.extend((0..120).map(|_| r.below(3) as u8));
            hex(&b)
        })
        .collect();
    let k = r.below(8);
    let tracks: Vec<_> = (0..k)
        .map(|i| {
            let p: Vec<_> = (0..r.range(1, 3)).map(|_| json!({"name": *r.pick(&["Translate", "Rotate", "Scale", "Visibility"]), "buffer_index": r.below(n)})).collect();
            json!({"name": format!("t{}", i % 3), "track_type": *r.pick(&["Transform", "UvTransform", "Visibility"]), "properties": p})
        })
        .collect();
    let j = json!({"V12": {"name": "", "unk1": 0.0, "final_frame_index": 1.0, "unk2": 0.0, "unk3": 0.0, "tracks": tracks, "buffers": buffers}});
    (fmt("Anim").from_json)(&j.to_string()).unwrap_or_else(|e| panic!("{e}"))
}
fn compare(a: &Trace, b: &Trace, how: &str) -> R {
    for (x, y) in a.iter().zip(b) {
        ensure!(x == y, "{how}: step '{}' gave {} and then {}", x.0, if x.2 { "an error" } else { "a result" }, if y.2 { "another error" } else { "another result" });
    }
    ensure!(a.len() == b.len(), "{how}: {} steps and then {}", a.len(), b.len());
    Ok(())
}
fn note(c: &mut Case, t: &Traced) -> R {
    if let Some(e) = &t.changed {
        return viol(e.clone());
    }
    c.artifact = t.bytes.clone();
    c.seen(&t.bytes);
    c.count(t.kind, 1);
    c.count("inputs_unchanged", t.unchanged);
    c.count("steps_compared", t.trace.len() as u64);
    c.count("failing_steps", t.trace.iter().filter(|s| s.2).count() as u64);
    Ok(())
}
fn traced(seed: u64) -> Result<Traced, Viol> {
    no_panic(|| trace(seed)).map_err(|e| Viol { msg: format!("panicked: {e}"), known: None })
}
/// Nothing may be printed. Workers have a file in place of standard output and standard error.
fn quiet() -> R {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    if let Ok(m) = std::fs::metadata("/proc/self/fd/2") {
        if m.is_file() && m.len() > 0 {
            let t = std::fs::read("/proc/self/fd/2").unwrap_or_default();
            return viol(format!("reading, converting or writing printed: {}", String::from_utf8_lossy(&t[..t.len().min(200)])));
        }
    }
    Ok(())
}
fn c22_repeat(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let a = traced(seed)?;
    note(c, &a)?;
    for i in 0..3 {
        // other work, failing calls and other allocations in between
        if i > 0 {
            traced(c.rng.u64())?;
        }
        let n = c.rng.below(3000);
        let junk = c.rng.bytes(n);
        for f in FM.iter() {
            let _ = no_panic(|| f.read_bytes(&junk).is_ok());
        }
        let b = traced(seed)?;
        compare(&a.trace, &b.trace, "repeated in one process")?;
        drop(junk);
        c.count("repeated", 1);
    }
    c.count("silent", 1);
    quiet()
}
fn c22_threads(c: &mut Case) -> R {
    let seeds: Vec<u64> = (0..16).map(|_| c.rng.u64()).collect();
    let want: Vec<Traced> = seeds.iter().map(|s| traced(*s)).collect::<Result<_, _>>()?;
    for w in &want {
        note(c, w)?;
    }
    let threads = 6;
    let start = std::sync::Barrier::new(threads);
    let results: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..threads)
            .map(|k| {
                let (seeds, start) = (&seeds, &start);
                // each thread in its own order: rotated, or all on the same subject at once
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                    start.wait();
                    let n = seeds.len();
                    (0..n)
                        .map(|i| {
                            let i = if k % 2 == 0 { i } else { (i * 5 + k) % n };
                            (i, no_panic(|| trace(seeds[i])))
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        h.into_iter().map(|h| h.unwrap().join().unwrap()).collect()
    });
    c.count("threads_started", threads as u64);
    for v in results {
        for (i, t) in v {
            let t = t.map_err(|e| Viol { msg: format!("panicked on a thread: {e}"), known: None })?;
            c.artifact = want[i].bytes.clone();
            compare(&want[i].trace, &t.trace, "on several threads at once")?;
            c.count("concurrent_traces", 1);
        }
    }
    quiet()
}
/// Prints the traces of some subjects, for comparison between processes.
pub fn digest(seed: u64, n: u64) {
    install_hook();
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let s = r.u64();
        match no_panic(|| trace(s)) {
            Ok(t) => println!("{s} {}", t.trace.iter().map(|t| format!("{}:{:016x}", t.0, t.1)).collect::<Vec<_>>().join(",")),
            Err(e) => println!("{s} panicked {e}"),
        }
    }
}
fn c22_processes(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let n = 200u64;
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let t = traced(r.u64())?;
        note(c, &t)?;
    }
    let s = Scratch::new();
    let exe = std::env::current_exe().unwrap();
    let mut first: Option<String> = None;
    for k in 0..3 {
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["digest", &seed.to_string(), &n.to_string()]);
        match k {
            1 => {
                cmd.env_clear().env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("PADDING", "x".repeat(3000)).current_dir(s.path("."));
            }
            2 => {
                cmd.env("LC_ALL", "C").env("HOME", "/nonexistent").env("RUST_LOG", "trace").env("MALLOC_PERTURB_", "165").env("MALLOC_ARENA_MAX", "1").current_dir("/");
            }
            _ => {}
        }
        let o = cmd.output().map_err(|e| Viol { msg: format!("harness: {e}"), known: None })?;
        ensure!(o.status.success(), "a separate process failed: {}: {}", o.status, String::from_utf8_lossy(&o.stderr));
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        ensure!(text.lines().count() >= n as usize, "a separate process stopped early");
        ensure!(text.lines().count() == n as usize && o.stderr.is_empty(), "reading or converting printed something: {}", text.lines().find(|l| !l.starts_with(|c: char| c.is_ascii_digit())).map(|s| s.to_string()).unwrap_or(String::from_utf8_lossy(&o.stderr).to_string()));
        match &first {
            None => first = Some(text),
            Some(f) => {
                for (a, b) in f.lines().zip(text.lines()) {
                    if a != b {
                        let d = a.split([',', ' ']).zip(b.split([',', ' '])).find(|(x, y)| x != y).map(|(x, _)| x).unwrap_or("");
                        c.artifact = a.as_bytes().to_vec();
                        return viol(format!("separate processes disagree on the step {}", d.split(':').next().unwrap()));
                    }
                }
                c.count("processes_compared", 1);
            }
        }
    }
    // the parent process has computed the same subjects
    let text = first.unwrap();
    let mut r = Rng::new(seed);
    for l in text.lines() {
        let s = r.u64();
        let t = traced(s)?;
        let mine = format!("{s} {}", t.trace.iter().map(|t| format!("{}:{:016x}", t.0, t.1)).collect::<Vec<_>>().join(","));
        ensure!(mine == l, "a separate process and this one disagree");
    }
    Ok(())
}

/// Reading a file gives what reading its bytes gives, whatever the same path held before (same length,
/// shorter, longer, unreadable) and whichever reader looked at it.
fn c22_rereads(c: &mut Case) -> R {
    use binrw::BinReaderExt;
    use std::io::Cursor as Cu;
    fn all(rd: &Reader, b: &[u8]) -> Result<String, ()> {
        rd.read(&mut Cu::new(b)).map_err(drop)
    }
    fn file(rd: &Reader, p: &std::path::Path) -> Result<String, ()> {
        match rd {
            Reader::Lib(f) => (f.read_file)(p).map(|v| v.debug()).map_err(drop),
            Reader::Generic => ssbh_lib::SsbhFile::from_file(p).map(|v| format!("{v:?}")).map_err(drop),
            Reader::Data(f) => (f.read_file)(p).map(|v| v.debug()).map_err(drop),
            Reader::Shaders => ssbh_data::prelude::ShdrData::from_file(p).map(|v| format!("{v:?}")).map_err(drop),
            Reader::ShaderMeta => ssbh_data::shdr_data::MetaData::from_file(p).map(|v| format!("{v:?}")).map_err(drop),
        }
    }
    let s = Scratch::new();
    let p = s.path("file.bin");
    let (rd, mut b) = read_subject(c);
    c.seen(&b);
    let mut modified = None;
    for round in 0..6 {
        c.artifact = b.clone();
        // The in-memory text of a generic read goes through the same type.
        let want = match &rd {
            Reader::Generic => no_panic(|| Cu::new(&b).read_le::<ssbh_lib::SsbhFile>().map(|v| format!("{v:?}")).map_err(drop)),
            rd => no_panic(|| all(rd, &b)),
        };
        std::fs::write(&p, &b).unwrap();
        // Some copies keep the time stamp of the file they replace.
        if let (Some(t), true) = (modified, c.rng.bool()) {
            let f = std::fs::File::options().write(true).open(&p).unwrap();
            f.set_modified(t).unwrap();
        }
        modified = std::fs::metadata(&p).unwrap().modified().ok();
        let got = no_panic(|| file(&rd, &p));
        match (&want, &got) {
            (Ok(w), Ok(g)) => ensure!(w == g, "{}: reading the file in round {round} gives another result than reading its {} bytes", rd.name(), b.len()),
            (Err(_), Err(_)) => {}
            _ => return viol(format!("{}: reading the file and its bytes disagree about a panic", rd.name())),
        }
        ensure!(std::fs::read(&p).unwrap() == b, "{}: reading changed the file", rd.name());
        c.count("rereads", 1);
        match c.rng.below(6) {
            0 => {
                let n = c.rng.range(0, b.len());
                b.truncate(n);
                c.count("rereads_shorter", 1);
            }
            1 => {
                let n = c.rng.range(1, 64);
                b.extend(c.rng.bytes(n));
            }
            2 => (_, b) = read_subject(c),
            _ if !b.is_empty() => {
                for _ in 0..c.rng.range(1, 4) {
                    let i = c.rng.below(b.len());
                    b[i] = b[i].wrapping_add(c.rng.range(1, 255) as u8);
                }
                c.count("rereads_same_length", 1);
            }
            _ => {}
        }
    }
    Ok(())
}
