//! Properties of the low-level library: C01-C07, C21 (library part), C22 (library part).
use crate::core::*;
use crate::ensure;
use crate::io::*;
use crate::lib_formats::*;
use crate::mutate::*;
use crate::schema::{self, gen_file, gen_loose, opts, GenOpts, RefFile};
use ssbh_lib::prelude::*;
use std::io::Cursor;

pub static FM: [Fmt; 12] = FORMATS;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "distinct written files longer than 80 bytes whose reread value and rewritten bytes were compared (Arbitrary-generated values, reference files of every version, large files, and container round trips)",
            assumptions: &["values come from the crate's own Arbitrary implementations and from a frozen table of the format definitions; extended-mesh values whose entry and flag counts differ are rejected by the writer and excluded"],
            must: &["arbitrary_values", "built_values", "reference_values", "container_values", "nonfinite_floats", "null_pointers", "long_lists", "long_values_built"],
            units: vec![
                unit("arbitrary", 400_000, 12_000_000, c01_arb),
                unit("reference", 150_000, 6_000_000, c01_ref),
                unit("large", 400, 8_000, c01_large),
                unit("long", 12, 300, c01_long),
                unit("values", 40_000, 2_500_000, c01_values),
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "distinct reference files (all 16 versions plus adjacency and extended mesh) whose bytes as written by the library and whose values as read by it were compared with an independent encoder and predictor",
            assumptions: &["the reference table (harness/src/schema.txt) freezes the documented format: field order, codes, alignment and padding as specified in ssbh_offsets.md and the format documentation"],
            must: &["ref_files", "ref_json_compared", "ref_bytes_compared", "monitored_writes", "pointers", "deep_files", "long_lists"],
            units: vec![
                unit("reference", 250_000, 8_000_000, c02_ref),
                unit("write_monitor", 60_000, 2_000_000, c02_monitor),
                unit("enum_codes", 1, 1, c02_enum_codes),
                unit("large", 300, 6_000, c02_large),
                unit("long", 12, 300, c02_long),
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "distinct hostile inputs given to a low-level reader (mutated reference files, every hostile value at every pointer and count field, every truncation, random bytes behind valid headers)",
            assumptions: &["inputs up to about 64 KiB; termination is judged by CPU time of a single case (60 s against a normal cost below 10 ms)"],
            must: &["rejected", "accepted", "accepted_and_rewritten", "fields_attacked", "truncations"],
            units: vec![
                unit("mutated", 500_000, 20_000_000, c03_mutated),
                unit("fields", 3_000, 120_000, c03_fields),
                unit("truncate", 1_200, 40_000, c03_truncate),
                unit("garbage", 200_000, 6_000_000, c03_garbage),
                unit("every_reader", 20_000, 600_000, c03_every_reader),
            ],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "distinct (file, inflated count or length) inputs whose peak memory and stream operations were measured against the bytes the stream delivered",
            assumptions: &[
                "bound used: 64 bytes of memory per delivered byte plus 2 MiB, plus the documented 100 MiB initial reservation when a raw-buffer length is inflated; 3 stream operations per delivered byte plus 64",
                "memory measured by a counting allocator around the call",
            ],
            must: &["array_counts_inflated", "buffer_lengths_inflated", "data_conversions", "max_peak_per_mille", "frame_counts_inflated", "shader_counts_inflated", "v12_counts_inflated"],
            units: vec![
                unit("counts", 6_000, 200_000, c05_counts),
                unit("mutated", 150_000, 5_000_000, c05_mutated),
                unit("data", 60_000, 2_000_000, crate::props_robust::c05_data),
                unit("frames", 20_000, 600_000, crate::props_robust::c05_frames),
                unit("shader_counts", 10_000, 400_000, crate::props_shdr::c05_shader),
            ],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "distinct readable inputs (mutated, or laid out with shuffled, unaligned, shared and padded data) that were rewritten, reread and compared",
            assumptions: &["inputs that expand beyond 64 MiB when rewritten (shared data is duplicated) are counted but not compared"],
            must: &["mutated_readable", "loose_layouts", "normalised", "changed_by_normalising"],
            units: vec![unit("mutated", 400_000, 12_000_000, c06_mutated), unit("loose", 150_000, 5_000_000, c06_loose)],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "distinct (file, magic, version, reader or API path) combinations whose acceptance, chosen type, version and bytes were checked",
            assumptions: &["version pairs: all of major 0..5 x minor 0..24 plus random 16-bit pairs"],
            must: &["cross_type_rejections", "version_rejections", "magic_rejections", "api_paths_compared", "versions_accepted"],
            units: vec![
                unit("dispatch", 6_000, 200_000, c07_dispatch),
                unit("versions", 18, 180, c07_versions),
                unit("api_paths", 4_000, 100_000, c07_api),
            ],
        },
    ]
}

/// Files in a private scratch directory that disappears with the process's case.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("monscratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).or_else(|_| Ok::<(), ()>(())).unwrap();
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> std::path::PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- C01
fn c01_arb(c: &mut Case) -> R {
    let f = &FM[c.idx as usize % 12];
    let max = *c.rng.pick(&[200usize, 1000, 6000]);
    let Some(v) = arb_val(f, &mut c.rng, max) else { return Ok(()) };
    if !writable(f, &*v) {
        return Ok(());
    }
    c.count("arbitrary_values", 1);
    roundtrip(c, f, &*v)
}
pub fn roundtrip(c: &mut Case, f: &Fmt, v: &dyn LibVal) -> R {
    let b = match v.write_vec() {
        Ok(b) => b,
        Err(e) => return viol(format!("{} cannot be written: {e}", f.name)),
    };
    c.count("bytes_written", b.len() as u64);
    if b.len() > 80 {
        c.seen(&b);
    }
    c.sample(|| format!("{} {}", f.name, v.debug()));
    c.artifact = b;
    let b = &c.artifact;
    let v2 = match f.read_bytes(b) {
        Ok(v) => v,
        Err(e) => return viol(format!("{} written bytes cannot be read back: {e}", f.name)),
    };
    if !v.same(&*v2) {
        return viol(format!("{} differs after reread:\n{}\n{}", f.name, v.debug(), v2.debug()));
    }
    ensure!(v.version() == v2.version(), "{}: version {:?} reread as {:?}", f.name, v.version(), v2.version());
    match v2.write_vec() {
        Ok(b2) => ensure!(*b == b2, "{}: rewriting the reread value gives different bytes", f.name),
        Err(e) => return viol(format!("rewrite failed {e}")),
    }
    if let Some(via) = f.via_ssbh {
        if c.idx % 4 == 0 {
            let (b3, v3) = match via(b) {
                Ok(x) => x,
                Err(e) => return viol(format!("{} through the generic container: {e}", f.name)),
            };
            ensure!(*b == b3, "{}: container writes different bytes", f.name);
            ensure!(v.same(&*v3), "{}: container reads a different value", f.name);
            c.count("container_values", 1);
        }
    }
    Ok(())
}
fn c01_from(c: &mut Case, rf: RefFile) -> R {
    let f = fmt(rf.fmt);
    let Ok(v) = f.read_bytes(&rf.bytes) else {
        // Whether valid files are accepted is C02's concern; here only values matter.
        c.count("reference_unreadable", 1);
        return Ok(());
    };
    c.count("reference_values", 1);
    let d = v.debug();
    if nonfinite(&d) {
        c.count("nonfinite_floats", 1);
    }
    if d.contains("None") {
        c.count("null_pointers", 1);
    }
    roundtrip(c, f, &*v)
}
fn c01_ref(c: &mut Case) -> R {
    let json = c.rng.chance(1, 2);
    let o = opts(&mut c.rng, json);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    c01_from(c, rf)
}
/// Values built without the binary reader.
fn c01_values(c: &mut Case) -> R {
    let o = if c.idx % 50 == 0 { let mut o = big_opts(c); o.json = true; o } else { opts(&mut c.rng, true) };
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    let f = fmt(rf.fmt);
    let v = match (f.from_json)(&rf.json.to_string()) {
        Ok(v) => v,
        Err(_) => { c.count("values_refused", 1); return Ok(()) } // C08's concern
    };
    c.count("built_values", 1);
    roundtrip(c, f, &*v)
}
fn big_opts(c: &mut Case) -> GenOpts {
    let json = c.rng.bool();
    GenOpts { json, max_array: *c.rng.pick(&[300, 1100, 3000]), budget: *c.rng.pick(&[2000, 6000]), max_buf: *c.rng.pick(&[5000, 70_000, 300_000]), nulls: true }
}
fn c01_large(c: &mut Case) -> R {
    let o = big_opts(c);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    c01_from(c, rf)
}
/// One list of very many entries.
fn long(c: &mut Case, json: bool) -> Option<RefFile> {
    let n = *c.rng.pick(&[65_535usize, 65_536, 65_537, 70_000, 100_001, 131_073, 262_145, 400_000, 1_048_577]);
    let rf = schema::gen_spike(c.rng.below(schema::kinds()), &mut c.rng, n, json)?;
    c.count("long_lists", 1);
    c.max("longest_list", n as u64);
    Some(rf)
}
fn c01_long(c: &mut Case) -> R {
    let built = c.idx % 2 == 0;
    let Some(rf) = long(c, built) else { return Ok(()) };
    if !built {
        return c01_from(c, rf);
    }
    // a reader that loses entries would go unnoticed in values that come from it
    let Ok(v) = (fmt(rf.fmt).from_json)(&rf.json.to_string()) else { c.count("values_refused", 1); return Ok(()) };
    c.count("long_values_built", 1);
    roundtrip(c, fmt(rf.fmt), &*v)
}

// ---------------------------------------------------------------- C02
fn c02_long(c: &mut Case) -> R {
    let json = c.idx % 4 == 0;
    match long(c, json) {
        Some(rf) => c02_check(c, rf, json),
        None => Ok(()),
    }
}
fn c02_check(c: &mut Case, rf: RefFile, json: bool) -> R {
    let f = fmt(rf.fmt);
    c.artifact = rf.bytes.clone();
    c.sample(|| format!("{} {:?} {}", rf.fmt, rf.version, rf.json));
    c.count("ref_files", 1);
    c.count("pointers", rf.pointers);
    if rf.depth >= 3 {
        c.count("deep_files", 1);
    }
    let v = match f.read_bytes(&rf.bytes) {
        Ok(v) => v,
        Err(e) => return viol(format!("{} {:?} reference file rejected: {e}: {}", rf.fmt, rf.version, rf.json)),
    };
    if json {
        let j = v.json().map_err(|e| Viol { msg: e, known: None })?;
        ensure!(j == rf.json, "{} {:?} reads as\n{j}\nexpected\n{}", rf.fmt, rf.version, rf.json);
        c.count("ref_json_compared", 1);
    }
    ensure!(v.version() == rf.version, "{}: version {:?} for a {:?} file", rf.fmt, v.version(), rf.version);
    let mut w = RecWriter::default();
    if let Err(e) = v.write_to(&mut w) {
        return viol(format!("{} {:?} cannot be written: {e}", rf.fmt, rf.version));
    }
    if let Some(p) = w.conflict {
        return viol(format!("{} {:?}: byte {p} was written twice with different values", rf.fmt, rf.version));
    }
    let b = v.write_vec().unwrap();
    for (b, how) in [(&b, "in memory"), (&w.data, "to a plain stream")] {
        if !rf.matches(b) {
            let at = b.iter().zip(&rf.bytes).position(|(a, b)| a != b);
            return viol(format!("{} {:?} bytes written {how} differ from the reference at {:?} (lengths {} {})\n{}", rf.fmt, rf.version, at, b.len(), rf.bytes.len(), rf.json));
        }
    }
    c.count("ref_bytes_compared", 1);
    c.seen(&rf.bytes);
    Ok(())
}
fn c02_ref(c: &mut Case) -> R {
    let json = c.rng.chance(2, 3);
    let o = opts(&mut c.rng, json);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    c02_check(c, rf, json)
}
fn c02_large(c: &mut Case) -> R {
    let o = big_opts(c);
    let rf = gen_file(c.idx as usize, &mut c.rng, o);
    c02_check(c, rf, o.json)
}
/// Every code of every enumeration is stored and read as documented (deterministic sweep through tiny files).
fn c02_enum_codes(c: &mut Case) -> R {
    let s = schema::schema();
    let o = GenOpts { json: true, max_array: 2, budget: 40, max_buf: 8, nulls: false };
    let mut seen: std::collections::HashSet<(String, usize)> = Default::default();
    let total: usize = s.enums.values().map(|e| e.items.len()).sum::<usize>() + s.tagged.values().map(|t| t.len()).sum::<usize>();
    fn walk(s: &schema::Schema, t: &schema::Ty, n: &schema::Node, seen: &mut std::collections::HashSet<(String, usize)>) {
        use schema::{Node, Ty};
        match (t, n) {
            (Ty::Named(x), Node::Enum(i)) => {
                seen.insert((x.clone(), *i));
            }
            (Ty::Named(x), Node::Seq(v)) => s.structs[x].fields.iter().zip(v).for_each(|(f, n)| walk(s, &f.1, n, seen)),
            (Ty::Arr(e) | Ty::List(e) | Ty::Fixed(e, _), Node::Seq(v)) => v.iter().for_each(|n| walk(s, e, n, seen)),
            (Ty::Rel(e) | Ty::Abs(e), Node::Opt(Some(n))) => walk(s, e, n, seen),
            (Ty::Tagged(x), Node::Tag(Some((i, n)))) => {
                seen.insert((x.clone(), *i));
                walk(s, &s.tagged[x][*i].2, n, seen)
            }
            _ => {}
        }
    }
    for round in 0..60_000u64 {
        let root = &s.roots[round as usize % s.roots.len()];
        let mut oo = o;
        let node = s.gen_root(root, &mut c.rng, &mut oo);
        let before = seen.len();
        if let schema::Node::Seq(v) = &node {
            root.body.fields.iter().zip(v).for_each(|(f, n)| walk(s, &f.1, n, &mut seen));
        }
        if seen.len() > before {
            let e = s.encode(root, &node);
            let f = fmt(&root.file);
            let v = match f.read_bytes(&e.out) {
                Ok(v) => v,
                Err(err) => return viol(format!("{} rejects {}: {err}", root.file, s.json_root(root, &node))),
            };
            let j = v.json().unwrap();
            ensure!(j == s.json_root(root, &node), "{} reads as {j}, expected {}", root.file, s.json_root(root, &node));
            let b = v.write_vec().unwrap();
            ensure!(b.len() >= e.out.len().min(b.len()) && b[..24] == e.out[..24], "header");
            ensure!(b == e.out || s.encode_with(root, &node, false).out == b, "{} writes other codes for {j}", root.file);
            c.eval(1);
        }
        if seen.len() == total {
            break;
        }
    }
    c.count("enum_codes_seen", seen.len() as u64);
    c.count("enum_codes_total", total as u64);
    Ok(())
}
fn c02_monitor(c: &mut Case) -> R {
    let f = &FM[c.idx as usize % 12];
    let Some(v) = arb_val(f, &mut c.rng, 3000) else { return Ok(()) };
    if !writable(f, &*v) {
        return Ok(());
    }
    let mut w = RecWriter::default();
    if let Err(e) = v.write_to(&mut w) {
        return viol(format!("{} cannot be written: {e}", f.name));
    }
    c.count("monitored_writes", w.ops.len() as u64);
    c.artifact = w.data.clone();
    if let Some(p) = w.conflict {
        return viol(format!("{}: byte {p} was written twice with different values: {}", f.name, v.debug()));
    }
    let (skip, limit) = match f.name {
        "MeshEx" => (64, 16),
        _ => (0, 8),
    };
    let (gap, at) = w.longest_gap(skip);
    ensure!(gap < limit, "{}: {gap} bytes at {at} were never written: {}", f.name, v.debug());
    let b = v.write_vec().unwrap();
    ensure!(b == w.data, "{}: the output depends on the kind of stream (lengths {} and {})", f.name, b.len(), w.data.len());
    if let Some(m) = f.magic {
        let (a, bb) = v.version().unwrap();
        let h = header(&m, a, bb);
        ensure!(b.len() >= 24 && b[..24] == h[..], "{}: header {:02x?} instead of {:02x?}", f.name, &b[..24.min(b.len())], h);
    }
    if b.len() > 80 {
        c.seen(&b);
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
/// Reads hostile bytes; anything accepted is also written again.
fn hostile_read(c: &mut Case, f: &Fmt, b: &[u8]) -> R {
    c.artifact = b.to_vec();
    match no_panic(|| f.read_bytes(b)) {
        Err(p) => return viol(format!("{} reader panicked: {p}", f.name)),
        Ok(Err(_)) => c.count("rejected", 1),
        Ok(Ok(v)) => {
            c.count("accepted", 1);
            let mut w = FaultWriter::new();
            w.byte_limit = 64 << 20;
            match no_panic(|| v.write_to(&mut w)) {
                Err(p) => return viol(format!("{} accepted the input, then writing it panicked: {p}", f.name)),
                Ok(Ok(())) => c.count("accepted_and_rewritten", 1),
                Ok(Err(_)) => c.count("accepted_not_rewritable", 1),
            }
        }
    }
    Ok(())
}
fn hostile_generic(c: &mut Case, b: &[u8]) -> R {
    c.artifact = b.to_vec();
    match no_panic(|| read_generic(&mut Cursor::new(b))) {
        Err(p) => viol(format!("generic reader panicked: {p}")),
        Ok(Err(_)) => {
            c.count("rejected", 1);
            Ok(())
        }
        Ok(Ok(_)) => {
            c.count("accepted", 1);
            Ok(())
        }
    }
}
pub fn small_ref(c: &mut Case, k: usize) -> RefFile {
    let o = GenOpts { json: false, max_array: *c.rng.pick(&[1usize, 2, 4]), budget: c.rng.range(2, 30), max_buf: 40, nulls: c.rng.bool() };
    gen_file(k, &mut c.rng, o)
}
pub fn all_fields(rf: &RefFile) -> Vec<u64> {
    let mut v = rf.ptr_fields.clone();
    v.extend(&rf.arr_counts);
    v.extend(&rf.buf_counts);
    v
}
pub fn mutated_ref(c: &mut Case, k: usize) -> (RefFile, Vec<u8>) {
    let rf = if c.rng.chance(1, 3) {
        let o = opts(&mut c.rng, false);
        gen_file(k, &mut c.rng, o)
    } else {
        small_ref(c, k)
    };
    let fields = all_fields(&rf);
    let mut b = rf.bytes.clone();
    for _ in 0..*c.rng.pick(&[1usize, 1, 1, 2, 2, 3, 5, 8]) {
        mutate(&mut b, &mut c.rng, &fields);
    }
    (rf, b)
}
fn c03_mutated(c: &mut Case) -> R {
    let k = c.idx as usize;
    let (rf, b) = mutated_ref(c, k);
    c.seen(&b);
    c.sample(|| format!("{} {}", rf.fmt, hex(&b[..b.len().min(120)])));
    hostile_read(c, fmt(rf.fmt), &b)?;
    if c.idx % 8 == 0 {
        hostile_generic(c, &b)?;
    }
    Ok(())
}
fn c03_fields(c: &mut Case) -> R {
    let k = c.idx as usize;
    let rf = small_ref(c, k);
    let f = fmt(rf.fmt);
    let len = rf.bytes.len() as u64;
    let width = if rf.fmt == "MeshEx" || rf.fmt == "Adj" { 4 } else { 8 };
    let mut jobs: Vec<(u64, usize)> = rf.ptr_fields.iter().map(|p| (*p, 8)).collect();
    jobs.extend(rf.buf_counts.iter().map(|p| (*p, 8)));
    jobs.extend(rf.arr_counts.iter().map(|p| (*p, width)));
    for (p, w) in jobs {
        for v in NASTY64.iter().copied().chain([len, len - p, len.wrapping_sub(p + 1), len - 1, len + 1, 0u64.wrapping_sub(p), p]) {
            let mut b = rf.bytes.clone();
            put(&mut b, p as usize, v, w);
            hostile_read(c, f, &b)?;
            c.eval(1);
        }
        c.count("fields_attacked", 1);
    }
    c.seen(&rf.bytes);
    Ok(())
}
fn c03_truncate(c: &mut Case) -> R {
    let k = c.idx as usize;
    let rf = small_ref(c, k);
    let f = fmt(rf.fmt);
    for n in 0..rf.bytes.len() {
        hostile_read(c, f, &rf.bytes[..n])?;
        c.count("truncations", 1);
        c.eval(1);
    }
    c.seen(&rf.bytes);
    Ok(())
}
fn c03_garbage(c: &mut Case) -> R {
    let f = &FM[c.idx as usize % 12];
    let mut b = match f.magic {
        Some(m) if !c.rng.chance(1, 10) => {
            let (a, bb) = *c.rng.pick(f.versions);
            header(&m, a, bb)
        }
        _ => vec![],
    };
    let n = c.rng.size(600);
    for _ in 0..n / 8 + 1 {
        // mostly small little-endian integers, so that offsets and counts hit real data
        let v = match c.rng.below(8) {
            0 => c.rng.u64(),
            1 => *c.rng.pick(NASTY64),
            2 => 0,
            _ => c.rng.below(200) as u64,
        };
        let w = *c.rng.pick(&[8usize, 8, 8, 4, 2]);
        b.extend(&v.to_le_bytes()[..w]);
    }
    c.seen(&b);
    hostile_read(c, f, &b)?;
    hostile_generic(c, &b)
}
fn c03_every_reader(c: &mut Case) -> R {
    let k = c.rng.below(schema::kinds());
    let (_, b) = mutated_ref(c, k);
    for f in &FM {
        hostile_read(c, f, &b)?;
    }
    hostile_generic(c, &b)
}

// ---------------------------------------------------------------- C05
const MEM_PER_BYTE: u64 = 64;
const MEM_CONST: u64 = 2 << 20;
const BUF_CONST: u64 = 100 * 1024 * 1024 + (1 << 20);
fn bounded_read(c: &mut Case, f: &Fmt, b: &[u8], buffer_inflated: bool) -> R {
    c.artifact = b.to_vec();
    let mut p = Probe::new(b);
    let before = crate::mem::live();
    crate::mem::reset();
    let r = no_panic(|| (f.read)(&mut p));
    let peak = (crate::mem::peak() - before).max(0) as u64;
    let ok = matches!(r, Ok(Ok(_)));
    drop(r);
    c.count(if ok { "reads_ok" } else { "reads_rejected" }, 1);
    let allowed = MEM_PER_BYTE * p.delivered + MEM_CONST + if buffer_inflated { BUF_CONST } else { 0 };
    ensure!(peak <= allowed, "{}: {peak} bytes of memory for {} delivered bytes (allowed {allowed})", f.name, p.delivered);
    let ops = p.reads + p.seeks;
    ensure!(ops <= 3 * p.delivered + 64, "{}: {ops} stream operations for {} delivered bytes", f.name, p.delivered);
    c.max("peak_bytes", peak);
    if !buffer_inflated && p.delivered > 4000 {
        c.max("peak_per_mille", 1000 * peak / (MEM_PER_BYTE * p.delivered + MEM_CONST));
        c.max("ops_per_100_bytes", 100 * ops / p.delivered);
    }
    Ok(())
}
const INFLATED: &[u64] = &[1 << 10, 1 << 16, 1 << 20, 1 << 24, 1 << 28, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 60, (1 << 61) + 1, 1 << 63, u64::MAX];
fn c05_counts(c: &mut Case) -> R {
    let k = c.idx as usize;
    let rf = if c.idx % 3 == 0 {
        let o = opts(&mut c.rng, false);
        gen_file(k, &mut c.rng, o)
    } else {
        small_ref(c, k)
    };
    let f = fmt(rf.fmt);
    let width = if rf.fmt == "MeshEx" || rf.fmt == "Adj" { 4 } else { 8 };
    bounded_read(c, f, &rf.bytes, false)?;
    // in these files a wrong array count makes other data look like the header of a raw buffer
    let has_buffers = matches!(rf.fmt, "Mesh" | "Shdr") || rf.version == Some((1, 2));
    for (list, w, buf, name) in [(&rf.arr_counts, width, has_buffers, "array_counts_inflated"), (&rf.buf_counts, 8, true, "buffer_lengths_inflated")] {
        for _ in 0..list.len().min(6) {
            let p = *c.rng.pick(list);
            let v = *c.rng.pick(INFLATED);
            let mut b = rf.bytes.clone();
            put(&mut b, p as usize, v, w);
            // plenty of data that could be misread as elements
            if c.rng.bool() {
                b.resize(b.len() + c.rng.below(4000), 0);
            }
            bounded_read(c, f, &b, buf)?;
            c.count(name, 1);
            c.eval(1);
            c.seen(&b);
        }
    }
    Ok(())
}
fn c05_mutated(c: &mut Case) -> R {
    let k = c.idx as usize;
    let (rf, b) = mutated_ref(c, k);
    c.seen(&b);
    // a mutation may hit a raw buffer's length
    bounded_read(c, fmt(rf.fmt), &b, true)
}

// ---------------------------------------------------------------- C06
fn normalise(c: &mut Case, f: &Fmt, b: &[u8], v: &dyn LibVal) -> Result<Option<Vec<u8>>, Viol> {
    let mut w = FaultWriter::new();
    w.byte_limit = 64 << 20;
    if let Err(e) = v.write_to(&mut w) {
        if w.failed {
            c.count("too_large_to_compare", 1);
            return Ok(None);
        }
        // the extended-mesh writer documents one rejection
        if !writable(f, v) {
            c.count("unwritable", 1);
            return Ok(None);
        }
        return viol(format!("{}: readable file cannot be written: {e}", f.name));
    }
    let b1 = v.write_vec().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    let again = f.read_bytes(b).map_err(|e| Viol { msg: format!("second read of the same bytes failed: {e}"), known: None })?;
    ensure!(again.same(v), "{}: reading the same bytes twice gives different values", f.name);
    let v2 = match f.read_bytes(&b1) {
        Ok(v) => v,
        Err(e) => return viol(format!("{}: rewritten file cannot be read: {e}", f.name)),
    };
    ensure!(v.same(&*v2), "{}: rewriting changed the value\n{}\n{}", f.name, v.debug(), v2.debug());
    ensure!(v.version() == v2.version(), "{}: rewriting changed the version", f.name);
    let b2 = v2.write_vec().map_err(|e| Viol { msg: e.to_string(), known: None })?;
    ensure!(b1 == b2, "{}: the second rewrite differs from the first", f.name);
    c.count("normalised", 1);
    if b1 != b {
        c.count("changed_by_normalising", 1);
    }
    Ok(Some(b1))
}
fn c06_mutated(c: &mut Case) -> R {
    let k = c.idx as usize;
    let (rf, b) = mutated_ref(c, k);
    let f = fmt(rf.fmt);
    c.artifact = b.clone();
    let Ok(v) = f.read_bytes(&b) else { return Ok(()) };
    c.count("mutated_readable", 1);
    c.seen(&b);
    c.sample(|| format!("{} {}", rf.fmt, hex(&b[..b.len().min(120)])));
    normalise(c, f, &b, &*v).map(|_| ())
}
fn c06_loose(c: &mut Case) -> R {
    let json = c.rng.chance(2, 3);
    let o = opts(&mut c.rng, json);
    let rf = gen_loose(c.idx as usize, &mut c.rng, o);
    let f = fmt(rf.fmt);
    c.artifact = rf.loose.clone();
    let v = match f.read_bytes(&rf.loose) {
        Ok(v) => v,
        Err(e) => return viol(format!("{} {:?}: valid file with an unusual layout rejected: {e}: {}", rf.fmt, rf.version, rf.json)),
    };
    c.count("loose_layouts", 1);
    c.seen(&rf.loose);
    if json {
        let j = v.json().unwrap();
        ensure!(j == rf.json, "{} unusual layout reads as\n{j}\nexpected\n{}", rf.fmt, rf.json);
    }
    if let Some(b1) = normalise(c, f, &rf.loose, &*v)? {
        // normalising gives the same file as writing the content in the usual layout
        let usual = f.read_bytes(&rf.bytes).ok().and_then(|v| v.write_vec().ok());
        if let Some(u) = usual {
            ensure!(b1 == u, "{}: the normalised file depends on the original layout", f.name);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn is_supported(name: &str, v: (u16, u16)) -> bool {
    fmt(name).versions.contains(&v)
}
fn c07_dispatch(c: &mut Case) -> R {
    let k = c.idx as usize % 16;
    let o = opts(&mut c.rng, false);
    let rf = gen_file(k, &mut c.rng, o);
    let f = fmt(rf.fmt);
    c.artifact = rf.bytes.clone();
    c.seen(&rf.bytes);
    for g in &FM {
        let Some(m) = g.magic else { continue };
        let _ = m;
        let r = g.read_bytes(&rf.bytes);
        if g.name == f.name {
            let v = match r {
                Ok(v) => v,
                Err(e) => return viol(format!("{} reader rejects its own file: {e}", g.name)),
            };
            ensure!(v.version() == rf.version, "{}: version {:?} reported for {:?}", g.name, v.version(), rf.version);
        } else {
            match r {
                Ok(_) => return viol(format!("{} reader accepts a {} file", g.name, f.name)),
                Err(e) => ensure!(e.contains("did not match the expected SSBH type"), "{} reader on a {} file: unspecific error {e}", g.name, f.name),
            }
            c.count("cross_type_rejections", 1);
        }
        c.eval(1);
    }
    match read_generic(&mut Cursor::new(&rf.bytes)) {
        Ok(v) => ensure!(v.fmt_name() == f.name, "generic reader returns {} for {}", v.fmt_name(), f.name),
        Err(e) => return viol(format!("generic reader rejects {}: {e}", f.name)),
    }
    // unknown magics: random, swapped order, one letter off
    for _ in 0..8 {
        let mut b = rf.bytes.clone();
        let mut m = f.magic.unwrap();
        match c.rng.below(4) {
            0 => m.reverse(),
            1 => m[c.rng.below(4)] ^= 1 << c.rng.below(8),
            2 => m = c.rng.u32().to_le_bytes(),
            _ => m = [b' '; 4],
        }
        if FM.iter().any(|g| g.magic == Some(m)) {
            continue;
        }
        b[16..20].copy_from_slice(&m);
        ensure!(f.read_bytes(&b).is_err() && read_generic(&mut Cursor::new(&b)).is_err(), "a file with magic {m:02x?} was accepted");
        // container signature
        let mut b = rf.bytes.clone();
        b[c.rng.below(4)] ^= 1 << c.rng.below(8);
        ensure!(f.read_bytes(&b).is_err() && read_generic(&mut Cursor::new(&b)).is_err(), "a file with signature {:02x?} was accepted", &b[..4]);
        c.count("magic_rejections", 2);
        c.eval(2);
    }
    // relabelled as another supported type and version: only that type's reader may accept it
    let g = &FM[c.rng.below(10)];
    let (a, bb) = *c.rng.pick(g.versions);
    let mut b = rf.bytes.clone();
    b[16..20].copy_from_slice(&g.magic.unwrap());
    b[20..22].copy_from_slice(&a.to_le_bytes());
    b[22..24].copy_from_slice(&bb.to_le_bytes());
    for h in &FM {
        if h.magic.is_some() && h.name != g.name {
            ensure!(h.read_bytes(&b).is_err(), "{} reader accepts bytes labelled {}", h.name, g.name);
        }
    }
    if let Ok(v) = g.read_bytes(&b) {
        ensure!(v.version() == Some((a, bb)), "{}: bytes labelled {a}.{bb} read as {:?}", g.name, v.version());
    }
    Ok(())
}
fn c07_versions(c: &mut Case) -> R {
    let k = c.idx as usize % 16;
    let o = opts(&mut c.rng, false);
    let rf = gen_file(k, &mut c.rng, o);
    let f = fmt(rf.fmt);
    c.seen(&rf.bytes);
    let mut pairs: Vec<(u16, u16)> = (0..=5).flat_map(|a| (0..=24).map(move |b| (a, b))).collect();
    pairs.extend((0..400).map(|_| (c.rng.u32() as u16, c.rng.u32() as u16)));
    let (a, b) = rf.version.unwrap();
    pairs.extend([(a + 256, b), (a, b + 256), (b, a), (a, b | 0x8000), (a << 8, b << 8), (a, u16::MAX), (u16::MAX, b)]);
    for v in pairs {
        let mut x = rf.bytes.clone();
        x[20..22].copy_from_slice(&v.0.to_le_bytes());
        x[22..24].copy_from_slice(&v.1.to_le_bytes());
        c.eval(1);
        c.artifact = x.clone();
        if is_supported(f.name, v) {
            if let Ok(val) = f.read_bytes(&x) {
                ensure!(val.version() == Some(v), "{} {v:?} read as {:?}", f.name, val.version());
                c.count("versions_accepted", 1);
            } else {
                ensure!(Some(v) != rf.version, "{} {v:?} rejected", f.name);
            }
        } else {
            ensure!(f.read_bytes(&x).is_err(), "{}: unsupported version {v:?} was accepted", f.name);
            ensure!(read_generic(&mut Cursor::new(&x)).is_err(), "{}: unsupported version {v:?} was accepted by the generic reader", f.name);
            c.count("version_rejections", 1);
        }
    }
    Ok(())
}
macro_rules! container_paths {
    ($c:expr, $ty:ident, $b:expr, $s:expr) => {{
        let b: &[u8] = $b;
        let s: &Scratch = $s;
        let (p1, p2, p3) = (s.path("in.bin"), s.path("typed.bin"), s.path("generic.bin"));
        std::fs::write(&p1, b).unwrap();
        let err = |e: String| Viol { msg: format!("{}: {e}", stringify!($ty)), known: None };
        let typed = $ty::read(&mut Cursor::new(b)).map_err(|e| err(e.to_string()))?;
        let typed_file = $ty::from_file(&p1).map_err(|e| err(format!("from_file: {e}")))?;
        let generic = SsbhFile::read(&mut Cursor::new(b)).map_err(|e| err(e.to_string()))?;
        let generic_file = SsbhFile::from_file(&p1).map_err(|e| err(format!("generic from_file: {e}")))?;
        let d = format!("{typed:?}");
        ensure!(d == format!("{typed_file:?}"), "{}: from_file reads another value", stringify!($ty));
        let (Ssbh::$ty(g), Ssbh::$ty(gf)) = (&generic.data, &generic_file.data) else { return viol("generic reader chose another type") };
        ensure!(d == format!("{:?}", g.data) && d == format!("{:?}", gf.data), "{}: generic reader reads another value", stringify!($ty));
        let mut outs: Vec<(&str, Vec<u8>)> = vec![];
        let mut w = Cursor::new(vec![]);
        typed.write(&mut w).unwrap();
        outs.push(("typed write", w.into_inner()));
        let mut w = Cursor::new(vec![]);
        generic.write(&mut w).unwrap();
        outs.push(("generic write", w.into_inner()));
        typed.write_to_file(&p2).map_err(|e| err(e.to_string()))?;
        outs.push(("typed write_to_file", std::fs::read(&p2).unwrap()));
        // overwriting a longer existing file must not leave old bytes behind
        std::fs::write(&p3, vec![0xee; b.len() + 4000]).unwrap();
        generic_file.write_to_file(&p3).map_err(|e| err(e.to_string()))?;
        outs.push(("generic write_to_file", std::fs::read(&p3).unwrap()));
        let wrapped = SsbhFile { data: Ssbh::$ty(ssbh_lib::Versioned { data: typed }) };
        let mut w = Cursor::new(vec![]);
        wrapped.write(&mut w).unwrap();
        outs.push(("wrapped write", w.into_inner()));
        for o in &outs[1..] {
            ensure!(o.1 == outs[0].1, "{}: {} produces other bytes than {}", stringify!($ty), o.0, outs[0].0);
        }
        $c.count("api_paths_compared", outs.len() as u64 + 4);
    }};
}
fn c07_api(c: &mut Case) -> R {
    let k = c.idx as usize;
    let json = c.rng.bool();
    let o = opts(&mut c.rng, json);
    let rf = gen_file(k, &mut c.rng, o);
    c.artifact = rf.bytes.clone();
    c.seen(&rf.bytes);
    let s = Scratch::new();
    match rf.fmt {
        "Hlpb" => container_paths!(c, Hlpb, &rf.bytes, &s),
        "Matl" => container_paths!(c, Matl, &rf.bytes, &s),
        "Modl" => container_paths!(c, Modl, &rf.bytes, &s),
        "Mesh" => container_paths!(c, Mesh, &rf.bytes, &s),
        "Skel" => container_paths!(c, Skel, &rf.bytes, &s),
        "Anim" => container_paths!(c, Anim, &rf.bytes, &s),
        "Nlst" => container_paths!(c, Nlst, &rf.bytes, &s),
        "Nrpd" => container_paths!(c, Nrpd, &rf.bytes, &s),
        "Nufx" => container_paths!(c, Nufx, &rf.bytes, &s),
        "Shdr" => container_paths!(c, Shdr, &rf.bytes, &s),
        _ => {
            let f = fmt(rf.fmt);
            let p = s.path("in.bin");
            std::fs::write(&p, &rf.bytes).unwrap();
            let v = f.read_bytes(&rf.bytes).map_err(|e| Viol { msg: e, known: None })?;
            let v2 = (f.read_file)(&p).map_err(|e| Viol { msg: e, known: None })?;
            ensure!(v.same(&*v2), "{}: from_file reads another value", f.name);
            let p2 = s.path("out.bin");
            std::fs::write(&p2, vec![0xee; rf.bytes.len() + 4000]).unwrap();
            v.write_file(&p2).map_err(|e| Viol { msg: e.to_string(), known: None })?;
            let on_disk = std::fs::read(&p2).unwrap();
            ensure!(on_disk == v.write_vec().unwrap(), "{}: write_to_file and write differ", f.name);
            c.count("api_paths_compared", 2);
        }
    }
    Ok(())
}
