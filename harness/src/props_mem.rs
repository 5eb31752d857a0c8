//! C24: memory errors, undefined behaviour, data races and leaks. The workload below runs natively under an allocator
//! balance monitor and, in separately built binaries, under the address, memory and thread sanitizers and under Miri.
use crate::core::*;
use crate::data_formats::*;
use crate::ensure;
use crate::gen_data::valid;
use crate::lib_formats::*;
use crate::props_lib::*;
use crate::schema;
use std::io::Cursor;
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        level: "exploration",
        rule: "distinct subjects (file bytes, values, shader binaries, JSON texts) taken through reading, conversion, transformation and writing under a monitor",
        assumptions: &[
            "the sanitizers and the interpreter see the executions they ran; subjects are deterministic in their seed",
            "panics other than arithmetic overflow are judged by C03, C04, C20 and C26",
            "overflow is observed with the compiler's overflow checks on",
        ],
        must: &["balanced", "address_subjects", "thread_subjects", "miri_subjects", "address_sweeps", "shared_values"],
        units: vec![
            unit("balance", 400_000, 6_000_000, c24_balance),
            unit("address", 38, 2_000, c24_address),
            unit("memory", 38, 2_000, c24_memory),
            unit("thread", 16, 800, c24_thread),
            unit("miri", 16, 1_600, c24_miri),
        ],
    }]
}

#[derive(Default)]
pub struct Ex {
    pub steps: u64,
    pub failed: u64,
    pub hash: u64,
    pub overflow: Option<String>,
}
impl Ex {
    fn step<T>(&mut self, f: impl FnOnce() -> Result<T, String>) -> Option<T> {
        self.steps += 1;
        match no_panic(f) {
            Ok(Ok(v)) => Some(v),
            Ok(Err(_)) => {
                self.failed += 1;
                None
            }
            Err(e) => {
                self.failed += 1;
                if e.contains("attempt to ") && self.overflow.is_none() {
                    self.overflow = Some(e);
                }
                None
            }
        }
    }
    fn saw(&mut self, b: &[u8]) {
        self.hash = hash64(b);
    }
}
fn damage(r: &mut Rng, b: &mut Vec<u8>, fields: &[u64]) {
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 3) {
            crate::mutate::mutate(b, r, fields);
        }
    }
}
fn lib_steps(e: &mut Ex, v: &dyn LibVal, json: bool) {
    e.step(|| v.write_vec().map_err(|e| e.to_string()));
    if json {
        if let Some(j) = e.step(|| v.json_string()) {
            if let Some(v) = e.step(|| (fmt(v.fmt_name()).from_json)(&j)) {
                e.step(|| v.write_vec().map_err(|e| e.to_string()));
            }
        }
    }
    if let Some(f) = dfmt_for_lib(v.fmt_name()) {
        if let Some(d) = e.step(|| (f.from_lib)(v)) {
            data_steps(e, f.name, &*d, json);
        }
    }
    if let Some(s) = v.any().downcast_ref::<ssbh_lib::formats::shdr::Shdr>() {
        e.step(|| ssbh_data::shdr_data::ShdrData::try_from(s.clone()).map(|d| format!("{d:?}")).map_err(|e| e.to_string()));
    }
}
fn data_steps(e: &mut Ex, name: &str, d: &dyn DataVal, json: bool) {
    if let Some(b) = e.step(|| d.write_vec()) {
        e.step(|| dfmt(name).read_bytes(&b));
    }
    e.step(|| d.to_lib());
    if json {
        if let Some(j) = e.step(|| d.json_string()) {
            e.step(|| (dfmt(name).from_json)(&j));
        }
    }
    if let Some(s) = d.any().downcast_ref::<ssbh_data::skel_data::SkelData>() {
        for b in &s.bones {
            e.step(|| s.calculate_world_transform(b).map_err(|e| e.to_string()));
        }
    }
    if let Some(m) = d.any().downcast_ref::<ssbh_data::mesh_data::MeshData>() {
        mesh_steps(e, m);
    }
}
fn mesh_steps(e: &mut Ex, m: &ssbh_data::mesh_data::MeshData) {
    use ssbh_data::mesh_data::*;
    let t = [[1.0, 0.5, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [1.0, 2.0, 3.0, 1.0]];
    for (i, o) in m.objects.iter().enumerate() {
        e.step(|| o.vertex_count().map_err(|e| e.to_string()));
        e.step(|| Ok(ssbh_data::adj_data::AdjEntryData::from_mesh_object(i, o)));
        if let Some(p) = o.positions.first() {
            e.step(|| Ok(transform_points(&p.data, &t)));
            e.step(|| Ok(transform_vectors(&p.data, &t)));
            e.step(|| Ok(calculate_smooth_normals(&p.data, &o.vertex_indices)));
            if let (Some(n), Some(uv)) = (o.normals.first(), o.texture_coordinates.first()) {
                e.step(|| calculate_tangents_vec4(&p.data, &n.data, &uv.data, &o.vertex_indices).map_err(|e| e.to_string()));
            }
        }
    }
    e.step(|| Ok(ssbh_data::meshex_data::MeshExData::from_mesh_objects(&m.objects)));
}
/// One subject, chosen by its seed, taken through everything that applies to it.
pub fn exercise(seed: u64, tiny: bool) -> Ex {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut e = Ex::default();
    match r.below(16) {
        0..=4 => {
            let k = r.below(schema::kinds());
            let o = if tiny { schema::GenOpts { json: r.bool(), max_array: 2, budget: 10, max_buf: 8, nulls: true } } else { schema::opts(r, false) };
            let rf = schema::gen_file(k, r, o);
            let mut b = if r.chance(1, 4) { rf.loose.clone() } else { rf.bytes.clone() };
            damage(r, &mut b, &all_fields(&rf));
            e.saw(&b);
            if r.chance(1, 4) {
                e.step(|| read_generic(&mut Cursor::new(&b)));
                let f = r.pick(&FORMATS);
                e.step(|| f.read_bytes(&b));
                let f = r.pick(&DFM);
                e.step(|| f.read_bytes(&b));
            }
            if let Some(f) = dfmt_for_lib(rf.fmt) {
                e.step(|| f.read_bytes(&b));
            }
            if let Some(v) = e.step(|| fmt(rf.fmt).read_bytes(&b)) {
                lib_steps(&mut e, &*v, !tiny || r.chance(1, 3));
            }
        }
        5 => {
            let v = crate::props_io::v12(r);
            e.saw(v.debug().as_bytes());
            lib_steps(&mut e, &*v, !tiny);
        }
        6 | 7 => {
            let f = r.pick(&DFM).name;
            let n = if tiny { r.range(1, 2) } else { r.range(1, 10) };
            let d = valid(f, r, n);
            e.saw(d.debug().as_bytes());
            data_steps(&mut e, f, &*d, !tiny || r.bool());
        }
        8 => {
            let f = r.pick(&DFM);
            if let Some(d) = arb_data(f, r, if tiny { 150 } else { 2000 }) {
                e.saw(d.debug().as_bytes());
                data_steps(&mut e, f.name, &*d, !tiny);
            }
        }
        9 | 10 => {
            // attribute, index and weight buffers of damaged meshes
            let o = crate::gen_data::MeshOpts { max_objects: if tiny { 1 } else { 3 }, max_vertices: if tiny { 5 } else { 40 }, tame: false, big: false };
            let m = crate::gen_data::mesh(r, &o);
            if r.chance(1, 4) {
                e.saw(format!("{m:?}").as_bytes());
                mesh_steps(&mut e, &m);
            } else if let Some(mut b) = e.step(|| DataVal::write_vec(&m)) {
                let at = r.below(b.len());
                for _ in 0..r.range(1, 4) {
                    let p = (at + 4 * r.below(60)).min(b.len() - 4) & !3;
                    let v = if r.bool() { r.below(64) as u32 } else { *r.pick(crate::mutate::NASTY64) as u32 };
                    crate::mutate::put(&mut b, p, v as u64, 4);
                }
                e.saw(&b);
                e.step(|| dfmt("MeshData").read_bytes(&b));
                if let Some(v) = e.step(|| fmt("Mesh").read_bytes(&b)) {
                    lib_steps(&mut e, &*v, false);
                }
            }
        }
        11 | 12 => {
            // track buffers of damaged animations
            let a = crate::gen_anim::anim(r, if tiny { 4 } else { 40 });
            if let Some(mut b) = e.step(|| DataVal::write_vec(&a)) {
                let half = b.len() / 2;
                for _ in 0..r.range(1, 4) {
                    let p = half + r.below(b.len() - half);
                    let v = if r.bool() { r.below(70) as u64 } else { *r.pick(crate::mutate::NASTY64) };
                    let w = *r.pick(&[1usize, 2, 4, 8]);
                    crate::mutate::put(&mut b, p, v, w);
                }
                if r.chance(1, 4) {
                    let n = half + r.below(b.len() - half);
                    b.truncate(n);
                }
                e.saw(&b);
                if let Some(d) = e.step(|| dfmt("AnimData").read_bytes(&b)) {
                    data_steps(&mut e, "AnimData", &*d, false);
                }
            }
        }
        13 | 14 => {
            let g = crate::props_shdr::gen(r, if tiny { 2 } else { 6 });
            let mut b = g.bytes.clone();
            if r.chance(2, 3) {
                for _ in 0..r.range(1, 3) {
                    let all = [&g.counts, &g.ptrs, &g.string_offsets, &g.string_lengths, &g.types][r.below(5)];
                    if !all.is_empty() && r.chance(2, 3) {
                        let v = *r.pick(crate::mutate::NASTY64);
                        crate::mutate::put(&mut b, *r.pick(all), v, 4);
                    } else {
                        crate::mutate::mutate(&mut b, r, &[]);
                    }
                }
            }
            e.saw(&b);
            e.step(|| ssbh_data::shdr_data::ShaderBinary::read(&mut Cursor::new(&b)).map_err(|e| e.to_string()));
            e.step(|| ssbh_data::shdr_data::MetaData::read(&mut Cursor::new(&b)).map_err(|e| e.to_string()));
        }
        _ => {
            // damaged JSON of either layer
            let f = r.pick(&DFM);
            let n = if tiny { 1 } else { r.range(1, 6) };
            let d = valid(f.name, r, n);
            let low = r.bool();
            let j = if low { e.step(|| d.to_lib()).and_then(|v| e.step(|| v.json_string())) } else { e.step(|| d.json_string()) };
            if let Some(j) = j {
                let mut b = j.into_bytes();
                damage(r, &mut b, &[]);
                let j = String::from_utf8_lossy(&b).into_owned();
                e.saw(j.as_bytes());
                if low {
                    if let Some(v) = e.step(|| (fmt(f.lib).from_json)(&j)) {
                        e.step(|| v.write_vec().map_err(|e| e.to_string()));
                        e.step(|| (f.from_lib)(&*v));
                    }
                } else if let Some(d) = e.step(|| (f.from_json)(&j)) {
                    e.step(|| d.write_vec());
                }
            }
        }
    }
    e
}
/// Independent subjects on several threads, and one value shared by reference between threads.
pub fn races(seed: u64, threads: usize, n: u64, tiny: bool) -> (u64, u64) {
    let start = std::sync::Barrier::new(threads);
    let steps = std::sync::atomic::AtomicU64::new(0);
    let shared = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (start, steps) = (&start, &steps);
            s.spawn(move || {
                start.wait();
                for i in 0..n {
                    // the same subjects in different orders on the threads
                    let e = exercise(seed.wrapping_add((i + k as u64 * 3) % n), tiny);
                    steps.fetch_add(e.steps, std::sync::atomic::Ordering::Relaxed);
                }
            });
        }
    });
    let mut r = Rng::new(seed);
    for _ in 0..(n / 4).max(1) {
        macro_rules! share {
            ($v:expr) => {{
                let v = $v;
                shared.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                std::thread::scope(|s| {
                    for k in 0..threads.min(3) {
                        let v = &v;
                        s.spawn(move || {
                            let mut e = Ex::default();
                            if k % 2 == 0 {
                                e.step(|| DataVal::write_vec(v));
                                e.step(|| v.to_lib());
                            } else {
                                e.step(|| v.to_lib());
                                e.step(|| v.json_string());
                                e.step(|| DataVal::write_vec(v));
                            }
                        });
                    }
                });
            }};
        }
        let n = if tiny { 1 } else { 4 };
        match r.below(6) {
            0 => share!(crate::gen_anim::anim(&mut r, 2 * n)),
            1 => share!(crate::gen_data::mesh(&mut r, &crate::gen_data::MeshOpts { max_objects: n, max_vertices: 6, tame: true, big: false })),
            2 => share!(crate::gen_data::matl(&mut r, n)),
            3 => share!(crate::gen_data::hlpb(&mut r, n)),
            4 => share!(crate::gen_data::skel(&mut r, n, crate::gen_data::SkelStyle::Any)),
            _ => share!(crate::gen_data::modl(&mut r, n)),
        }
    }
    (steps.into_inner(), shared.into_inner())
}
/// Entry point of the instrumented binaries.
pub fn child(a: &[String]) -> i32 {
    install_hook();
    let num = |i: usize| a.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    match a.first().map(|s| s.as_str()) {
        Some("exercise") => {
            let (seed, n, tiny) = (num(1), num(2), num(3) == 1);
            let (mut steps, mut failed) = (0, 0);
            let mut overflow = None;
            for i in 0..n {
                let e = exercise(seed.wrapping_add(i), tiny);
                steps += e.steps;
                failed += e.failed;
                if let Some(o) = e.overflow {
                    overflow.get_or_insert((i, o));
                }
                if tiny {
                    println!("AT {i} {:016x}", e.hash);
                }
            }
            if let Some((i, o)) = overflow {
                println!("OVERFLOW subject {i}: {o}");
            }
            println!("DONE {n} {steps} {failed}");
        }
        Some("races") => {
            let (s, sh) = races(num(1), num(3) as usize, num(2), num(4) == 1);
            println!("DONE {} {s} {sh}", num(2) * num(3));
        }
        Some("sweep") => {
            let p = crate::props().iter().find(|p| Some(p.id) == a.get(1).map(|s| s.as_str())).unwrap();
            let n = sweep(p, num(2), num(3), if num(3) > 100 { 60 } else { 16 });
            println!("DONE {n} {n} 0");
        }
        _ => return 2,
    }
    0
}
fn c24_balance(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let mut deltas = vec![];
    let mut steps = 0;
    for _ in 0..4 {
        let before = crate::mem::live();
        let e = exercise(seed, false);
        let (s, h) = (e.steps, e.hash);
        let o = e.overflow.clone();
        drop(e);
        if let Some(o) = o {
            c.artifact = seed.to_le_bytes().to_vec();
            return viol(format!("arithmetic overflow in subject {seed}: {o}"));
        }
        let d = crate::mem::live() - before;
        steps = s;
        if deltas.is_empty() {
            c.seen(&h.to_le_bytes());
        }
        deltas.push(d);
        // memory kept for good by the first call (tables, buffers of the runtime) is not a leak
        if d <= 0 {
            break;
        }
    }
    c.eval(steps);
    c.sample(|| format!("subject {seed}: {steps} steps, allocator balance {deltas:?}"));
    ensure!(deltas.last().unwrap() <= &0, "subject {seed}: every repetition keeps memory: {deltas:?} bytes");
    c.count("balanced", 1);
    c.count("balanced_steps", steps);
    Ok(())
}
struct Out {
    ok: bool,
    report: Option<String>,
    text: String,
}
/// Runs an instrumented binary; a report is a sanitizer's or the interpreter's own message, or death by a signal.
fn instrumented(c: &Case, tool: &str, args: &[String], limit_s: u64) -> Result<Option<Out>, Viol> {
    use std::os::unix::process::ExitStatusExt;
    let s = Scratch::new();
    let mut k;
    if tool == "miri" {
        let Ok(d) = std::env::var("VERIF_MIRI") else { return Ok(None) };
        k = Command::new("cargo");
        k.args(["+nightly", "miri", "run", "--offline", "--quiet", "--", "child"]).args(args);
        k.current_dir(verif_dir().join("harness")).env("CARGO_TARGET_DIR", d).env("CARGO_NET_OFFLINE", "true");
        let many = format!("-Zmiri-disable-isolation -Zmiri-seed={}", c.idx);
        k.env("MIRIFLAGS", many).env_remove("RUSTUP_TOOLCHAIN").env("RUSTFLAGS", "-Awarnings");
    } else {
        let Ok(p) = std::env::var(format!("VERIF_SAN_{}", tool.to_uppercase())) else { return Ok(None) };
        k = Command::new(p);
        k.arg("child").args(args);
        let common = "exitcode=97:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1:detect_leaks=0";
        k.env("ASAN_OPTIONS", format!("{common}:detect_stack_use_after_return=1:strict_string_checks=1")).env("MSAN_OPTIONS", common).env("TSAN_OPTIONS", common);
    }
    let (o, e) = (s.path("out"), s.path("err"));
    k.stdin(Stdio::null()).stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    k.env("VERIF_WORKERS", "1");
    {
        use std::os::unix::process::CommandExt;
        k.process_group(0);
    }
    let mut ch = k.spawn().map_err(|x| Viol { msg: format!("cannot start {tool}: {x}"), known: None })?;
    let start = std::time::Instant::now();
    let st = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break Some(st);
        }
        if start.elapsed().as_secs() > limit_s {
            let _ = Command::new("kill").args(["-9", "--", &format!("-{}", ch.id())]).status();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let text = |p| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (out, err) = (text(&o), text(&e));
    let marks = ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: ThreadSanitizer", "ThreadSanitizer:DEADLYSIGNAL", "Undefined Behavior", "Data race detected", "memory leaked", "unsafe precondition"];
    let mut report = marks.iter().find_map(|m| err.find(m).map(|i| err[i..].chars().take(1800).collect::<String>()));
    if let Some(st) = st {
        if report.is_none() && matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11)) {
            report = Some(format!("died with {st}: {}", err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
        }
        if report.is_none() && st.code() == Some(97) {
            report = Some(err.chars().take(1800).collect());
        }
    }
    Ok(Some(Out { ok: st.map(|s| s.success()) == Some(true), report, text: out }))
}
const SWEPT: [&str; 19] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C26"];
fn c24_address(c: &mut Case) -> R {
    c24_native(c, "address")
}
fn c24_memory(c: &mut Case) -> R {
    c24_native(c, "memory")
}
/// The generic workload, and the workloads of the other checks.
fn c24_native(c: &mut Case, tool: &str) -> R {
    let (many, few) = if c.thorough { (5000, 200) } else { (1200, 30) };
    let seed = c.rng.u64() >> 1;
    let k = c.idx as usize;
    if k % 2 == 0 {
        monitored(c, tool, vec!["exercise".into(), seed.to_string(), many.to_string(), "0".into()], 300)
    } else {
        monitored(c, tool, vec!["sweep".into(), SWEPT[k / 2 % SWEPT.len()].into(), seed.to_string(), few.to_string()], 300)
    }
}
fn c24_thread(c: &mut Case) -> R {
    let n = if c.thorough { 400 } else { 100 };
    let seed = c.rng.u64() >> 1;
    monitored(c, "thread", vec!["races".into(), seed.to_string(), n.to_string(), "4".into(), "0".into()], 300)
}
fn c24_miri(c: &mut Case) -> R {
    let n = if c.thorough { 30 } else { 5 };
    let seed = c.rng.u64() >> 1;
    let args = if c.idx % 4 == 3 {
        vec!["races".into(), seed.to_string(), "2".into(), "2".into(), "1".into()]
    } else {
        vec!["exercise".into(), seed.to_string(), n.to_string(), "1".into()]
    };
    monitored(c, "miri", args, 400)
}
fn monitored(c: &mut Case, tool: &str, args: Vec<String>, limit: u64) -> R {
    let Some(o) = instrumented(c, tool, &args, limit)? else {
        c.count("tools_not_built", 1);
        return Ok(());
    };
    let mode = args[0].clone();
    c.seen(format!("{tool} {args:?}").as_bytes());
    c.sample(|| format!("{tool}: {args:?}: {}", o.text.lines().last().unwrap_or("")));
    if let Some(r) = o.report {
        c.artifact = format!("{tool} {args:?}").into_bytes();
        return viol(format!("{tool} reports, running {args:?} (last subject: {}): {r}", o.text.lines().last().unwrap_or("none")));
    }
    if let Some(l) = o.text.lines().find(|l| l.starts_with("OVERFLOW")) {
        c.artifact = format!("{tool} {args:?}").into_bytes();
        return viol(format!("arithmetic overflow under {tool}, {args:?}: {l}"));
    }
    if !o.ok {
        c.count("runs_without_an_answer", 1);
        return Ok(());
    }
    let done: Vec<u64> = o.text.lines().find_map(|l| l.strip_prefix("DONE ")).map(|l| l.split(' ').filter_map(|v| v.parse().ok()).collect()).unwrap_or_default();
    if let [n, steps, x] = done[..] {
        let k: &'static str = match tool {
            "address" => "address_subjects",
            "memory" => "memory_subjects",
            "thread" => "thread_subjects",
            _ => "miri_subjects",
        };
        c.count(k, n);
        c.count("instrumented_steps", steps);
        c.eval(steps);
        if mode == "races" {
            c.count("shared_values", x);
        }
        if mode == "sweep" {
            c.count(if tool == "address" { "address_sweeps" } else { "memory_sweeps" }, 1);
        }
    }
    Ok(())
}
