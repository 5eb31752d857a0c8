//! C29: neither optional features nor the build profile change what the libraries read, compute and write.
use crate::core::*;
use crate::ensure;
use crate::lib_formats::*;

use crate::schema::{gen_file, gen_loose, kinds, opts};
use std::collections::BTreeMap;
use std::io::Write as _;
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "distinct files (generated from the format descriptions, written by the libraries from generated data, or damaged) put through reading, conversion, writing and JSON by eight builds of one driver: the feature sets none, serde, serde_hex, strum, arbitrary and all, and two optimised builds without overflow checks; all digests must agree",
        assumptions: &["floating point code without fast-math gives the same results at every optimisation level"],
        must: &["files", "digests_compared", "json_digests_compared", "data_files", "damaged", "builds", "large_files"],
        units: vec![unit("configs", 1_400, 60_000, configs)],
    }]
}
const BUILDS: [&str; 8] = ["plain", "serde", "hex", "strum", "arbitrary", "all", "release", "releaseall"];
fn run(build: &str, input: &[u8]) -> Result<Vec<String>, Viol> {
    let dir = std::env::var("VERIF_FEAT").map(std::path::PathBuf::from).unwrap_or_else(|_| verif_dir().join("target-feat"));
    let mut ch = Command::new(dir.join(format!("feat-{build}")))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start the {build} driver: {e}"));
    let mut si = ch.stdin.take().unwrap();
    let input = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&input);
    });
    let o = ch.wait_with_output().map_err(|e| Viol { msg: format!("{build}: {e}"), known: None })?;
    let _ = t.join();
    if !o.status.success() {
        return viol(format!("the {build} build of the driver died: {:?}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
}
fn configs(c: &mut Case) -> R {
    const N: usize = 60;
    let mut files: Vec<(u8, Vec<u8>, &'static str)> = vec![];
    for i in 0..N {
        let k = c.idx as usize * N + i;
        let f = &FORMATS[c.rng.below(12)];
        let (kind, mut b, mut what): (usize, Vec<u8>, &'static str) = match c.rng.below(4) {
            0 => {
                let mut o = opts(&mut c.rng, false);
                if c.rng.chance(1, 25) {
                    o = crate::schema::GenOpts { json: false, max_array: *c.rng.pick(&[300, 1100, 5000]), budget: *c.rng.pick(&[2000, 9000]), max_buf: *c.rng.pick(&[5000, 70_000]), nulls: true };
                    c.count("large_files", 1);
                }
                let rf = gen_file(k % kinds(), &mut c.rng, o);
                (FORMATS.iter().position(|f| f.name == rf.fmt).unwrap(), rf.bytes, "file")
            }
            1 => {
                let o = opts(&mut c.rng, false);
                let rf = gen_loose(k % kinds(), &mut c.rng, o);
                (FORMATS.iter().position(|f| f.name == rf.fmt).unwrap(), rf.loose, "file")
            }
            2 => {
                let d = &crate::data_formats::DFM[k % crate::data_formats::DFM.len()];
                let x = crate::gen_data::valid(d.name, &mut c.rng, 6);
                let Ok(b) = x.write_vec() else { continue };
                (FORMATS.iter().position(|f| f.name == d.lib).unwrap(), b, "data")
            }
            _ => {
                let max = *c.rng.pick(&[200usize, 1000, 4000]);
                let Some(v) = arb_val(f, &mut c.rng, max) else { continue };
                if !writable(f, &*v) {
                    continue;
                }
                let Ok(b) = v.write_vec() else { continue };
                (FORMATS.iter().position(|g| g.name == f.name).unwrap(), b, "file")
            }
        };
        if c.rng.chance(1, 3) {
            for _ in 0..c.rng.range(1, 3) {
                crate::mutate::mutate(&mut b, &mut c.rng, &[]);
            }
            what = "damaged";
        }
        files.push((kind_code(FORMATS[kind].name), b, what));
    }
    let mut input = vec![];
    for (k, b, _) in &files {
        input.push(*k);
        input.extend((b.len() as u32).to_le_bytes());
        input.extend(b);
    }
    let mut lines: Vec<(&str, Vec<String>)> = vec![];
    for b in BUILDS {
        let l = run(b, &input)?;
        ensure!(l.len() == files.len(), "the {b} build answered {} of {} inputs", l.len(), files.len());
        lines.push((b, l));
    }
    c.max("builds", BUILDS.len() as u64);
    c.count("builds", BUILDS.len() as u64);
    for (i, (k, bytes, what)) in files.iter().enumerate() {
        c.seen(bytes);
        c.count(match *what {
            "file" => "files",
            "data" => "data_files",
            _ => "damaged",
        }, 1);
        c.sample(|| format!("{what} {}", lines[5].1[i]));
        let mut first: BTreeMap<String, (String, &str)> = BTreeMap::new();
        for (b, l) in &lines {
            for (n, w) in l[i].split(' ').enumerate() {
                let (key, val) = w.split_once('=').unwrap_or((w, ""));
                let json = key.contains("json");
                let key = if key == "version" { format!("{key}{n}") } else { key.to_string() };
                // positions differ between builds with and without JSON, so versions are keyed by value order below
                let key = if key.starts_with("version") { continue } else { key };
                c.count(if json { "json_digests_compared" } else { "digests_compared" }, 1);
                match first.get(&key) {
                    None => {
                        first.insert(key, (val.to_string(), b));
                    }
                    Some((v0, b0)) => {
                        if v0 != val {
                            c.artifact = bytes.clone();
                            return viol(format!("kind {k} ({what}, {} bytes): {key} is {v0} in the {b0} build and {val} in the {b} build\n  {b0}: {}\n  {b}: {}", bytes.len(), lines.iter().find(|x| x.0 == *b0).unwrap().1[i], l[i]));
                        }
                    }
                }
            }
            let versions = |l: &str| l.split(' ').filter(|w| w.starts_with("version=")).map(|w| w.to_string()).collect::<Vec<_>>();
            let (a, z) = (versions(&lines[0].1[i]), versions(&l[i]));
            ensure!(a == z, "kind {k} ({what}): other versions are written as {a:?} by the {} build and as {z:?} by the {b} build", lines[0].0);
        }
        // the same steps happened in every build that has them
        let steps = |l: &str| l.split(' ').map(|w| w.split('=').next().unwrap().to_string()).filter(|w| !w.contains("json")).collect::<Vec<_>>();
        for (b, l) in &lines {
            ensure!(steps(&l[i]) == steps(&lines[0].1[i]), "kind {k} ({what}): the {b} build took the steps {:?}, the plain build {:?}", steps(&l[i]), steps(&lines[0].1[i]));
        }
    }
    Ok(())
}
fn kind_code(name: &str) -> u8 {
    ["Hlpb", "Matl", "Modl", "Mesh", "Skel", "Anim", "Nlst", "Nrpd", "Nufx", "Shdr", "MeshEx", "Adj"].iter().position(|n| *n == name).unwrap_or_else(|| panic!("no kind for {name}")) as u8
}
