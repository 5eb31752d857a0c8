#![allow(dead_code)]
mod core;
mod data_formats;
mod derive_types;
mod gen_anim;
mod gen_data;
mod io;
mod leaf;
mod lib_formats;
mod mem;
mod model;
mod mutate;
mod props_anim;
mod props_blocks;
mod props_derive;
mod props_drift;
mod props_features;
mod props_foreign;
mod props_io;
mod props_json;
mod props_lib;
mod props_mem;
mod props_mesh;
mod props_misc;
mod props_reject;
mod props_robust;
mod props_shdr;
mod schema;

#[global_allocator]
static A: mem::Track = mem::Track;

fn props() -> &'static [core::Prop] {
    static P: std::sync::OnceLock<Vec<core::Prop>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        v.extend(props_lib::props());
        v.extend(props_anim::props());
        v.extend(props_mesh::props());
        v.extend(props_misc::props());
        v.extend(props_robust::props());
        v.extend(props_reject::props());
        v.extend(props_io::props());
        v.extend(props_blocks::props());
        v.extend(props_drift::props());
        v.extend(props_features::props());
        v.extend(props_foreign::props());
        v.extend(props_derive::props());
        v.extend(props_mem::props());
        v.extend(props_json::props());
        v.extend(props_shdr::props());
        v
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mon run ID [quick|thorough] [seed] | mon replay FILE | mon list");
        std::process::exit(2)
    };
    let find = |id: &str| props().iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(a.get(2).map(|s| s.as_str()).unwrap_or(""));
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let seed = a.get(4).cloned().or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            core::parent(p, tier == "thorough", seed)
        }
        Some("worker") => core::worker(find(&a[2]), a[3] == "thorough", a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &a[7]),
        Some("replay") => core::replay(props(), &a[2]),
        Some("digest") => {
            props_io::digest(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("child") => props_mem::child(&a[2..]),
        Some("dump") => {
            dump();
            0
        }
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.units.iter().map(|u| u.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
#[allow(unused)]
fn dump() {
    let mut r = core::Rng::new(5);
    for k in 0..schema::kinds() {
        let o = schema::GenOpts { json: true, max_array: 2, budget: 14, max_buf: 10, nulls: false };
        let rf = schema::gen_file(k, &mut r, o);
        let f = lib_formats::fmt(rf.fmt);
        println!("{k} {} {:?} {}", rf.fmt, rf.version, rf.json.to_string().chars().take(1200).collect::<String>());
        if let Some(d) = data_formats::dfmt_for_lib(rf.fmt) {
            println!("   -> {:?}", (d.read_bytes(&rf.bytes)).and_then(|d| d.json()).map(|j| j.to_string().chars().take(1200).collect::<String>()));
        }
    }
}
