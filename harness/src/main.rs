#![feature(thread_local)]
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, function_casts_as_integer, dead_code)]
#[macro_use]
mod engine;
mod common;
mod lin;
mod model;
#[allow(dead_code)]
mod collide_keys;
mod p_collide;
mod p_crash;
mod p_dead;
mod p_ds;
mod p_iter;
mod p_kv;
mod p_typed;
mod p_fault;
mod p_flush;
mod p_open;
mod rt;
mod snap;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

fn props() -> Vec<engine::Prop> {
    let mut v = vec![];
    v.extend(p_kv::props());
    v.extend(p_ds::props());
    v.extend(lin::props());
    v.extend(p_crash::props());
    v.extend(p_iter::props());
    v.extend(p_typed::props());
    v.extend(p_dead::props());
    v.extend(p_flush::props());
    v.extend(p_fault::props());
    v.extend(p_open::props());
    v.extend(p_collide::props());
    v
}

fn main() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("CANDY_REEXEC").is_err() {
            if libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("CANDY_REEXEC", "1").exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| ps.iter().position(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = &ps[find(&a[2])];
            let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let mut scale = 1.0;
            let mut only = None;
            let mut seed = seed;
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--quick" => thorough = false,
                    "--thorough" => thorough = true,
                    "--scale" => {
                        i += 1;
                        scale = a[i].parse().unwrap();
                    }
                    "--part" => {
                        i += 1;
                        only = Some(a[i].clone());
                    }
                    "--seed" => {
                        i += 1;
                        seed = a[i].parse().unwrap();
                    }
                    x => panic!("unknown option {x}"),
                }
                i += 1;
            }
            engine::run_check(p, seed, thorough, scale, only.as_deref())
        }
        Some("replay") => engine::replay(&ps, &a[2]),
        Some("one") => engine::run_one(&ps[find(&a[2])], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("list") => {
            for p in &ps {
                println!("{} {} {:?}", p.id, p.level, p.parts.iter().map(|x| (x.0, x.1, x.2)).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | one ID PART SEED IDX | list");
            2
        }
    };
    std::process::exit(rc);
}
