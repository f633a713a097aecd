//! Property-based checks of mopaq, storm-ffi and storm-cli. See /verif/DESIGN.md.
mod alloc;
mod engine;
mod gen;
mod props;
mod refmpq;
mod sign;
mod tape;
mod trace;

use std::path::PathBuf;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn verif_dir() -> PathBuf {
    std::env::var_os("VP_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Formats every message and drops it
struct Sink;

impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

fn read_tape(p: &str) -> Vec<u64> {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("{p}: {e}");
        std::process::exit(2)
    });
    let v: serde_json::Value = serde_json::from_str(&s).unwrap_or_else(|e| {
        eprintln!("{p}: {e}");
        std::process::exit(2)
    });
    let a = v.get("tape").cloned().unwrap_or(v);
    a.as_array()
        .into_iter()
        .flatten()
        .filter_map(|x| x.as_u64())
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let props = props::all();
    let _ = log::set_logger(&Sink);
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let code = match &a[1..] {
        ["list"] => {
            for p in &props {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
            }
            0
        }
        [id, "replay", file] => {
            let p = find(id);
            let scratch = engine::scratch_base().join(format!("vp-{id}-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&scratch);
            if p.unprivileged {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o777));
            }
            let r = engine::single(p, false, seed, None, Some(read_tape(file)), &scratch, true);
            let _ = std::fs::remove_dir_all(&scratch);
            if r == 1 {
                println!("VIOLATION property={id} replay={file}");
            }
            r
        }
        ["internal", id, tier, seed, count, scratch, mode, arg] => {
            let p = find(id);
            let thorough = *tier == "thorough";
            let seed = seed.parse().unwrap_or(1);
            let count = count.parse().unwrap_or(0);
            let scratch = PathBuf::from(scratch);
            match *mode {
                "worker" => {
                    engine::worker(p, thorough, seed, count, arg.parse().unwrap_or(0), &scratch)
                }
                "case" => engine::single(
                    p,
                    thorough,
                    seed,
                    Some(arg.parse().unwrap_or(0)),
                    None,
                    &scratch,
                    false,
                ),
                "tape" => engine::single(
                    p,
                    thorough,
                    seed,
                    None,
                    Some(read_tape(arg)),
                    &scratch,
                    false,
                ),
                "shrink" => engine::shrink_worker(p, thorough, &scratch, read_tape(arg)),
                _ => 2,
            }
        }
        [id, tier @ ("quick" | "thorough")] => {
            engine::run(find(id), *tier == "thorough", seed, &verif_dir())
        }
        _ => {
            eprintln!("usage: vp ID quick|thorough | ID replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
