//! M12: building an archive is atomic, under observation, injected failures and crashes.
use crate::engine::*;
use crate::gen::*;
use crate::trace::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M12",
        level: "fault injection and crash points at every file-system call of generated builds",
        rule: "a build was observed, failed or killed at a file-system call, or failed by itself",
        assumptions: &[
            "a crash is the end of the process (the order in which the kernel brings data to disk is not modelled)",
            "one process builds to the path at a time",
        ],
        run: m12,
        quick: 15_000,
        thorough: 120_000,
        mem_mb: 0,
        unprivileged: false,
    }]
}

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;

fn tree(d: &Path) -> Tree {
    fn walk(d: &Path, t: &mut Tree) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() && !p.is_symlink() {
                    t.insert(p.clone(), None);
                    walk(&p, t);
                } else {
                    t.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut t = Tree::new();
    walk(d, &mut t);
    t
}

/// The first difference between two trees, apart from `except`
fn tree_diff(a: &Tree, b: &Tree, except: &Path) -> Option<String> {
    for (p, v) in b {
        if p != except && a.get(p) != Some(v) {
            return Some(match a.get(p) {
                None => format!("{} was left behind", p.display()),
                Some(_) => format!("{} was changed", p.display()),
            });
        }
    }
    a.keys().find(|p| *p != except && !b.contains_key(*p)).map(|p| format!("{} was removed", p.display()))
}

fn complete(g: &GArchive, dir: &Path, bytes: &[u8], reference: &[u8]) -> bool {
    if bytes == reference {
        return true;
    }
    // another encoding of the same archive would do as well
    let p = dir.join("complete.mpq");
    if std::fs::write(&p, bytes).is_err() {
        return false;
    }
    let Ok(mut a) = open(&p) else { return false };
    let ok = g.files.iter().all(|f| a.read_file(&f.name).is_ok_and(|d| g.contents(&f.name).contains(&&d[..])))
        && g.listfile_text().is_none_or(|t| a.read_file("(listfile)").is_ok_and(|d| d == t));
    drop(a);
    let _ = std::fs::remove_file(&p);
    ok
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Natural {
    None,
    MissingInput,
    Duplicate,
    Method,
    Listfile,
}

fn m12(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt { max_files: 4, max_size: 3_000, ..Default::default() };
    let mut g = archive(&mut c.t, &o);
    g.shift = g.shift.min(4);
    // now and then a large archive
    if c.t.chance(1, 40) {
        c.class("large archive");
        let one = |name: String, data: Vec<u8>| GFile {
            name,
            data,
            method: 0,
            default_method: false,
            mode: Mode::Plain,
            locale: 0,
            from_disk: false,
        };
        if c.t.chance(1, 4) {
            let n = c.t.urange(120, 300);
            g.files.extend((0..n).map(|i| one(format!("many\\{i}"), vec![i as u8; i % 5])));
        } else {
            let k = c.t.weighted(&[6, 6, 6, 6, 6, 1, 1]);
            let n = [66_000, 132_000, 270_000, 600_000, 1_200_000, 5_000_000, 17_000_000][k];
            g.shift = if k > 4 { 8 } else { 3 } + c.t.u(2) as u16;
            let d = scale_data(&mut c.t, n);
            g.files.push(one("large".into(), d));
        }
    }
    // an archive of the simplest kind through the other entry point
    let via_options = c.t.chance(1, 12);
    if via_options {
        g = GArchive {
            version: g.version,
            shift: 3,
            crcs: false,
            listfile: LF::Generate,
            compress_tables: None,
            table_method: None,
            default_method: None,
            files: vec![],
        };
    }
    let natural = if via_options || c.t.chance(4, 5) {
        Natural::None
    } else {
        *c.t.pick(&[Natural::MissingInput, Natural::Duplicate, Natural::Method, Natural::Listfile])
    };
    note(c, &g);
    let work = c.path("work");
    let side = c.path("side");
    let inputs = work.join("inputs");
    let place = work.join("place");
    let tmp = work.join("tmp");
    for d in [&work, &side, &inputs, &place, &tmp] {
        std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    }
    // what is at the target before
    let target = place.join("t.mpq");
    let kind = c.t.weighted(&[3, 4, 3, 1, 1, 1]);
    let kname = ["absent", "some file", "an archive", "a directory", "a link", "no parent"][kind];
    let target = if kind == 5 { place.join("none/t.mpq") } else { target };
    match kind {
        1 => {
            let n = c.t.u(4000);
            let d = content(&mut c.t, n);
            std::fs::write(&target, d).map_err(|e| e.to_string())?;
        }
        2 => {
            let d = content(&mut c.t, 700);
            mopaq::ArchiveBuilder::new()
                .add_file_data(d, "old")
                .build(&target)
                .map_err(|e| e.to_string())?;
        }
        3 => {
            std::fs::create_dir(&target).map_err(|e| e.to_string())?;
            if c.t.bool() {
                std::fs::write(target.join("inner"), b"x").map_err(|e| e.to_string())?;
            }
        }
        4 => {
            std::fs::write(work.join("linked"), b"linked content").map_err(|e| e.to_string())?;
            std::os::unix::fs::symlink(work.join("linked"), &target).map_err(|e| e.to_string())?;
        }
        _ => {}
    }
    // a bystander whose name could be taken for a temporary file
    if c.t.bool() {
        let n = *c.t.pick(&["t.mpq.tmp", "t.tmp", ".tmp", "t.mpq~", "other.mpq", "t.mpq.bak", "t.mpq.new"]);
        std::fs::write(place.join(n), b"bystander").map_err(|e| e.to_string())?;
    }
    let relative = kind != 5 && c.t.chance(1, 3);
    let old = std::fs::read(&target).ok();
    let reference = side.join("reference.mpq");
    g.build(&inputs, &reference).map_err(|e| format!("build failed: {e}"))?;
    let reference = std::fs::read(&reference).map_err(|e| e.to_string())?;
    let builder = |inputs: &Path| {
        let mut b = g.builder(inputs);
        match natural {
            Natural::None => {}
            Natural::MissingInput => b = b.add_file(inputs.join("does-not-exist"), "gone"),
            Natural::Duplicate => {
                b = b.add_file_data(vec![1; 30], "dup-name").add_file_data(vec![2; 700], "DUP-name")
            }
            Natural::Method => b = b.add_file_data_with_options(vec![0; 900], "bad", 0x01, false, 0),
            Natural::Listfile => {
                b = b.listfile_option(mopaq::ListfileOption::External(inputs.join("no-listfile")))
            }
        }
        b
    };
    // (writes the input files)
    drop(builder(&inputs));
    let before = tree(&work);
    let version = VERSIONS[g.version];
    let run = |act: &mut dyn FnMut(Call) -> Act, seen: &mut dyn FnMut(Call) -> Result<(), String>| {
        let b = builder(&inputs);
        traced(
            || {
                std::env::set_var("TMPDIR", &tmp);
                let p = if relative {
                    let _ = std::env::set_current_dir(&place);
                    PathBuf::from("t.mpq")
                } else {
                    target.clone()
                };
                let r = if via_options {
                    mopaq::OpenOptions::new().version(version).create(&p).map(|_| ())
                } else {
                    b.build(&p)
                };
                if r.is_ok() {
                    0
                } else {
                    1
                }
            },
            act,
            seen,
        )
    };
    let restore = || -> Result<(), String> {
        // back to the state before
        for (p, v) in tree(&work).iter().rev() {
            if before.get(p) != Some(v) || p == &target {
                let _ = if v.is_none() { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
            }
        }
        match kind {
            1 | 2 => std::fs::write(&target, old.as_deref().unwrap_or_default()).map_err(|e| e.to_string())?,
            3 => {
                let _ = std::fs::create_dir(&target);
                for (p, v) in &before {
                    if let (true, Some(v)) = (p.starts_with(&target), v) {
                        std::fs::write(p, v).map_err(|e| e.to_string())?;
                    }
                }
            }
            4 => std::os::unix::fs::symlink(work.join("linked"), &target).map_err(|e| e.to_string())?,
            _ => {}
        }
        match tree_diff(&before, &tree(&work), &target) {
            Some(d) => Err(format!("harness: could not restore: {d}")),
            None => Ok(()),
        }
    };
    let state = |when: &str| -> Result<bool, String> {
        // Ok(true): the new archive, Ok(false): as before
        match std::fs::read(&target) {
            Ok(d) if Some(&d) == old.as_ref() => Ok(d == reference),
            Ok(d) if complete(&g, &side, &d, &reference) => Ok(true),
            Ok(d) => Err(format!(
                "{when}: the target ({kname} before) holds {} bytes, neither the old content nor the complete archive ({} bytes)",
                d.len(),
                reference.len()
            )),
            Err(_) if old.is_none() => Ok(false),
            Err(e) => Err(format!("{when}: the target's old content is gone: {e}")),
        }
    };
    let finish = |when: &str, end: End, excused: bool| -> Result<(), String> {
        let now = tree(&work);
        match end {
            End::Exit(0) => {
                if natural != Natural::None || kind == 3 || kind == 5 {
                    return Err(format!("{when}: the build succeeded (target {kname}, {natural:?})"));
                }
                if !state(when)? {
                    return Err(format!("{when}: success reported without the archive at the target"));
                }
                if let (false, Some(d)) = (excused, tree_diff(&before, &now, &target)) {
                    return Err(format!("{when}: success, but {d}"));
                }
            }
            End::Exit(1) => {
                let same = match std::fs::read(&target) {
                    Ok(d) => Some(&d) == old.as_ref(),
                    Err(_) => old.is_none(),
                };
                // (OpenOptions::create opens the archive after building it)
                if via_options && !same {
                    state(when)?;
                } else if !same || (kind == 4 && !target.is_symlink()) {
                    return Err(format!("{when}: the build failed but the target ({kname} before) changed"));
                }
                if let (false, Some(d)) = (excused, tree_diff(&before, &now, &target)) {
                    return Err(format!("{when}: the build failed and {d}"));
                }
            }
            End::Killed => {
                state(when)?;
                // whatever a crash leaves, inputs and bystanders survive
                for p in before.keys() {
                    if *p != target && before.get(p) != now.get(p) {
                        return Err(format!("{when}: {} was changed", p.display()));
                    }
                }
            }
            End::Exit(101) => return Err(format!("{when}: panic")),
            End::Exit(90) => return Err("harness: ptrace not permitted".into()),
            e => return Err(format!("{when}: the process ended with {e:?}")),
        }
        Ok(())
    };

    c.nontrivial();
    c.class(format!("target: {kname}"));
    c.class(format!("{natural:?}").replace("None", "no built-in failure"));
    // 1. undisturbed, the target observed after every call
    let mut calls: Vec<Call> = vec![];
    let mut last = false;
    let held = if matches!(kind, 1 | 2) { std::fs::File::open(&target).ok() } else { None };
    let end = run(&mut |x| {
        calls.push(x);
        Act::Run
    }, &mut |x| {
        let now = state(&format!("after {} (call {})", call_name(x.nr), x.k))?;
        if last && !now && old.as_ref() != Some(&reference) {
            return Err("the new archive disappeared again".into());
        }
        last = now;
        Ok(())
    })?;
    c.evals += calls.len() as u64;
    finish("undisturbed", end, false)?;
    if let (Some(mut f), Some(old)) = (held, &old) {
        use std::io::Read;
        let mut d = vec![];
        let _ = f.read_to_end(&mut d);
        if &d != old {
            return Err("a reader of the old file sees it change".into());
        }
    }
    if calls.is_empty() {
        return Ok(());
    }
    // 2. disturbed
    let n = calls.len();
    let trials = if c.thorough { n.min(24) } else { 5 };
    for _ in 0..trials {
        restore()?;
        // prefer the calls that matter: writes, renames, the last ones
        let k = match c.t.u(4) {
            0 => c.t.u(n),
            1 => n - 1 - c.t.u(n.min(8)),
            2 => {
                let w: Vec<usize> = (0..n).filter(|&i| writes(calls[i].nr)).collect();
                if w.is_empty() { c.t.u(n) } else { w[c.t.u(w.len())] }
            }
            _ => {
                let w: Vec<usize> = (0..n).filter(|&i| !transfers(calls[i].nr) && calls[i].nr != libc::SYS_lseek).collect();
                if w.is_empty() { c.t.u(n) } else { w[c.t.u(w.len())] }
            }
        };
        let mode = c.t.u(6);
        let errno = *c.t.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::EINTR, libc::EMFILE]);
        let short = c.t.below(64) + 1;
        let what = calls[k];
        let when = match mode {
            0 | 1 => format!("{} (call {k} of {n}) failing with errno {errno}", call_name(what.nr)),
            2 => format!("all writes from call {k} of {n} failing with errno {errno}"),
            3 => format!("killed before {} (call {k} of {n})", call_name(what.nr)),
            4 => format!("killed after {} (call {k} of {n})", call_name(what.nr)),
            _ => format!("short transfers of {short} bytes from call {k} of {n}"),
        };
        c.describe(&when);
        let mut excused = false;
        let mut hit = false;
        let end = run(
            &mut |x| match mode {
                0 | 1 if x.k == k => {
                    hit = true;
                    excused |= removes(x.nr);
                    Act::Fail(errno)
                }
                2 if x.k >= k && writes(x.nr) => {
                    hit = true;
                    Act::Fail(if errno == libc::EINTR { libc::EIO } else { errno })
                }
                3 if x.k == k => Act::Kill,
                4 if x.k == k => Act::KillAfter,
                5 if x.k >= k && x.k < k + 40 => Act::Short(short),
                _ => Act::Run,
            },
            &mut |x| state(&format!("{when}, after {} (call {})", call_name(x.nr), x.k)).map(|_| ()),
        )?;
        c.evals += 1;
        finish(&when, end, excused)?;
        c.class(match mode {
            0 | 1 => format!("failed {}: {}", call_name(what.nr), if end == End::Exit(0) { "still built" } else { "reported" }),
            2 => format!("disk full{}", if hit { "" } else { " (no write left)" }),
            3 | 4 => "killed".into(),
            _ => "short transfers".into(),
        });
        if end == End::Killed && natural == Natural::None && kind < 3 && !via_options {
            // the next build copes with what the crash left
            builder(&inputs).build(&target).map_err(|e| format!("{when}: the next build failed: {e}"))?;
            if !state("the next build")? {
                return Err(format!("{when}: the next build left no archive"));
            }
        }
    }
    Ok(())
}
