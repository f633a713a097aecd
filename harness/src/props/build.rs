//! Properties of building and reading back: M01, M18, M19, M29.
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use std::collections::{HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M01",
        level: "exploration",
        rule: "a case counts when its archive holds at least one non-empty file; distinct by choice tape",
        assumptions: &["files of up to about 200 KB, up to 400 files per archive"],
        run: m01,
        quick: 72_000,
        thorough: 600_000,
        mem_mb: 0,
        unprivileged: false,
    },
    Prop {
        id: "M18",
        level: "exploration",
        rule: "a case counts when its archive holds at least one added file (four builds per case); distinct by choice tape",
        assumptions: &["files of up to 8 KB, up to 240 files"],
        run: m18,
        quick: 30_000,
        thorough: 300_000,
        mem_mb: 0,
        unprivileged: false,
    },
    Prop {
        id: "M19",
        level: "exploration",
        rule: "a case counts when it attempts an impossible build, or a possible one of colliding or numerous names; distinct by choice tape",
        assumptions: &["sets of up to 9000 names", "runs as root: permission errors are represented by directories and missing paths"],
        run: m19,
        quick: 72_000,
        thorough: 600_000,
        mem_mb: 0,
        unprivileged: false,
    },
    Prop {
        id: "M29",
        level: "exploration",
        rule: "a case counts when its archive holds at least one non-empty file; distinct by choice tape",
        assumptions: &["the independent reader follows the repository's documentation of the format (docs and code comments) where published descriptions differ"],
        run: m29,
        quick: 60_000,
        thorough: 500_000,
        mem_mb: 0,
        unprivileged: false,
    }]
}

fn m01(c: &mut Ctx) -> Result<(), String> {
    let big = scale(c, 997);
    let o = GenOpt {
        max_size: if c.t.chance(1, 12) { 200_000 } else { 12_000 },
        max_files: if c.t.chance(1, 60) { 100 } else { 6 },
        ..Default::default()
    };
    let big = big.or_else(|| {
        c.t.chance(1, 400).then(|| {
            c.class("long file");
            24 + c.t.below(4) * 2
        })
    });
    let g = match big {
        Some(k) => bulk_archive(&mut c.t, k),
        None => archive(&mut c.t, &o),
    };
    note(c, &g);
    if g.files.iter().any(|f| !f.data.is_empty()) {
        c.nontrivial();
    }
    let p = c.path("a.mpq");
    g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
    let mut a = open(&p)?;
    let mut by: HashMap<Vec<u8>, Vec<&[u8]>> = HashMap::new();
    for f in &g.files {
        by.entry(fold(&f.name)).or_default().push(&f.data);
    }
    // read in an order of its own, every name once or twice
    let n = g.files.len();
    let mut r = c.t.sub();
    let rounds = n + n.min(6);
    for k in 0..rounds {
        let i = if k < n { n - 1 - k } else { r.below(n as u64) as usize };
        let f = &g.files[i];
        c.evals += 1;
        let got = a
            .read_file(&f.name)
            .map_err(|e| format!("reading {:?} failed: {e}", f.name))?;
        let want = &by[&fold(&f.name)];
        if !want.contains(&&got[..]) {
            return Err(format!(
                "content of {:?} differs: {}",
                f.name,
                diff(&got, want[0])
            ));
        }
    }
    if let Some(text) = g.listfile_text() {
        let got = a
            .read_file("(listfile)")
            .map_err(|e| format!("reading the listfile failed: {e}"))?;
        if got != text {
            return Err(format!("listfile differs: {}", diff(&got, &text)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M18

fn m18(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_size: 8_000,
        max_files: if c.t.chance(1, 40) { 60 } else { 6 },
        ..Default::default()
    };
    let g = match scale(c, 1499) {
        Some(k) => bulk_archive(&mut c.t, k),
        None => archive(&mut c.t, &o),
    };
    note(c, &g);
    if !g.files.is_empty() {
        c.nontrivial();
    }
    let (p1, p2) = (c.path("first.mpq"), c.path("second-target"));
    g.build(&c.dir, &p1).map_err(|e| format!("build failed: {e}"))?;
    let b1 = std::fs::read(&p1).map_err(|e| e.to_string())?;

    // over something that exists
    let old = c.t.u(4);
    match old {
        0 => {}
        1 => std::fs::write(&p2, b"old").unwrap(),
        2 => std::fs::write(&p2, vec![7u8; b1.len() + 5000]).unwrap(),
        _ => std::fs::copy(&p1, &p2).map(|_| ()).unwrap(),
    }
    c.class(["new path", "over a short file", "over a longer file", "over the same archive"][old]);
    g.build(&c.dir, &p2).map_err(|e| format!("second build failed: {e}"))?;
    let b2 = std::fs::read(&p2).map_err(|e| e.to_string())?;
    c.evals += 1;
    if b1 != b2 {
        return Err(format!("two builds differ: {}", diff(&b2, &b1)));
    }

    // memory instead of disk and vice versa
    let mut g2 = g.clone();
    for f in &mut g2.files {
        f.from_disk = !f.from_disk && g.files.len() < 500;
    }
    let p3 = c.path("third.mpq");
    g2.build(&c.dir, &p3).map_err(|e| format!("third build failed: {e}"))?;
    let b3 = std::fs::read(&p3).map_err(|e| e.to_string())?;
    c.evals += 1;
    if b1 != b3 {
        return Err(format!("memory and disk sources give different archives: {}", diff(&b3, &b1)));
    }

    // another order: same contents and attributes of every file
    let mut g4 = g.clone();
    let mut r = c.t.sub();
    for i in (1..g4.files.len()).rev() {
        g4.files.swap(i, r.below(i as u64 + 1) as usize);
    }
    let p4 = c.path("fourth.mpq");
    g4.build(&c.dir, &p4).map_err(|e| format!("build in another order failed: {e}"))?;
    let mut a = open(&p4)?;
    let step = 1 + g.files.len() / 2000;
    for f in g.files.iter().step_by(step) {
        c.evals += 1;
        let got = a
            .read_file(&f.name)
            .map_err(|e| format!("other order: reading {:?} failed: {e}", f.name))?;
        if f.data != got && !g.contents(&f.name).contains(&&got[..]) {
            return Err(format!(
                "other order: content of {:?} differs: {}",
                f.name,
                diff(&got, &f.data)
            ));
        }
    }
    let (mut x, mut y) = (
        open(&p1)?.list_all().map_err(|e| e.to_string())?.iter().map(|e| (e.size, e.flags & !F_COMPRESS)).collect::<Vec<_>>(),
        a.list_all().map_err(|e| e.to_string())?.iter().map(|e| (e.size, e.flags & !F_COMPRESS)).collect::<Vec<_>>(),
    );
    x.sort();
    y.sort();
    if x != y {
        return Err("other order: different set of entries".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ M19

fn snapshot(dir: &std::path::Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let n = p.strip_prefix(dir).unwrap().display().to_string();
        if p.is_dir() {
            v.push((n, None));
        } else {
            v.push((n, std::fs::read(&p).ok()));
        }
    }
    v.sort();
    v
}

fn m19(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_size: 3_000,
        max_files: 6,
        external: false,
        ..Default::default()
    };
    let mut g = archive(&mut c.t, &o);
    let kind = c.t.u(9);
    // now and then among many others
    let crowd = match scale(c, 397) {
        Some(k) => [300, 900, 1100, 2100, 4200, 8300][k as usize % 6] + c.t.u(20),
        None if c.t.chance(1, 30) => c.t.urange(10, 130),
        None => 0,
    };
    if crowd > 0 && kind < 8 {
        c.class("among many");
        let k = c.t.u(g.files.len() + 1);
        let v = (0..crowd).map(|i| GFile {
            name: format!("crowd\\{i}"),
            data: vec![i as u8; i % 3],
            method: 0,
            default_method: false,
            mode: Mode::Plain,
            locale: 0,
            from_disk: false,
        });
        g.files.splice(k..k, v);
    }
    let inputs = c.path("in");
    let outdir = c.path("out");
    std::fs::create_dir_all(&inputs).unwrap();
    std::fs::create_dir_all(&outdir).unwrap();
    let mut target = outdir.join("a.mpq");
    if c.t.bool() {
        std::fs::write(&target, b"what was there before").unwrap();
    }
    // position at which the impossible thing is inserted
    let at = c.t.u(g.files.len() + 1);
    let plain = |name: &str, data: Vec<u8>, t: &mut crate::tape::Tape| GFile {
        name: name.into(),
        data,
        method: method(t),
        default_method: false,
        mode: Mode::Plain,
        locale: 0,
        from_disk: false,
    };
    let mut extra: Option<Box<dyn Fn(mopaq::ArchiveBuilder) -> mopaq::ArchiveBuilder>> = None;
    let what: String;
    match kind {
        0 | 1 => {
            // the same name (respelled) and locale again
            if g.files.is_empty() {
                let n = name(&mut c.t, false);
                if is_special(&n) {
                    return Ok(());
                }
                let f = plain(&n, vec![1, 2, 3], &mut c.t);
                g.files.push(f);
            }
            let i = c.t.u(g.files.len());
            let mut f = g.files[i].clone();
            f.name = respell(&mut c.t, &f.name);
            f.data = content(&mut c.t, 20);
            f.default_method &= f.locale == 0;
            f.mode = [Mode::Plain, Mode::Encrypted, Mode::FixKey][c.t.u(3)].clone();
            f.default_method = false;
            what = format!("duplicate of {:?} as {:?}", g.files[i].name, f.name);
            let at = at.min(g.files.len());
            g.files.insert(at, f);
        }
        2 => {
            // the listfile is generated although the name is taken
            if g.listfile == LF::None {
                g.listfile = LF::Generate;
            }
            let n = respell(&mut c.t, "(listfile)");
            let f = plain(&n, vec![1, 2, 3], &mut c.t);
            g.files.insert(at, f);
            what = format!("{n:?} added beside a generated listfile");
        }
        3 => {
            let m = inputs.join(["missing", "nodir/missing"][c.t.u(2)]);
            what = "missing input file".into();
            let n = format!("missing-{}", c.t.u(100));
            extra = Some(Box::new(move |b| b.add_file(&m, &n)));
        }
        4 => {
            let m = inputs.join("directory");
            std::fs::create_dir_all(&m).unwrap();
            what = "directory as input file".into();
            let enc = c.t.bool();
            extra = Some(Box::new(move |b| {
                b.add_file_with_encryption(&m, "dir entry", 2, enc, 0)
            }));
        }
        5 => {
            let m = inputs.join("no-listfile");
            if c.t.bool() {
                std::fs::create_dir_all(&m).unwrap();
            }
            what = "unreadable external listfile".into();
            extra = Some(Box::new(move |b| {
                b.listfile_option(mopaq::ListfileOption::External(m.clone()))
            }));
        }
        6 => {
            // methods no reader of the format could undo
            let m = *c.t.pick(&[0x01u8, 0x04, 0x03, 0x05, 0x0A, 0x22, 0x18, 0x30, 0x06, 0xC0, 0xC2, 0x81, 0x41]);
            let n = 2 * c.t.urange(100, 4000);
            let d = content(&mut c.t, n & !3);
            what = format!("unsupported method {m:#04x} for {} bytes", d.len());
            let enc = c.t.bool();
            extra = Some(Box::new(move |b| {
                b.add_file_data_with_options(d.clone(), "unsupported method", m, enc, 0)
            }));
        }
        7 => {
            let k = c.t.u(3);
            what = ["target is a directory", "target directory missing", "target below a file"][k].into();
            match k {
                0 => {
                    target = outdir.join("d");
                    std::fs::create_dir_all(target.join("x")).unwrap();
                }
                1 => target = outdir.join("no/such/a.mpq"),
                _ => {
                    std::fs::write(outdir.join("plain"), b"plain").unwrap();
                    target = outdir.join("plain/a.mpq");
                }
            }
        }
        _ => {
            // always possible: distinct names of any number and with colliding starts
            c.class("possible");
            return possible(c, g, &target);
        }
    }
    c.class(what.split(" of ").next().unwrap().split(" for ").next().unwrap().split('"').next().unwrap().to_string());
    note(c, &g);
    c.describe(&what);
    c.nontrivial();
    let before = snapshot(&outdir);
    let mut b = g.builder(&inputs);
    if let Some(f) = &extra {
        b = f(b);
    }
    // for inputs in front of others
    c.evals += 1;
    let r = b.build(&target);
    if r.is_ok() {
        return Err(format!("build succeeded although impossible: {what}"));
    }
    let after = snapshot(&outdir);
    if before != after {
        return Err(format!(
            "a refused build ({what}) changed the target directory: {:?} -> {:?}",
            before.iter().map(|x| &x.0).collect::<Vec<_>>(),
            after.iter().map(|x| &x.0).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

/// Names whose starting slot in a table of `n` entries lies in a small window
pub fn colliding(t: &mut crate::tape::Tape, n: u32, k: usize, window: u32) -> Vec<String> {
    let target = t.below(n as u64) as u32;
    let base = t.below(1 << 20);
    let mut v = vec![];
    let mut i = base;
    while v.len() < k && i < base + 400_000 {
        let name = format!("c{i}");
        if (hash(&name, H_OFFSET).wrapping_sub(target) & (n - 1)) < window {
            v.push(name);
        }
        i += 1;
    }
    v
}

fn possible(c: &mut Ctx, mut g: GArchive, target: &std::path::Path) -> Result<(), String> {
    c.nontrivial();
    let kind = c.t.u(3);
    let n = match c.t.u(4) {
        0 => c.t.urange(1, 20),
        1 => c.t.urange(15, 70),
        2 => c.t.urange(100, 300),
        _ => {
            if c.t.chance(1, 40) {
                c.t.urange(3000, 9000)
            } else {
                c.t.urange(30, 130)
            }
        }
    };
    let names: Vec<(String, u16)> = match kind {
        0 => (0..n).map(|i| (format!("dir{}\\file{i}", i % 7), 0)).collect(),
        1 => {
            let k = n.min(100);
            let size = ((k * 2).max(16) as u32).next_power_of_two();
            colliding(&mut c.t, size, k, 2).into_iter().map(|n| (n, 0)).collect()
        }
        _ => {
            let nm = name(&mut c.t, false);
            if is_special(&nm) {
                return Ok(());
            }
            // (real codes differ in either byte)
            let by = [3u16, 1, 255, 256, 257][c.t.u(5)];
            (0..n.min(200)).map(|i| (nm.clone(), i as u16 * by)).collect()
        }
    };
    g.files = names
        .iter()
        .enumerate()
        .map(|(i, (n, l))| GFile {
            name: n.clone(),
            data: (i as u32).to_le_bytes().to_vec(),
            method: 0,
            default_method: false,
            mode: Mode::Plain,
            locale: *l,
            from_disk: false,
        })
        .collect();
    c.describe(format!(
        "v{} {} {}",
        g.version + 1,
        g.files.len(),
        ["distinct names", "names with colliding slots", "locales of one name"][kind]
    ));
    c.evals += 1;
    g.build(&c.dir, target).map_err(|e| {
        format!(
            "build of {} files ({}) refused: {e}",
            g.files.len(),
            ["distinct names", "names with colliding slots", "locales of one name"][kind]
        )
    })?;
    let mut a = open(target)?;
    let mut r = c.t.sub();
    for _ in 0..g.files.len().min(30) {
        let f = &g.files[r.below(g.files.len() as u64) as usize];
        let got = a
            .read_file(&f.name)
            .map_err(|e| format!("reading {:?} failed: {e}", f.name))?;
        if !g.contents(&f.name).contains(&&got[..]) {
            return Err(format!("content of {:?} differs", f.name));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M29

pub fn check_format(g: &GArchive, d: &[u8]) -> Result<(), String> {
    METHODS.with(|v| v.borrow_mut().clear());
    let r = Ref::parse(d)?;
    // the extended tables are compressed only if asked for, and with the method asked for
    let m = (g.compress_tables == Some(true)).then(|| g.table_method.unwrap_or(2));
    if let Some(x) = METHODS.with(|v| v.borrow().iter().copied().find(|x| Some(*x) != m)) {
        return Err(format!("tables compressed with method {x:#x}, asked for {m:x?}"));
    }
    let h = &r.hdr;
    if h.version as usize != g.version {
        return Err(format!("header has version {}", h.version));
    }
    if h.shift != g.shift {
        return Err(format!("header has sector shift {}", h.shift));
    }
    if h.size32 as usize != d.len() {
        return Err(format!("header declares {} bytes, archive has {}", h.size32, d.len()));
    }
    if h.version >= 2 && h.size64 != d.len() as u64 {
        return Err(format!("header declares {} bytes (64 bit), archive has {}", h.size64, d.len()));
    }
    let lf = g.listfile_text();
    let total = g.files.len() + lf.is_some() as usize;
    if r.blocks.iter().filter(|b| b.flags & F_EXISTS != 0).count() != total {
        return Err(format!("{} blocks for {total} files", r.blocks.len()));
    }
    if !h.hash_n.is_power_of_two() {
        return Err(format!("hash table of {} entries", h.hash_n));
    }
    let used = r.hash.iter().filter(|e| e.block < 0xFFFF_FFFE).count();
    if used != total {
        return Err(format!("{used} hash entries for {total} files"));
    }
    let mut seen = HashSet::new();
    let mut one = |name: &str, locale: u16, data: &[u8], mode: &Mode, method: Option<u8>| -> Result<(), String> {
        let hits: Vec<_> = r.find(name).into_iter().filter(|(_, e)| e.locale == locale).collect();
        if hits.len() != 1 {
            return Err(format!("{} hash entries reachable for {name:?} locale {locale}", hits.len()));
        }
        let bi = hits[0].1.block as usize;
        if !seen.insert(bi) {
            return Err(format!("{name:?}: block {bi} used twice"));
        }
        let b = *r.blocks.get(bi).ok_or_else(|| format!("{name:?}: block index {bi}"))?;
        if b.fsize as usize != data.len() {
            return Err(format!("{name:?}: block declares {} bytes, file has {}", b.fsize, data.len()));
        }
        let enc = (b.flags & F_ENCRYPTED != 0, b.flags & F_FIX_KEY != 0);
        let want = match mode {
            Mode::Plain => (false, false),
            Mode::Encrypted => (true, false),
            Mode::FixKey => (true, true),
        };
        if enc != want {
            return Err(format!("{name:?}: encryption flags {:#x}", b.flags));
        }
        if !data.is_empty() && (b.flags & F_CRC != 0) != g.crcs {
            return Err(format!("{name:?}: checksum flag in {:#x}", b.flags));
        }
        METHODS.with(|v| v.borrow_mut().clear());
        let got = r.read(bi, name).map_err(|e| format!("{name:?}: {e}"))?;
        if let Some(m) = method {
            if let Some(x) = METHODS.with(|v| v.borrow().iter().copied().find(|x| *x != m)) {
                return Err(format!("{name:?}: compressed with method {x:#x}, asked for {m:#x}"));
            }
        }
        if got != data {
            return Err(format!("{name:?} decodes differently: {}", diff(&got, data)));
        }
        if let (Some(het), Some(bet)) = (&r.het, &r.bet) {
            let j = jenkins(name);
            if bet.hashes.get(bi) != Some(&j) {
                return Err(format!("{name:?}: BET name hash"));
            }
            let want = j & ((1u64 << het.hash_bits) - 1);
            let n = het.slots.len();
            // probing from the home slot reaches the entry before a free slot
            let mut s = (j as usize) & (n.next_power_of_two() - 1);
            let mut ok = false;
            for _ in 0..n {
                let (hv, ix) = het.slots[s % n];
                if hv == want && ix == bi as u64 {
                    ok = true;
                    break;
                }
                s += 1;
            }
            if !ok {
                return Err(format!("{name:?}: no HET entry"));
            }
        }
        Ok(())
    };
    for f in &g.files {
        one(&f.name, f.locale, &f.data, &f.mode, Some(g.method_of(f)))?;
    }
    if let Some(t) = &lf {
        one("(listfile)", 0, t, &Mode::Plain, None)?;
    }
    if let Some(bet) = &r.bet {
        if bet.count as usize != total || bet.entries.len() != r.blocks.len() {
            return Err(format!("BET has {} entries for {total} files", bet.count));
        }
        for (i, (x, y)) in bet.entries.iter().zip(&r.blocks).enumerate() {
            if (x.pos, x.csize, x.fsize, x.flags) != (y.pos, y.csize, y.fsize, y.flags) {
                return Err(format!("entry {i}: BET {x:?}, block table {y:?}"));
            }
        }
        if let Some(het) = &r.het {
            if (het.max_files as usize) < total {
                return Err(format!("HET for {} files, {total} stored", het.max_files));
            }
        }
    }
    if g.version >= 2 && (r.het.is_none() || r.bet.is_none()) {
        return Err("extended tables missing".into());
    }
    // extents
    let mut ext: Vec<(u64, u64, String)> = vec![(0, h.header_size as u64, "header".into())];
    for (i, b) in r.blocks.iter().enumerate() {
        let (p, n) = r.extent(b);
        ext.push((p, n, format!("block {i}")));
    }
    ext.push((h.hash_pos, h.hash_n as u64 * 16, "hash table".into()));
    ext.push((h.block_pos, h.block_n as u64 * 16, "block table".into()));
    if r.has_hi {
        ext.push((h.hi_pos, h.block_n as u64 * 2, "hi-block table".into()));
    }
    if h.het_pos != 0 {
        let n = h.v4.as_ref().map(|v| v.het).unwrap_or(h.bet_pos.saturating_sub(h.het_pos));
        ext.push((h.het_pos, n, "HET".into()));
    }
    if h.bet_pos != 0 {
        let n = h.v4.as_ref().map(|v| v.bet).unwrap_or(h.hash_pos.saturating_sub(h.bet_pos));
        ext.push((h.bet_pos, n, "BET".into()));
    }
    ext.retain(|e| e.1 > 0);
    ext.sort();
    for w in ext.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("{:?} and {:?} overlap", w[0], w[1]));
        }
    }
    if let Some(l) = ext.last() {
        if l.0 + l.1 > d.len() as u64 {
            return Err(format!("{l:?} lies outside of the archive of {} bytes", d.len()));
        }
    }
    if let Some(v) = &h.v4 {
        let m = |p: u64, n: u64| md5(&d[p as usize..(p + n) as usize]);
        if v.hash != h.hash_n as u64 * 16 || v.md5_hash != m(h.hash_pos, v.hash) {
            return Err("digest or size of the hash table".into());
        }
        if v.block != h.block_n as u64 * 16 || v.md5_block != m(h.block_pos, v.block) {
            return Err("digest or size of the block table".into());
        }
        if r.has_hi && (v.hi != h.block_n as u64 * 2 || v.md5_hi != m(h.hi_pos, v.hi)) {
            return Err("digest or size of the hi-block table".into());
        }
        if v.md5_het != m(h.het_pos, v.het) {
            return Err("digest of the HET table".into());
        }
        if v.md5_bet != m(h.bet_pos, v.bet) {
            return Err("digest of the BET table".into());
        }
        if v.md5_header != m(0, 192) {
            return Err("digest of the header".into());
        }
    }
    Ok(())
}

fn m29(c: &mut Ctx) -> Result<(), String> {
    let big = scale(c, 797);
    let o = GenOpt {
        max_size: if c.t.chance(1, 20) { 120_000 } else { 9_000 },
        max_files: if c.t.chance(1, 30) { 120 } else { 7 },
        ..Default::default()
    };
    let mut g = match big {
        Some(k) => bulk_archive(&mut c.t, k),
        None => archive(&mut c.t, &o),
    };
    if big.is_none() && c.t.chance(1, 12) {
        // many colliding names
        let k = c.t.urange(2, 40);
        let size = ((k * 2).max(16) as u32).next_power_of_two();
        let names = colliding(&mut c.t, size, k, 3);
        g.files = names
            .into_iter()
            .map(|n| GFile {
                data: n.as_bytes().repeat(3),
                name: n,
                method: 2,
                default_method: false,
                mode: Mode::Encrypted,
                locale: 0,
                from_disk: false,
            })
            .collect();
        c.class("colliding names");
    }
    note(c, &g);
    if g.files.iter().any(|f| !f.data.is_empty()) {
        c.nontrivial();
    }
    let p = c.path("a.mpq");
    g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
    let d = std::fs::read(&p).map_err(|e| e.to_string())?;
    c.evals += 1;
    check_format(&g, &d)
}
