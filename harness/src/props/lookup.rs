//! Finding, listing and describing files: M02, M03, M04, M17.
use super::build::colliding;
use super::codec::listfile_names;
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use crate::tape::Tape;
use mopaq::{Archive, FileEntry, OpenOptions};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    let p = |id, rule, assumptions, run, quick, thorough| Prop {
        id,
        level: "exploration",
        rule,
        assumptions,
        run,
        quick,
        thorough,
        mem_mb: 0,
        unprivileged: false,
    };
    vec![
        p(
            "M02",
            "a case counts when its archive holds at least two files and both stored and absent names are queried; distinct by choice tape",
            &["archives of up to 600 files, some of 70 000; the pair of name hashes (NAME_A, NAME_B) is assumed collision-free on the names generated"],
            m02,
            48_000,
            400_000,
        ),
        p(
            "M03",
            "a case counts when the archive holds at least one file; distinct by choice tape",
            &["names a listfile line can represent (no ';', leading '#', line breaks or outer blanks) for named listings"],
            m03,
            48_000,
            400_000,
        ),
        p(
            "M04",
            "a case counts when the archive holds at least one file; distinct by choice tape",
            &["the locale of a file found through extended tables is not stored there and may be reported as 0"],
            m04,
            48_000,
            400_000,
        ),
        p(
            "M17",
            "a case counts when at least four queries were compared; distinct by choice tape",
            &["histories of up to 25 queries (some of 700) over up to two archives"],
            m17,
            72_000,
            250_000,
        ),
    ]
}

/// One stored file, as the model knows it
#[derive(Clone)]
pub struct MFile {
    pub name: String,
    pub locale: u16,
    pub data: Vec<u8>,
}

/// An archive on disk and what it holds
pub struct Src {
    pub path: PathBuf,
    pub files: Vec<MFile>,
    pub gone: Vec<String>,
    pub bytes: Vec<u8>,
    pub foreign: bool,
    pub junk: bool,
}

impl Src {
    pub fn by_name(&self) -> BTreeMap<Vec<u8>, Vec<&MFile>> {
        let mut m: BTreeMap<Vec<u8>, Vec<&MFile>> = BTreeMap::new();
        for f in &self.files {
            m.entry(fold(&f.name)).or_default().push(f);
        }
        m
    }
}

fn model(g: &GArchive) -> Vec<MFile> {
    let mut v: Vec<MFile> = g
        .files
        .iter()
        .map(|f| MFile {
            name: f.name.clone(),
            locale: f.locale,
            data: f.data.clone(),
        })
        .collect();
    if let Some(t) = g.listfile_text() {
        v.push(MFile {
            name: "(listfile)".into(),
            locale: 0,
            data: t,
        });
    }
    v
}

/// The same, with an archive of a few hundred to thousands of files every so often
pub fn source_many(c: &mut Ctx, o: &GenOpt, file: &str, every: u64) -> Result<Src, String> {
    match scale(c, every) {
        // 257 to 4097 files, of either writer
        Some(k) => source_bulk(c, file, [2, 10, 4, 12, 0, 14][k as usize % 6]),
        None => source(c, o, file, false),
    }
}

/// The same, with an archive of unusual scale every so often
pub fn source_scaled(c: &mut Ctx, o: &GenOpt, file: &str, collide: bool, every: u64) -> Result<Src, String> {
    let Some(k) = scale(c, every) else {
        return source(c, o, file, collide);
    };
    source_bulk(c, file, k)
}

fn source_bulk(c: &mut Ctx, file: &str, k: u64) -> Result<Src, String> {
    let path = c.path(file);
    if k % 16 < 8 {
        let g = bulk_archive(&mut c.t, k % 16);
        c.describe(g.describe());
        g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
        let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
        return Ok(Src {
            path,
            files: model(&g),
            gone: vec![],
            bytes,
            foreign: false,
            junk: false,
        });
    }
    let (files, l) = bulk_foreign(&mut c.t, k % 16);
    c.describe(format!("foreign, version {}, {} files", l.version + 1, files.len()));
    write_foreign(&files, &l, path)
}

fn write_foreign(files: &[WFile], l: &Layout, path: PathBuf) -> Result<Src, String> {
    let w = write_archive(files, l);
    w.save(&path, 0).map_err(|e| e.to_string())?;
    Ok(Src {
        path,
        files: files
            .iter()
            .filter(|f| !f.gone)
            .map(|f| MFile {
                name: f.name.clone(),
                locale: f.locale,
                data: f.data.clone(),
            })
            .collect(),
        gone: files.iter().filter(|f| f.gone).map(|f| f.name.clone()).collect(),
        bytes: w.bytes(),
        foreign: true,
        junk: !l.junk_blocks.is_empty(),
    })
}

/// Writes an archive from a specification of either kind
pub fn source(c: &mut Ctx, o: &GenOpt, file: &str, collide: bool) -> Result<Src, String> {
    let path = c.path(file);
    let foreign = c.t.bool();
    if !foreign {
        let mut g = archive(&mut c.t, o);
        if collide {
            crowd(&mut c.t, &mut g);
        }
        c.describe(g.describe());
        c.class(format!("built, version {}", g.version + 1));
        g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
        let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
        return Ok(Src {
            path,
            files: model(&g),
            gone: vec![],
            bytes,
            foreign,
            junk: false,
        });
    }
    let (files, l) = foreign_spec(c, o, collide);
    c.class(format!("foreign, version {}", l.version + 1));
    write_foreign(&files, &l, path)
}

/// Files and layout for the independent writer
pub fn foreign_spec(c: &mut Ctx, o: &GenOpt, collide: bool) -> (Vec<WFile>, Layout) {
    let t = &mut c.t;
    let n = t.urange(0, o.max_files);
    let mut seen = HashSet::new();
    let mut names: Vec<String> = if collide && n > 1 && t.bool() {
        let size = (n.max(2) as u32).next_power_of_two() << t.u(3);
        let v = colliding(t, size, n, 1 + size / 16);
        for x in &v {
            seen.insert(fold(x));
        }
        v
    } else {
        (0..n).map(|_| unique_name(t, &mut seen, o.listable)).collect()
    };
    if names.is_empty() && n > 0 {
        names.push("only".into());
    }
    if collide && t.chance(1, 3) {
        let (x, y) = NEARS[t.u(NEARS.len())];
        for q in [x, y].iter().take(t.urange(1, 2)) {
            if seen.insert(fold(q)) {
                let at = t.u(names.len() + 1);
                names.insert(at, q.to_string());
            }
        }
    }
    let mut files: Vec<WFile> = vec![];
    for nm in names {
        let d = data(t, 1024, o.max_size);
        let mut f = pick_wfile(t, nm, d);
        f.gone = t.chance(1, 10);
        if !o.locales {
            f.locale = 0;
        }
        files.push(f);
    }
    if o.locales && !files.is_empty() && t.chance(1, 4) {
        // the same name in further languages
        let i = t.u(files.len());
        if !files[i].gone {
            for k in 0..t.urange(1, 3) {
                let d = data(t, 1024, o.max_size);
                let mut f = pick_wfile(t, files[i].name.clone(), d);
                f.locale = 0x800 + k as u16;
                files.push(f);
            }
        }
    }
    if t.bool() {
        let mut text = vec![];
        for f in &files {
            if t.chance(5, 6) {
                text.extend(f.name.as_bytes());
                text.extend(b"\r\n");
            }
        }
        if t.bool() {
            text.extend(b"not\\there.txt\r\n; comment\r\n");
        }
        let mut f = pick_wfile(t, "(listfile)".into(), text);
        f.locale = 0;
        let at = t.u(files.len() + 1);
        files.insert(at, f);
    }
    let l = layout(t, files.len(), false);
    c.describe(format!("foreign {l:?}"));
    for f in files.iter().take(10) {
        c.describe(format!(
            "{:?} {} bytes single={} methods={:?} enc={} fix={} crc={} gap={} locale={} gone={}",
            f.name,
            f.data.len(),
            f.single,
            f.methods,
            f.encrypted,
            f.fix_key,
            f.crc,
            f.gap,
            f.locale,
            f.gone
        ));
    }
    (files, l)
}

fn crowd(t: &mut Tape, g: &mut GArchive) {
    let k = match t.u(4) {
        0 => return,
        1 => t.urange(2, 12),
        2 => t.urange(10, 60),
        _ => {
            if t.chance(1, 20) {
                t.urange(200, 600)
            } else {
                t.urange(8, 40)
            }
        }
    };
    let size = ((k * 2).max(16) as u32).next_power_of_two();
    let mut names: Vec<String> = if k < 100 {
        let w = 1 + t.below(4) as u32;
        colliding(t, size, k, w)
    } else {
        (0..k).map(|i| format!("m\\{i}")).collect()
    };
    if t.bool() {
        // first a name that shares hashes with another, which may be there as well
        let l = [TWINS, NEARS][t.u(2)];
        let (x, y) = l[t.u(l.len())];
        names.insert(0, x.into());
        if t.bool() {
            let at = t.urange(0, 1);
            names.insert(at, y.into());
        }
    }
    g.files = names
        .into_iter()
        .map(|n| GFile {
            data: format!("content of {n}").into_bytes(),
            name: n,
            method: 0,
            default_method: false,
            mode: [Mode::Plain, Mode::Encrypted][t.u(2)].clone(),
            locale: 0,
            from_disk: false,
        })
        .collect();
}

// ------------------------------------------------------------------ M02

fn m02(c: &mut Ctx) -> Result<(), String> {
    let many = c.t.chance(1, 15);
    let o = GenOpt {
        max_files: if many { 120 } else { 14 },
        max_size: 600,
        ..Default::default()
    };
    let s = source_scaled(c, &o, "a.mpq", true, 997)?;
    let by = s.by_name();
    let mut a = open(&s.path)?;
    let r = Ref::parse(&s.bytes)?;
    let mut pick = c.t.sub();
    let all = s.files.len() <= 40;
    for i in 0..s.files.len().min(60) {
        let i = if all {
            i
        } else {
            pick.below(s.files.len() as u64) as usize
        };
        let f = &s.files[i];
        let cand = &by[&fold(&f.name)];
        // The file key depends on the letters only up to case; the spelling must not matter
        let q = match c.t.u(3) {
            0 => f.name.clone(),
            _ => respell(&mut c.t, &f.name),
        };
        c.evals += 1;
        let info = a
            .find_file(&q)
            .map_err(|e| format!("looking up {q:?} (stored as {:?}) failed: {e}", f.name))?
            .ok_or_else(|| format!("{q:?} (stored as {:?}) not found", f.name))?;
        let ok = r.find(&f.name).iter().any(|(_, e)| e.block as usize == info.block_index);
        if !ok {
            return Err(format!("{q:?} found as block {}, which is not its block", info.block_index));
        }
        let got = a
            .read_file(&q)
            .map_err(|e| format!("reading {q:?} (stored as {:?}) failed: {e}", f.name))?;
        if !cand.iter().any(|m| m.data == got) {
            return Err(format!(
                "{q:?} (stored as {:?}) gives other content: {}",
                f.name,
                diff(&got, &f.data)
            ));
        }
        if got.len() as u64 != info.file_size {
            return Err(format!("{q:?}: lookup and read disagree"));
        }
    }
    // names that are not there
    let n = r.hash.len().max(1) as u32;
    let mut absent: Vec<String> = vec![];
    for f in s.files.iter().take(8) {
        absent.push(format!("{}x", f.name));
        absent.push(format!("\\{}", f.name));
        absent.push(f.name.to_uppercase().replace('É', "e"));
        let mut h = f.name.clone();
        h.pop();
        absent.push(h);
        absent.push(f.name.chars().rev().collect());
        absent.push(f.name.replace(['/', '\\'], ""));
    }
    for _ in 0..12 {
        absent.push(name(&mut c.t, false));
    }
    // names that agree with a stored one in part of the hashes
    for (x, y) in PAIRS.iter().chain(TWINS).chain(NEARS) {
        for (p, q) in [(x, y), (y, x)] {
            if by.contains_key(&fold(p)) {
                c.class("absent name sharing a hash");
                absent.push(q.to_string());
            }
        }
    }
    absent.extend(colliding(&mut c.t, n, 6, 1 + n / 8));
    absent.extend(["(listfile)", "(attributes)", "(signature)", "", "file_00000000.dat"].map(String::from));
    absent.extend(s.gone.iter().cloned());
    let mut misses = 0;
    for q in absent {
        if by.contains_key(&fold(&q)) {
            continue;
        }
        misses += 1;
        c.evals += 1;
        match a.find_file(&q) {
            Ok(None) => {}
            Ok(Some(i)) => return Err(format!("{q:?} was never stored, found as block {}", i.block_index)),
            Err(e) => return Err(format!("looking up the absent name {q:?} failed: {e}")),
        }
        match a.read_file(&q) {
            Err(mopaq::Error::FileNotFound(_)) => {}
            Err(e) => return Err(format!("reading the absent name {q:?}: unexpected error {e}")),
            Ok(d) => return Err(format!("{q:?} was never stored, read {} bytes", d.len())),
        }
    }
    // the table itself, by language: an entry of that language or the neutral one
    if let Some(ht) = a.hash_table() {
        let mut ask: Vec<String> = s.files.iter().map(|f| f.name.clone()).collect();
        ask.extend(s.gone.iter().cloned());
        ask.extend(colliding(&mut c.t, n, 2, 1 + n / 8));
        for _ in 0..8 {
            let q = respell(&mut c.t, &ask[pick.below(ask.len() as u64) as usize]);
            let own = s.files.get(pick.below(s.files.len().max(1) as u64) as usize).map_or(0, |f| f.locale);
            let l = [0, own, 0x409, 0x809, 1, 0xFFFF][pick.below(6) as usize];
            let fit: Vec<usize> = r
                .find(&q)
                .iter()
                .filter(|(_, e)| l == 0 || e.locale == 0 || e.locale == l)
                .map(|x| x.0)
                .collect();
            c.evals += 1;
            match ht.find_file(&q, l) {
                None if fit.is_empty() => {}
                Some((i, e)) if fit.contains(&i) && ht.get(i).is_some_and(|x| x.block_index == e.block_index) => {}
                x => {
                    return Err(format!("{q:?} in language {l:#x}: slot {:?} of the hash table, expected one of {fit:?}", x.map(|x| x.0)))
                }
            }
        }
    }
    if s.files.len() > 1 && misses > 0 {
        c.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ M03

fn row(e: &FileEntry) -> (u64, u64, u32) {
    (e.size, e.compressed_size, e.flags)
}
fn brow(b: &Block) -> (u64, u64, u32) {
    (b.fsize as u64, b.csize as u64, b.flags)
}

/// What the flags of a stored file mean
fn flag_row(f: u32) -> (bool, bool, bool, bool, bool, bool) {
    (
        f & (F_COMPRESS | F_IMPLODE) != 0,
        f & F_ENCRYPTED != 0,
        f & F_FIX_KEY != 0,
        f & F_SINGLE != 0,
        f & F_CRC != 0,
        f & F_EXISTS != 0,
    )
}

fn m03(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: if c.t.chance(1, 25) { 100 } else { 8 },
        max_size: 2_500,
        listable: true,
        external: false,
        locales: c.t.chance(1, 3),
        ..Default::default()
    };
    let s = source_scaled(c, &o, "a.mpq", false, 997)?;
    if !s.files.is_empty() {
        c.nontrivial();
    }
    check_listings(c, &s)
}

pub fn check_listings(c: &mut Ctx, s: &Src) -> Result<(), String> {
    let r = Ref::parse(&s.bytes)?;
    let by = s.by_name();
    let mut a = open(&s.path)?;
    let err = |e: mopaq::Error| format!("listing failed: {e}");
    let list = a.list().map_err(err)?;
    let with = a.list_with_hashes().map_err(err)?;
    let all = a.list_all().map_err(err)?;
    let allh = a.list_all_with_hashes().map_err(err)?;
    c.evals += 4;
    // blocks reachable from the hash table
    let mut stored: Vec<(u64, u64, u32)> = vec![];
    let mut seen = HashSet::new();
    for e in &r.hash {
        if e.block < 0xFFFF_FFFE && seen.insert(e.block) {
            if let Some(b) = r.blocks.get(e.block as usize) {
                if b.flags & F_EXISTS != 0 {
                    stored.push(brow(b));
                }
            }
        }
    }
    stored.sort();
    if stored.len() != s.files.len() {
        return Err(format!("model error: {} blocks, {} files", stored.len(), s.files.len()));
    }
    let whole = |what: &str, l: &[FileEntry]| -> Result<(), String> {
        let mut v: Vec<_> = l.iter().map(row).collect();
        v.sort();
        if v != stored {
            return Err(format!("{what} yields {v:?}, stored are {stored:?}"));
        }
        let names: HashSet<&String> = l.iter().map(|e| &e.name).collect();
        if names.len() != l.len() {
            return Err(format!("{what} yields a name twice"));
        }
        Ok(())
    };
    for e in list.iter().chain(&with).chain(&all).chain(&allh) {
        let got = (e.is_compressed(), e.is_encrypted(), e.has_fix_key(), e.is_single_unit(), e.has_sector_crc(), e.exists());
        if got != flag_row(e.flags) {
            return Err(format!("{:?}: (compressed, encrypted, adjusted key, single unit, checksums, exists) {got:?}, flags {:#x}", e.name, e.flags));
        }
    }
    whole("list_all", &all)?;
    whole("list_all_with_hashes", &allh)?;
    if all.iter().map(|e| &e.name).collect::<Vec<_>>() != allh.iter().map(|e| &e.name).collect::<Vec<_>>() {
        return Err("list_all and list_all_with_hashes yield different names".into());
    }
    // hashes that are reported are those of the files with these sizes
    let mut hashed: HashMap<(u32, u32), Vec<&MFile>> = HashMap::new();
    for f in &s.files {
        let k = (hash(&f.name, H_NAME_A), hash(&f.name, H_NAME_B));
        hashed.entry(k).or_default().push(f);
    }
    for e in &allh {
        if let Some(h) = e.hashes {
            let ok = hashed.get(&h).is_some_and(|v| {
                v.iter().any(|f| {
                    r.find(&f.name)
                        .iter()
                        .any(|(_, x)| r.blocks.get(x.block as usize).map(brow) == Some(row(e)))
                })
            });
            if !ok {
                return Err(format!("list_all_with_hashes reports {h:x?} for {:?} of {} bytes, which are no file's", e.name, e.size));
            }
        }
    }
    if let Some(lf) = by.get(&b"(LISTFILE)"[..]) {
        c.class("with listfile");
        let want: Vec<String> = listfile_names(&lf[0].data)
            .into_iter()
            .filter(|n| by.contains_key(&fold(n)))
            .collect();
        let mut got: Vec<&str> = list.iter().map(|e| &e.name[..]).collect();
        let mut w: Vec<&str> = want.iter().map(|s| &s[..]).collect();
        got.sort();
        w.sort();
        if by.values().any(|v| v.len() > 1) {
            // a name in several languages: once per language or once
            got.dedup();
            w.dedup();
        }
        if got != w {
            return Err(format!("list yields {got:?}, expected {w:?}"));
        }
        for e in &list {
            let ok = r
                .find(&e.name)
                .iter()
                .any(|(_, x)| r.blocks.get(x.block as usize).map(brow) == Some(row(e)));
            if !ok {
                return Err(format!("list reports {:?} with size {} / {}, flags {:#x}", e.name, e.size, e.compressed_size, e.flags));
            }
            let ok = by[&fold(&e.name)].iter().any(|f| f.data.len() as u64 == e.size);
            if !ok {
                return Err(format!("list reports size {} for {:?}", e.size, e.name));
            }
        }
        if !s.foreign && list.len() != s.files.len() {
            return Err(format!("list yields {} entries for {} files", list.len(), s.files.len()));
        }
    } else {
        c.class("without listfile");
        whole("list without a listfile", &list)?;
    }
    // same entries with hashes
    if list.len() != with.len() {
        return Err("list and list_with_hashes yield different entries".into());
    }
    for (x, y) in list.iter().zip(&with) {
        if x.name != y.name || row(x) != row(y) {
            return Err(format!("list has {:?}, list_with_hashes {:?}", x.name, y.name));
        }
        if by.contains_key(&b"(LISTFILE)"[..]) {
            let h = (hash(&x.name, H_NAME_A), hash(&x.name, H_NAME_B));
            if y.hashes != Some(h) {
                return Err(format!("hashes of {:?}: {:x?}, expected {h:x?}", x.name, y.hashes));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M04

fn m04(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: if c.t.chance(1, 25) { 80 } else { 8 },
        max_size: 6_000,
        ..Default::default()
    };
    let s = source_scaled(c, &o, "a.mpq", false, 997)?;
    if !s.files.is_empty() {
        c.nontrivial();
    }
    check_metadata(c, &s.path, 0, &s)
}

pub fn check_metadata(c: &mut Ctx, path: &Path, offset: u64, s: &Src) -> Result<(), String> {
    let r = Ref::parse(&s.bytes)?;
    let h = &r.hdr;
    let by = s.by_name();
    let mut a = open(path)?;
    let ext = r.het.is_some() && r.bet.is_some();
    for f in &s.files {
        c.evals += 1;
        let i = a
            .find_file(&f.name)
            .map_err(|e| format!("lookup failed: {e}"))?
            .ok_or_else(|| format!("{:?} not found", f.name))?;
        if i.filename != f.name {
            return Err(format!("information for {:?} carries the name {:?}", f.name, i.filename));
        }
        let hits = r.find(&f.name);
        let Some((slot, e)) = hits.iter().find(|(_, e)| e.block as usize == i.block_index) else {
            return Err(format!("{:?} reported as block {}", f.name, i.block_index));
        };
        let b = r.blocks[i.block_index];
        let want = (offset + b.pos, b.csize as u64, b.fsize as u64, b.flags);
        let got = (i.file_pos, i.compressed_size, i.file_size, i.flags);
        if got != want {
            return Err(format!("{:?}: (position, stored size, size, flags) {got:x?}, on disk {want:x?}", f.name));
        }
        let m = by[&fold(&f.name)].iter().filter(|m| m.locale == e.locale).collect::<Vec<_>>();
        if m.len() != 1 || m[0].data.len() as u64 != i.file_size {
            return Err(format!("{:?}: size {} reported", f.name, i.file_size));
        }
        if i.locale != e.locale && !(ext && i.locale == 0) {
            return Err(format!("{:?}: locale {:#x} reported, {:#x} stored", f.name, i.locale, e.locale));
        }
        if i.hash_index != *slot && !(ext && i.hash_index == 0) {
            return Err(format!("{:?}: hash index {} reported, {slot} on disk", f.name, i.hash_index));
        }
        let fl = (
            i.is_compressed(),
            i.is_encrypted(),
            i.has_fix_key(),
            i.is_single_unit(),
            i.has_sector_crc(),
        );
        let wf = (
            b.flags & (F_COMPRESS | F_IMPLODE) != 0,
            b.flags & F_ENCRYPTED != 0,
            b.flags & F_FIX_KEY != 0,
            b.flags & F_SINGLE != 0,
            b.flags & F_CRC != 0,
        );
        if fl != wf {
            return Err(format!("{:?}: (compressed, encrypted, adjusted key, single unit, checksums) {fl:?}, flags {:#x}", f.name, b.flags));
        }
        // the extended tables say the same
        if let (Some(bt), true) = (a.bet_table(), ext) {
            let x = bt
                .get_file_info(i.block_index as u32)
                .ok_or_else(|| format!("no BET entry {}", i.block_index))?;
            if (x.file_pos, x.compressed_size, x.file_size, x.flags) != (b.pos, b.csize as u64, b.fsize as u64, b.flags) {
                return Err(format!("BET entry {}: {x:?}, block table {b:?}", i.block_index));
            }
        }
    }
    // tables as such
    if let (Some(ht), Some(bt)) = (a.hash_table(), a.block_table()) {
        if ht.size() != r.hash.len() || bt.entries().len() != r.blocks.len() {
            return Err("table sizes differ from the header's".into());
        }
        for (x, y) in ht.entries().iter().zip(&r.hash) {
            if (x.name_1, x.name_2, x.locale, x.platform, x.block_index) != (y.a, y.b, y.locale, y.platform, y.block) {
                return Err(format!("hash entry {x:?}, on disk {y:?}"));
            }
            let kind = (x.is_empty(), x.is_deleted(), x.is_valid());
            if kind != (y.block == !0, y.block == !1, y.block < !1) {
                return Err(format!("hash entry {x:?}: (empty, deleted, valid) {kind:?}"));
            }
        }
        for (x, y) in bt.entries().iter().zip(&r.blocks) {
            if (x.file_pos, x.compressed_size, x.file_size, x.flags) != (y.pos as u32, y.csize, y.fsize, y.flags) {
                return Err(format!("block entry {x:?}, on disk {y:?}"));
            }
            let got = (x.is_compressed(), x.is_encrypted(), x.has_fix_key(), x.is_single_unit(), x.has_sector_crc(), x.exists());
            if got != flag_row(y.flags) {
                return Err(format!("block entry {x:?}: (compressed, encrypted, adjusted key, single unit, checksums, exists) {got:?}"));
            }
        }
        for k in [0, 1, 77] {
            if ht.get(r.hash.len() + k).is_some() || bt.get(r.blocks.len() + k).is_some() {
                return Err("a table has an entry behind its end".into());
            }
        }
        if bt.size() != r.blocks.len() {
            return Err(format!("block table of {} entries, {} on disk", bt.size(), r.blocks.len()));
        }
        // each language of a name can be asked for
        for f in s.files.iter().take(12) {
            let q = respell(&mut c.t, &f.name);
            let stored: Vec<u16> = r.find(&f.name).iter().map(|(_, e)| e.locale).collect();
            for l in [f.locale, 0, 0x409, 0x123] {
                let want: Vec<u16> = stored.iter().copied().filter(|x| l == 0 || *x == 0 || *x == l).collect();
                match ht.find_file(&q, l) {
                    None if want.is_empty() => {}
                    Some((i, e)) if want.contains(&e.locale) && r.find(&f.name).iter().any(|(s, _)| *s == i) => {}
                    x => return Err(format!("{q:?} in language {l:#x}: {x:x?}, stored in {stored:x?}")),
                }
            }
        }
        if let Some(hb) = a.hi_block_table() {
            for (i, y) in r.blocks.iter().enumerate() {
                if hb.get(i) != Some((y.pos >> 32) as u16) {
                    return Err(format!("high position {i}: {:?}, on disk {y:?}", hb.get(i)));
                }
            }
            if hb.get(r.blocks.len()).is_some() {
                return Err("the hi-block table has an entry behind its end".into());
            }
        }
    } else {
        return Err("hash and block table not loaded".into());
    }
    if let (Some(bt), Some(rb)) = (a.bet_table(), &r.bet) {
        for k in [0, 1, 77] {
            if let Some(x) = bt.get_file_info(rb.count + k) {
                return Err(format!("BET entry {} of {}: {x:?}", rb.count + k, rb.count));
            }
        }
    }
    if ext && (a.het_table().is_none() || a.bet_table().is_none()) {
        return Err("extended tables not loaded".into());
    }

    let i = a.get_info().map_err(|e| format!("get_info failed: {e}"))?;
    c.evals += 1;
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            let (x, y) = ($a, $b);
            if x != y {
                return Err(format!("{} reported as {:?}, on disk {:?}", $what, x, y));
            }
        };
    }
    eq!("path", i.path.clone(), path.to_path_buf());
    eq!("archive offset", i.archive_offset, offset);
    eq!("file size", i.file_size, std::fs::metadata(path).map_err(|e| e.to_string())?.len());
    eq!("format version", i.format_version as u16, h.version);
    eq!("sector size", i.sector_size, r.sector());
    let existing = r.blocks.iter().filter(|b| b.flags & F_EXISTS != 0).count();
    if existing == r.blocks.len() || !ext {
        eq!("number of files", i.file_count, existing);
    }
    eq!("hash table size", i.hash_table_info.size, Some(h.hash_n));
    eq!("hash table position", i.hash_table_info.offset, h.hash_pos);
    eq!("block table size", i.block_table_info.size, Some(h.block_n));
    eq!("block table position", i.block_table_info.offset, h.block_pos);
    eq!("table failure", i.hash_table_info.failed_to_load || i.block_table_info.failed_to_load, false);
    if let Some(t) = &r.het {
        let x = i.het_table_info.as_ref().ok_or("HET table not reported")?;
        eq!("HET position", x.offset, h.het_pos);
        eq!("HET entries", x.size, Some(t.max_files));
        eq!("HET failure", x.failed_to_load, false);
        eq!("capacity", i.max_file_count, t.max_files);
    } else {
        eq!("HET", i.het_table_info.is_some(), false);
        eq!("capacity", i.max_file_count, h.hash_n);
    }
    if let Some(t) = &r.bet {
        let x = i.bet_table_info.as_ref().ok_or("BET table not reported")?;
        eq!("BET position", x.offset, h.bet_pos);
        eq!("BET entries", x.size, Some(t.count));
        eq!("BET failure", x.failed_to_load, false);
    } else {
        eq!("BET", i.bet_table_info.is_some(), false);
    }
    if let Some(v) = &h.v4 {
        eq!("hash table bytes", i.hash_table_info.compressed_size, Some(v.hash));
        eq!("block table bytes", i.block_table_info.compressed_size, Some(v.block));
        if let Some(x) = &i.het_table_info {
            eq!("HET bytes", x.compressed_size, Some(v.het));
        }
        if let Some(x) = &i.bet_table_info {
            eq!("BET bytes", x.compressed_size, Some(v.bet));
        }
    }
    if !s.foreign && h.version == 2 && h.het_pos < h.bet_pos && h.bet_pos < h.hash_pos {
        // version 3 does not store the sizes, but built archives have these tables one behind the other
        if let Some(x) = &i.het_table_info {
            eq!("HET bytes", x.compressed_size, Some(h.bet_pos - h.het_pos));
        }
        if let Some(x) = &i.bet_table_info {
            eq!("BET bytes", x.compressed_size, Some(h.hash_pos - h.bet_pos));
        }
    }
    if r.has_hi {
        let x = i.hi_block_table_info.as_ref().ok_or("hi-block table not reported")?;
        eq!("hi-block position", x.offset, h.hi_pos);
        eq!("hi-block entries", x.size, Some(h.block_n));
    } else {
        eq!("hi-block table", i.hi_block_table_info.is_some(), false);
    }
    if !s.junk {
        eq!(
            "encryption",
            i.is_encrypted,
            r.blocks.iter().any(|b| b.flags & F_ENCRYPTED != 0)
        );
    }
    eq!("listfile", i.has_listfile, by.contains_key(&b"(LISTFILE)"[..]));
    eq!("attributes", i.has_attributes, by.contains_key(&b"(ATTRIBUTES)"[..]));
    eq!("signature", i.has_signature, by.contains_key(&b"(SIGNATURE)"[..]));
    eq!("digests", i.md5_status.is_some(), h.version == 3);
    // the header as such
    let x = a.header();
    eq!("header size field", x.header_size, h.header_size);
    eq!("archive size field", x.archive_size, h.size32);
    eq!("sector shift", x.block_size, h.shift);
    eq!("header's sector size", x.sector_size(), r.sector());
    eq!("hash table entries", x.hash_table_size, h.hash_n);
    eq!("block table entries", x.block_table_size, h.block_n);
    eq!("hash table position", x.get_hash_table_pos(), h.hash_pos);
    eq!("block table position", x.get_block_table_pos(), h.block_pos);
    eq!("archive size", x.get_archive_size(), if h.version >= 2 { h.size64 } else { h.size32 as u64 });
    Ok(())
}

// ------------------------------------------------------------------ M17

#[derive(Clone, Debug)]
pub enum Op {
    Find(String),
    Read(String),
    List,
    ListAll,
    ListHashes,
    ListAllHashes,
    Info,
    Verify,
    LoadAttrs,
    Attr(usize),
    Tables,
}

pub fn answer(a: &mut Archive, op: &Op) -> String {
    match op {
        Op::Find(n) => match a.find_file(n) {
            Ok(i) => format!("{i:?}"),
            Err(e) => format!("error {e}"),
        },
        Op::Read(n) => match a.read_file(n) {
            Ok(d) => format!("{} {:x?}", d.len(), md5(&d)),
            Err(e) => format!("error {e}"),
        },
        Op::List => format!("{:?}", a.list().map_err(|e| e.to_string())),
        Op::ListAll => format!("{:?}", a.list_all().map_err(|e| e.to_string())),
        Op::ListHashes => format!("{:?}", a.list_with_hashes().map_err(|e| e.to_string())),
        Op::ListAllHashes => format!("{:?}", a.list_all_with_hashes().map_err(|e| e.to_string())),
        Op::Info => format!("{:?}", a.get_info().map_err(|e| e.to_string())),
        Op::Verify => format!("{:?}", a.verify_signature().map_err(|e| e.to_string())),
        Op::LoadAttrs => format!("{:?}", a.load_attributes().map_err(|e| e.to_string())),
        Op::Attr(i) => format!("{:?}", a.get_file_attributes(*i)),
        Op::Tables => format!(
            "{:?} {:?} {:?} {}",
            a.hash_table().map(|t| t.entries().to_vec()),
            a.block_table().map(|t| t.entries().to_vec()),
            a.hi_block_table().is_some(),
            a.archive_offset()
        ),
    }
}

fn m17(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: 6,
        max_size: 6_000,
        ..Default::default()
    };
    let n = c.t.urange(1, 2);
    let long = scale(c, 1997);
    let mut srcs = vec![];
    for i in 0..n {
        let s = match long {
            Some(k) if k % 2 == 0 && i == 0 => source_bulk(c, &format!("a{i}.mpq"), [2, 10, 4, 12, 0, 14][(k / 2) as usize % 6])?,
            _ => source(c, &o, &format!("a{i}.mpq"), false)?,
        };
        let mut bytes = s.bytes.clone();
        // sometimes damaged: failing queries must not matter either
        if c.t.chance(1, 3) && !bytes.is_empty() {
            let k = c.t.urange(1, 4);
            for _ in 0..k {
                let p = c.t.u(bytes.len());
                bytes[p] ^= 1 << c.t.u(8);
            }
            std::fs::write(&s.path, &bytes).unwrap();
            c.class("damaged");
        }
        if c.t.chance(1, 4) {
            // embedded
            let k = 512 * c.t.urange(1, 4);
            let mut v = vec![0x55u8; k];
            v.extend(&bytes);
            v.extend(vec![0xAA; c.t.u(700)]);
            std::fs::write(&s.path, &v).unwrap();
        }
        // tables that cannot be loaded
        if c.t.chance(1, 12) {
            let mut v = std::fs::read(&s.path).unwrap();
            if c.t.bool() {
                v.truncate(v.len() - v.len().min(c.t.urange(1, 400)));
            } else if let Some(h) = v.windows(4).position(|w| w == b"MPQ\x1a") {
                // the block table's position or size
                let p = h + [0x14, 0x1C, 0x10, 0x18][c.t.u(4)] + 2;
                if p < v.len() {
                    v[p] ^= 0x40;
                }
            }
            std::fs::write(&s.path, &v).unwrap();
        }
        if Archive::open(&s.path).is_ok() {
            srcs.push(s);
        } else if let Ok(mut a) = OpenOptions::new().load_tables(false).open(&s.path) {
            c.class("tables cannot be loaded");
            c.nontrivial();
            for i in 0..c.t.urange(1, 4) {
                c.evals += 1;
                if a.load_tables().is_ok() {
                    return Err(format!("tables that fail to load when opening load at attempt {}", i + 1));
                }
                // (whatever these answer)
                let _ = a.find_file("(listfile)");
                let _ = a.list();
            }
        }
    }
    if srcs.is_empty() {
        return Ok(());
    }
    let images: Vec<Vec<u8>> = srcs.iter().map(|s| std::fs::read(&s.path).unwrap()).collect();
    let mut open_archives: Vec<Archive> = vec![];
    for s in &srcs {
        let a = if c.t.chance(1, 3) {
            c.class("tables loaded later");
            let mut a = OpenOptions::new()
                .load_tables(false)
                .open(&s.path)
                .map_err(|e| format!("opening without tables failed: {e}"))?;
            if c.t.chance(1, 3) {
                // asking for the information loads them as well
                let got = answer(&mut a, &Op::Info);
                let want = answer(&mut open(&s.path)?, &Op::Info);
                c.evals += 1;
                if got != want {
                    return Err(format!(
                        "information of an archive opened without its tables: {}; with them: {}",
                        &got[..got.len().min(300)],
                        &want[..want.len().min(300)]
                    ));
                }
                c.class("tables loaded by get_info");
            }
            a.load_tables().map_err(|e| {
                format!("tables load when opening, but loading them later fails: {e}")
            })?;
            if c.t.chance(1, 3) {
                a.load_tables().map_err(|e| format!("loading tables again failed: {e}"))?;
            }
            a
        } else {
            open(&s.path)?
        };
        open_archives.push(a);
    }
    let steps = match long {
        Some(k) if k % 2 == 1 => c.t.urange(150, 700),
        _ => c.t.urange(2, 25),
    };
    let mut hist: Vec<String> = vec![];
    for _ in 0..steps {
        let k = c.t.u(srcs.len());
        let s = &srcs[k];
        let nm = if !s.files.is_empty() && c.t.chance(4, 5) {
            let f = s.files[c.t.u(s.files.len())].name.clone();
            if c.t.chance(1, 4) {
                respell(&mut c.t, &f)
            } else {
                f
            }
        } else {
            name(&mut c.t, false)
        };
        let op = match c.t.weighted(&[6, 3, 2, 2, 1, 1, 2, 2, 1, 1, 1]) {
            0 => Op::Read(nm),
            1 => Op::Find(nm),
            2 => Op::List,
            3 => Op::ListAll,
            4 => Op::ListHashes,
            5 => Op::ListAllHashes,
            6 => Op::Info,
            7 => Op::Verify,
            8 => Op::LoadAttrs,
            9 => Op::Attr(c.t.u(8)),
            _ => Op::Tables,
        };
        hist.push(format!("{k}:{op:?}"));
        let got = answer(&mut open_archives[k], &op);
        let want = answer(&mut open(&s.path)?, &op);
        c.evals += 1;
        if got != want {
            return Err(format!(
                "after {hist:?}: answer {} differs from that of a fresh archive {}",
                &got[..got.len().min(300)],
                &want[..want.len().min(300)]
            ));
        }
    }
    if steps >= 4 {
        c.nontrivial();
    }
    c.describe(format!("{hist:?}"));
    for (s, i) in srcs.iter().zip(&images) {
        if std::fs::read(&s.path).map_err(|e| e.to_string())? != *i {
            return Err("a query modified the archive file".into());
        }
    }
    Ok(())
}
