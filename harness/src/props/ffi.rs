//! The C API: M20 (reading and seeking), M21 (handles), M22 (verification), M23 (agreement with the
//! library), M28 (concurrent use).
use super::damage::RefAttrs;
use super::lookup::{foreign_spec, source, source_many};
use crate::engine::*;
use crate::gen::*;
use crate::refmpq::*;
use crate::sign;
use crate::tape::Tape;
use std::collections::{BTreeMap, HashSet};
use std::ffi::{c_void, CStr, CString};
use std::os::raw::c_char;
use std::path::{Path, PathBuf};
use std::ptr::{null, null_mut};
use stormffi::*;

pub fn props() -> Vec<Prop> {
    let p = |id, rule, assumptions, run, quick, thorough| Prop {
        id,
        level: "model-based / differential random testing of the C functions",
        rule,
        assumptions,
        run,
        quick,
        thorough,
        mem_mb: 0,
        unprivileged: false,
    };
    vec![
        p(
            "M20",
            "at least one read that delivered data after a seek or an earlier read",
            &["pointers passed are valid for the sizes stated, as the C contract demands", "files of up to 60 KB, some of 33 MB"],
            m20 as CaseFn,
            120_000,
            2_000_000,
        ),
        p(
            "M21",
            "the sequence used a closed, unknown or wrong-kind handle",
            &["pointers passed are null or valid"],
            m21,
            90_000,
            1_500_000,
        ),
        p(
            "M22",
            "a file with a stored checksum or digest, or a signature, was verified",
            &["no patch files", "whole-archive verification covers the files its listing names"],
            m22,
            60_000,
            800_000,
        ),
        p("M23", "the archive holds at least one file", &["names without NUL"], m23, 60_000, 800_000),
        p(
            "M28",
            "at least two threads made overlapping calls",
            &["schedules are those the operating system produces for randomly paced threads on 8 cores"],
            m28,
            15_000,
            60_000,
        ),
    ]
}

const FAILED: u32 = 0xFFFF_FFFF;

type H = usize;
fn h(x: H) -> HANDLE {
    x as HANDLE
}
fn err() -> u32 {
    SFileGetLastError()
}
fn mark() {
    SFileSetLastError(0x5A5A)
}
fn cstr(p: &Path) -> CString {
    CString::new(p.to_str().unwrap()).unwrap()
}

fn open_archive(p: &Path) -> Result<H, String> {
    let mut x: HANDLE = null_mut();
    if !unsafe { SFileOpenArchive(cstr(p).as_ptr(), 0, 0, &mut x) } || x.is_null() {
        return Err(format!("SFileOpenArchive failed ({})", err()));
    }
    Ok(x as H)
}
fn open_file(a: H, n: &str) -> Result<H, u32> {
    let mut x: HANDLE = null_mut();
    let n = CString::new(n).unwrap();
    if unsafe { SFileOpenFileEx(h(a), n.as_ptr(), 0, &mut x) } {
        Ok(x as H)
    } else {
        Err(err())
    }
}

/// A buffer at any alignment with guard bytes around it
struct Guarded {
    v: Vec<u8>,
    at: usize,
    len: usize,
}
impl Guarded {
    fn new(len: usize, shift: usize) -> Guarded {
        let at = 16 + shift;
        let mut v: Vec<u8> = (0..at + len + 48).map(|i| (i * 7 + 3) as u8).collect();
        v[at..at + len].fill(0xEE);
        Guarded { v, at, len }
    }
    fn ptr(&mut self) -> *mut c_void {
        unsafe { self.v.as_mut_ptr().add(self.at) as *mut c_void }
    }
    fn intact(&self) -> bool {
        self.v
            .iter()
            .enumerate()
            .all(|(i, &b)| (i >= self.at && i < self.at + self.len) || b == (i * 7 + 3) as u8)
    }
    fn data(&self) -> &[u8] {
        &self.v[self.at..self.at + self.len]
    }
    fn untouched(&self) -> bool {
        self.intact() && self.data().iter().all(|&b| b == 0xEE)
    }
}

// ------------------------------------------------------------------ M20

struct Open {
    handle: H,
    data: Vec<u8>,
    pos: u64,
}

fn position(f: H) -> Result<u64, String> {
    let mut b = [0u8; 8];
    if !unsafe { SFileGetFileInfo(h(f), 10, b.as_mut_ptr() as *mut c_void, 8, null_mut()) } {
        return Err(format!("position query failed ({})", err()));
    }
    Ok(u64::from_le_bytes(b))
}

/// Address space for a buffer of 4 GiB, touched only where something is read
fn huge_buffer() -> Option<*mut u8> {
    static AT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *AT.get_or_init(|| unsafe {
        let p = libc::mmap(
            null_mut(),
            (4 << 30) + (1 << 20),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            0
        } else {
            p as usize
        }
    });
    (p != 0).then_some(p as *mut u8)
}

/// A read into a buffer far larger than any file
fn huge_read(t: &mut Tape, f: &mut Open) -> Result<(String, bool), String> {
    let Some(p) = huge_buffer() else { return Ok(("no address space".into(), false)) };
    let rest = f.data.len() - f.pos as usize;
    let n = *t.pick(&[1u32 << 31, u32::MAX, i32::MAX as u32, 1 << 30, u32::MAX - 1, (1 << 31) + 7]);
    let all = unsafe { std::slice::from_raw_parts_mut(p, rest + 64) };
    all.fill(0xEE);
    let mut got: u32 = 0x7777_7777;
    mark();
    let ok = unsafe { SFileReadFile(h(f.handle), p as *mut c_void, n, &mut got, null_mut()) };
    let what = format!("read {n} at {}/{}", f.pos, f.data.len());
    let want = &f.data[f.pos as usize..];
    if !ok || err() != 0 || got as usize != rest {
        return Err(format!("{what}: {ok}, count {got}, error {}, expected {rest}", err()));
    }
    if &all[..rest] != want || all[rest..].iter().any(|&b| b != 0xEE) {
        return Err(format!("{what}: other data"));
    }
    f.pos += rest as u64;
    Ok((what, rest > 0))
}

fn read_step(t: &mut Tape, f: &mut Open) -> Result<(String, bool), String> {
    let len = f.data.len() as u64;
    let rest = len - f.pos;
    if t.chance(1, 40) {
        // one thread at a time: there is a single buffer
        static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());
        if let Ok(_only) = BUSY.try_lock() {
            return huge_read(t, f);
        }
    }
    let n = match t.u(7) {
        0 => 0,
        1 => 1,
        2 => t.below(16),
        3 => rest,
        4 => rest + 1 + t.below(9),
        5 => t.below(rest + 2),
        _ => t.below(70_000),
    };
    let shift = t.u(8);
    let mut b = Guarded::new(n as usize, shift);
    let mut got: u32 = 0x7777_7777;
    let with_count = !t.chance(1, 6);
    mark();
    let ok = unsafe {
        SFileReadFile(h(f.handle), b.ptr(), n as u32, if with_count { &mut got } else { null_mut() }, null_mut())
    };
    let want = &f.data[f.pos as usize..(f.pos + n.min(rest)) as usize];
    let what = format!("read {n} at {}/{len}", f.pos);
    if !ok || err() != 0 {
        return Err(format!("{what}: failed ({})", err()));
    }
    if with_count && got as usize != want.len() {
        return Err(format!("{what}: count {got}, expected {}", want.len()));
    }
    if !b.intact() {
        return Err(format!("{what}: wrote outside the buffer"));
    }
    if &b.data()[..want.len()] != want {
        return Err(format!("{what}: other data: {}", diff(&b.data()[..want.len()], want)));
    }
    let real = !want.is_empty();
    f.pos += want.len() as u64;
    Ok((what, real))
}

fn seek_step(t: &mut Tape, f: &mut Open) -> Result<String, String> {
    let len = f.data.len() as i64;
    let method = match t.weighted(&[4, 4, 4, 1]) {
        3 => t.any32().max(3),
        m => m as u32,
    };
    let base = match method {
        0 => 0,
        1 => f.pos as i64,
        _ => len,
    };
    // aim at interesting results
    let target = match t.u(8) {
        0 => 0,
        1 => len,
        2 => len + 1 + t.below(20) as i64,
        3 => -1 - t.below(20) as i64,
        4 => f.pos as i64,
        5 if t.bool() => {
            // off by a multiple of 2^32 (or half of it)
            let k = *t.pick(&[1i64 << 32, -1 << 32, 1 << 31, 2 << 32, 1 << 33, -1 << 31, 1 << 48, i64::MIN, 1 << 62]);
            k.wrapping_add(t.below(len as u64 + 2) as i64)
        }
        5 => t.any64() as i64,
        6 => (t.any32() as i32) as i64,
        _ => t.below(len as u64 + 1) as i64,
    };
    let off = target.wrapping_sub(base);
    let wide = t.bool();
    let (low, mut high) = (off as i32, (off >> 32) as i32);
    let off: i128 = if wide { off as i128 } else { low as i128 };
    let before = high;
    let what = format!("seek {off} method {method} (64-bit {wide}) at {}/{len}", f.pos);
    mark();
    let r = unsafe { SFileSetFilePointer(h(f.handle), low, if wide { &mut high } else { null_mut() }, method) };
    let new = base as i128 + off;
    if method > 2 || new < 0 {
        if r != FAILED || err() == 0 || err() == 0x5A5A {
            return Err(format!("{what}: not refused (result {r}, error {})", err()));
        }
        if wide && high != before {
            return Err(format!("{what}: refused but the high part was changed"));
        }
    } else {
        let p = new.min(len as i128) as u64;
        if r as u64 != p || err() != 0 || (wide && high != 0) {
            return Err(format!("{what}: result {r} high {high} error {}, expected {p}", err()));
        }
        f.pos = p;
    }
    Ok(what)
}

fn m20(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt { max_files: 4, max_size: 9_000, ..Default::default() };
    let mut g = match scale(c, 1499) {
        Some(k) => bulk_archive(&mut c.t, 16 + k % 8),
        None => archive(&mut c.t, &o),
    };
    let room = 70_000.max(10 + g.files.iter().map(|f| f.data.len()).max().unwrap_or(0));
    g.files.retain(|f| !f.name.contains('\0'));
    if g.files.is_empty() || c.t.chance(1, 10) {
        let n = c.t.u(60_000);
        let data = content(&mut c.t, n);
        let name = format!("extra-{n}");
        g.files.push(GFile {
            name,
            data,
            method: 0,
            default_method: false,
            mode: Mode::Plain,
            locale: 0,
            from_disk: false,
        });
    }
    note(c, &g);
    let path = c.path("a.mpq");
    g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
    let a = open_archive(&path)?;
    let mut v: Vec<Open> = vec![];
    let mut log: Vec<String> = vec![];
    let mut reads = 0;
    let steps = match scale(c, 2999) {
        Some(_) => c.t.urange(1_000, 6_000),
        None => c.t.urange(3, 40),
    };
    for i in 0..steps {
        c.evals += 1;
        if v.is_empty() || (v.len() < 5 && c.t.chance(1, 6)) {
            let n = g.files[c.t.u(g.files.len())].name.clone();
            let f = open_file(a, &n).map_err(|e| format!("opening {n:?} failed ({e})"))?;
            // in case of several languages the size or content tells which one it is
            let mut b = vec![0u8; room];
            let mut got = 0u32;
            unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, room as u32, &mut got, null_mut()) };
            b.truncate(got as usize);
            if !g.contents(&n).contains(&&b[..]) {
                return Err(format!("{n:?}: a read of everything yields other content ({got} bytes)"));
            }
            let mut pos = b.len() as u64;
            if c.t.bool() {
                pos = 0;
                unsafe { SFileSetFilePointer(h(f), 0, null_mut(), 0) };
            }
            v.push(Open { handle: f, data: b, pos });
            continue;
        }
        let k = c.t.u(v.len());
        let f = &mut v[k];
        let step = match c.t.weighted(&[6, 5, 2, 1]) {
            0 => read_step(&mut c.t, f).map(|(s, real)| {
                reads += real as u32;
                s
            }),
            1 => seek_step(&mut c.t, f),
            2 => {
                let mut high = 0xDEADu32;
                mark();
                let with = c.t.bool();
                let s = unsafe { SFileGetFileSize(h(f.handle), if with { &mut high } else { null_mut() }) };
                if s as usize != f.data.len() || (with && high != 0) || err() != 0 {
                    Err(format!("size {s} high {high} error {}, expected {}", err(), f.data.len()))
                } else {
                    Ok("size".into())
                }
            }
            _ => {
                if !SFileCloseFile(h(f.handle)) {
                    Err("close failed".into())
                } else {
                    v.remove(k);
                    Ok("close".into())
                }
            }
        };
        match step {
            Ok(s) => log.push(format!("[{k}] {s}")),
            Err(e) => {
                c.describe(log.join(", "));
                return Err(format!("step {i} handle {k}: {e}"));
            }
        }
        for (j, f) in v.iter().enumerate() {
            let p = position(f.handle)?;
            if p != f.pos {
                c.describe(log.join(", "));
                return Err(format!("after step {i}: handle {j} is at {p}, expected {}", f.pos));
            }
        }
    }
    if reads > 0 {
        c.nontrivial();
    }
    c.class(format!("{} handles", v.len()));
    c.describe(log.join(", "));
    if !SFileCloseArchive(h(a)) {
        return Err("closing the archive failed".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ M21

struct AFile {
    handle: H,
    name: String,
    data: Vec<u8>,
    pos: usize,
    arch: usize,
    live: bool,
}
struct AArch {
    handle: H,
    path: PathBuf,
    files: Vec<(String, Vec<u8>)>,
    live: bool,
}
#[derive(Default)]
struct World {
    a: Vec<AArch>,
    f: Vec<AFile>,
}
impl World {
    fn arch(&self, x: H) -> Option<usize> {
        self.a.iter().position(|a| a.live && a.handle == x)
    }
    fn file(&self, x: H) -> Option<usize> {
        self.f.iter().position(|f| f.live && f.handle == x)
    }
    fn live(&self, x: H) -> bool {
        self.arch(x).is_some() || self.file(x).is_some()
    }
    /// given out before, whether closed or not: a stale handle must never refer to something else
    fn issued(&self, x: H) -> bool {
        self.a.iter().any(|a| a.handle == x) || self.f.iter().any(|f| f.handle == x)
    }
    /// any handle, of the wanted kind about half of the time
    fn pick(&self, t: &mut Tape, arch: bool) -> (H, &'static str) {
        let la: Vec<H> = self.a.iter().filter(|a| a.live).map(|a| a.handle).collect();
        let lf: Vec<H> = self.f.iter().filter(|a| a.live).map(|a| a.handle).collect();
        let da: Vec<H> = self.a.iter().filter(|a| !a.live).map(|a| a.handle).collect();
        let df: Vec<H> = self.f.iter().filter(|a| !a.live).map(|a| a.handle).collect();
        let (l, w) = if arch { (&la, &lf) } else { (&lf, &la) };
        for _ in 0..3 {
            let (v, s) = match t.weighted(&[8, 2, 2, 2]) {
                0 => (l, "live"),
                1 => (w, "of the wrong kind"),
                2 => (&da, "of a closed archive"),
                _ => (&df, "of a closed file"),
            };
            if !v.is_empty() {
                let x = v[t.u(v.len())];
                return (x, s);
            }
        }
        match t.u(5) {
            0 => (0, "null"),
            1 => (t.u(4000) + 1_000_000_000, "unknown"),
            2 => (usize::MAX - t.u(3), "unknown"),
            3 => ((t.any64() | 1 << 50) as usize, "unknown"),
            _ => (0x1_0000_0001, "unknown"),
        }
    }
}

extern "C" fn count_cb(_: *const c_char, u: *mut c_void) -> bool {
    unsafe { *(u as *mut u32) += 1 };
    true
}

fn refused(what: &str, ok: bool) -> Result<(), String> {
    if ok {
        return Err(format!("{what}: succeeded"));
    }
    if err() == 0 || err() == 0x5A5A {
        return Err(format!("{what}: failed without an error code ({:#x})", err()));
    }
    Ok(())
}
/// Refused for exactly one reason, which the error code names
fn refused_as(what: &str, ok: bool, code: Option<u32>) -> Result<(), String> {
    refused(what, ok)?;
    match code {
        Some(x) if err() != x => Err(format!("{what}: error code {}, expected {x}", err())),
        _ => Ok(()),
    }
}
const NOT_FOUND: u32 = 2;
const BAD_HANDLE: u32 = 6;
const BAD_PARAMETER: u32 = 87;
const TOO_SMALL: u32 = 122;

fn accepted(what: &str, ok: bool) -> Result<(), String> {
    if !ok || err() != 0 {
        return Err(format!("{what}: failed (result {ok}, error {:#x})", err()));
    }
    Ok(())
}

/// Thousands of handles at the same time
fn m21_many(c: &mut Ctx, k: u64) -> Result<(), String> {
    let (na, nf) = match k % 3 {
        0 => (300 + c.t.u(20), 300 + c.t.u(20)),
        1 => (2, 66_000 + c.t.u(3000)),
        _ => (20, 5000 + c.t.u(100)),
    };
    c.describe(format!("{na} archives, {nf} files open"));
    let mut disk = vec![];
    for i in 0..3 {
        let path = c.path(&format!("a{i}.mpq"));
        let mut b = mopaq::ArchiveBuilder::new().version(VERSIONS[c.t.u(4)]);
        for j in 0..5 {
            b = b.add_file_data(format!("{i}/{j}").into_bytes(), &format!("f{j}"));
        }
        b.build(&path).map_err(|e| e.to_string())?;
        disk.push(path);
    }
    let mut archs: Vec<(H, usize)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for i in 0..na {
        let a = open_archive(&disk[i % 3])?;
        if !seen.insert(a) {
            return Err(format!("archive handle {a} given out twice"));
        }
        archs.push((a, i % 3));
    }
    let mut files: Vec<(H, usize, String)> = vec![];
    for i in 0..nf {
        c.evals += 1;
        let (a, d) = archs[i % na];
        let j = (i / na) % 5;
        let f = open_file(a, &format!("f{j}")).map_err(|e| format!("file {i} does not open ({e})"))?;
        if !seen.insert(f) {
            return Err(format!("file handle {f} given out twice"));
        }
        files.push((f, i % na, format!("{d}/{j}")));
    }
    let check = |f: H, want: Option<&str>| -> Result<(), String> {
        let mut b = [0u8; 8];
        let mut got = 0u32;
        mark();
        unsafe { SFileSetFilePointer(h(f), 0, null_mut(), 0) };
        mark();
        let ok = unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, 8, &mut got, null_mut()) };
        match want {
            None => refused(&format!("reading closed handle {f}"), ok),
            Some(w) => {
                accepted(&format!("reading handle {f}"), ok)?;
                if &b[..got as usize] != w.as_bytes() {
                    return Err(format!("handle {f} reads {:?}, expected {w:?}", &b[..got as usize]));
                }
                Ok(())
            }
        }
    };
    for (f, _, w) in &files {
        check(*f, Some(w))?;
    }
    // close some files and some archives: the others stay as they are
    let mut r = c.t.sub();
    let mut gone = vec![false; nf];
    for i in 0..nf {
        if r.below(4) == 0 {
            mark();
            accepted("closing a file", SFileCloseFile(h(files[i].0)))?;
            gone[i] = true;
        }
    }
    let mut closed = vec![false; na];
    for i in 0..na {
        if r.below(3) == 0 {
            mark();
            accepted("closing an archive", SFileCloseArchive(h(archs[i].0)))?;
            closed[i] = true;
        }
    }
    for (i, (f, a, w)) in files.iter().enumerate() {
        check(*f, (!gone[i] && !closed[*a]).then_some(w))?;
    }
    for i in 0..na {
        if !closed[i] {
            mark();
            accepted("closing an archive", SFileCloseArchive(h(archs[i].0)))?;
        }
    }
    for (f, _, _) in files.iter().step_by(1 + nf / 500) {
        check(*f, None)?;
    }
    c.nontrivial();
    Ok(())
}

fn m21(c: &mut Ctx) -> Result<(), String> {
    if let Some(k) = scale(c, 9973) {
        return m21_many(c, k);
    }
    // archives to open
    let n = c.t.urange(1, 3);
    let mut disk: Vec<(PathBuf, Vec<(String, Vec<u8>)>)> = vec![];
    for i in 0..n {
        let path = c.path(&format!("a{i}.mpq"));
        let mut b = mopaq::ArchiveBuilder::new().version(VERSIONS[c.t.u(4)]);
        let mut files = vec![];
        for j in 0..c.t.u(4) {
            // the same names in all archives, different content
            let len = c.t.u(900);
            let data: Vec<u8> = (0..len).map(|k| (k * (i + 2) + j * 37 + i) as u8).collect();
            let name = ["one.txt", "dir\\two.bin", "three"][j].to_string();
            b = b.add_file_data(data.clone(), &name);
            files.push((name, data));
        }
        b.build(&path).map_err(|e| e.to_string())?;
        disk.push((path, files));
    }
    let garbage = c.path("garbage.mpq");
    std::fs::write(&garbage, b"this is not an archive").map_err(|e| e.to_string())?;
    let bad_utf8 = CString::new(vec![0x2f, 0xff, 0xfe, 0x41]).unwrap();
    let mut w = World::default();
    let mut log = vec![];
    let steps = c.t.urange(4, 60);
    let mut created = 0;
    let mut odd = false;
    let mut run = |c: &mut Ctx, w: &mut World, log: &mut Vec<String>| -> Result<(), String> {
        for _ in 0..steps {
            c.evals += 1;
            mark();
            let op = c.t.weighted(&[5, 7, 3, 4, 4, 2, 3, 2, 2, 2, 2, 2, 2, 2, 2]);
            match op {
                0 | 14 => {
                    let kind = c.t.weighted(&[10, 1, 1, 1, 1, 1, 1]);
                    let (path, files) = disk[c.t.u(disk.len())].clone();
                    let missing = c.path("missing.mpq");
                    let name = match kind {
                        1 => cstr(&missing),
                        2 => cstr(&garbage),
                        3 => cstr(&c.dir),
                        4 => bad_utf8.clone(),
                        _ => cstr(&path),
                    };
                    let mut x: HANDLE = null_mut();
                    if op == 14 {
                        // creation
                        let disp = c.t.urange(0, 6) as u32;
                        let size = *c.t.pick(&[4u32, 16, 1024, 0, 2, 3, 17, 1 << 19]);
                        let exists = c.t.bool();
                        let (path, files) = if exists && kind != 1 {
                            (path, files)
                        } else {
                            created += 1;
                            (c.path(&format!("new{created}.mpq")), vec![])
                        };
                        let name = match kind {
                            4 => bad_utf8.clone(),
                            1 => cstr(&c.path("no/such/dir/x.mpq")),
                            _ => cstr(&path),
                        };
                        let before = std::fs::read(&path).ok();
                        let was = before.is_some();
                        let ok = unsafe {
                            SFileCreateArchive(
                                if kind == 5 { null() } else { name.as_ptr() },
                                disp,
                                size,
                                if kind == 6 { null_mut() } else { &mut x },
                            )
                        };
                        let what = format!("create {} disposition {disp} size {size} existing {was} kind {kind}", path.display());
                        log.push(what.clone());
                        let mut good = !matches!(kind, 1 | 4 | 5 | 6) && size >= 4 && size.is_power_of_two();
                        good &= match disp {
                            1 => !was,
                            2 | 4 => true,
                            5 => was,
                            _ => false,
                        };
                        if !good {
                            // the code, where only one thing is wrong
                            let sized = size >= 4 && size.is_power_of_two();
                            let code = match (kind, sized, disp) {
                                (4..=6, true, 2) | (0 | 2 | 3, false, 2) | (0 | 2 | 3, true, 0 | 3 | 6) => Some(BAD_PARAMETER),
                                (0 | 2 | 3, true, 1) => Some(183),
                                (0 | 2 | 3, true, 5) => Some(NOT_FOUND),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd = true;
                            if std::fs::read(&path).ok() != before {
                                return Err(format!("{what}: refused, but the file changed"));
                            }
                        } else {
                            accepted(&what, ok)?;
                            let keep = disp == 4 && was;
                            let had_files = !files.is_empty();
                            let files = if keep { files } else { vec![] };
                            if keep && std::fs::read(&path).ok() != before {
                                return Err(format!("{what}: the existing archive changed"));
                            }
                            if !keep && had_files && std::fs::read(&path).ok() == before {
                                return Err(format!("{what}: no new archive was written"));
                            }
                            if w.issued(x as H) || x.is_null() {
                                return Err(format!("{what}: handle {x:?} is null or was given out before"));
                            }
                            // recreating replaces what later opens will find; open handles keep the old file
                            if let Some(d) = disk.iter_mut().find(|d| d.0 == path) {
                                d.1 = files.clone();
                            } else {
                                disk.push((path.clone(), files.clone()));
                            }
                            w.a.push(AArch { handle: x as H, path, files, live: true });
                        }
                        continue;
                    }
                    let ok = unsafe {
                        SFileOpenArchive(
                            if kind == 5 { null() } else { name.as_ptr() },
                            c.t.any32(),
                            c.t.any32(),
                            if kind == 6 { null_mut() } else { &mut x },
                        )
                    };
                    let what = format!("open archive {name:?} kind {kind}");
                    log.push(format!("{what} -> {x:?}"));
                    if kind == 0 {
                        accepted(&what, ok)?;
                        if w.issued(x as H) || x.is_null() {
                            return Err(format!("{what}: handle {x:?} is null or was given out before"));
                        }
                        w.a.push(AArch { handle: x as H, path, files, live: true });
                    } else {
                        let code = match kind {
                            4..=6 => Some(BAD_PARAMETER),
                            _ => None,
                        };
                        refused_as(&what, ok, code)?;
                        odd = true;
                    }
                }
                1 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let kind = c.t.weighted(&[10, 2, 1, 1, 1]);
                    let known = ["one.txt", "dir\\two.bin", "three"][c.t.u(3)];
                    let spelled = respell(&mut c.t, known);
                    let name = match kind {
                        1 => CString::new("absent.txt").unwrap(),
                        2 => bad_utf8.clone(),
                        _ => CString::new(spelled.clone()).unwrap(),
                    };
                    let mut x: HANDLE = null_mut();
                    let ok = unsafe {
                        SFileOpenFileEx(
                            h(a),
                            if kind == 3 { null() } else { name.as_ptr() },
                            c.t.any32(),
                            if kind == 4 { null_mut() } else { &mut x },
                        )
                    };
                    let what = format!("open file {name:?} kind {kind} in {a:#x} ({s})");
                    log.push(format!("{what} -> {x:?}"));
                    let arch = w.arch(a);
                    let data = arch.and_then(|i| w.a[i].files.iter().find(|f| f.0 == known).map(|f| f.1.clone()));
                    match (kind, arch, data) {
                        (0, Some(arch), Some(data)) => {
                            accepted(&what, ok)?;
                            if w.issued(x as H) || x.is_null() {
                                return Err(format!("{what}: handle {x:?} is null or was given out before"));
                            }
                            w.f.push(AFile { handle: x as H, name: spelled, data, pos: 0, arch, live: true });
                        }
                        _ => {
                            let code = match (kind, arch) {
                                (0 | 1, None) => Some(BAD_HANDLE),
                                (0 | 1, Some(_)) => Some(NOT_FOUND),
                                (_, Some(_)) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= arch.is_none();
                        }
                    }
                }
                2 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let what = format!("close archive {a:#x} ({s})");
                    log.push(what.clone());
                    let ok = SFileCloseArchive(h(a));
                    match w.arch(a) {
                        Some(i) => {
                            accepted(&what, ok)?;
                            w.a[i].live = false;
                            for f in w.f.iter_mut().filter(|f| f.arch == i) {
                                f.live = false;
                            }
                        }
                        None => {
                            refused_as(&what, ok, Some(BAD_HANDLE))?;
                            odd = true;
                        }
                    }
                }
                3 => {
                    let (f, s) = w.pick(&mut c.t, false);
                    let what = format!("close file {f:#x} ({s})");
                    log.push(what.clone());
                    let ok = SFileCloseFile(h(f));
                    match w.file(f) {
                        Some(i) => {
                            accepted(&what, ok)?;
                            w.f[i].live = false;
                        }
                        None => {
                            refused_as(&what, ok, Some(BAD_HANDLE))?;
                            odd = true;
                        }
                    }
                }
                4 => {
                    let (f, s) = w.pick(&mut c.t, false);
                    let n = c.t.u(500);
                    let nul = c.t.chance(1, 8);
                    let mut b = Guarded::new(n, 0);
                    let mut got = 0x7777u32;
                    let what = format!("read {n} from {f:#x} ({s})");
                    log.push(what.clone());
                    let p = if nul { null_mut() } else { b.ptr() };
                    let ok = unsafe { SFileReadFile(h(f), p, n as u32, &mut got, null_mut()) };
                    match w.file(f) {
                        Some(i) if !nul => {
                            accepted(&what, ok)?;
                            let x = &mut w.f[i];
                            let want = &x.data[x.pos..(x.pos + n).min(x.data.len())];
                            if got as usize != want.len() || &b.data()[..want.len()] != want {
                                return Err(format!("{what}: other data than in {:?}", x.name));
                            }
                            x.pos += want.len();
                        }
                        i => {
                            let code = match (i, nul) {
                                (None, false) => Some(BAD_HANDLE),
                                (Some(_), true) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= i.is_none();
                            if !b.untouched() {
                                return Err(format!("{what}: wrote to the buffer"));
                            }
                        }
                    }
                }
                5 => {
                    let (f, s) = w.pick(&mut c.t, false);
                    let what = format!("size of {f:#x} ({s})");
                    log.push(what.clone());
                    let r = unsafe { SFileGetFileSize(h(f), null_mut()) };
                    match w.file(f) {
                        Some(i) => {
                            accepted(&what, true)?;
                            if r as usize != w.f[i].data.len() {
                                return Err(format!("{what}: {r}, expected {}", w.f[i].data.len()));
                            }
                        }
                        None => {
                            refused_as(&what, r != FAILED, Some(BAD_HANDLE))?;
                            odd = true;
                        }
                    }
                }
                6 => {
                    let (f, s) = w.pick(&mut c.t, false);
                    let p = c.t.u(1000);
                    let what = format!("seek {p} in {f:#x} ({s})");
                    log.push(what.clone());
                    let r = unsafe { SFileSetFilePointer(h(f), p as i32, null_mut(), 0) };
                    match w.file(f) {
                        Some(i) => {
                            accepted(&what, true)?;
                            w.f[i].pos = p.min(w.f[i].data.len());
                            if r as usize != w.f[i].pos {
                                return Err(format!("{what}: {r}, expected {}", w.f[i].pos));
                            }
                        }
                        None => {
                            refused_as(&what, r != FAILED, Some(BAD_HANDLE))?;
                            odd = true;
                        }
                    }
                }
                7 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let known = ["one.txt", "dir\\two.bin", "three", "absent"][c.t.u(4)];
                    let kind = c.t.weighted(&[8, 1, 1]);
                    let name = if kind == 1 { bad_utf8.clone() } else { CString::new(respell(&mut c.t, known)).unwrap() };
                    let what = format!("has {name:?} kind {kind} in {a:#x} ({s})");
                    log.push(what.clone());
                    let ok = unsafe { SFileHasFile(h(a), if kind == 2 { null() } else { name.as_ptr() }) };
                    let want = kind == 0
                        && w.arch(a).is_some_and(|i| w.a[i].files.iter().any(|f| f.0 == known));
                    if ok != want {
                        return Err(format!("{what}: {ok}"));
                    }
                    odd |= w.arch(a).is_none();
                }
                8 => {
                    let arch = c.t.bool();
                    let (x, s) = w.pick(&mut c.t, arch);
                    let class = if c.t.chance(1, 8) { c.t.any32() } else { c.t.urange(0, 13) as u32 };
                    let n = *c.t.pick(&[0usize, 1, 3, 4, 7, 8, 9, 64]);
                    let nul = c.t.chance(1, 6);
                    let shift = c.t.u(8);
                    let mut b = Guarded::new(n, shift);
                    let mut need = 0x7777u32;
                    let what = format!("information {class} of {x:#x} ({s}), buffer {n} null {nul} at +{shift}");
                    log.push(what.clone());
                    let p = if nul { null_mut() } else { b.ptr() };
                    let with = c.t.bool();
                    let ok = unsafe { SFileGetFileInfo(h(x), class, p, n as u32, if with { &mut need } else { null_mut() }) };
                    let size = match (w.arch(x), w.file(x), class) {
                        (Some(_), _, 1) => 8,
                        (Some(_), _, 2..=4) => 4,
                        (_, Some(_), 7 | 10) => 8,
                        (Some(_), _, _) | (_, Some(_), _) => {
                            if !b.intact() {
                                return Err(format!("{what}: wrote outside the buffer"));
                            }
                            // no such information: refused, or answered by a later version
                            if !ok {
                                refused(&what, ok)?;
                            } else if err() != 0 || b.untouched() {
                                return Err(format!("{what}: accepted with error {:#x} or without an answer", err()));
                            }
                            continue;
                        }
                        _ => usize::MAX,
                    };
                    odd |= size == usize::MAX;
                    if size <= n && !nul {
                        accepted(&what, ok)?;
                        if let Some(i) = w.file(x) {
                            let v = u64::from_le_bytes(b.data()[..8].try_into().unwrap());
                            let want = if class == 7 { w.f[i].data.len() } else { w.f[i].pos };
                            if v != want as u64 {
                                return Err(format!("{what}: {v}, expected {want}"));
                            }
                        }
                        if with && need as usize != size {
                            return Err(format!("{what}: size needed {need}"));
                        }
                    } else {
                        let code = match (size, nul) {
                            (usize::MAX, false) => Some(BAD_HANDLE),
                            (_, false) => Some(TOO_SMALL),
                            _ => None,
                        };
                        refused_as(&what, ok, code)?;
                        if !b.untouched() {
                            return Err(format!("{what}: refused, but the buffer was written to"));
                        }
                        if with && size != usize::MAX && !(nul && n > 0) && need as usize != size {
                            return Err(format!("{what}: size needed {need}"));
                        }
                    }
                    if !b.intact() {
                        return Err(format!("{what}: wrote outside the buffer"));
                    }
                }
                9 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let arch = w.arch(a);
                    let full = arch.map_or(10, |i| w.a[i].path.to_str().unwrap().len() + 1);
                    let n = *c.t.pick(&[0, 1, full - 1, full, full + 1, full + 100]);
                    let nul = c.t.chance(1, 6);
                    let mut b = Guarded::new(n, c.t.u(4));
                    let what = format!("archive name of {a:#x} ({s}), buffer {n} (needs {full}) null {nul}");
                    log.push(what.clone());
                    let p = if nul { null_mut() } else { b.ptr() as *mut c_char };
                    let ok = unsafe { SFileGetArchiveName(h(a), p, n as u32) };
                    match arch {
                        Some(i) if n >= full && !nul => {
                            accepted(&what, ok)?;
                            let got = CStr::from_bytes_until_nul(b.data()).map_err(|e| e.to_string())?;
                            if got.to_str() != Ok(w.a[i].path.to_str().unwrap()) {
                                return Err(format!("{what}: {got:?}"));
                            }
                        }
                        _ => {
                            let code = match (arch, nul || n == 0) {
                                (None, false) => Some(BAD_HANDLE),
                                (Some(_), false) => Some(TOO_SMALL),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= arch.is_none();
                        }
                    }
                    if !b.intact() {
                        return Err(format!("{what}: wrote outside the buffer"));
                    }
                }
                10 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let kind = c.t.weighted(&[6, 1, 1, 1]);
                    let mut n = 0u32;
                    let what = format!("enumerate {a:#x} ({s}) kind {kind}");
                    log.push(what.clone());
                    let star = CString::new("*").unwrap();
                    let ok = unsafe {
                        SFileEnumFiles(
                            h(a),
                            match kind {
                                1 => null(),
                                2 => bad_utf8.as_ptr(),
                                _ => star.as_ptr(),
                            },
                            null(),
                            if kind == 3 { None } else { Some(count_cb) },
                            &mut n as *mut u32 as *mut c_void,
                        )
                    };
                    match w.arch(a) {
                        Some(i) if kind < 2 => {
                            accepted(&what, ok)?;
                            if n as usize != w.a[i].files.len() + 1 {
                                return Err(format!("{what}: {n} names, stored are {} and the listfile", w.a[i].files.len()));
                            }
                        }
                        i => {
                            let code = match (i, kind) {
                                (None, 0 | 1) => Some(BAD_HANDLE),
                                (Some(_), _) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= i.is_none();
                            if n != 0 {
                                return Err(format!("{what}: the callback was called"));
                            }
                        }
                    }
                }
                11 => {
                    let (f, s) = w.pick(&mut c.t, false);
                    let nul = c.t.chance(1, 6);
                    let what = format!("file name of {f:#x} ({s}) null {nul}");
                    log.push(what.clone());
                    let i = w.file(f);
                    let n = i.map_or(32, |i| w.f[i].name.len() + 1);
                    let mut b = Guarded::new(n, 1);
                    let ok = unsafe { SFileGetFileName(h(f), if nul { null_mut() } else { b.ptr() as *mut c_char }) };
                    match i {
                        Some(i) if !nul => {
                            accepted(&what, ok)?;
                            let got = CStr::from_bytes_until_nul(b.data()).map_err(|e| e.to_string())?;
                            if fold(got.to_str().unwrap_or("")) != fold(&w.f[i].name) {
                                return Err(format!("{what}: {got:?}, opened as {:?}", w.f[i].name));
                            }
                        }
                        _ => {
                            let code = match (i, nul) {
                                (None, false) => Some(BAD_HANDLE),
                                (Some(_), true) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= i.is_none();
                        }
                    }
                    if !b.intact() {
                        return Err(format!("{what}: wrote outside the buffer"));
                    }
                }
                12 => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let known = ["one.txt", "dir\\two.bin", "three", "absent"][c.t.u(4)];
                    let kind = c.t.weighted(&[8, 1, 1, 1, 1, 1, 1]);
                    let name = if kind == 1 { bad_utf8.clone() } else { CString::new(known).unwrap() };
                    let out = c.path("out").join(["x", "y/z", "x/y"][c.t.u(3)]);
                    let _ = std::fs::remove_dir_all(c.path("out"));
                    let blocked = kind == 4;
                    if blocked {
                        // a file where a directory would be needed
                        let _ = std::fs::write(c.path("out"), b"in the way");
                    }
                    if kind == 5 {
                        // a directory where the file should be
                        std::fs::create_dir_all(&out).map_err(|e| e.to_string())?;
                    }
                    let what = format!("extract {name:?} kind {kind} from {a:#x} ({s})");
                    log.push(what.clone());
                    let local = if kind == 6 {
                        let mut v = c.path("out").into_os_string().into_encoded_bytes();
                        v.extend(b"/\xff\xfe");
                        CString::new(v).unwrap()
                    } else {
                        cstr(&out)
                    };
                    let ok = unsafe {
                        SFileExtractFile(
                            h(a),
                            if kind == 2 { null() } else { name.as_ptr() },
                            if kind == 3 { null() } else { local.as_ptr() },
                            c.t.any32(),
                        )
                    };
                    let data = w.arch(a).and_then(|i| w.a[i].files.iter().find(|f| f.0 == known));
                    match data {
                        Some(d) if kind == 0 => {
                            accepted(&what, ok)?;
                            if std::fs::read(&out).ok().as_ref() != Some(&d.1) {
                                return Err(format!("{what}: other content on disk"));
                            }
                        }
                        _ => {
                            let code = match (w.arch(a), kind) {
                                (None, 0) => Some(BAD_HANDLE),
                                (Some(_), 0) => Some(NOT_FOUND),
                                (Some(_), 1..=3) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= w.arch(a).is_none();
                            if out.is_file() {
                                return Err(format!("{what}: refused, but a file was written"));
                            }
                        }
                    }
                    if blocked {
                        let _ = std::fs::remove_file(c.path("out"));
                    }
                }
                _ => {
                    let (a, s) = w.pick(&mut c.t, true);
                    let flags = *c.t.pick(&[0u32, 1, 2, 4, 7, 0x10, 0x20, 0x30, 0xFF]);
                    if c.t.bool() {
                        let what = format!("verify archive {a:#x} ({s}) flags {flags:#x}");
                        log.push(what.clone());
                        let ok = unsafe { SFileVerifyArchive(h(a), flags) };
                        match w.arch(a) {
                            Some(_) => accepted(&what, ok)?,
                            None => {
                                refused_as(&what, ok, Some(BAD_HANDLE))?;
                                odd = true;
                            }
                        }
                    } else {
                        let known = ["one.txt", "dir\\two.bin", "three", "absent"][c.t.u(4)];
                        let kind = c.t.weighted(&[8, 1, 1]);
                        let name = if kind == 1 { bad_utf8.clone() } else { CString::new(known).unwrap() };
                        let what = format!("verify {name:?} kind {kind} in {a:#x} ({s}) flags {flags:#x}");
                        log.push(what.clone());
                        let ok = unsafe { SFileVerifyFile(h(a), if kind == 2 { null() } else { name.as_ptr() }, flags) };
                        if kind == 0 && w.arch(a).is_some_and(|i| w.a[i].files.iter().any(|f| f.0 == known)) {
                            accepted(&what, ok)?;
                        } else {
                            let code = match (w.arch(a), kind) {
                                (None, 0) => Some(BAD_HANDLE),
                                (Some(_), 0) => Some(NOT_FOUND),
                                (Some(_), _) => Some(BAD_PARAMETER),
                                _ => None,
                            };
                            refused_as(&what, ok, code)?;
                            odd |= w.arch(a).is_none();
                        }
                    }
                }
            }
        }
        // all handles once more
        for f in &w.f {
            let r = unsafe { SFileGetFileSize(h(f.handle), null_mut()) };
            if f.live && (r as usize != f.data.len() || position(f.handle)? != f.pos as u64) {
                return Err(format!("live file handle {:#x} lost its state", f.handle));
            }
            if !f.live && !w.live(f.handle) && r != FAILED {
                return Err(format!("closed file handle {:#x} still works", f.handle));
            }
        }
        for a in &w.a {
            let n = CString::new("(listfile)").unwrap();
            let r = unsafe { SFileHasFile(h(a.handle), n.as_ptr()) };
            if r != w.arch(a.handle).is_some() {
                return Err(format!("archive handle {:#x} (live {}): {r}", a.handle, a.live));
            }
        }
        Ok(())
    };
    let r = run(c, &mut w, &mut log);
    c.describe(log.join(", "));
    if odd {
        c.nontrivial();
    }
    r?;
    for a in &w.a {
        if a.live {
            accepted("final close", SFileCloseArchive(h(a.handle)))?;
        }
    }
    for f in &w.f {
        if unsafe { SFileGetFileSize(h(f.handle), null_mut()) } != FAILED {
            return Err(format!("file handle {:#x} outlives its archive", f.handle));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M22

fn m22(c: &mut Ctx) -> Result<(), String> {
    if c.t.chance(1, 5) {
        return m22_signed(c);
    }
    if c.t.chance(1, 6) {
        return m22_damaged(c);
    }
    let max_size = if c.t.chance(1, 12) { 200_000 } else { 3_000 };
    let o = GenOpt { max_files: 5, max_size, external: false, listable: true, ..Default::default() };
    let path = c.path("a.mpq");
    let long = scale(c, 997);
    // contents by block index, and the attributes that go with them
    let mut names: Vec<String> = vec![];
    let attrs;
    let attr_index;
    if c.t.bool() {
        let mut g = archive(&mut c.t, &o);
        g.files.retain(|f| !f.name.contains('\0'));
        if c.t.chance(1, 4) {
            // names that look like folders or special files
            let n = *c.t.pick(&["folder\\", "folder/", "a\\b\\", "(extra)", "(half", "half)", "()", "\\"]);
            if g.files.iter().all(|f| fold(&f.name) != fold(n)) {
                let at = c.t.u(g.files.len() + 1);
                let d = data(&mut c.t, 512, 900);
                g.files.insert(at, gfile(n, d));
            }
        }
        if let Some(k) = long {
            let n = scale_len(&mut c.t, 16 + k % 8);
            let d = scale_data(&mut c.t, n);
            g.files.push(gfile("long file", d));
        }
        let count = g.files.len() + 1 + (g.listfile != LF::None) as usize;
        attr_index = g.files.len();
        let mut w = RefAttrs::random(&mut c.t, count);
        w.patch.fill(false);
        for (i, f) in g.files.iter().enumerate() {
            w.crc[i] = crc32fast::hash(&f.data);
            w.md5[i] = md5(&f.data);
        }
        if let Some(t) = {
            let mut g2 = g.clone();
            g2.files.push(gfile("(attributes)", vec![]));
            g2.listfile_text()
        } {
            w.crc[count - 1] = crc32fast::hash(&t);
            w.md5[count - 1] = md5(&t);
        }
        attrs = spoil_attrs(c, w, g.files.len());
        g.files.push(gfile("(attributes)", attrs.bytes()));
        c.describe(g.describe());
        names.extend(g.files.iter().map(|f| f.name.clone()));
        g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
        c.class("built");
    } else {
        let (mut files, mut l) = foreign_spec(c, &o, false);
        let count = l.block_count + 1;
        attr_index = l.block_count;
        let mut w = RefAttrs::random(&mut c.t, count);
        w.patch.fill(false);
        for (i, f) in files.iter().enumerate() {
            w.crc[l.block_of[i]] = crc32fast::hash(&f.data);
            w.md5[l.block_of[i]] = md5(&f.data);
        }
        attrs = spoil_attrs(c, w, files.len());
        let mut f = pick_wfile(&mut c.t, "(attributes)".into(), attrs.bytes());
        f.locale = 0;
        l.block_of.push(l.block_count);
        l.block_count += 1;
        l.insert.push(files.len());
        files.push(f);
        while (l.hash_size as usize) < files.len() + l.occupied.len() {
            l.hash_size *= 2;
        }
        let wr = write_archive(&files, &l);
        wr.save(&path, 0).map_err(|e| e.to_string())?;
        names.extend(files.iter().filter(|f| !f.name.contains('\0')).map(|f| f.name.clone()));
        c.class("foreign");
    }
    // damage the data of a file
    let mut bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
    let r = Ref::parse(&bytes)?;
    if c.t.chance(2, 5) {
        let v: Vec<usize> = (0..r.blocks.len())
            .filter(|&i| i != attr_index && r.blocks[i].csize > 0 && r.blocks[i].flags & F_EXISTS != 0)
            .collect();
        if !v.is_empty() {
            let b = r.blocks[v[c.t.u(v.len())]];
            let p = (b.pos + c.t.below(b.csize as u64)) as usize;
            if p < bytes.len() {
                bytes[p] ^= 1 << c.t.u(8);
                std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
                c.class("damaged data");
                c.describe(format!("byte {p:#x} damaged"));
            }
        }
    }
    let mut lib = match mopaq::Archive::open(&path) {
        Ok(a) => a,
        Err(e) => return Err(format!("library cannot open: {e}")),
    };
    let a = open_archive(&path)?;
    // what a file's verification must say: None = not determined
    let mut expected = |n: &str, flags: u32| -> Option<bool> {
        let i = match lib.find_file(n) {
            Ok(Some(i)) => i,
            _ => return Some(false),
        };
        let flags = if flags == 0 { 0xFF } else { flags };
        let data = lib.read_file(n).ok();
        let at = (i.block_index < attrs.crc.len()).then(|| attrs.at(i.block_index));
        let crc = at.as_ref().and_then(|a| a.crc32).filter(|_| flags & 2 != 0);
        let md = at.as_ref().and_then(|a| a.md5).filter(|_| flags & 4 != 0);
        match data {
            Some(d) => Some(crc.is_none_or(|x| x == crc32fast::hash(&d)) && md.is_none_or(|x| x == md5(&d))),
            None if crc.is_some() || md.is_some() || (flags & 1 != 0 && i.has_sector_crc()) => Some(false),
            None => None,
        }
    };
    for n in &names {
        for _ in 0..2 {
            let flags = *c.t.pick(&[0u32, 1, 2, 4, 3, 6, 7, 5, 0xFF, 0x20]);
            let want = expected(n, flags);
            mark();
            let cn = CString::new(n.as_str()).unwrap();
            let got = unsafe { SFileVerifyFile(h(a), cn.as_ptr(), flags) };
            c.evals += 1;
            if attrs.flags & 5 != 0 {
                c.nontrivial();
            }
            if let Some(want) = want {
                c.class(if want { "accepted" } else { "rejected" });
                if got != want {
                    return Err(format!("verifying {n:?} with flags {flags:#x}: {got}, expected {want}"));
                }
            }
            if got != (err() == 0) || err() == 0x5A5A {
                return Err(format!("verifying {n:?}: result {got} with error {}", err()));
            }
        }
    }
    // whole archive
    let listed: Vec<String> = {
        let mut l2 = mopaq::Archive::open(&path).map_err(|e| e.to_string())?;
        l2.list().map(|l| l.into_iter().map(|e| e.name).collect()).unwrap_or_default()
    };
    for flags in [0u32, 0x10, 0x20, 0x30, 0xFF] {
        mark();
        let got = unsafe { SFileVerifyArchive(h(a), flags) };
        c.evals += 1;
        let mut want = Some(true);
        if flags & 0x20 != 0 {
            for n in &listed {
                if n.starts_with('(') && n.ends_with(')') || n.ends_with('/') || n.ends_with('\\') || n.contains('\0') {
                    continue;
                }
                if lib_missing(&path, n) {
                    continue;
                }
                match expected(n, 7) {
                    Some(false) => want = Some(false),
                    None if want == Some(true) => want = None,
                    _ => {}
                }
            }
        }
        if let Some(want) = want {
            c.class(if want { "archive accepted" } else { "archive rejected" });
            if got != want {
                return Err(format!("verifying the archive with flags {flags:#x}: {got}, expected {want}"));
            }
        }
    }
    // the handle is still good
    for n in &names {
        let want = mopaq::Archive::open(&path).ok().and_then(|mut x| x.read_file(n).ok());
        match (open_file(a, n), want) {
            (Ok(f), Some(d)) => {
                let mut b = vec![0u8; d.len() + 1];
                let mut got = 0;
                unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, b.len() as u32, &mut got, null_mut()) };
                if b[..got as usize] != d[..] {
                    return Err(format!("{n:?} reads differently after verification"));
                }
            }
            (Err(_), None) => {}
            (x, w) => return Err(format!("{n:?} after verification: open {:?}, library {}", x.err(), w.is_some())),
        }
    }
    if !SFileCloseArchive(h(a)) {
        return Err("closing failed".into());
    }
    Ok(())
}

/// Damage of any kind: what the library says about a file's content and recorded values decides
fn m22_damaged(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt { max_files: 5, max_size: 3_000, external: false, listable: true, ..Default::default() };
    let path = c.path("a.mpq");
    let (mut files, mut l) = foreign_spec(c, &o, false);
    let mut w = RefAttrs::random(&mut c.t, l.block_count + 1);
    w.patch.fill(false);
    for (i, f) in files.iter().enumerate() {
        w.crc[l.block_of[i]] = crc32fast::hash(&f.data);
        w.md5[l.block_of[i]] = md5(&f.data);
    }
    if c.t.bool() {
        l.block_of.push(l.block_count);
        l.block_count += 1;
        l.insert.push(files.len());
        files.push(WFile::plain("(attributes)", w.bytes()));
        while (l.hash_size as usize) < files.len() + l.occupied.len() {
            l.hash_size *= 2;
        }
    }
    write_archive(&files, &l).save(&path, 0).map_err(|e| e.to_string())?;
    damage_archive(c, &path)?;
    c.class("arbitrary damage");
    let Ok(mut lib) = mopaq::Archive::open(&path) else { return Ok(()) };
    let a = open_archive(&path)?;
    c.nontrivial();
    for n in files.iter().map(|f| f.name.clone()).filter(|n| !n.contains('\0')) {
        let flags = *c.t.pick(&[0u32, 1, 2, 4, 7]);
        let want = match lib.find_file(&n) {
            Ok(Some(i)) => {
                let f = if flags == 0 { 7 } else { flags };
                let _ = lib.load_attributes();
                let at = lib.get_file_attributes(i.block_index).map(|a| (a.crc32, a.md5));
                let (crc, md) = at.unwrap_or((None, None));
                let (crc, md) = (crc.filter(|_| f & 2 != 0), md.filter(|_| f & 4 != 0));
                match lib.read_file(&n) {
                    Ok(d) => Some(crc.is_none_or(|x| x == crc32fast::hash(&d)) && md.is_none_or(|x| x == md5(&d))),
                    Err(_) if crc.is_some() || md.is_some() || f & 1 != 0 && i.has_sector_crc() => Some(false),
                    Err(_) => None,
                }
            }
            _ => Some(false),
        };
        mark();
        let cn = CString::new(n.as_str()).unwrap();
        let got = unsafe { SFileVerifyFile(h(a), cn.as_ptr(), flags) };
        c.evals += 1;
        if want.is_some_and(|w| w != got) {
            return Err(format!("verifying {n:?} with flags {flags:#x}: {got}, expected {want:?}"));
        }
        if got != (err() == 0) || err() == 0x5A5A {
            return Err(format!("verifying {n:?}: result {got} with error {}", err()));
        }
    }
    mark();
    let got = unsafe { SFileVerifyArchive(h(a), 0x20) };
    if got != (err() == 0) || err() == 0x5A5A {
        return Err(format!("verifying the archive: result {got} with error {}", err()));
    }
    if !SFileCloseArchive(h(a)) {
        return Err("closing failed".into());
    }
    Ok(())
}

fn lib_missing(p: &Path, n: &str) -> bool {
    mopaq::Archive::open(p).map_or(true, |a| !matches!(a.find_file(n), Ok(Some(_))))
}

fn gfile(name: &str, data: Vec<u8>) -> GFile {
    GFile {
        name: name.into(),
        data,
        method: 0,
        default_method: false,
        mode: Mode::Plain,
        locale: 0,
        from_disk: false,
    }
}

/// Some of the recorded values are made wrong
fn spoil_attrs(c: &mut Ctx, mut w: RefAttrs, files: usize) -> RefAttrs {
    if files > 0 && c.t.bool() {
        for _ in 0..c.t.urange(1, 2) {
            let i = c.t.u(w.crc.len());
            if c.t.bool() {
                w.crc[i] ^= 1 << c.t.u(32);
            } else {
                let k = c.t.u(16);
                w.md5[i][k] ^= 1 << c.t.u(8);
            }
        }
        c.class("wrong attributes");
    }
    w
}

fn m22_signed(c: &mut Ctx) -> Result<(), String> {
    let path = c.path("s.mpq");
    let n = c.t.u(3000);
    let data = content(&mut c.t, n);
    let mut g = GArchive {
        version: c.t.u(4),
        shift: 3,
        crcs: false,
        listfile: LF::Generate,
        compress_tables: None,
        table_method: None,
        default_method: None,
        files: vec![gfile("data.bin", data)],
    };
    g.files.push(gfile("(signature)", vec![0; 72]));
    g.build(&c.dir, &path).map_err(|e| e.to_string())?;
    let mut b = std::fs::read(&path).map_err(|e| e.to_string())?;
    let plain = b.clone();
    let r = Ref::parse(&plain)?;
    let pos = r.find("(signature)").first().map(|(_, e)| r.blocks[e.block as usize].pos as usize).ok_or("no signature")?;
    let s = sign::weak_of(&b, pos, 72, |_| {});
    b[pos + 8..pos + 72].copy_from_slice(&s);
    let damage = c.t.bool();
    if damage {
        // the data of the first file or the signature
        let blk = r.blocks[r.find("data.bin")[0].1.block as usize];
        let p = if blk.csize > 0 && c.t.bool() {
            blk.pos as usize + c.t.u(blk.csize as usize)
        } else {
            pos + 8 + c.t.u(64)
        };
        b[p] ^= 1 << c.t.u(8);
    }
    std::fs::write(&path, &b).map_err(|e| e.to_string())?;
    c.nontrivial();
    c.class("signed");
    c.describe(format!("signed archive, damaged {damage}"));
    let a = open_archive(&path)?;
    // (the file is stored without checksum, so that its content is beyond doubt where only files are asked for)
    for flags in [0u32, 0x10, 0x20, 0x30, 0xFF] {
        mark();
        let got = unsafe { SFileVerifyArchive(h(a), flags) };
        c.evals += 1;
        if got == (damage && flags != 0x20) {
            return Err(format!("signature of an archive (damaged {damage}), flags {flags:#x}: {got}"));
        }
        if got != (err() == 0) || err() == 0x5A5A {
            return Err(format!("result {got} with error {}", err()));
        }
    }
    SFileCloseArchive(h(a));
    Ok(())
}

// ------------------------------------------------------------------ M23

struct EnumState {
    names: Vec<String>,
    stop_after: usize,
    archive: H,
    bad: Option<String>,
}

extern "C" fn enum_cb(n: *const c_char, u: *mut c_void) -> bool {
    let s = unsafe { &mut *(u as *mut EnumState) };
    let name = unsafe { CStr::from_ptr(n) };
    // the callback may use the archive
    if !unsafe { SFileHasFile(h(s.archive), n) } {
        s.bad = Some(format!("{name:?} is enumerated but SFileHasFile denies it"));
    }
    if s.names.len() % 3 == 1 {
        let mut x: HANDLE = null_mut();
        unsafe {
            if SFileOpenFileEx(h(s.archive), n, 0, &mut x) {
                SFileCloseFile(x);
            }
        }
    }
    s.names.push(name.to_string_lossy().into_owned());
    s.names.len() < s.stop_after
}

/// One to three pieces of damage to the archive on disk
fn damage_archive(c: &mut Ctx, p: &Path) -> Result<(), String> {
    let mut d = std::fs::read(p).map_err(|e| e.to_string())?;
    let h = parse_header(&d)?;
    let blocks = Ref::parse(&d)?.blocks.clone();
    for _ in 0..c.t.urange(1, 3) {
        let what = super::damage::corrupt(&mut c.t, &mut d, &h, &blocks);
        c.describe(what);
    }
    std::fs::write(p, &d).map_err(|e| e.to_string())
}

fn m23(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt { max_files: 6, max_size: 5_000, ..Default::default() };
    let mut s = source_many(c, &o, "a.mpq", 1499)?;
    if c.t.chance(1, 4) {
        // embedded
        let mut v = super::damage::filler(&mut c.t, 1024);
        v.extend(&s.bytes);
        std::fs::write(&s.path, &v).map_err(|e| e.to_string())?;
    } else if c.t.chance(1, 4) {
        // damaged in any way
        damage_archive(c, &s.path)?;
        c.class("damaged");
    }
    s.files.retain(|f| !f.name.contains('\0'));
    if !s.files.is_empty() {
        c.nontrivial();
    }
    let Ok(mut lib) = mopaq::Archive::open(&s.path) else {
        mark();
        return match open_archive(&s.path) {
            Ok(_) => Err("the C API opens an archive which the library refuses".into()),
            Err(_) if err() == 0 || err() == 0x5A5A => Err(format!("refused archive leaves error code {:#x}", err())),
            Err(_) => Ok(()),
        };
    };
    let a = open_archive(&s.path)?;
    let hd = lib.header().clone();
    // archive information
    let shift = c.t.u(8);
    for (class, size, want) in [
        (1u32, 8usize, hd.get_archive_size()),
        (2, 4, hd.hash_table_size as u64),
        (3, 4, hd.block_table_size as u64),
        (4, 4, hd.sector_size() as u64),
    ] {
        if want >> (8 * size - 1) > 1 {
            // sector size of a damaged header
            continue;
        }
        for n in [0, size - 1, size, size + 5] {
            let mut b = Guarded::new(n, shift);
            let mut need = 0u32;
            let ok = unsafe { SFileGetFileInfo(h(a), class, b.ptr(), n as u32, &mut need) };
            c.evals += 1;
            if ok != (n >= size) || need as usize != size || !b.intact() {
                return Err(format!("archive information {class} with a buffer of {n}: {ok}, needs {need}, guards intact {}", b.intact()));
            }
            if ok {
                let mut v = [0u8; 8];
                v[..size].copy_from_slice(&b.data()[..size]);
                if u64::from_le_bytes(v) != want {
                    return Err(format!("archive information {class}: {}, library {want}", u64::from_le_bytes(v)));
                }
            } else if !b.untouched() || err() != 122 {
                return Err(format!("archive information {class}: small buffer written to or error {}", err()));
            }
        }
    }
    // names: stored, respelled, absent
    let mut probes: Vec<String> = vec![];
    for f in &s.files {
        probes.push(f.name.clone());
        probes.push(respell(&mut c.t, &f.name));
        if c.t.bool() {
            probes.push(format!("{}x", f.name));
        }
    }
    probes.extend(["(listfile)", "(attributes)", "absent", ""].map(String::from));
    probes.extend(s.gone.iter().filter(|n| !n.contains('\0')).cloned());
    for n in &probes {
        c.evals += 1;
        let cn = CString::new(n.as_str()).unwrap();
        let info = lib.find_file(n).ok().flatten();
        let has = unsafe { SFileHasFile(h(a), cn.as_ptr()) };
        if has != info.is_some() {
            return Err(format!("SFileHasFile({n:?}): {has}, library {}", info.is_some()));
        }
        let data = lib.read_file(n).ok();
        let f = open_file(a, n);
        if f.is_ok() != data.is_some() {
            return Err(format!("opening {n:?}: {:?}, library read {}", f.err(), data.is_some()));
        }
        let out = c.path("out").join(*c.t.pick(&["f", "d/f", "d/e/f"]));
        if c.t.bool() {
            let _ = std::fs::create_dir_all(out.parent().unwrap());
            let _ = std::fs::write(&out, vec![7u8; 9000]);
        }
        let before = std::fs::read(&out).ok();
        let ok = unsafe { SFileExtractFile(h(a), cn.as_ptr(), cstr(&out).as_ptr(), 0) };
        if ok != data.is_some() {
            return Err(format!("extracting {n:?}: {ok} (error {}), library read {}", err(), data.is_some()));
        }
        let after = std::fs::read(&out).ok();
        if after != if ok { data.clone() } else { before } {
            return Err(format!("extracting {n:?} ({ok}): the file on disk is wrong"));
        }
        let _ = std::fs::remove_dir_all(c.path("out"));
        if c.t.chance(1, 4) {
            // a target that cannot be written
            let dir = c.path("out").join("d");
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            std::fs::write(dir.join("f"), b"file").map_err(|e| e.to_string())?;
            let out = match c.t.u(4) {
                0 => dir.clone(),
                1 => dir.join("f").join("g"),
                2 => dir.join("f").join("g/h/i"),
                _ => std::path::PathBuf::from("/dev/full"),
            };
            if out.starts_with(&dir) || data.as_ref().is_some_and(|d| !d.is_empty()) {
                mark();
                let ok = unsafe { SFileExtractFile(h(a), cn.as_ptr(), cstr(&out).as_ptr(), 0) };
                if ok || err() == 0 || err() == 0x5A5A {
                    return Err(format!("extracting {n:?} to {out:?}, which cannot be written: {ok}, error {}", err()));
                }
            }
            if std::fs::read(dir.join("f")).ok().as_deref() != Some(b"file") {
                return Err(format!("extracting {n:?} to {out:?} changed another file"));
            }
            let _ = std::fs::remove_dir_all(c.path("out"));
        }
        let (Ok(f), Some(data), Some(info)) = (f, data, info) else { continue };
        let mut high = 1;
        let size = unsafe { SFileGetFileSize(h(f), &mut high) };
        if size as u64 | (high as u64) << 32 != info.file_size {
            return Err(format!("{n:?}: size {size}/{high}, library {}", info.file_size));
        }
        for n2 in [7, 8, 12] {
            let mut b = Guarded::new(n2, shift);
            let mut need = 0;
            let ok = unsafe { SFileGetFileInfo(h(f), 7, b.ptr(), n2 as u32, &mut need) };
            if ok != (n2 >= 8) || need != 8 || !b.intact() {
                return Err(format!("size information of {n:?} with a buffer of {n2}: {ok}, needs {need}"));
            }
            if ok && u64::from_le_bytes(b.data()[..8].try_into().unwrap()) != info.file_size {
                return Err(format!("size information of {n:?} is wrong"));
            }
        }
        let mut b = Guarded::new(data.len() + 8, 0);
        let mut got = 0;
        unsafe { SFileReadFile(h(f), b.ptr(), b.len as u32, &mut got, null_mut()) };
        if b.data()[..(got as usize).min(b.len)] != data[..] || !b.intact() {
            return Err(format!("{n:?}: {}", diff(&b.data()[..got as usize], &data)));
        }
        let mut b = Guarded::new(n.len() + 1, 0);
        let ok = unsafe { SFileGetFileName(h(f), b.ptr() as *mut c_char) };
        let name = CStr::from_bytes_until_nul(b.data()).map(|x| x.to_bytes().to_vec()).unwrap_or_default();
        if !ok || !b.intact() || fold(&String::from_utf8_lossy(&name)) != fold(n) {
            return Err(format!("file name of {n:?}: {ok} {:?}", String::from_utf8_lossy(&name)));
        }
        SFileCloseFile(h(f));
    }
    // enumeration
    if lib.list().is_err() {
        mark();
        let mut st = EnumState { names: vec![], stop_after: usize::MAX, archive: a, bad: None };
        let ok = unsafe { SFileEnumFiles(h(a), null(), null(), Some(enum_cb), &mut st as *mut _ as *mut c_void) };
        if ok || err() == 0 || err() == 0x5A5A {
            return Err(format!("the library cannot list the archive, enumerating it: {ok}, error {}", err()));
        }
    }
    let want: Option<Vec<String>> = lib
        .list()
        .ok()
        .map(|l| l.into_iter().map(|e| e.name).filter(|n| !n.contains('\0')).collect());
    if let Some(want) = want {
        // an enumeration without listfile yields made-up names which cannot be looked up
        let real = lib.find_file("(listfile)").ok().flatten().is_some();
        let stop = if c.t.bool() { usize::MAX } else { c.t.urange(1, want.len() + 1) };
        let mut st = EnumState { names: vec![], stop_after: stop, archive: a, bad: None };
        let star = CString::new("*").unwrap();
        let mask = if c.t.bool() { null() } else { star.as_ptr() };
        mark();
        let ok = unsafe { SFileEnumFiles(h(a), mask, null(), Some(enum_cb), &mut st as *mut _ as *mut c_void) };
        c.evals += 1;
        accepted("enumeration", ok)?;
        let want = &want[..want.len().min(stop)];
        let (mut x, mut y) = (st.names.clone(), want.to_vec());
        if stop == usize::MAX {
            x.sort();
            y.sort();
        }
        if x != y {
            return Err(format!("enumeration yields {:?}, the library {:?}", st.names, want));
        }
        if let (true, Some(b)) = (real, st.bad) {
            return Err(b);
        }
        // names containing a text
        let full = lib.list().map_err(|e| e.to_string())?;
        let full: Vec<String> = full.into_iter().map(|e| e.name).filter(|n| !n.contains('\0')).collect();
        let part: Vec<char> = full.get(c.t.u(full.len().max(1))).map(|n| n.chars().collect()).unwrap_or_default();
        if !part.is_empty() {
            let i = c.t.u(part.len());
            let k = c.t.urange(1, (part.len() - i).min(5));
            let x: String = part[i..i + k].iter().collect();
            if !x.contains(['*', '?']) {
                let mut st = EnumState { names: vec![], stop_after: usize::MAX, archive: a, bad: None };
                let mask = CString::new(format!("*{x}*")).unwrap();
                let ok = unsafe { SFileEnumFiles(h(a), mask.as_ptr(), null(), Some(enum_cb), &mut st as *mut _ as *mut c_void) };
                accepted("enumeration", ok)?;
                c.evals += 1;
                let low = x.to_lowercase();
                if let Some(n) = full.iter().find(|n| n.contains(&x) && !st.names.contains(n)) {
                    return Err(format!("enumeration of *{x}* leaves out {n:?}"));
                }
                if let Some(n) = st.names.iter().find(|n| !full.contains(n) || !n.to_lowercase().contains(&low)) {
                    return Err(format!("enumeration of *{x}* yields {n:?}"));
                }
            }
        }
    }
    // name of the archive
    let full = s.path.to_str().unwrap();
    for n in [1, full.len(), full.len() + 1, full.len() + 9] {
        let mut b = Guarded::new(n, 0);
        let ok = unsafe { SFileGetArchiveName(h(a), b.ptr() as *mut c_char, n as u32) };
        if ok != (n > full.len()) || !b.intact() || (!ok && err() != 122) {
            return Err(format!("archive name with a buffer of {n} (needs {}): {ok}, error {}", full.len() + 1, err()));
        }
        if ok && CStr::from_bytes_until_nul(b.data()).ok().and_then(|x| x.to_str().ok()) != Some(full) {
            return Err("archive name is wrong".into());
        }
    }
    // locale setting
    let l = c.t.any32();
    let old = SFileGetLocale();
    if SFileSetLocale(l) != old || SFileGetLocale() != l || SFileSetLocale(old) != l || SFileGetLocale() != old {
        return Err("locale setting is not kept".into());
    }
    if !SFileCloseArchive(h(a)) {
        return Err("closing failed".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ M28

fn pause(r: &mut crate::tape::Rng) {
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

fn cpu_ticks() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

type Job = Box<dyn FnOnce() -> Result<(), String> + Send>;

/// Runs the jobs at once; a deadlock (nobody finishes, no CPU used) is an error
fn together(jobs: Vec<Job>) -> Result<(), String> {
    let n = jobs.len();
    let (tx, rx) = std::sync::mpsc::channel();
    let gate = std::sync::Arc::new(std::sync::Barrier::new(n));
    let mut hs = vec![];
    for j in jobs {
        let (tx, gate) = (tx.clone(), gate.clone());
        hs.push(std::thread::spawn(move || {
            gate.wait();
            let r = j();
            let _ = tx.send(r);
        }));
    }
    drop(tx);
    let mut first = Ok(());
    let mut done = 0;
    let mut idle = 0;
    let mut cpu = cpu_ticks();
    while done < n {
        match rx.recv_timeout(std::time::Duration::from_secs(1)) {
            Ok(r) => {
                done += 1;
                if first.is_ok() {
                    first = r;
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return Err("a thread panicked".into()),
            Err(_) => {
                let now = cpu_ticks();
                idle = if now > cpu + 20 { 0 } else { idle + 1 };
                cpu = now;
                if idle > 25 {
                    return Err(format!("deadlock: {} of {n} threads never return", n - done));
                }
            }
        }
    }
    for x in hs {
        let _ = x.join();
    }
    first
}

/// n words, word i encodes file and index
fn words(id: u32, n: usize) -> Vec<u8> {
    (0..n as u32).flat_map(|i| (id << 24 | i).to_le_bytes()).collect()
}

fn m28(c: &mut Ctx) -> Result<(), String> {
    let mut paths = vec![];
    let mut model: Vec<BTreeMap<String, Vec<u8>>> = vec![];
    for i in 0..2usize {
        let path = c.path(&format!("a{i}.mpq"));
        let mut b = mopaq::ArchiveBuilder::new()
            .version(VERSIONS[c.t.u(4)])
            .default_compression(*c.t.pick(&[0u8, 2]));
        let mut m = BTreeMap::new();
        for j in 0..3usize {
            let n = if c.t.chance(1, 60) { 40_000 } else { c.t.urange(20, 1500) };
            let d = words((i * 3 + j) as u32 + 1, n);
            b = b.add_file_data(d.clone(), &format!("f{j}"));
            m.insert(format!("f{j}"), d);
        }
        b.build(&path).map_err(|e| e.to_string())?;
        paths.push(path);
        model.push(m);
    }
    let threads = c.t.urange(2, 6);
    let scenario = c.t.u(7);
    c.class(
        ["shared reading", "open and close", "closing under use", "mixed calls", "separate work", "shared moving", "closing at once"]
            [scenario],
    );
    c.describe(format!("scenario {scenario}, {threads} threads"));
    c.nontrivial();
    let rounds = 6;
    for _ in 0..rounds {
        c.evals += threads as u64;
        let seeds: Vec<u64> = (0..threads).map(|_| c.t.any64()).collect();
        match scenario {
            0 => shared_reading(&paths[0], &model[0], &seeds)?,
            1 => open_close(&paths, &model, &seeds)?,
            2 => closing_under_use(&paths[0], &model[0], &seeds)?,
            3 => mixed(&paths, &model, &seeds, &c.dir)?,
            5 => shared_moving(&paths[0], &model[0], &seeds)?,
            6 => closing_at_once(&paths[0], &seeds)?,
            _ => separate(&paths, &model, &seeds)?,
        }
    }
    Ok(())
}

fn shared_reading(path: &Path, m: &BTreeMap<String, Vec<u8>>, seeds: &[u64]) -> Result<(), String> {
    let a = open_archive(path)?;
    let f = open_file(a, "f0").map_err(|e| format!("open failed ({e})"))?;
    let data = m["f0"].clone();
    let got = std::sync::Arc::new(std::sync::Mutex::new(Vec::<u32>::new()));
    let mut jobs: Vec<Job> = vec![];
    for &s in seeds {
        let (got, data) = (got.clone(), data.clone());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            let mut mine = vec![];
            let base = u32::from_le_bytes(data[..4].try_into().unwrap());
            let step = [12, 12, 90, 700][r.below(4) as usize];
            loop {
                let n = 4 * (1 + r.below(step) as usize);
                let mut b = vec![0u8; n];
                let mut k = 0u32;
                if !unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, n as u32, &mut k, null_mut()) } {
                    return Err(format!("read failed ({})", err()));
                }
                if err() != 0 {
                    return Err(format!("error {} after a successful read", err()));
                }
                if k == 0 {
                    break;
                }
                let w: Vec<u32> = b[..k as usize]
                    .chunks(4)
                    .map(|x| u32::from_le_bytes(x.try_into().unwrap()).wrapping_sub(base))
                    .collect();
                if w.windows(2).any(|p| p[1] != p[0] + 1) || w[0] as usize * 4 >= data.len() {
                    return Err(format!("one read delivered words {w:?}, not consecutive ones"));
                }
                if mine.last().is_some_and(|l| w[0] <= *l) {
                    return Err("a thread was delivered an earlier position after a later one".into());
                }
                mine.extend(w);
                pause(&mut r);
            }
            got.lock().unwrap().extend(mine);
            Ok(())
        }));
    }
    together(jobs)?;
    let mut g = got.lock().unwrap().clone();
    g.sort();
    if g.iter().enumerate().any(|(i, &x)| x as usize != i) || g.len() * 4 != data.len() {
        return Err(format!(
            "of {} words {} were delivered, {} different ones",
            data.len() / 4,
            g.len(),
            g.iter().collect::<HashSet<_>>().len()
        ));
    }
    if position(f)? != data.len() as u64 {
        return Err("the final position is not the end".into());
    }
    accepted("close", SFileCloseArchive(h(a)))
}

/// Reads and relative moves by one word each: every word is read or passed over exactly once
fn shared_moving(path: &Path, m: &BTreeMap<String, Vec<u8>>, seeds: &[u64]) -> Result<(), String> {
    let a = open_archive(path)?;
    let f = open_file(a, "f0").map_err(|e| format!("open failed ({e})"))?;
    let data = m["f0"].clone();
    let share = (data.len() / 4 / seeds.len()).min(300);
    let got = std::sync::Arc::new(std::sync::Mutex::new(Vec::<u32>::new()));
    let mut jobs: Vec<Job> = vec![];
    for &s in seeds {
        let (got, data) = (got.clone(), data.clone());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            let base = u32::from_le_bytes(data[..4].try_into().unwrap());
            let mut mine: Vec<u32> = vec![];
            for _ in 0..share {
                let w = if r.below(2) == 0 {
                    let (mut b, mut k) = ([0u8; 4], 0u32);
                    let ok = unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, 4, &mut k, null_mut()) };
                    accepted("read", ok)?;
                    if k != 4 {
                        return Err(format!("{k} of 4 bytes read before the end"));
                    }
                    u32::from_le_bytes(b).wrapping_sub(base)
                } else {
                    let p = unsafe { SFileSetFilePointer(h(f), 4, null_mut(), 1) };
                    if p == FAILED || err() != 0 || p % 4 != 0 {
                        return Err(format!("moving on by 4 gave {p:#x}, error {}", err()));
                    }
                    (p / 4).wrapping_sub(1)
                };
                if mine.last().is_some_and(|l| w <= *l) {
                    return Err("a thread saw an earlier position after a later one".into());
                }
                mine.push(w);
                pause(&mut r);
            }
            got.lock().unwrap().extend(mine);
            Ok(())
        }));
    }
    together(jobs)?;
    let mut g = got.lock().unwrap().clone();
    g.sort();
    if g.iter().enumerate().any(|(i, &x)| x as usize != i) {
        return Err(format!("{} steps of one word reached {} different words", g.len(), g.iter().collect::<HashSet<_>>().len()));
    }
    if position(f)? != g.len() as u64 * 4 {
        return Err(format!("position {} after {} steps of 4", position(f)?, g.len()));
    }
    accepted("close", SFileCloseArchive(h(a)))
}

/// Of several threads closing one handle exactly one succeeds
fn closing_at_once(path: &Path, seeds: &[u64]) -> Result<(), String> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let a = open_archive(path)?;
    let mut files = vec![];
    for i in 0..6 {
        files.push(open_file(a, &format!("f{}", i % 3)).map_err(|e| format!("open failed ({e})"))?);
    }
    let done = std::sync::Arc::new([0; 7].map(AtomicUsize::new));
    let mut jobs: Vec<Job> = vec![];
    for &s in seeds {
        let (files, done) = (files.clone(), done.clone());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            for (i, &f) in files.iter().enumerate() {
                SFileSetLastError(0x5A5A);
                if SFileCloseFile(h(f)) {
                    done[i].fetch_add(1, SeqCst);
                } else if err() != BAD_HANDLE {
                    return Err(format!("closing a file that is closed: error {}", err()));
                }
                if r.below(3) == 0 {
                    pause(&mut r);
                }
            }
            SFileSetLastError(0x5A5A);
            if SFileCloseArchive(h(a)) {
                done[6].fetch_add(1, SeqCst);
            } else if err() != BAD_HANDLE {
                return Err(format!("closing an archive that is closed: error {}", err()));
            }
            Ok(())
        }));
    }
    together(jobs)?;
    // (a file may have died with its archive instead)
    for (i, d) in done.iter().enumerate() {
        let n = d.load(SeqCst);
        if n > 1 || i == 6 && n != 1 {
            return Err(format!("{n} threads closed one {}", if i == 6 { "archive" } else { "file" }));
        }
    }
    Ok(())
}

fn read_all(f: H, chunk: usize, len: usize) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    loop {
        let mut b = vec![0u8; chunk];
        let mut k = 0u32;
        if !unsafe { SFileReadFile(h(f), b.as_mut_ptr() as *mut c_void, chunk as u32, &mut k, null_mut()) } {
            return Err(format!("read failed ({})", err()));
        }
        if k == 0 || v.len() > len {
            return Ok(v);
        }
        v.extend(&b[..k as usize]);
    }
}

fn open_close(paths: &[PathBuf], model: &[BTreeMap<String, Vec<u8>>], seeds: &[u64]) -> Result<(), String> {
    // all threads open and close files of two shared archives; no two live handles are equal
    let shared: Vec<H> = paths.iter().map(|p| open_archive(p)).collect::<Result<_, _>>()?;
    let live = std::sync::Arc::new(std::sync::Mutex::new(HashSet::<H>::from_iter(shared.iter().copied())));
    let mut jobs: Vec<Job> = vec![];
    for &s in seeds {
        let (paths, model, shared, live) = (paths.to_vec(), model.to_vec(), shared.clone(), live.clone());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            for _ in 0..12 {
                let i = r.below(2) as usize;
                let own = r.below(3) == 0;
                let a = if own { open_archive(&paths[i])? } else { shared[i] };
                if own && !live.lock().unwrap().insert(a) {
                    return Err(format!("archive handle {a:#x} was given out twice"));
                }
                let n = format!("f{}", r.below(3));
                let f = open_file(a, &n).map_err(|e| format!("opening {n} failed ({e})"))?;
                if !live.lock().unwrap().insert(f) {
                    return Err(format!("file handle {f:#x} was given out twice"));
                }
                pause(&mut r);
                let d = read_all(f, 900, model[i][&n].len())?;
                if d != model[i][&n] {
                    return Err(format!("{n} of archive {i}: {}", diff(&d, &model[i][&n])));
                }
                // (removed first: once closed, the value may be given out again)
                live.lock().unwrap().remove(&f);
                if !own || r.below(2) == 0 {
                    accepted("close file", SFileCloseFile(h(f)))?;
                }
                if own {
                    live.lock().unwrap().remove(&a);
                    accepted("close archive", SFileCloseArchive(h(a)))?;
                }
                pause(&mut r);
            }
            Ok(())
        }));
    }
    together(jobs)?;
    for a in shared {
        accepted("close", SFileCloseArchive(h(a)))?;
    }
    Ok(())
}

fn closing_under_use(path: &Path, m: &BTreeMap<String, Vec<u8>>, seeds: &[u64]) -> Result<(), String> {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    let a = open_archive(path)?;
    let closed = std::sync::Arc::new(AtomicBool::new(false));
    let opened = std::sync::Arc::new(std::sync::Mutex::new(Vec::<H>::new()));
    let mut jobs: Vec<Job> = vec![];
    for (k, &s) in seeds.iter().enumerate() {
        let (m, closed, opened) = (m.clone(), closed.clone(), opened.clone());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            if k == 0 {
                for _ in 0..r.below(8) {
                    std::thread::yield_now();
                    pause(&mut r);
                }
                let ok = SFileCloseArchive(h(a));
                closed.store(true, SeqCst);
                return accepted("close", ok);
            }
            for _ in 0..40 {
                let was_closed = closed.load(SeqCst);
                let n = format!("f{}", r.below(3));
                match r.below(4) {
                    0 | 1 => match open_file(a, &n) {
                        Ok(f) => {
                            opened.lock().unwrap().push(f);
                            if was_closed {
                                return Err("a file was opened in a closed archive".into());
                            }
                            match read_all(f, 1 + r.below(3000) as usize, m[&n].len()) {
                                Ok(d) if d == m[&n] => {}
                                Ok(d) => return Err(format!("{n}: {}", diff(&d, &m[&n]))),
                                // the archive may have been closed meanwhile
                                Err(_) if err() != 0 => {}
                                Err(e) => return Err(e),
                            }
                        }
                        Err(0) => return Err("open failed without error".into()),
                        Err(_) => {}
                    },
                    2 => {
                        let cn = CString::new(n).unwrap();
                        if unsafe { SFileHasFile(h(a), cn.as_ptr()) } && was_closed {
                            return Err("a closed archive answers".into());
                        }
                    }
                    _ => {
                        let x = opened.lock().unwrap().last().copied();
                        if let Some(f) = x {
                            let s = unsafe { SFileGetFileSize(h(f), null_mut()) };
                            if s != FAILED && was_closed {
                                return Err("a file of a closed archive answers".into());
                            }
                            if s != FAILED && !m.values().any(|d| d.len() == s as usize) {
                                return Err(format!("size {s} belongs to no file"));
                            }
                        }
                    }
                }
                pause(&mut r);
            }
            Ok(())
        }));
    }
    together(jobs)?;
    for f in opened.lock().unwrap().iter() {
        if unsafe { SFileGetFileSize(h(*f), null_mut()) } != FAILED {
            return Err(format!("file handle {f:#x} is usable after its archive was closed"));
        }
    }
    Ok(())
}

extern "C" fn mixed_cb(n: *const c_char, u: *mut c_void) -> bool {
    unsafe { SFileHasFile(u as HANDLE, n) };
    true
}

fn mixed(paths: &[PathBuf], model: &[BTreeMap<String, Vec<u8>>], seeds: &[u64], dir: &Path) -> Result<(), String> {
    let shared: Vec<H> = paths.iter().map(|p| open_archive(p)).collect::<Result<_, _>>()?;
    let mut jobs: Vec<Job> = vec![];
    for (k, &s) in seeds.iter().enumerate() {
        let (paths, model, shared, dir) = (paths.to_vec(), model.to_vec(), shared.clone(), dir.to_path_buf());
        jobs.push(Box::new(move || {
            let mut r = crate::tape::Rng::new(s);
            let locale = 0x400 + k as u32;
            SFileSetLocale(locale);
            for step in 0..25 {
                let i = r.below(2) as usize;
                let a = shared[i];
                let n = format!("f{}", r.below(3));
                let cn = CString::new(n.clone()).unwrap();
                let d = &model[i][&n];
                match r.below(9) {
                    0 => {
                        if !unsafe { SFileHasFile(h(a), cn.as_ptr()) } {
                            return Err(format!("{n} denied"));
                        }
                    }
                    1 => {
                        let no = CString::new("absent").unwrap();
                        let mut x: HANDLE = null_mut();
                        let ok = unsafe { SFileOpenFileEx(h(a), no.as_ptr(), 0, &mut x) };
                        pause(&mut r);
                        if ok || err() != 2 {
                            return Err(format!("opening an absent file: {ok}, error {}", err()));
                        }
                    }
                    2 => {
                        let v = 0x1000 * (k as u32 + 1) + step;
                        SFileSetLastError(v);
                        pause(&mut r);
                        if err() != v {
                            return Err(format!("error code {} instead of this thread's {v}", err()));
                        }
                    }
                    3 => accepted("enumeration", unsafe {
                        SFileEnumFiles(h(a), null(), null(), Some(mixed_cb), h(a))
                    })?,
                    4 => {
                        let out = dir.join(format!("out{k}"));
                        accepted("extraction", unsafe {
                            SFileExtractFile(h(a), cn.as_ptr(), cstr(&out).as_ptr(), 0)
                        })?;
                        if std::fs::read(&out).ok().as_ref() != Some(d) {
                            return Err("extracted content differs".into());
                        }
                    }
                    5 => accepted("verification", unsafe { SFileVerifyArchive(h(a), 0x30) })?,
                    6 => accepted("verification", unsafe { SFileVerifyFile(h(a), cn.as_ptr(), 0) })?,
                    7 => {
                        let mut b = vec![0u8; 4000];
                        accepted("archive name", unsafe {
                            SFileGetArchiveName(h(a), b.as_mut_ptr() as *mut c_char, 4000)
                        })?;
                        let got = CStr::from_bytes_until_nul(&b).map_err(|e| e.to_string())?;
                        if got.to_str().ok() != paths[i].to_str() {
                            return Err("name of another archive".into());
                        }
                        let mut v = [0u8; 4];
                        accepted("information", unsafe {
                            SFileGetFileInfo(h(a), 4, v.as_mut_ptr() as *mut c_void, 4, null_mut())
                        })?;
                    }
                    _ => {
                        let f = open_file(a, &n).map_err(|e| format!("opening failed ({e})"))?;
                        let p = r.below(d.len() as u64 + 1);
                        let q = unsafe { SFileSetFilePointer(h(f), p as i32, null_mut(), 0) };
                        pause(&mut r);
                        if q as u64 != p || position(f)? != p {
                            return Err(format!("seek to {p} gave {q}"));
                        }
                        let rest = read_all(f, 700, d.len())?;
                        if rest != d[p as usize..] {
                            return Err(format!("{n} from {p}: {}", diff(&rest, &d[p as usize..])));
                        }
                        accepted("close", SFileCloseFile(h(f)))?;
                    }
                }
                if SFileGetLocale() != locale {
                    return Err("this thread's locale was changed by another".into());
                }
                pause(&mut r);
            }
            Ok(())
        }));
    }
    together(jobs)?;
    for a in shared {
        accepted("close", SFileCloseArchive(h(a)))?;
    }
    Ok(())
}

fn separate(paths: &[PathBuf], model: &[BTreeMap<String, Vec<u8>>], seeds: &[u64]) -> Result<(), String> {
    // every thread has handles of its own: as if it were alone
    let mut jobs: Vec<Job> = vec![];
    for &s in seeds {
        let (paths, model) = (paths.to_vec(), model.to_vec());
        jobs.push(Box::new(move || {
            let mut t = Tape::random(s);
            let i = t.u(2);
            let a = open_archive(&paths[i])?;
            let mut v: Vec<Open> = vec![];
            for j in 0..2 {
                let n = format!("f{j}");
                let handle = open_file(a, &n).map_err(|e| format!("opening failed ({e})"))?;
                v.push(Open { handle, data: model[i][&n].clone(), pos: 0 });
            }
            for _ in 0..40 {
                let k = t.u(2);
                if t.bool() {
                    read_step(&mut t, &mut v[k])?;
                } else {
                    seek_step(&mut t, &mut v[k])?;
                }
                if position(v[k].handle)? != v[k].pos {
                    return Err("position differs".into());
                }
            }
            accepted("close", SFileCloseArchive(h(a)))
        }));
    }
    together(jobs)
}
