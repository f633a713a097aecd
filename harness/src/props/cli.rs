//! Properties of the command-line tool: M24, M25, M26, M30.
//!
//! The tool runs as a child process in the case's scratch directory; what it did is judged by its exit
//! status, its output and the files it leaves behind.
use super::damage::{filler, put32, signable};
use super::lookup::{source_many, Src};
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use crate::tape::Tape;
use mopaq::{Archive, FileEntry, SignatureStatus};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    let p = |id, rule, assumptions, run, quick, thorough, unprivileged| Prop {
        id,
        level: "exploration",
        rule,
        assumptions,
        run,
        quick,
        thorough,
        mem_mb: 0,
        unprivileged,
    };
    vec![
        p(
            "M24",
            "a case counts when the directory holds at least one non-empty file; distinct by choice tape",
            &["names of up to 60 characters per part, up to 5 levels and 12 files",
              "names that a listfile can hold (no ';', no leading '#', no surrounding white space, no line breaks, no backslash, UTF-8), distinct up to letter case",
              "lossy ADPCM compression is left to M06"] as &[_],
            m24 as fn(&mut Ctx) -> Result<(), String>,
            6_000,
            60_000,
            false,
        ),
        p(
            "M25",
            "a case counts when at least one name tries to leave the target; distinct by choice tape",
            &["the target directory holds no symbolic links beforehand",
              "runs as an unprivileged user in a scratch directory; escapes are looked for in the scratch tree around the target and under unique names in /tmp and /var/tmp"],
            m25,
            10_000,
            100_000,
            true,
        ),
        p(
            "M26",
            "a case counts when the archive is damaged, or intact with at least one file; distinct by choice tape",
            &["damage that the format can reveal is judged by construction, other damage by the library's answers about the same file"],
            m26,
            6_000,
            60_000,
            false,
        ),
        p(
            "M30",
            "a case counts when the archive lists at least one file or a name is hashed; distinct by choice tape",
            &["search patterns are literals, '*', '?' and classes (globs) or literals, '.', '.*' and anchors (regular expressions)",
              "CSV is compared for names without commas, quotes and line breaks"],
            m30,
            5_000,
            40_000,
            false,
        ),
    ]
}

struct Out {
    code: Option<i32>,
    out: String,
    err: String,
    line: String,
}

impl Out {
    fn expect(&self, ok: bool, why: &str) -> Result<(), String> {
        self.sane()?;
        if (self.code == Some(0)) != ok {
            return Err(format!(
                "{why}: `storm-cli {}` exits with {:?}; {} {}",
                self.line,
                self.code,
                cap(&self.out),
                cap(&self.err)
            ));
        }
        Ok(())
    }
    /// No crash, whatever the input
    fn sane(&self) -> Result<(), String> {
        match self.code {
            Some(101) | None => Err(format!(
                "`storm-cli {}` crashes ({:?}); {} {}",
                self.line,
                self.code,
                cap(&self.out),
                cap(&self.err)
            )),
            _ => Ok(()),
        }
    }
    fn json(&self) -> Result<Value, String> {
        serde_json::from_str(&self.out)
            .map_err(|e| format!("output of `storm-cli {}` is not JSON ({e}): {}", self.line, cap(&self.out)))
    }
    fn lines(&self) -> Vec<&str> {
        self.out.split('\n').collect()
    }
}

fn cap(s: &str) -> String {
    s.chars().take(600).collect()
}

fn cli<S: AsRef<std::ffi::OsStr>>(c: &mut Ctx, cwd: &Path, args: &[S]) -> Result<Out, String> {
    let exe = std::env::var("VP_CLI").map_err(|_| "VP_CLI not set")?;
    c.evals += 1;
    let mut cmd = Command::new(exe);
    cmd.args(args).current_dir(cwd).env_clear();
    if c.t.chance(1, 12) {
        // log messages go to the error output
        cmd.env("RUST_LOG", "trace");
    }
    let o = cmd
        .env("HOME", &c.dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run the tool: {e}"))?;
    let line: Vec<String> = args.iter().map(|a| a.as_ref().to_string_lossy().into_owned()).collect();
    Ok(Out {
        code: if o.status.signal().is_some() { None } else { o.status.code() },
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        line: line.join(" "),
    })
}

/// Relative path -> content of everything below a directory (directories end in '/'; links are not followed)
fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, d: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_symlink() {
                m.insert(rel, format!("-> {:?}", std::fs::read_link(&p)).into_bytes());
            } else if ft.is_dir() {
                m.insert(rel + "/", vec![]);
                walk(base, &p, m);
            } else {
                m.insert(rel, std::fs::read(&p).unwrap_or_else(|_| b"<unreadable>".to_vec()));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}

fn files_below(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    tree(dir).into_iter().filter(|(k, _)| !k.ends_with('/')).collect()
}

fn compare(what: &str, got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{what}: {k:?} is missing")),
            Some(g) if g != v => return Err(format!("{what}: content of {k:?} differs: {}", diff(g, v))),
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("{what}: {k:?} should not be there"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M24

fn part(t: &mut Tape) -> String {
    let fixed = [
        "a", "b", "Unit", "war3map.j", "DATA", "data", "readme", "é", "日本", "ß", "with space", "..x", "x..", "...",
        "-", "-q", "--help", "{0}", "_", "~", "'q'", "\"d\"", "100%", "$x", "*", "?", "[z]", "(file)", "a,b", "a:b", "C:",
        "\u{1F600}", "K", ".hidden", "x.", "tab\there", "new", "CON", "ı", "&amp", "`w`", "!", "@", "=", "a#b", "\u{7f}",
        "(signature).x", "listfile",
    ];
    match t.weighted(&[5, 3, 1]) {
        0 => fixed[t.u(fixed.len())].into(),
        1 => {
            let n = t.urange(1, 12);
            (0..n)
                .map(|_| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[t.u(64)] as char)
                .collect()
        }
        _ => {
            let n = t.urange(13, 60);
            (0..n).map(|_| (b'a' + t.u(26) as u8) as char).collect()
        }
    }
}

const METHODS: [(&str, u8); 6] = [
    ("none", 0),
    ("zlib", M_ZLIB),
    ("bzip2", M_BZIP2),
    ("lzma", M_LZMA),
    ("sparse", M_SPARSE),
    ("pkware", M_PKWARE),
];

struct Tree {
    /// relative name -> content, everything create should pack
    files: BTreeMap<String, Vec<u8>>,
    /// below the source directory but not to be packed
    other: usize,
}

/// Whether a file of the source is left out
fn ignored(patterns: &[String], rel: &str) -> bool {
    patterns.iter().any(|g| {
        let inner = g.trim_matches('*');
        match g.starts_with('*') && !g.ends_with('*') {
            true => rel.ends_with(inner),
            false => rel.contains(inner),
        }
    })
}

fn make_tree(c: &mut Ctx, src: &Path, recursive: bool, follow: bool, ignore: &[String]) -> Result<Tree, String> {
    let e = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(src).map_err(e)?;
    let n = match c.t.weighted(&[1, 6, 3]) {
        0 => 0,
        1 => c.t.urange(1, 4),
        _ => c.t.urange(3, 12),
    };
    let mut seen = HashSet::new();
    let mut dirs: Vec<String> = vec![String::new()];
    let mut files = BTreeMap::new();
    let mut other = 0;
    for i in 0..n {
        let t = &mut c.t;
        let mut d = dirs[t.u(dirs.len())].clone();
        if t.chance(1, 2) && d.matches('/').count() < 5 {
            let mut p = part(t);
            if t.chance(1, 16) {
                p += "IGN";
            }
            let q = format!("{d}{p}/");
            if std::fs::create_dir(src.join(&q)).is_ok() {
                dirs.push(q.clone());
                d = q;
            }
        }
        let mut nm = part(t);
        if t.chance(1, 8) {
            nm = format!("{nm}{}", t.pick(&["IGN", ".tmp", ".log", "IGN.txt", ".tmp.bak"]));
        }
        let mut rel = format!("{d}{nm}");
        if !seen.insert(fold(&rel)) || is_special(&rel) || src.join(&rel).exists() || rel.trim() != rel {
            rel = format!("{d}u{i}");
            if !seen.insert(fold(&rel)) {
                continue;
            }
        }
        if rel.starts_with('#') || rel.contains(';') {
            continue;
        }
        let max = if t.chance(1, 10) { 150_000 } else { 9_000 };
        let body = data(t, 4096, max);
        let p = src.join(&rel);
        let mut packed = recursive || !rel.contains('/');
        if t.chance(1, 12) {
            // a link to a file outside: packed as the file it stands for
            let real = c.path(&format!("real{i}"));
            std::fs::write(&real, &body).map_err(e)?;
            std::os::unix::fs::symlink(&real, &p).map_err(e)?;
        } else {
            std::fs::write(&p, &body).map_err(e)?;
        }
        if ignored(ignore, &rel) {
            packed = false;
        }
        if packed {
            files.insert(rel, body);
        } else {
            other += 1;
        }
    }
    let mut plus: Vec<(String, Vec<u8>)> = vec![];
    if let Some(k) = scale(c, 97) {
        for i in 0..[257, 70, 1030, 300][k as usize % 4] + c.t.u(5) {
            plus.push((format!("many{}/f{i}.txt", i % 3), format!("number {i}").into_bytes()));
        }
        c.class("many files");
    }
    if c.t.chance(1, 16) {
        let depth = c.t.urange(6, 40);
        plus.push((format!("{}deep.bin", "dd/".repeat(depth)), vec![9; depth]));
        c.class("deep directory");
    }
    for (rel, body) in plus {
        if !seen.insert(fold(&rel)) {
            continue;
        }
        let p = src.join(&rel);
        std::fs::create_dir_all(p.parent().unwrap()).map_err(e)?;
        std::fs::write(&p, &body).map_err(e)?;
        if recursive && !ignored(ignore, &rel) {
            files.insert(rel, body);
        } else {
            other += 1;
        }
    }
    if c.t.chance(1, 4) {
        std::fs::create_dir_all(src.join("empty dir/deeper")).map_err(e)?;
    }
    if c.t.chance(1, 8) {
        // a link to a directory: only followed on request
        let real = c.path("realdir");
        std::fs::create_dir_all(&real).map_err(e)?;
        std::fs::write(real.join("inside"), b"in the linked directory").map_err(e)?;
        if seen.insert(fold("zlink/inside")) && !src.join("zlink").exists() {
            std::os::unix::fs::symlink(&real, src.join("zlink")).map_err(e)?;
            c.class("linked directory");
            if follow && recursive {
                files.insert("zlink/inside".into(), b"in the linked directory".to_vec());
            } else {
                other += 1;
            }
        }
    }
    for (k, v) in files.iter().take(8) {
        c.describe(format!("{k:?} {} bytes", v.len()));
    }
    Ok(Tree { files, other })
}

fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(String::from)).collect()
}

fn m24(c: &mut Ctx) -> Result<(), String> {
    let e = |e: std::io::Error| e.to_string();
    let src = c.path("src");
    let recursive = !c.t.chance(1, 8);
    let follow = c.t.chance(1, 6);
    let mut ignore: Vec<String> = vec![];
    while c.t.chance(1, 4) {
        // part of a path inside the source, or a glob ("src" stands in the path of the source only)
        ignore.push(c.t.pick(&["IGN", "*.tmp", "*.log", "src", "*IGN*"]).to_string());
        c.class("ignored patterns");
    }
    let single = c.t.chance(1, 12);
    let mut tree = make_tree(c, &src, recursive, follow, &ignore)?;
    let mut source = "src".to_string();
    let mut packed_single = false;
    if single {
        let f = tree.files.iter().next().map(|(k, v)| (k.clone(), v.clone()));
        if let Some((k, v)) = f {
            // -s style names would be taken for options
            source = format!("./src/{k}");
            let base = k.rsplit('/').next().unwrap().to_string();
            packed_single = true;
            if base.trim() == base && !base.starts_with('#') && !is_special(&base) {
                tree.files = [(base, v)].into_iter().collect();
                tree.other = 0;
            } else {
                return Ok(());
            }
            c.class("single file");
        }
    }
    if tree.files.values().any(|d| !d.is_empty()) {
        c.nontrivial();
    }
    if tree.other > 0 {
        c.class("with files not to be packed");
    }
    // options, on the command line or in a configuration file
    let version = c.t.u(4) + 1;
    let (mname, method) = METHODS[c.t.u(METHODS.len())];
    let shift = [0u16, 0, 1, 2, 3, 4, 5, 8, 12, 16, 23][c.t.u(11)];
    let lf = c.t.weighted(&[6, 2, 2]);
    let by_config = c.t.chance(1, 4);
    let mut args: Vec<String> = vec!["archive".into(), "create".into(), "a.mpq".into(), source];
    let (mut ev, mut em, mut es) = (1usize, M_ZLIB, 3u16);
    let mut conf = String::new();
    if c.t.chance(5, 6) {
        ev = version;
        if by_config {
            conf += &format!("default_version = {version}\n");
        } else {
            args.extend(["-V".into(), version.to_string()]);
        }
    }
    if c.t.chance(5, 6) {
        em = method;
        if by_config {
            conf += &format!("default_compression = \"{mname}\"\n");
        } else {
            args.extend([["-c", "--compression"][c.t.u(2)].into(), mname.into()]);
        }
    }
    if c.t.chance(5, 6) {
        es = shift;
        if by_config {
            conf += &format!("default_block_size = {shift}\n");
        } else {
            args.extend([["-b", "--block-size"][c.t.u(2)].into(), shift.to_string()]);
        }
    }
    if by_config {
        c.class("configuration file");
        if c.t.bool() {
            std::fs::write(c.path("conf.toml"), &conf).map_err(e)?;
            args.extend(["-C".into(), "conf.toml".into()]);
        } else {
            let which = [".storm-cli", ".config/storm-cli"][c.t.u(2)];
            let d = c.path(which);
            std::fs::create_dir_all(&d).map_err(e)?;
            std::fs::write(d.join("config.toml"), &conf).map_err(e)?;
        }
    }
    match lf {
        0 => {}
        1 => {
            let mut text = vec![];
            let nl: &[u8] = if c.t.bool() { b"\r\n" } else { b"\n" };
            for k in tree.files.keys() {
                text.extend(k.as_bytes());
                text.extend(nl);
            }
            if c.t.bool() {
                text.extend(b"; a remark");
                text.extend(nl);
                text.extend(b"not\\there");
            }
            std::fs::write(c.path("ext.txt"), &text).map_err(e)?;
            args.extend(["--listfile".into(), "ext.txt".into()]);
        }
        _ => args.push("--no-listfile".into()),
    }
    if !recursive && !packed_single {
        args.push("--no-recursive".into());
    }
    if follow {
        args.push("--follow-symlinks".into());
    }
    for g in &ignore {
        args.extend(["-i".into(), g.clone()]);
    }
    match c.t.u(4) {
        0 => args.push("-q".into()),
        1 => args.push("-v".into()),
        _ => {}
    }
    c.class(format!("version {ev}"));
    c.class(["generated listfile", "external listfile", "no listfile"][lf]);
    c.describe(args.join(" "));
    if !packed_single && c.t.chance(1, 24) {
        // a name that is no text: packed or refused, but in an orderly way
        use std::os::unix::ffi::OsStrExt;
        let odd = src.join(std::ffi::OsStr::from_bytes([&b"\xFFx"[..], b"caf\xE9", b"\xC3"][c.t.u(3)]));
        std::fs::write(&odd, b"odd").map_err(e)?;
        let mut v = args.clone();
        v[2] = "odd.mpq".into();
        let dir = c.dir.clone();
        let o = cli(c, &dir, &v)?;
        o.sane()?;
        if (o.code == Some(0)) != c.path("odd.mpq").exists() {
            return Err(format!("source with a name that is no text: exit code {:?}, archive there: {}", o.code, c.path("odd.mpq").exists()));
        }
        std::fs::remove_file(&odd).map_err(e)?;
        c.class("name that is no text");
    }
    let dir = c.dir.clone();
    let o = cli(c, &dir, &args)?;
    o.expect(true, "creating an archive")?;

    // the archive is what was asked for
    let bytes = std::fs::read(c.path("a.mpq")).map_err(|e| format!("no archive: {e}"))?;
    let r = Ref::parse(&bytes).map_err(|e| format!("the archive does not parse: {e}"))?;
    if r.hdr.version as usize + 1 != ev || r.hdr.shift != es {
        return Err(format!(
            "asked for version {ev} and sector size setting {es}, got {} and {}",
            r.hdr.version + 1,
            r.hdr.shift
        ));
    }
    let mut want = tree.files.clone();
    for (k, v) in &tree.files {
        let Some((_, h)) = r.find(k).into_iter().next() else {
            return Err(format!("{k:?} is not in the archive"));
        };
        let got = r.read(h.block as usize, k).map_err(|e| format!("{k:?} in the archive: {e}"))?;
        if &got != v {
            return Err(format!("{k:?} in the archive differs: {}", diff(&got, v)));
        }
        if let Some(m) = stored_method(&bytes, &r, h.block as usize) {
            if m != em {
                return Err(format!("{k:?} is compressed by method {m:#x} where {em:#x} was asked for"));
            }
        }
    }
    // listing
    let flag = lf != 2;
    let o = cli(c, &dir, &["file", "list", "a.mpq", "-o", "json"])?;
    o.expect(true, "listing")?;
    let names = strings(&o.json()?).ok_or("list: not an array of names")?;
    if flag {
        let mut got: Vec<String> = names.iter().filter(|n| *n != "(listfile)").cloned().collect();
        got.sort();
        let exp: Vec<String> = tree.files.keys().cloned().collect();
        if got != exp {
            return Err(format!("listing gives {got:?} for {exp:?}"));
        }
        if lf == 0 && !names.iter().any(|n| n == "(listfile)") {
            return Err(format!("the listfile is not listed: {names:?}"));
        }
        // everything, with paths
        let target = if c.t.bool() { "out" } else { "some/deep/out" };
        let mut args = vec!["file", "extract", "a.mpq", "-p", "-t", target];
        if c.t.bool() {
            args.push("-q");
        }
        if c.t.chance(1, 3) {
            // over what an earlier extraction left there
            for (k, v) in &tree.files {
                if c.t.bool() {
                    let mut old = vec![b'?'; v.len()];
                    match c.t.u(4) {
                        0 => old.extend(b"and more"),
                        1 => old.truncate(v.len() / 2),
                        _ => {}
                    }
                    let p = c.path(target).join(k);
                    std::fs::create_dir_all(p.parent().unwrap()).map_err(e)?;
                    std::fs::write(&p, old).map_err(e)?;
                }
            }
            c.class("over older files");
        }
        let o = cli(c, &dir, &args)?;
        o.expect(true, "extracting an intact archive")?;
        let mut got = files_below(&c.path(target));
        if let Some(l) = got.remove("(listfile)") {
            let h = r.find("(listfile)");
            if h.is_empty() || r.read(h[0].1.block as usize, "(listfile)") != Ok(l) {
                return Err("the extracted listfile differs".into());
            }
        }
        compare("extracted with paths", &got, &tree.files)?;
        // everything, in one directory
        if c.t.chance(1, 3) {
            let flat = c.path("flat");
            std::fs::create_dir(&flat).map_err(e)?;
            let arch = c.path("a.mpq").display().to_string();
            let o = if c.t.bool() {
                cli(c, &flat, &["file", "extract", &arch])?
            } else {
                cli(c, &dir, &["file", "extract", &arch, "-t", "flat"])?
            };
            o.expect(true, "extracting an intact archive without paths")?;
            let mut got = files_below(&flat);
            got.remove("(listfile)");
            let mut by: BTreeMap<String, Vec<&Vec<u8>>> = BTreeMap::new();
            for (k, v) in &tree.files {
                by.entry(k.rsplit('/').next().unwrap().to_string()).or_default().push(v);
            }
            for (k, v) in &by {
                match got.get(k) {
                    None => return Err(format!("extracted without paths: {k:?} missing")),
                    Some(g) if !v.contains(&g) => {
                        return Err(format!("extracted without paths: {k:?} differs: {}", diff(g, v[0])))
                    }
                    _ => {}
                }
            }
            if let Some(k) = got.keys().find(|k| !by.contains_key(*k)) {
                return Err(format!("extracted without paths: {k:?} should not be there"));
            }
        }
    }
    // one by one
    want.retain(|_, _| c.t.chance(1, if flag { 5 } else { 1 }));
    let mut k = 0;
    for (n, v) in want.iter().take(4) {
        k += 1;
        let q = respell(&mut c.t, n);
        let q = if q.starts_with('-') { n.clone() } else { q };
        if q.starts_with('-') {
            continue;
        }
        let target = format!("one/{k}/file");
        let o = cli(c, &dir, &["file", "extract", "a.mpq", &q, "-t", &target])?;
        o.expect(true, "extracting a file by name")?;
        let got = std::fs::read(c.path(&target)).map_err(|e| format!("{q:?} was not extracted: {e}"))?;
        if &got != v {
            return Err(format!("{q:?} extracted by name differs: {}", diff(&got, v)));
        }
    }
    Ok(())
}

/// Method byte of a file's first compressed unit, if there is one in the clear
fn stored_method(d: &[u8], r: &Ref, bi: usize) -> Option<u8> {
    let b = r.blocks.get(bi)?;
    if b.flags & F_COMPRESS == 0 || b.flags & F_ENCRYPTED != 0 || b.fsize == 0 {
        return None;
    }
    let pos = b.pos as usize;
    if b.flags & F_SINGLE != 0 {
        return (b.csize < b.fsize).then(|| d[pos]);
    }
    let (a, z) = (g32(d, pos).ok()? as usize, g32(d, pos + 4).ok()? as usize);
    let full = r.sector().min(b.fsize as usize);
    (z > a && z - a < full).then(|| d[pos + a])
}

// ------------------------------------------------------------------ M25

fn hostile(t: &mut Tape, abs: &str, tag: &str) -> String {
    let sep = |t: &mut Tape| ["/", "\\"][t.u(2)];
    let leaf = ["keep.txt", "evil.txt", "sibling/keep.txt", "target-evil/keep.txt", "cwd/x", "target/x", "new/dir/x"];
    let l = |t: &mut Tape| leaf[t.u(leaf.len())].replace('/', sep(t));
    let ups = |t: &mut Tape, n: usize| (0..n).map(|_| format!("..{}", sep(t))).collect::<String>();
    match t.weighted(&[6, 5, 4, 3, 3, 2, 2]) {
        0 => {
            let n = t.urange(1, 5);
            ups(t, n) + &l(t)
        }
        1 => {
            // down a little, then up
            let d = t.urange(1, 3);
            let mut s = String::new();
            for _ in 0..d {
                s += ["a", ".", "safe0", "x y", "..."][t.u(5)];
                s += sep(t);
                if t.chance(1, 4) {
                    s += sep(t);
                }
            }
            let n = t.urange(1, d + 4);
            s + &ups(t, n) + &l(t)
        }
        2 => {
            // absolute
            let pre = ["", "/", "\\", "./", ".\\", "C:", "\\\\?\\", "file://"][t.u(8)];
            let s = format!("{pre}{abs}/{}", l(t));
            if t.bool() {
                s.replace('/', "\\")
            } else {
                s
            }
        }
        3 => {
            let n = t.urange(8, 20);
            let base = ["tmp", "var/tmp"][t.u(2)];
            ups(t, n) + &format!("{base}/{tag}")
        }
        4 => format!("{}{}/{tag}", ["/", "\\", "//", "C:\\..\\..\\..\\..\\..\\..\\..\\..\\"][t.u(4)], ["tmp", "var/tmp"][t.u(2)])
            .replace('/', sep(t)),
        5 => {
            let odd = [
                "..", ".", "/", "\\", "..\\", "../", "\\..", "./..", "a\\..", "....\\\\keep.txt", "..%5ckeep.txt", "%2e%2e/keep.txt",
                "~/keep.txt", "$HOME/keep.txt", "C:..\\keep.txt", "..:keep.txt", "a/../../keep.txt\0", "..\0/keep.txt", ". ./keep.txt",
                "\u{2025}/keep.txt", "..\u{200b}/keep.txt", "x\\..\\..\\..\\..\\keep.txt",
            ];
            odd[t.u(odd.len())].into()
        }
        _ => {
            let n = t.urange(1, 6);
            let mut s = String::new();
            for _ in 0..n {
                s += ["..", ".", "a", "target", "l3", "", "box", "keep.txt"][t.u(8)];
                s += sep(t);
            }
            s + &l(t)
        }
    }
}

fn m25(c: &mut Ctx) -> Result<(), String> {
    let e = |e: std::io::Error| e.to_string();
    let boxd = c.path("box");
    let target = c.path("box/l1/l2/l3/target");
    let cwd = c.path("box/l1/cwd");
    for d in [&target, &cwd] {
        std::fs::create_dir_all(d).map_err(e)?;
    }
    for d in ["box", "box/l1", "box/l1/l2", "box/l1/l2/l3", "box/l1/cwd"] {
        std::fs::write(c.path(d).join("keep.txt"), b"keep").map_err(e)?;
        for s in ["sibling", "target-evil"] {
            std::fs::create_dir_all(c.path(d).join(s)).map_err(e)?;
            std::fs::write(c.path(d).join(s).join("keep.txt"), b"keep").map_err(e)?;
        }
    }
    let tag = format!("vp-escape-{}-{:x}", std::process::id(), c.t.any32());
    let at = ["box", "box/l1/l2", "box/l1/cwd", "box/l1/l2/l3"][c.t.u(4)];
    let abs = c.path(at).display().to_string();
    let mut files = vec![];
    let mut text = String::new();
    let mut seen = HashSet::new();
    let n = c.t.urange(1, 6);
    let mut names = vec![];
    for i in 0..n {
        let nm = hostile(&mut c.t, &abs, &tag);
        if is_special(&nm) || !seen.insert(fold(&nm)) || nm.is_empty() {
            continue;
        }
        c.describe(format!("{nm:?}"));
        text += &format!("{nm}\r\n");
        names.push(nm.clone());
        let mut f = pick_wfile(&mut c.t, nm, format!("hostile {i}").into_bytes());
        f.locale = 0;
        files.push(f);
    }
    let m = c.t.urange(0, 2);
    let mut safe = vec![];
    for i in 0..m {
        let nm = ["safe#\\safefile#.txt", "safefile#.txt", "safe#/deeper/safefile#.txt"][c.t.u(3)].replace('#', &i.to_string());
        safe.push((nm.clone(), format!("safe {i}").into_bytes()));
        text += &format!("{nm}\r\n");
        let mut f = pick_wfile(&mut c.t, nm, format!("safe {i}").into_bytes());
        f.locale = 0;
        files.push(f);
    }
    files.push(WFile::plain("(listfile)", text.into_bytes()));
    c.nontrivial();
    let l = Layout::simple(c.t.u(4) as u16, 0, files.len());
    let arch = c.path("a.mpq");
    write_archive(&files, &l).save(&arch, 0).map_err(e)?;
    let arch = arch.display().to_string();

    let mut before = tree(&c.dir);
    let inside = "box/l1/l2/l3/target/";
    before.retain(|k, _| !k.starts_with(inside));
    let p = c.t.bool();
    let mode = c.t.u(4);
    c.class(["-t relative", "-t absolute", "current directory", "by name"][mode]);
    c.class(if p { "with paths" } else { "without paths" });
    let mut runs: Vec<(PathBuf, Vec<String>)> = vec![];
    let mut head: Vec<String> = vec!["file".into(), "extract".into()];
    if p {
        head.push("-p".into());
    }
    let with = |x: &[&str]| {
        let mut v = head.clone();
        v.extend(x.iter().map(|s| s.to_string()));
        v
    };
    match mode {
        0 => runs.push((cwd.clone(), with(&["-t", ["../l2/l3/target", ".././l2/l3/target/"][c.t.u(2)], &arch]))),
        1 => runs.push((cwd.clone(), with(&["-t", &target.display().to_string(), &arch]))),
        2 => runs.push((target.clone(), with(&[&arch]))),
        _ => {
            for nm in names.iter().filter(|n| !n.contains('\0')) {
                runs.push((target.clone(), with(&["--", &arch, nm])));
            }
        }
    }
    for (cwd, args) in &runs {
        let o = cli(c, cwd, args)?;
        o.sane()?;
    }
    let mut after = tree(&c.dir);
    after.retain(|k, _| !k.starts_with(inside));
    for d in ["/tmp", "/var/tmp"] {
        let x = Path::new(d).join(&tag);
        if x.symlink_metadata().is_ok() {
            let _ = std::fs::remove_file(&x);
            let _ = std::fs::remove_dir_all(&x);
            return Err(format!("{} was written ({:?})", x.display(), runs[0].1));
        }
    }
    compare(&format!("outside the target, after {:?}", runs.iter().map(|r| r.1.join(" ")).collect::<Vec<_>>()), &after, &before)?;
    if mode < 3 {
        let got = files_below(&target);
        for (k, v) in &safe {
            let rel = k.replace('\\', "/");
            let rel = if p { rel } else { rel.rsplit('/').next().unwrap().to_string() };
            if got.get(&rel) != Some(v) {
                return Err(format!("harmless file {k:?} was not extracted along with hostile ones"));
            }
        }
    }
    let _ = boxd;
    Ok(())
}

// ------------------------------------------------------------------ M26

/// Where extraction with paths has to put a name; None if it has to refuse
fn place(name: &str) -> Option<String> {
    let mut v = vec![];
    for p in name.split(['/', '\\']) {
        match p {
            "" | "." => {}
            ".." => return None,
            p if p.contains('\0') || p.len() > 255 => return None,
            p => v.push(p),
        }
    }
    (!v.is_empty()).then(|| v.join("/"))
}

/// What the library says about an archive
struct Lib {
    open: bool,
    info: bool,
    /// header, tables, digests, signature
    sound: bool,
    listed: bool,
    names: Vec<(String, bool, Option<Vec<u8>>)>,
    listfile: bool,
}

fn ask(p: &Path) -> Lib {
    let mut l = Lib {
        open: false,
        info: false,
        sound: false,
        listed: false,
        names: vec![],
        listfile: false,
    };
    let Ok(mut a) = Archive::open(p) else { return l };
    l.open = true;
    if let Ok(i) = a.get_info() {
        l.info = true;
        l.listfile = i.has_listfile;
        let ext = |t: &Option<mopaq::TableInfo>| t.as_ref().is_none_or(|t| !t.failed_to_load);
        l.sound = !i.hash_table_info.failed_to_load
            && !i.block_table_info.failed_to_load
            && ext(&i.het_table_info)
            && ext(&i.bet_table_info)
            && !format!("{:?}", i.signature_status).contains("Invalid")
            && i.md5_status.as_ref().is_none_or(|m| {
                m.header_valid
                    && m.hash_table_valid
                    && m.block_table_valid
                    && m.hi_block_table_valid
                    && m.het_table_valid
                    && m.bet_table_valid
            });
    }
    if let Ok(v) = a.list() {
        l.listed = true;
        for e in v {
            let found = matches!(a.find_file(&e.name), Ok(Some(_)));
            let d = a.read_file(&e.name).ok();
            l.names.push((e.name, found, d));
        }
    }
    l
}

/// Runs the commands on an archive and compares their exit status with the library's answers;
/// `fail` and `hold` are what is known by construction
fn judge(c: &mut Ctx, p: &Path, why: &str, want: Option<bool>, hold: &[(String, Vec<u8>)]) -> Result<(), String> {
    let before = std::fs::read(p).ok();
    judge_commands(c, p, why, want, hold)?;
    if std::fs::read(p).ok() != before {
        return Err(format!("{why}: a command that only reads has changed the archive"));
    }
    if before.is_some() && c.t.chance(1, 12) {
        // commands that change archives: they do it or say that they did not
        let dir = c.dir.clone();
        let ps = p.display().to_string();
        let n = hold.first().map_or("some file", |h| &h.0);
        std::fs::write(c.path("some file"), b"new content").map_err(|e| e.to_string())?;
        let cmd = if c.t.bool() { vec!["file", "add", "--", &ps, "some file"] } else { vec!["file", "remove", "--", &ps, n] };
        if !n.contains('\0') {
            let o = cli(c, &dir, &cmd)?;
            o.sane()?;
            let same = std::fs::read(p).ok() == before;
            if (o.code == Some(0)) == same {
                return Err(format!("{why}: `storm-cli {}` exits with {:?}, the archive is as it was: {same}", o.line, o.code));
            }
        }
    }
    Ok(())
}

fn judge_commands(c: &mut Ctx, p: &Path, why: &str, want: Option<bool>, hold: &[(String, Vec<u8>)]) -> Result<(), String> {
    let l = ask(p);
    let dir = c.dir.clone();
    let ps = p.display().to_string();
    let contents_ok = l.names.iter().all(|n| n.2.is_some());
    let found_ok = l.names.iter().all(|n| n.1);
    let fmt = ["text", "json", "csv"][c.t.u(3)];
    let quiet = c.t.chance(1, 4);
    // verify
    let contents = c.t.chance(3, 4);
    let mut a = vec!["archive", "verify", &ps, "-o", fmt];
    if contents {
        a.push("--check-contents");
    }
    if c.t.chance(1, 4) {
        a.push("--check-crc");
    }
    if quiet {
        a.push("-q");
    }
    let lib = l.open && l.info && l.sound && (!l.listfile || l.listed && found_ok && (!contents || contents_ok));
    let o = cli(c, &dir, &a)?;
    o.expect(lib, &format!("{why} (the library says {lib})"))?;
    if let Some(w) = want {
        if contents || w {
            o.expect(w, why)?;
        }
    }
    if l.open && l.info && !quiet && (l.listed || !l.listfile) {
        // the report says the same as the exit status
        let said = match fmt {
            "json" => o.json()?["passed"].as_bool(),
            "csv" => o.lines().iter().find_map(|s| s.strip_prefix("passed,")).and_then(|s| s.parse().ok()),
            _ => Some(o.out.contains("PASSED")).filter(|_| o.out.contains("PASSED") != o.out.contains("FAILED")),
        };
        if said != Some(lib) {
            return Err(format!("{why}: the report says passed = {said:?}, it should be {lib}: {}", cap(&o.out)));
        }
    }
    // list and info
    let cmd = [["archive", "info"], ["archive", "list"], ["file", "list"], ["archive", "analyze"], ["table", "analyze"], ["table", "show"]];
    for _ in 0..2 {
        let k = c.t.u(6);
        let o = cli(c, &dir, &[cmd[k][0], cmd[k][1], &ps, "-o", fmt])?;
        let w = match k {
            0 => l.open && l.info,
            1..=2 => l.open && l.listed,
            3 => {
                o.sane()?;
                if l.open {
                    continue;
                }
                false
            }
            _ => l.open,
        };
        o.expect(w, &format!("{why} (the library says {w})"))?;
    }
    // extract
    let places: Vec<Option<String>> = l.names.iter().map(|n| place(&n.0)).collect();
    let mut all: Vec<&String> = places.iter().flatten().collect();
    all.sort();
    let conflict = all
        .iter()
        .any(|a| all.iter().filter(|b| **b == *a).count() > 1 || all.iter().any(|b| b.starts_with(&format!("{a}/"))));
    let o = cli(c, &dir, &["file", "extract", &ps, "-p", "-t", "out"])?;
    o.sane()?;
    if !conflict {
        let w = l.open && l.listed && contents_ok && places.iter().all(|p| p.is_some());
        o.expect(w, &format!("{why} (the library says {w})"))?;
        let mut exp = BTreeMap::new();
        for (n, p) in l.names.iter().zip(&places) {
            if let (Some(p), Some(d)) = (p, &n.2) {
                exp.insert(p.clone(), d.clone());
            }
        }
        compare(why, &files_below(&c.path("out")), &exp)?;
    } else {
        c.class("names in each other's way");
    }
    if let Some(w) = want {
        o.expect(w, why)?;
    }
    let got = files_below(&c.path("out"));
    for (n, d) in hold {
        let p = place(n).unwrap();
        match got.get(&p) {
            None => return Err(format!("{why}: the intact file {n:?} was not extracted")),
            Some(g) if g != d => return Err(format!("{why}: the intact file {n:?} differs: {}", diff(g, d))),
            _ => {}
        }
    }
    // one file by name
    if let Some(i) = (!l.names.is_empty()).then(|| c.t.u(l.names.len())) {
        let (n, _, d) = &l.names[i];
        if !n.contains('\0') {
            let cmd: Vec<&str> = if c.t.bool() {
                vec!["file", "info", "--", &ps, n]
            } else {
                vec!["file", "extract", "-t", "one.file", "--", &ps, n]
            };
            let o = cli(c, &dir, &cmd)?;
            o.expect(d.is_some(), &format!("{why}: {n:?} (the library says {})", d.is_some()))?;
        }
    }
    Ok(())
}

/// Files under names that can be extracted, none in another's way
fn safe_files(c: &mut Ctx, max: usize) -> Vec<WFile> {
    let n = c.t.urange(1, max);
    let mut v = vec![];
    for i in 0..n {
        let p = part(&mut c.t);
        let nm = match c.t.weighted(&[5, 5, 5, 2]) {
            3 if i == 0 => ["(user data)", "(notes).txt", "(x)", ".hidden", "-p"][c.t.u(5)].to_string(),
            0 | 3 => format!("n{i}{p}"),
            1 => format!("n{i}\\{p}x"),
            _ => format!("n{i}/d\\{p}x"),
        };
        let d = data(&mut c.t, 1024, 4_000);
        let mut f = pick_wfile(&mut c.t, nm, d);
        f.locale = 0;
        v.push(f);
    }
    v
}

fn with_listfile(t: &mut Tape, mut files: Vec<WFile>, missing: &[&str]) -> Vec<WFile> {
    let mut text = String::new();
    for f in &files {
        text += &format!("{}\r\n", f.name);
    }
    for m in missing {
        text += &format!("{m}\r\n");
    }
    let at = t.u(files.len() + 1);
    files.insert(at, WFile::plain("(listfile)", text.into_bytes()));
    files
}

fn m26(c: &mut Ctx) -> Result<(), String> {
    let e = |e: std::io::Error| e.to_string();
    let p = c.path("a.mpq");
    let kind = c.t.weighted(&[4, 4, 3, 3, 3, 1, 5]);
    c.class(["intact", "damaged content", "damaged version 4", "signed", "cut off", "no archive", "arbitrary damage"][kind]);
    c.nontrivial();
    let keep = |files: &[WFile], except: &str| -> Vec<(String, Vec<u8>)> {
        files
            .iter()
            .filter(|f| f.name != except && f.name != "(listfile)")
            .map(|f| (f.name.clone(), f.data.clone()))
            .collect()
    };
    let note = |c: &mut Ctx, files: &[WFile]| {
        for f in files {
            c.describe(format!(
                "{:?} {} bytes single={} methods={:?} enc={} crc={}",
                f.name,
                f.data.len(),
                f.single,
                f.methods,
                f.encrypted,
                f.crc
            ));
        }
    };
    if scale(c, 151).is_some() {
        // as many damaged files as an exit status has values, beside a few intact ones
        // (or a few damaged ones among many intact ones)
        let few = c.t.bool();
        let n = if few { c.t.urange(1, 3) } else { [256, 512, 255, 300][c.t.u(4)] };
        let ok = if few { [300, 600, 1030, 1500][c.t.u(4)] } else { c.t.u(3) };
        // the damaged ones are a range anywhere
        let first = if few { c.t.u(ok + 1) } else { 0 };
        let mut files: Vec<WFile> = (0..n + ok)
            .map(|i| {
                let mut f = WFile::plain(&format!("d{}\\f{i}", i % 7), format!("content of file {i}").into_bytes());
                f.methods = vec![0];
                f.crc = true;
                f
            })
            .collect();
        let missing: &[&str] = if c.t.chance(1, 4) { &["gone\\away.txt"] } else { &[] };
        files = with_listfile(&mut c.t, files, missing);
        let l = Layout::simple(c.t.u(4) as u16, c.t.u(3) as u16, files.len());
        let w = write_archive(&files, &l);
        let mut d = w.bytes();
        let hit: Vec<bool> = files
            .iter()
            .scan(0, |i, f| {
                let named = f.name != "(listfile)";
                let h = named && *i >= first && *i < first + n;
                *i += named as usize;
                Some(h)
            })
            .collect();
        for (h, b) in hit.iter().zip(&w.blocks) {
            if *h {
                d[b.pos as usize + 3] ^= 1 << c.t.u(8);
            }
        }
        c.describe(format!("{n} damaged files, {ok} intact"));
        std::fs::write(&p, &d).map_err(e)?;
        let hold: Vec<(String, Vec<u8>)> = files
            .iter()
            .zip(&hit)
            .filter(|(f, h)| f.name != "(listfile)" && !**h)
            .map(|(f, _)| (f.name.clone(), f.data.clone()))
            .collect();
        return judge(c, &p, "archive with many damaged files", Some(false), &hold);
    }
    match kind {
        0 => {
            let mut files = safe_files(c, 5);
            if c.t.chance(1, 3) {
                // by the builder
                let mut g = archive(&mut c.t, &GenOpt { external: false, locales: false, max_files: 1, ..Default::default() });
                g.files = files
                    .iter()
                    .map(|f| GFile {
                        name: f.name.clone(),
                        data: f.data.clone(),
                        // the library does not write chains of methods
                        method: match f.methods.first() {
                            Some(&(CHAIN_ZLIB | CHAIN_BZIP2)) => M_ZLIB,
                            m => m.copied().unwrap_or(0),
                        },
                        default_method: false,
                        mode: [Mode::Plain, Mode::Encrypted, Mode::FixKey][c.t.u(3)].clone(),
                        locale: 0,
                        from_disk: false,
                    })
                    .collect();
                if g.listfile == LF::None {
                    g.listfile = LF::Generate;
                }
                c.class("built");
                c.describe(g.describe());
                g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
            } else {
                note(c, &files);
                files = with_listfile(&mut c.t, files, &[]);
                let l = layout(&mut c.t, files.len(), false);
                write_archive(&files, &l).save(&p, 0).map_err(e)?;
            }
            let hold = keep(&files, "");
            judge(c, &p, "intact archive", Some(true), &hold)
        }
        1 => {
            // a checksummed file with altered content
            let mut files = safe_files(c, 4);
            let i = c.t.u(files.len());
            if c.t.chance(1, 6) {
                files[i].name = ["(attributes)", "(extra)", "(other data)"][c.t.u(3)].into();
            }
            let f = &mut files[i];
            f.crc = true;
            f.encrypted = false;
            f.fix_key = false;
            // stored raw: every altered bit is altered content
            f.methods = vec![0];
            if f.data.len() <= 1024 {
                f.data.extend(vec![b'x'; 1100]);
            }
            f.single = c.t.bool();
            let bad = f.name.clone();
            let single = f.single;
            let files = with_listfile(&mut c.t, files, &[]);
            note(c, &files);
            let mut l = layout(&mut c.t, files.len(), false);
            l.shift %= 2;
            let w = write_archive(&files, &l);
            let mut d = w.bytes();
            let k = files.iter().position(|f| f.name == bad).unwrap();
            let b = &w.blocks[l.block_of[k]];
            let n = (b.fsize as usize).div_ceil(512 << l.shift);
            let pos = b.pos as usize;
            let (lo, hi) = if single { (0, b.csize as usize) } else { (g32(&d, pos)? as usize, g32(&d, pos + 4 * n)? as usize) };
            if hi <= lo {
                return Err("harness: no sector data".into());
            }
            let at = pos + lo + c.t.u(hi - lo);
            d[at] ^= 1 << c.t.u(8);
            c.describe(format!("bit flipped in {bad:?} at {at:#x}"));
            std::fs::write(&p, &d).map_err(e)?;
            // an archive whose attributes cannot be read is not opened at all
            let hold = if bad == "(attributes)" { vec![] } else { keep(&files, &bad) };
            judge(c, &p, "archive with a damaged file", Some(false), &hold)
        }
        2 => {
            let files = safe_files(c, 4);
            let files = with_listfile(&mut c.t, files, &[]);
            note(c, &files);
            let mut l = layout(&mut c.t, files.len(), false);
            l.version = 3;
            let mut d = write_archive(&files, &l).bytes();
            let h = parse_header(&d)?;
            let v = h.v4.clone().unwrap();
            let parts = [(h.hash_pos, v.hash), (h.block_pos, v.block), (h.hi_pos, v.hi), (h.het_pos, v.het), (h.bet_pos, v.bet), (112, 96)];
            let k: Vec<(u64, u64)> = parts.iter().copied().filter(|x| x.0 != 0 && x.1 != 0).collect();
            let (pos, n) = k[c.t.u(k.len())];
            let at = (pos + c.t.below(n)) as usize;
            d[at] ^= 1 << c.t.u(8);
            c.describe(format!("bit flipped at {at:#x}"));
            std::fs::write(&p, &d).map_err(e)?;
            let dir = c.dir.clone();
            let ps = p.display().to_string();
            let mut a = vec!["archive", "verify", &ps, "-o", ["text", "json", "csv"][c.t.u(3)]];
            if c.t.bool() {
                a.push("-q");
            }
            let o = cli(c, &dir, &a)?;
            o.expect(false, "verifying a version 4 archive with a wrong digest")?;
            judge(c, &p, "version 4 archive with a damaged table", None, &[])
        }
        3 => {
            let (mut d, pos, _) = signable(c, true)?;
            let Some(pos) = pos else { return Ok(()) };
            let pos = pos as usize;
            let sig = crate::sign::weak_of(&d, pos, 72, |_| {});
            d[pos + 8..pos + 72].copy_from_slice(&sig);
            std::fs::write(&p, &d).map_err(e)?;
            let l = ask(&p);
            if !l.sound {
                // format version 4 digests cover the tables only; the signature is written last
                return Err("a signed archive is not sound to the library".into());
            }
            judge(c, &p, "signed archive", None, &[])?;
            let _ = std::fs::remove_dir_all(c.path("out"));
            // any other content
            let at = if c.t.chance(1, 3) {
                pos + 8 + c.t.u(64)
            } else {
                let r = Ref::parse(&d)?;
                let b: Vec<(usize, usize)> = r
                    .blocks
                    .iter()
                    .filter(|b| b.flags & F_EXISTS != 0 && b.csize > 0 && b.pos as usize != pos)
                    .map(|b| (b.pos as usize, b.csize as usize))
                    .collect();
                if b.is_empty() {
                    return Ok(());
                }
                let (p, n) = b[c.t.u(b.len())];
                p + c.t.u(n)
            };
            d[at] ^= 1 << c.t.u(8);
            c.describe(format!("bit flipped at {at:#x}, signature at {pos:#x}"));
            std::fs::write(&p, &d).map_err(e)?;
            let dir = c.dir.clone();
            let ps = p.display().to_string();
            let o = cli(c, &dir, &["archive", "verify", &ps])?;
            o.expect(false, "verifying a signed archive that has been altered")?;
            judge(c, &p, "altered signed archive", None, &[])
        }
        4 => {
            // the end is missing
            let mut files = safe_files(c, 4);
            let last = files.len() - 1;
            if files[last].data.is_empty() {
                files[last].data = b"some content".to_vec();
            }
            let bad = files[last].name.clone();
            let mut text = String::new();
            for f in &files {
                text += &format!("{}\r\n", f.name);
            }
            files.insert(0, WFile::plain("(listfile)", text.into_bytes()));
            note(c, &files);
            let mut l = Layout::simple(c.t.u(4) as u16, c.t.u(3) as u16, files.len());
            l.order = vec![Part::Hash, Part::Block, Part::Files];
            let w = write_archive(&files, &l);
            let mut d = w.bytes();
            let b = &w.blocks[files.len() - 1];
            let end = d.len();
            if (b.pos as usize) >= end {
                return Err("harness: layout".into());
            }
            let n = c.t.urange(b.pos as usize, end - 1);
            d.truncate(n);
            c.describe(format!("cut from {end} to {n} bytes"));
            std::fs::write(&p, &d).map_err(e)?;
            let hold = if ask(&p).open { keep(&files, &bad) } else { vec![] };
            judge(c, &p, "archive whose end is missing", Some(false), &hold)
        }
        5 => {
            let k = c.t.u(6);
            match k {
                0 => {}
                1 => std::fs::write(&p, b"").map_err(e)?,
                2 => {
                    let n = c.t.u(5_000);
                    let d = filler(&mut c.t, n);
                    std::fs::write(&p, d).map_err(e)?
                }
                3 => std::fs::create_dir(&p).map_err(e)?,
                4 => {
                    let n = c.t.u(31);
                    let mut d = b"MPQ\x1a".to_vec();
                    d.extend(filler(&mut c.t, n));
                    std::fs::write(&p, d).map_err(e)?
                }
                _ => {
                    let n = c.t.urange(32, 2000);
                    let mut d = b"MPQ\x1a\x20\0\0\0".to_vec();
                    d.extend(filler(&mut c.t, n));
                    d[12] = 9;
                    std::fs::write(&p, d).map_err(e)?
                }
            }
            if ask(&p).open {
                return Ok(());
            }
            c.describe(["missing", "empty", "no header", "a directory", "too short", "unknown version"][k]);
            judge(c, &p, "not an archive", Some(false), &[])
        }
        _ => {
            let files = safe_files(c, 4);
            let missing: &[&str] = if c.t.chance(1, 3) { &["gone\\away.txt"] } else { &[] };
            let files = with_listfile(&mut c.t, files, missing);
            note(c, &files);
            let l = layout(&mut c.t, files.len(), false);
            let w = write_archive(&files, &l);
            let mut d = w.bytes();
            let h = parse_header(&d)?;
            for _ in 0..c.t.urange(1, 3) {
                let what = super::damage::corrupt(&mut c.t, &mut d, &h, &w.blocks);
                c.describe(what);
            }
            std::fs::write(&p, &d).map_err(e)?;
            judge(c, &p, "damaged archive", None, &[])
        }
    }
}

// ------------------------------------------------------------------ M30

#[derive(Clone, Debug)]
enum Tok {
    Lit(char),
    Any,
    Star,
    Class(Vec<char>),
    /// any character but these
    Not(Vec<char>),
    Range(char, char),
    /// \\d \\D \\w \\W \\s \\S (regular expressions only)
    Esc(char),
}

fn matches(p: &[Tok], s: &[char], same: &dyn Fn(char, char) -> bool) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(Tok::Star) => (0..=s.len()).any(|k| matches(&p[1..], &s[k..], same)),
        Some(t) => {
            !s.is_empty()
                && match t {
                    Tok::Lit(c) => same(*c, s[0]),
                    Tok::Class(v) => v.iter().any(|c| same(*c, s[0])),
                    Tok::Not(v) => !v.iter().any(|c| same(*c, s[0])),
                    Tok::Range(a, b) => (*a..=*b).any(|c| same(c, s[0])),
                    Tok::Esc(k) => {
                        let c = s[0];
                        let is = match k.to_ascii_lowercase() {
                            'd' => c.is_ascii_digit(),
                            'w' => c.is_ascii_alphanumeric() || c == '_',
                            _ => c.is_ascii_whitespace() || c == '\x0b',
                        };
                        is != k.is_ascii_uppercase()
                    }
                    _ => true,
                }
                && matches(&p[1..], &s[1..], same)
        }
    }
}

/// A pattern derived from a name
fn pattern(t: &mut Tape, name: &str, esc: bool) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let cs: Vec<char> = name.chars().collect();
    let mut i = 0;
    let mut stars = 0;
    if t.bool() {
        v.push(Tok::Star);
        stars += 1;
        i = t.u(cs.len() + 1);
    }
    while i < cs.len() {
        match t.weighted(&[20, 2, 2, 2, 1, 1, if esc { 3 } else { 0 }]) {
            0 => v.push(Tok::Lit(cs[i])),
            1 => v.push(Tok::Any),
            2 if stars < 3 => {
                if !matches!(v.last(), Some(Tok::Star)) {
                    v.push(Tok::Star);
                    stars += 1;
                }
                i += t.u(6);
            }
            3 if cs[i].is_ascii_alphanumeric() => {
                let other = [b"aZ", b"0b", b"xY"][t.u(3)];
                v.push(Tok::Class(vec![cs[i], other[0] as char, other[1] as char]));
            }
            4 => v.push(Tok::Not([vec!['q'], vec!['a', 'E', '7'], vec!['B', 'x']][t.u(3)].clone())),
            5 if cs[i].is_ascii_alphanumeric() => {
                let c = cs[i] as u8;
                let (lo, hi) = if c.is_ascii_digit() { (b'0', b'9') } else if c.is_ascii_lowercase() { (b'a', b'z') } else { (b'A', b'Z') };
                let a = c - (t.u(4) as u8).min(c - lo);
                let b = c + (t.u(4) as u8).min(hi - c);
                v.push(Tok::Range(a as char, b as char));
            }
            6 => {
                let c = cs[i];
                let mut k: Vec<char> = vec![];
                k.push(if c.is_ascii_digit() { 'd' } else { 'D' });
                k.push(if c.is_ascii_alphanumeric() || c == '_' { 'w' } else { 'W' });
                k.push(if c.is_ascii_whitespace() || c == '\x0b' { 's' } else { 'S' });
                v.push(Tok::Esc(k[t.u(3)]));
            }
            _ => v.push(Tok::Lit(cs[i])),
        }
        i += 1;
    }
    if t.chance(1, 3) && stars < 3 {
        v.truncate(t.u(v.len() + 1));
        if !matches!(v.last(), Some(Tok::Star)) {
            v.push(Tok::Star);
        }
    }
    if t.chance(1, 4) {
        // other letter case
        for x in &mut v {
            if let Tok::Lit(c) = x {
                if c.is_ascii_alphabetic() && t.bool() {
                    *c = (*c as u8 ^ 0x20) as char;
                }
            }
        }
    }
    v
}

fn glob_text(p: &[Tok]) -> String {
    p.iter()
        .map(|t| match t {
            Tok::Lit(c) if "*?[]".contains(*c) => format!("[{c}]"),
            Tok::Lit(c) => c.to_string(),
            Tok::Any => "?".into(),
            Tok::Star => "*".into(),
            Tok::Class(v) => format!("[{}]", v.iter().collect::<String>()),
            Tok::Not(v) => format!("[!{}]", v.iter().collect::<String>()),
            Tok::Range(a, b) => format!("[{a}-{b}]"),
            Tok::Esc(k) => format!("\\{k}"),
        })
        .collect()
}

fn regex_text(p: &[Tok]) -> String {
    p.iter()
        .map(|t| match t {
            Tok::Lit(c) if c.is_ascii_punctuation() && !"<>".contains(*c) => format!("\\{c}"),
            Tok::Lit(c) => c.to_string(),
            Tok::Any => ".".into(),
            Tok::Star => ".*".into(),
            Tok::Class(v) => format!("[{}]", v.iter().collect::<String>()),
            Tok::Not(v) => format!("[^{}]", v.iter().collect::<String>()),
            Tok::Range(a, b) => format!("[{a}-{b}]"),
            Tok::Esc(k) => format!("\\{k}"),
        })
        .collect()
}

/// A search: its text and what it selects
fn search(t: &mut Tape, names: &[String], regex: bool, fold: bool) -> (String, Vec<String>) {
    let base = if names.is_empty() { "nothing".to_string() } else { names[t.u(names.len())].clone() };
    let mut p = pattern(t, &base, regex && names.iter().all(|n| n.is_ascii()));
    let lower = |c: char| c.to_lowercase().collect::<String>();
    let same = move |a: char, b: char| if fold { lower(a) == lower(b) } else { a == b };
    if regex {
        let (head, tail) = (t.bool(), t.bool());
        let text = format!("{}{}{}", if head { "^" } else { "" }, regex_text(&p), if tail { "$" } else { "" });
        if !head {
            p.insert(0, Tok::Star);
        }
        if !tail {
            p.push(Tok::Star);
        }
        let hit = names
            .iter()
            .filter(|n| matches(&p, &n.chars().collect::<Vec<_>>(), &same))
            .cloned()
            .collect();
        (text, hit)
    } else {
        let hit = names
            .iter()
            .filter(|n| {
                let s = if fold { n.to_lowercase() } else { n.to_string() };
                matches(&p, &s.chars().collect::<Vec<_>>(), &same)
            })
            .cloned()
            .collect();
        (glob_text(&p), hit)
    }
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn human(n: u64) -> String {
    let mut s = n as f64;
    let mut u = 0;
    while s >= 1024.0 && u < 4 {
        s /= 1024.0;
        u += 1;
    }
    if u == 0 {
        n.to_string()
    } else {
        format!("{s:.2} {}", ["B", "KB", "MB", "GB", "TB"][u])
    }
}

fn plain_csv(n: &str) -> bool {
    !n.contains([',', '"', '\n', '\r'])
}

/// The known finding, reproduced: the analysis takes the method from the low byte of a file's flags, which is always 0
fn m30_methods(c: &mut Ctx) -> Result<(), String> {
    let path = c.path("known.mpq");
    mopaq::ArchiveBuilder::new()
        .listfile_option(mopaq::ListfileOption::Generate)
        .default_compression(0)
        .add_file_data_with_options(vec![7; 5000], "z", M_ZLIB, false, 0)
        .build(&path)
        .map_err(|e| e.to_string())?;
    let dir = c.dir.clone();
    let o = cli(c, &dir, &["archive", "analyze", &path.display().to_string(), "-o", "json"])?;
    o.expect(true, "analysing")?;
    let v = o.json()?;
    let count = |m: &str| v["compression_methods"][m]["count"].as_u64().unwrap_or(0);
    match (count("Zlib"), count("None")) {
        (1, 1) => Ok(()),
        (0, 2) => c.known("M30", "analyze-methods", "a file compressed with zlib is counted as not compressed".into()),
        (z, n) => Err(format!("one of two files is compressed with zlib, the analysis counts {z} and {n} that are not")),
    }
}

fn m30(c: &mut Ctx) -> Result<(), String> {
    if c.case == 0 {
        m30_methods(c)?;
    }
    let o = GenOpt {
        max_files: if c.t.chance(1, 10) { 40 } else { 8 },
        max_size: 3_000,
        ..Default::default()
    };
    let s = source_many(c, &o, "a.mpq", 149)?;
    let mut a = open(&s.path)?;
    let er = |e: mopaq::Error| format!("library: {e}");
    let listed = a.list().map_err(er)?;
    if !listed.is_empty() {
        c.nontrivial();
    }
    for _ in 0..c.t.urange(3, 6) {
        match c.t.weighted(&[5, 3, 2, 2, 2, 2, 4, 1]) {
            0 => m30_list(c, &s, &mut a)?,
            1 => m30_find(c, &s, &listed.iter().map(|e| e.name.clone()).collect::<Vec<_>>())?,
            2 => m30_file_info(c, &s, &mut a)?,
            3 => m30_info(c, &s, &mut a)?,
            4 => m30_verify(c, &s, &mut a)?,
            5 => m30_analyze(c, &s, &mut a)?,
            6 => m30_hash(c, &s)?,
            _ => m30_config(c)?,
        }
    }
    Ok(())
}

fn m30_list(c: &mut Ctx, s: &Src, a: &mut Archive) -> Result<(), String> {
    let er = |e: mopaq::Error| format!("library: {e}");
    let dir = c.dir.clone();
    let (all, hashes) = (c.t.chance(1, 3), c.t.chance(1, 3));
    let entries = match (all, hashes) {
        (false, false) => a.list(),
        (false, true) => a.list_with_hashes(),
        (true, false) => a.list_all(),
        (true, true) => a.list_all_with_hashes(),
    }
    .map_err(er)?;
    let names: Vec<String> = entries.iter().map(|e| e.name.clone()).collect();
    let fmt = c.t.u(3);
    let mut args: Vec<String> = vec![["file", "archive"][c.t.u(2)].into(), "list".into(), s.path.display().to_string()];
    args.extend(["-o".into(), ["text", "json", "csv"][fmt].into()]);
    if all {
        args.push(["-a", "--all"][c.t.u(2)].into());
    }
    if hashes {
        args.push("--show-hashes".into());
    }
    let verbose = fmt == 0 && c.t.chance(1, 3);
    if verbose {
        args.push(["-v", "-vv"][c.t.u(2)].into());
    }
    let mut want = names.clone();
    if c.t.bool() {
        let regex = c.t.bool();
        let (text, hit) = search(&mut c.t, &names, regex, false);
        if text.contains('\0') {
            return Ok(());
        }
        args.push(format!("--pattern={text}"));
        if regex {
            args.push("-r".into());
        }
        want = hit;
        c.class("list by pattern");
    }
    c.describe(args[..2].join(" ") + " " + &args[3..].join(" "));
    let o = cli(c, &dir, &args)?;
    o.expect(true, "listing")?;
    let want = sorted(&want);
    let hash_of: BTreeMap<String, BTreeSet<(u32, u32)>> = entries.iter().fold(BTreeMap::new(), |mut m, e| {
        m.entry(e.name.clone()).or_insert_with(BTreeSet::new).extend(e.hashes);
        m
    });
    let wrong = |got: &[String]| format!("`storm-cli {}` gives {got:?} for {want:?}", o.line);
    if verbose {
        c.class("verbose list");
        // one row per file with its sizes, and a total
        for e in entries.iter().filter(|e| want.contains(&e.name) && e.name.chars().count() <= 39) {
            let row = o.lines().into_iter().any(|l| {
                l.strip_prefix(e.name.as_str()).is_some_and(|r| {
                    let cells: Vec<&str> = r.split("  ").map(str::trim).filter(|s| !s.is_empty()).collect();
                    let text = r.trim_start();
                    let ratio = if e.size > 0 { (e.compressed_size as f64 / e.size as f64 * 100.0) as u32 } else { 100 };
                    let said = |w: &str, f: u32| text.contains(w) == (e.flags & f != 0);
                    said("Compressed", F_COMPRESS)
                        && said("Encrypted", F_ENCRYPTED)
                        && said("Single Unit", F_SINGLE)
                        && said("CRC", F_CRC)
                        && said("Fix Key", F_FIX_KEY)
                        && !text.contains("Deleted")
                        && !text.contains("Patch")
                        && text.contains(&format!("{ratio}%"))
                        && text.starts_with(&human(e.size))
                        && text[human(e.size).len()..].trim_start().starts_with(&human(e.compressed_size))
                        && !cells.is_empty()
                        && e.hashes.is_none_or(|h| !hashes || text.contains(&format!("{:X}", h.0)) && text.contains(&format!("{:X}", h.1)))
                })
            });
            if !row {
                return Err(format!(
                    "`storm-cli {}` has no row for {:?} with sizes {} and {} and flags {:#x}: {}",
                    o.line,
                    e.name,
                    human(e.size),
                    human(e.compressed_size),
                    e.flags,
                    cap(&o.out)
                ));
            }
        }
        let total: u64 = entries.iter().filter(|e| want.contains(&e.name)).map(|e| e.size).sum();
        let dup = names.iter().collect::<HashSet<_>>().len() != names.len();
        let l = format!("Total: {} files", want.len());
        let Some(line) = o.lines().into_iter().find(|x| x.starts_with(&l)) else {
            return Err(format!("`storm-cli {}` has no line {l:?}: {}", o.line, cap(&o.out)));
        };
        if !dup && !line[l.len()..].trim_start().starts_with(&human(total)) {
            return Err(format!("`storm-cli {}`: total size {} not in {line:?}", o.line, human(total)));
        }
        let shown: Vec<&FileEntry> = entries.iter().filter(|e| want.contains(&e.name)).collect();
        if !dup && !shown.is_empty() {
            let packed: u64 = shown.iter().map(|e| e.compressed_size).sum();
            let rest = line[l.len()..].trim_start()[human(total).len()..].trim_start();
            if !rest.starts_with(&human(packed)) {
                return Err(format!("`storm-cli {}`: total stored size {} not in {line:?}", o.line, human(packed)));
            }
            let percent = |s: &str| -> Option<f64> {
                let s = s.trim_end_matches(')').strip_suffix('%')?;
                s.rsplit(|c: char| c == '(' || c == ' ').next()?.parse().ok()
            };
            let near = |s: &str, want: f64, by: f64| percent(s).is_some_and(|p| (p - want).abs() <= by);
            let ratio = if total > 0 { packed as f64 / total as f64 * 100.0 } else { 100.0 };
            if !near(line.trim_end(), ratio, 1.0) {
                return Err(format!("`storm-cli {}`: total ratio {ratio:.2} % not in {line:?}", o.line));
            }
            if args.iter().any(|a| a == "-vv") {
                let saved = o.lines().into_iter().find(|x| x.starts_with("Space saved:"));
                let good = match saved {
                    None => total <= packed,
                    Some(x) => {
                        let d = total.saturating_sub(packed);
                        d > 0
                            && x["Space saved:".len()..].trim_start().starts_with(&human(d))
                            && near(x.trim_end(), d as f64 / total as f64 * 100.0, 0.11)
                    }
                };
                if !good {
                    return Err(format!("`storm-cli {}`: {total} bytes stored in {packed}, but {saved:?}", o.line));
                }
            }
            if args.iter().any(|a| a == "-vv") {
                c.class("list with statistics");
                for (what, f) in [("Compressed files:", F_COMPRESS), ("Encrypted files:", F_ENCRYPTED), ("Single unit files:", F_SINGLE)] {
                    let n = shown.iter().filter(|e| e.flags & f != 0).count();
                    let ok = o.lines().iter().any(|x| {
                        x.strip_prefix(what).is_some_and(|r| {
                            r.split_whitespace().next() == Some(&n.to_string())
                                && near(r.trim_end(), n as f64 / shown.len() as f64 * 100.0, 0.11)
                        })
                    });
                    if !ok {
                        return Err(format!("`storm-cli {}` does not say {what} {n}: {}", o.line, cap(&o.out)));
                    }
                }
            }
        }
        return Ok(());
    }
    let mut rows: Vec<(String, Option<(String, String)>)> = vec![];
    match fmt {
        0 => {
            let l = o.lines();
            let end = format!("Total: {} files", want.len());
            let Some(k) = l.iter().rposition(|x| *x == end) else {
                return Err(format!("`storm-cli {}` has no line {end:?}: {}", o.line, cap(&o.out)));
            };
            for x in &l[..k.saturating_sub(1)] {
                if hashes {
                    let (n, h) = x.rsplit_once(" [").unwrap_or((x, ""));
                    let h = h.trim_end_matches(']').split_once(' ').map(|(a, b)| (a.into(), b.into()));
                    rows.push((n.into(), h));
                } else {
                    rows.push((x.to_string(), None));
                }
            }
        }
        1 => {
            let v = o.json()?;
            for x in v.as_array().ok_or("list: JSON is no array")? {
                match x.as_str() {
                    Some(n) => rows.push((n.into(), None)),
                    None => rows.push((
                        x["name"].as_str().unwrap_or("?").into(),
                        x["hash1"].as_str().map(|h| (h.to_string(), x["hash2"].as_str().unwrap_or("").to_string())),
                    )),
                }
            }
        }
        _ => {
            if !want.iter().all(|n| plain_csv(n)) {
                return Ok(());
            }
            let l: Vec<&str> = o.out.lines().collect();
            let head = if entries.iter().any(|e| e.hashes.is_some() && want.contains(&e.name)) { "filename,hash1,hash2" } else { "filename" };
            if l.first() != Some(&head) {
                return Err(format!("`storm-cli {}`: heading {:?}", o.line, l.first()));
            }
            for x in &l[1..] {
                let mut f = x.split(',');
                let n = f.next().unwrap_or("").to_string();
                let h = f.next().zip(f.next()).map(|(a, b)| (a.to_string(), b.to_string()));
                rows.push((n, h));
            }
        }
    }
    let got = sorted(&rows.iter().map(|r| r.0.clone()).collect::<Vec<_>>());
    if got != want {
        return Err(wrong(&got));
    }
    if hashes {
        for (n, h) in &rows {
            let known = &hash_of[n];
            let h = h.clone().and_then(|(a, b)| Some((u32::from_str_radix(&a, 16).ok()?, u32::from_str_radix(&b, 16).ok()?)));
            if !known.is_empty() && !h.is_some_and(|h| known.contains(&h)) {
                return Err(format!("`storm-cli {}`: hashes {h:x?} of {n:?}, the library says {known:x?}", o.line));
            }
        }
    }
    Ok(())
}

fn m30_find(c: &mut Ctx, s: &Src, names: &[String]) -> Result<(), String> {
    let dir = c.dir.clone();
    let (regex, fold) = (c.t.bool(), c.t.bool());
    let (text, hit) = search(&mut c.t, names, regex, fold);
    if text.contains('\0') {
        return Ok(());
    }
    let ps = s.path.display().to_string();
    let mut args = vec!["file", "find"];
    if regex {
        args.push("-r");
    }
    if fold {
        args.push("-i");
    }
    let quiet = c.t.chance(1, 3);
    if quiet {
        args.push("-q");
    }
    args.extend(["--", &ps, &text]);
    c.class(if hit.is_empty() { "search without result" } else { "search" });
    c.describe(format!("find {text:?} regex={regex} fold={fold}"));
    let o = cli(c, &dir, &args)?;
    o.expect(true, "searching")?;
    let mut got: Vec<String> = o.out.lines().map(String::from).collect();
    if hit.is_empty() {
        if !got.iter().all(|l| l.starts_with("No files found")) {
            return Err(format!("`storm-cli {}` gives {got:?} where nothing matches", o.line));
        }
        return Ok(());
    }
    got.sort();
    let want = sorted(&hit);
    if got != want {
        return Err(format!("`storm-cli {}` gives {got:?} for {want:?}", o.line));
    }
    Ok(())
}

fn m30_file_info(c: &mut Ctx, s: &Src, a: &mut Archive) -> Result<(), String> {
    let dir = c.dir.clone();
    let n = if s.files.is_empty() || c.t.chance(1, 5) {
        name(&mut c.t, true)
    } else {
        let i = c.t.u(s.files.len());
        respell(&mut c.t, &s.files[i].name)
    };
    let want = a.read_file(&n).ok().map(|d| d.len() as u64);
    let fmt = c.t.u(3);
    let ps = s.path.display().to_string();
    c.describe(format!("info {n:?}"));
    let o = cli(c, &dir, &["-o", ["text", "json", "csv"][fmt], "file", "info", "--", &ps, &n])?;
    o.expect(want.is_some(), "file information")?;
    let Some(want) = want else { return Ok(()) };
    let got: Option<u64> = match fmt {
        0 => o
            .lines()
            .iter()
            .find_map(|l| l.strip_prefix("Size:")?.trim().strip_suffix("bytes")?.trim().parse().ok()),
        1 => {
            let v = o.json()?;
            if v["filename"].as_str() != Some(&n) {
                return Err(format!("`storm-cli {}`: file name {}", o.line, v["filename"]));
            }
            v["size"].as_u64()
        }
        _ => o.out.lines().nth(1).and_then(|l| l.rsplit(',').next()?.parse().ok()),
    };
    if got != Some(want) {
        return Err(format!("`storm-cli {}`: size {got:?}, the library reads {want} bytes", o.line));
    }
    Ok(())
}

fn m30_info(c: &mut Ctx, s: &Src, a: &mut Archive) -> Result<(), String> {
    let dir = c.dir.clone();
    let mut i = a.get_info().map_err(|e| format!("library: {e}"))?;
    let mut ps = s.path.display().to_string();
    if c.t.chance(1, 2) && std::fs::metadata(&s.path).is_ok_and(|m| m.len() < 1 << 22) {
        // elsewhere in a file, with user data, with an altered byte in a table
        let mut d = std::fs::read(&s.path).map_err(|e| e.to_string())?;
        if c.t.bool() {
            let tables = [
                Some(&i.hash_table_info),
                Some(&i.block_table_info),
                i.het_table_info.as_ref(),
                i.bet_table_info.as_ref(),
                i.hi_block_table_info.as_ref(),
            ];
            let at = match tables[c.t.u(5)] {
                Some(t) => t.offset as usize + c.t.u(24),
                None => 0x40 + c.t.u(0x90),
            };
            if let Some(b) = d.get_mut(at) {
                *b ^= 1 << c.t.u(8);
            }
        }
        let mut f = vec![0x2Eu8; 512 * c.t.u(4)];
        if c.t.bool() {
            let n = 512 * c.t.urange(1, 3);
            let mut u = b"MPQ\x1b".to_vec();
            for v in [c.t.u(n - 16) as u32, n as u32, 16] {
                u.extend(v.to_le_bytes());
            }
            u.resize(n, 0x55);
            f.extend(u);
        }
        f.extend(d);
        let p = c.path("info.mpq");
        std::fs::write(&p, &f).map_err(|e| e.to_string())?;
        if let Some(x) = Archive::open(&p).ok().and_then(|mut x| x.get_info().ok()) {
            if x.md5_status.as_ref().is_some_and(|m| {
                !(m.header_valid && m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid)
            }) {
                c.class("information about an altered archive");
            }
            if x.user_data_info.is_some() {
                c.class("information with user data");
            }
            i = x;
            ps = p.display().to_string();
        }
    }
    let fmt = c.t.u(3);
    let o = cli(c, &dir, &["archive", "info", &ps, "-o", ["text", "json", "csv"][fmt]])?;
    o.expect(true, "archive information")?;
    let status = format!("{:?}", i.signature_status);
    let version = i.format_version as u64 + 1;
    let bad = |what: &str, got: String, want: String| Err(format!("`storm-cli {}`: {what} is {got}, the library says {want}", o.line));
    if fmt == 1 {
        let v = o.json()?;
        let table = |t: &mopaq::TableInfo| {
            serde_json::json!({"size": t.size, "offset": t.offset, "compressed_size": t.compressed_size, "failed_to_load": t.failed_to_load})
        };
        let opt = |t: &Option<mopaq::TableInfo>| t.as_ref().map_or(Value::Null, table);
        let want: Vec<(&str, &Value, Value)> = vec![
            ("path", &v["path"], ps.clone().into()),
            ("file_size", &v["file_size"], i.file_size.into()),
            ("archive_offset", &v["archive_offset"], i.archive_offset.into()),
            ("format_version", &v["format_version"], version.into()),
            ("file_count", &v["file_count"], i.file_count.into()),
            ("max_file_count", &v["max_file_count"], i.max_file_count.into()),
            ("sector_size", &v["sector_size"], i.sector_size.into()),
            ("is_encrypted", &v["is_encrypted"], i.is_encrypted.into()),
            ("has_signature", &v["has_signature"], i.has_signature.into()),
            ("signature_status", &v["signature_status"], status.clone().into()),
            ("hash table", &v["tables"]["hash_table"], table(&i.hash_table_info)),
            ("block table", &v["tables"]["block_table"], table(&i.block_table_info)),
            ("HET table", &v["tables"]["het_table"], opt(&i.het_table_info)),
            ("BET table", &v["tables"]["bet_table"], opt(&i.bet_table_info)),
            ("hi-block table", &v["tables"]["hi_block_table"], opt(&i.hi_block_table_info)),
            ("has_attributes", &v["special_files"]["has_attributes"], i.has_attributes.into()),
            ("has_listfile", &v["special_files"]["has_listfile"], i.has_listfile.into()),
        ];
        for (k, g, w) in want {
            if *g != w {
                return bad(k, g.to_string(), w.to_string());
            }
        }
        let md5 = i.md5_status.as_ref().map_or(Value::Null, |m| {
            serde_json::json!({
                "header_valid": m.header_valid, "hash_table_valid": m.hash_table_valid,
                "block_table_valid": m.block_table_valid, "hi_block_table_valid": m.hi_block_table_valid,
                "het_table_valid": m.het_table_valid, "bet_table_valid": m.bet_table_valid,
            })
        });
        if v["md5_status"] != md5 {
            return bad("md5_status", v["md5_status"].to_string(), md5.to_string());
        }
        let user = i.user_data_info.as_ref().map_or(Value::Null, |u| {
            serde_json::json!({"header_size": u.header_size, "data_size": u.data_size})
        });
        if v["user_data"] != user {
            return bad("user_data", v["user_data"].to_string(), user.to_string());
        }
        return Ok(());
    }
    let (pairs, sep): (Vec<(&str, String)>, &str) = if fmt == 2 {
        (
            vec![
                ("path", ps.clone()),
                ("file_size", i.file_size.to_string()),
                ("archive_offset", i.archive_offset.to_string()),
                ("format_version", version.to_string()),
                ("file_count", i.file_count.to_string()),
                ("max_file_count", i.max_file_count.to_string()),
                ("sector_size", i.sector_size.to_string()),
                ("is_encrypted", i.is_encrypted.to_string()),
                ("has_signature", i.has_signature.to_string()),
                ("signature_status", status),
                ("has_attributes", i.has_attributes.to_string()),
                ("has_listfile", i.has_listfile.to_string()),
            ],
            ",",
        )
    } else {
        let yes = |b: bool| if b { "Present" } else { "Not present" }.to_string();
        (
            vec![
                ("Archive size", format!("{} bytes", human(i.file_size))),
                ("Archive offset", format!("0x{:X}", i.archive_offset)),
                ("Format version", format!("v{version}")),
                ("Number of files", i.file_count.to_string()),
                ("Maximum file capacity", i.max_file_count.to_string()),
                ("Sector size", format!("{} bytes", i.sector_size)),
                ("Encrypted", if i.is_encrypted { "Yes" } else { "No" }.to_string()),
                ("(attributes) file", yes(i.has_attributes)),
                ("(listfile) file", yes(i.has_listfile)),
            ],
            ": ",
        )
    };
    for (k, w) in pairs {
        let head = format!("{k}{sep}");
        let got = o.out.lines().find_map(|l| l.strip_prefix(head.as_str()));
        if got != Some(w.as_str()) {
            return bad(k, format!("{got:?}"), w);
        }
    }
    if fmt == 0 {
        // tables, digests and user data
        let (head, digests) = o.out.split_once("MD5 Checksums").unwrap_or((&o.out, ""));
        if digests.is_empty() != i.md5_status.is_none() {
            return bad("digest section", (!digests.is_empty()).to_string(), i.md5_status.is_some().to_string());
        }
        let row = |text: &str, k: &str| text.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix(": ").map(str::to_string));
        let table = |t: &mopaq::TableInfo| {
            let packed = t.compressed_size.map_or(String::new(), |n| format!(" (compressed: {n} bytes)"));
            if t.failed_to_load {
                format!("Failed to load{packed} @ 0x{:X}", t.offset)
            } else {
                let size = t.size.map_or("Unknown size".to_string(), |n| format!("{n} entries"));
                format!("{size} @ 0x{:X}{packed}", t.offset)
            }
        };
        let valid = |b: bool| if b { "Valid" } else { "Invalid" }.to_string();
        let m = i.md5_status.as_ref();
        let u = i.user_data_info.as_ref();
        let signature = match i.signature_status {
            SignatureStatus::None => "No signature",
            SignatureStatus::WeakValid => "Weak signature (Valid)",
            SignatureStatus::WeakInvalid => "Weak signature (Invalid)",
            SignatureStatus::StrongValid => "Strong signature (Valid)",
            SignatureStatus::StrongInvalid => "Strong signature (Invalid)",
            SignatureStatus::StrongNoKey => "Strong signature (No public key)",
        };
        let rows = [
            (head, "Digital signature", Some(signature.to_string())),
            (head, "Hash table", Some(table(&i.hash_table_info))),
            (head, "Block table", Some(table(&i.block_table_info))),
            (head, "HET table", i.het_table_info.as_ref().map(table)),
            (head, "BET table", i.bet_table_info.as_ref().map(table)),
            (head, "Hi-block table", i.hi_block_table_info.as_ref().map(table)),
            (head, "Header size", u.map(|u| format!("{} bytes", u.header_size))),
            (head, "Data size", u.map(|u| format!("{} bytes", u.data_size))),
            (digests, "MPQ header", m.map(|m| valid(m.header_valid))),
            (digests, "Hash table", m.map(|m| valid(m.hash_table_valid))),
            (digests, "Block table", m.map(|m| valid(m.block_table_valid))),
            (digests, "Hi-block table", m.map(|m| valid(m.hi_block_table_valid))),
            (digests, "HET table", m.map(|m| valid(m.het_table_valid))),
            (digests, "BET table", m.map(|m| valid(m.bet_table_valid))),
        ];
        for (text, k, w) in rows {
            if row(text, k) != w {
                return bad(k, format!("{:?}", row(text, k)), format!("{w:?}"));
            }
        }
    }
    Ok(())
}

fn m30_verify(c: &mut Ctx, s: &Src, a: &mut Archive) -> Result<(), String> {
    let dir = c.dir.clone();
    let er = |e: mopaq::Error| format!("library: {e}");
    // often with a few files' content altered
    let hurt = c.path("hurt.mpq");
    let mut other = None;
    if c.t.bool() {
        let mut d = std::fs::read(&s.path).map_err(|e| e.to_string())?;
        let names: Vec<String> = a.list().map_err(er)?.into_iter().map(|e| e.name).filter(|n| n != "(listfile)").collect();
        for _ in 0..c.t.urange(1, 6) {
            if names.is_empty() {
                break;
            }
            let n = &names[c.t.u(names.len())];
            if let Some(f) = a.find_file(n).map_err(er)? {
                if f.compressed_size > 0 {
                    let at = (f.file_pos + c.t.below(f.compressed_size)) as usize;
                    let v = c.t.below(256) as u8;
                    if let Some(b) = d.get_mut(at) {
                        *b ^= v;
                        c.describe(format!("byte {at:#x} of {n:?} changed by {v:#x}"));
                    }
                }
            }
        }
        std::fs::write(&hurt, &d).map_err(|e| e.to_string())?;
        if let Ok(mut x) = Archive::open(&hurt) {
            if x.list().is_ok() {
                other = Some(x);
            }
        }
    }
    let damaged = other.is_some();
    let a = other.as_mut().unwrap_or(a);
    let i = a.get_info().map_err(er)?;
    let names: Vec<String> = if i.has_listfile {
        a.list().map_err(er)?.into_iter().map(|e| e.name).collect()
    } else {
        vec![]
    };
    let contents = c.t.chance(2, 3);
    let mut bad: Vec<String> = vec![];
    let (mut found_n, mut readable) = (0, 0);
    for n in &names {
        if !matches!(a.find_file(n), Ok(Some(_))) {
            bad.push(n.clone());
            continue;
        }
        found_n += 1;
        if contents {
            match a.read_file(n) {
                Ok(_) => readable += 1,
                Err(_) => bad.push(n.clone()),
            }
        }
    }
    let ps = if damaged { &hurt } else { &s.path }.display().to_string();
    if names.len() > readable && contents {
        c.class("verification of damaged files");
    }
    let fmt = c.t.u(3);
    let mut args = vec!["archive", "verify", &ps, "-o", ["json", "csv", "text"][fmt]];
    if contents {
        args.push("--check-contents");
    }
    let verbose = c.t.chance(1, 3);
    if verbose {
        args.push("-v");
    }
    let o = cli(c, &dir, &args)?;
    o.sane()?;
    if verbose && fmt == 2 {
        c.class("verbose verification");
        for n in &names {
            let (yes, no) = (o.out.contains(&format!("✓ {n}")), o.out.contains(&format!("✗ {n}")));
            let same = |b: bool| names.iter().any(|m| m != n && m.starts_with(n.as_str()) && bad.contains(m) == b);
            let is_bad = bad.contains(n);
            if is_bad && (!no || yes && !same(false)) || !is_bad && (!yes || no && !same(true)) {
                return Err(format!("`storm-cli {}`: {n:?} is {}, but the report says: {}", o.line, if is_bad { "damaged" } else { "intact" }, cap(&o.out)));
            }
        }
    }
    let verified = if contents { readable } else { found_n } as u64;
    let want = [
        ("format_version", i.format_version as u64 + 1),
        ("total_files", names.len() as u64),
        ("verified_files", verified),
    ];
    let exp = [
        ("files_found", "Files Found:", found_n),
        ("files_readable", "Files Readable:", readable),
        ("files_missing", "Files Missing:", names.len() - found_n),
        ("files_corrupted", "Files Corrupted:", if contents { found_n - readable } else { 0 }),
    ];
    if fmt == 1 {
        for (k, w) in want {
            let got = o.out.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix(',')?.parse::<u64>().ok());
            if got != Some(w) {
                return Err(format!("`storm-cli {}`: {k} is {got:?}, expected {w}", o.line));
            }
        }
        return Ok(());
    }
    if fmt == 2 {
        let number = |k: &str| {
            o.out.lines().find_map(|l| l.trim().strip_prefix(k)?.split_whitespace().next()?.parse::<usize>().ok())
        };
        let more = [("", "Total Files:", names.len()), ("", "Verified:", verified as usize)];
        for (_, k, w) in exp.into_iter().chain(more) {
            if number(k) != Some(w) {
                return Err(format!("`storm-cli {}`: {k} {:?}, expected {w}", o.line, number(k)));
            }
        }
        return Ok(());
    }
    let v = o.json()?;
    for (k, w) in want {
        if v[k].as_u64() != Some(w) {
            return Err(format!("`storm-cli {}`: {k} is {}, expected {w}", o.line, v[k]));
        }
    }
    for (k, _, w) in exp {
        if v["file_checks"][k].as_u64() != Some(w as u64) {
            return Err(format!("`storm-cli {}`: {k} is {}, expected {w}", o.line, v["file_checks"][k]));
        }
    }
    // the errors name each file in question
    let errors: Vec<&str> = v["errors"].as_array().into_iter().flatten().filter_map(|e| e["file"].as_str()).collect();
    if let Some(n) = bad.iter().find(|n| !errors.contains(&n.as_str())) {
        return Err(format!("`storm-cli {}`: {n:?} is not among the errors {errors:?}", o.line));
    }
    if let Some(n) = names.iter().find(|n| !bad.contains(n) && errors.contains(&n.as_str()) && !n.starts_with('(')) {
        return Err(format!("`storm-cli {}`: {n:?} is intact but among the errors", o.line));
    }
    if v["passed"].as_bool() != Some(errors.is_empty()) {
        return Err(format!("`storm-cli {}`: passed is {} with errors {errors:?}", o.line, v["passed"]));
    }
    let m = &v["table_checks"]["md5_checksums"];
    if let Some(md5) = &i.md5_status {
        let w = [
            ("header_valid", md5.header_valid),
            ("hash_table_valid", md5.hash_table_valid),
            ("block_table_valid", md5.block_table_valid),
            ("hi_block_table_valid", md5.hi_block_table_valid),
            ("het_table_valid", md5.het_table_valid),
            ("bet_table_valid", md5.bet_table_valid),
        ];
        for (k, w) in w {
            if m[k].as_bool() != Some(w) {
                return Err(format!("`storm-cli {}`: {k} is {}, the library says {w}", o.line, m[k]));
            }
        }
    } else if !m.is_null() {
        return Err(format!("`storm-cli {}`: digests reported, the library has none", o.line));
    }
    Ok(())
}

fn m30_analyze(c: &mut Ctx, s: &Src, a: &mut Archive) -> Result<(), String> {
    let dir = c.dir.clone();
    let er = |e: mopaq::Error| format!("library: {e}");
    let entries = a.list_with_hashes().map_err(er)?;
    let (mut z, mut u, mut n) = (0u64, 0u64, 0u64);
    let mut found = vec![];
    for e in &entries {
        if let Some(f) = a.find_file(&e.name).map_err(er)? {
            z += f.compressed_size;
            u += f.file_size;
            n += 1;
            found.push((e.name.clone(), f.file_size, f.compressed_size));
        }
    }
    let ps = s.path.display().to_string();
    let fmt = c.t.u(3);
    let mut args = vec!["archive", "analyze", &ps, "-o", ["text", "json", "csv"][fmt]];
    let mut on = [false; 4];
    for (i, f) in ["-d", "-e", "-u", "-s"].into_iter().enumerate() {
        on[i] = c.t.bool();
        if on[i] {
            args.push(f);
        }
    }
    let [detailed, by_ext, only, stats] = on;
    let o = cli(c, &dir, &args)?;
    o.expect(true, "analysing")?;
    let bad = |what: &str, got: String, want: u64| Err(format!("`storm-cli {}`: {what} is {got}, expected {want}", o.line));
    match fmt {
        1 => {
            let v = o.json()?;
            for (k, w) in [("total_files", entries.len() as u64), ("total_compressed_size", z), ("total_uncompressed_size", u)] {
                if v[k].as_u64() != Some(w) {
                    return bad(k, v[k].to_string(), w);
                }
            }
            let ratio = if u > 0 { z as f64 / u as f64 * 100.0 } else { 100.0 };
            if !v["overall_compression_ratio"].as_f64().is_some_and(|r| (r - ratio).abs() < 0.02) {
                return Err(format!("`storm-cli {}`: overall ratio {}, expected {ratio:.2}", o.line, v["overall_compression_ratio"]));
            }
            for m in v["compression_methods"].as_object().into_iter().flat_map(|m| m.values()) {
                let p = m["count"].as_f64().unwrap_or(-1.0) / entries.len() as f64 * 100.0;
                if !m["percentage"].as_f64().is_some_and(|r| (r - p).abs() < 0.02) {
                    return Err(format!("`storm-cli {}`: {m}, expected {p:.2} %", o.line));
                }
            }
            // extensions of the plainest kind
            let plain = |n: &str| n.is_ascii() && n.matches('.').count() == 1 && !n.starts_with('.') && !n.ends_with('.');
            let ext = |n: &str| n.rsplit('.').next().unwrap().to_lowercase();
            if by_ext && found.iter().all(|f| plain(&f.0) && !f.0.contains(['/', '\\']) || !f.0.contains('.')) {
                let mut count: BTreeMap<String, u64> = BTreeMap::new();
                for f in found.iter().filter(|f| f.0.contains('.')) {
                    *count.entry(ext(&f.0)).or_default() += 1;
                }
                c.class("analysis by extension");
                for (x, k) in &count {
                    let got: u64 = v["by_extension"][x].as_object().into_iter().flat_map(|m| m.values()).filter_map(|x| x.as_u64()).sum();
                    if got != *k {
                        return bad(&format!("the number of files with extension {x:?}"), got.to_string(), *k);
                    }
                }
            }
            let sum: u64 = v["compression_methods"]
                .as_object()
                .map(|m| m.values().filter_map(|x| x["count"].as_u64()).sum())
                .unwrap_or(u64::MAX);
            if sum != n {
                return bad("the number of files over all methods", sum.to_string(), n);
            }
            let sum: u64 = v["by_extension"]
                .as_object()
                .map(|m| m.values().flat_map(|x| x.as_object().into_iter().flat_map(|y| y.values())).filter_map(|x| x.as_u64()).sum())
                .unwrap_or(u64::MAX);
            if sum != if by_ext { n } else { 0 } {
                return bad("the number of files over all extensions", sum.to_string(), n);
            }
        }
        2 => {
            let sum: u64 = o.out.lines().skip(1).filter_map(|l| l.rsplit(',').nth(1)?.parse::<u64>().ok()).sum();
            if sum != n {
                return bad("the number of files over all methods", sum.to_string(), n);
            }
        }
        _ if entries.is_empty() => {
            if !o.out.contains("No files found") {
                return Err(format!("`storm-cli {}`: {}", o.line, cap(&o.out)));
            }
        }
        _ => {
            c.class("analysis as text");
            let number = |l: &str| l.split_whitespace().find_map(|w| w.parse::<u64>().ok());
            // the summary of methods: "... N files (P%)", each N behind the method
            let lines = o.lines();
            let from = lines.iter().position(|l| l.contains("Compression Method Summary"));
            if from.is_some() == only {
                return Err(format!("`storm-cli {}`: summary of methods: {}", o.line, cap(&o.out)));
            }
            if let Some(k) = from {
                let sum: u64 = lines[k + 2..]
                    .iter()
                    .take_while(|l| l.contains(" files ("))
                    .filter_map(|l| l.split(" files (").next()?.split_whitespace().last()?.parse::<u64>().ok())
                    .sum();
                if sum != n {
                    return bad("the number of files over all methods", sum.to_string(), n);
                }
            }
            if stats && !only {
                for (k, w) in [("Total files:", entries.len() as u64), ("Total uncompressed:", u), ("Total compressed:", z)] {
                    let got = lines.iter().find_map(|l| number(l.strip_prefix(k)?));
                    if got != Some(w) {
                        return bad(k, format!("{got:?}"), w);
                    }
                }
                let ratio = if u > 0 { (z as f64 / u as f64 * 100.0) as u64 } else { 100 };
                let got = lines
                    .iter()
                    .find_map(|l| l.strip_prefix("Overall compression:")?.trim().strip_suffix('%')?.parse::<u64>().ok());
                if !got.is_some_and(|g| g.abs_diff(ratio) <= 1) {
                    return bad("Overall compression", format!("{got:?}"), ratio);
                }
            }
            if by_ext && n > 0 {
                let Some(k) = lines.iter().position(|l| l.contains("Compression by File Extension")) else {
                    return Err(format!("`storm-cli {}`: no extensions: {}", o.line, cap(&o.out)));
                };
                let sum: u64 = lines[k..]
                    .iter()
                    .filter_map(|l| l.strip_suffix(" files):")?.rsplit('(').next()?.parse::<u64>().ok())
                    .sum();
                if sum != n && entries.iter().all(|e| plain_csv(&e.name)) {
                    return bad("the number of files over all extensions", sum.to_string(), n);
                }
            }
            if detailed && !only {
                for (name, size, packed) in found.iter().filter(|e| plain_csv(&e.0)) {
                    let ok = lines.iter().any(|l| {
                        l.split_once(' ').is_some_and(|(_, r)| {
                            r.strip_prefix(name.as_str()).is_some_and(|r| !stats || {
                                let ratio = if *size > 0 { (*packed as f64 / *size as f64 * 100.0) as u64 } else { 100 };
                                (ratio.saturating_sub(1)..=ratio + 1).any(|x| r.contains(&format!("({size} -> {packed} bytes, {x}%)")))
                            })
                        })
                    });
                    if !ok {
                        return Err(format!("`storm-cli {}` has no line for {name:?} ({size} -> {packed} bytes): {}", o.line, cap(&o.out)));
                    }
                }
            }
        }
    }
    Ok(())
}

fn m30_hash(c: &mut Ctx, s: &Src) -> Result<(), String> {
    let dir = c.dir.clone();
    c.nontrivial();
    let pick = |c: &mut Ctx| -> String {
        match c.t.u(4) {
            0 if !s.files.is_empty() => s.files[c.t.u(s.files.len())].name.clone(),
            1 => part(&mut c.t),
            2 => {
                let odd = ["", "a\"b", "back\\slash", "q\\\"", "tab\t", "new\nline", "{}", "\u{1}", "é\"", "%s%n", "\\u0041", "(listfile)"];
                odd[c.t.u(odd.len())].to_string()
            }
            _ => name(&mut c.t, false),
        }
    };
    let n = pick(c);
    let hex = |s: &str| u32::from_str_radix(s.trim().trim_start_matches("0x"), 16).ok();
    const KINDS: [(&str, &str, u32); 5] = [
        ("table-offset", "Table offset:", 0),
        ("name-a", "Name A:", 1),
        ("name-b", "Name B:", 2),
        ("file-key", "File key:", 3),
        ("key2-mix", "Key2 mix:", 4),
    ];
    match c.t.u(4) {
        0 => {
            c.class("all hashes");
            let o = if c.t.bool() {
                cli(c, &dir, &["hash", "generate", "--", &n])?
            } else {
                cli(c, &dir, &["hash", "generate", "-a", "-t", "name-a", "--", &n])?
            };
            o.expect(true, "hashing")?;
            for (_, label, k) in KINDS {
                let got = o.out.lines().find_map(|l| hex(l.trim().strip_prefix(label)?));
                if got != Some(hash(&n, k)) {
                    return Err(format!("hash generate {n:?}: {label} {got:x?}, expected {:#x}", hash(&n, k)));
                }
            }
        }
        1 | 2 => {
            let (k, _, id) = KINDS[c.t.u(5)];
            let json = c.t.bool();
            c.class(if json { "one hash, JSON" } else { "one hash" });
            let o = cli(c, &dir, &["-o", if json { "json" } else { "text" }, "hash", "generate", "-t", k, "--", &n])?;
            o.expect(true, "hashing")?;
            let got = if json {
                let v = o.json()?;
                if v["filename"].as_str() != Some(&n) {
                    return Err(format!("hash generate {n:?}: file name {}", v["filename"]));
                }
                v["value"].as_str().and_then(hex)
            } else {
                hex(&o.out)
            };
            if got != Some(hash(&n, id)) {
                return Err(format!("hash generate -t {k} {n:?}: {got:x?}, expected {:#x}", hash(&n, id)));
            }
        }
        _ => {
            let m = if c.t.bool() { respell(&mut c.t, &n) } else { pick(c) };
            c.class("comparison");
            let o = cli(c, &dir, &["-v", "hash", "compare", "--", &n, &m])?;
            o.expect(true, "comparing")?;
            for (_, label, k) in KINDS {
                let (a, b) = (hash(&n, k), hash(&m, k));
                let Some(l) = o.out.lines().filter(|l| l.contains(" vs ")).find_map(|l| l.strip_prefix(label)) else {
                    return Err(format!("hash compare {n:?} {m:?}: no line for {label}"));
                };
                let mut w = l.split_whitespace();
                let got = (w.next().and_then(hex), w.nth(1).and_then(hex), w.next());
                let exp = (Some(a), Some(b), Some(if a == b { "[MATCH]" } else { "[DIFFER]" }));
                if got != exp {
                    return Err(format!("hash compare {n:?} {m:?}: {label} {got:x?}, expected {exp:x?}"));
                }
            }
        }
    }
    Ok(())
}

/// What is set in a configuration file is shown again, and invalid settings are refused
fn m30_config(c: &mut Ctx) -> Result<(), String> {
    let dir = c.dir.clone();
    let _ = std::fs::remove_file(c.path("conf.toml"));
    c.class("configuration");
    let mut model: BTreeMap<&str, String> = [
        ("default_compression", "zlib"),
        ("default_version", "1"),
        ("default_block_size", "3"),
        ("default_output", "text"),
    ]
    .into_iter()
    .map(|(k, v)| (k, v.to_string()))
    .collect();
    for _ in 0..c.t.urange(1, 4) {
        let (k, v, ok) = match c.t.u(5) {
            0 => {
                let v = ["none", "zlib", "bzip2", "lzma", "sparse", "pkware", "adpcm-mono", "adpcm-stereo", "rar", ""][c.t.u(10)];
                ("default_compression", v.to_string(), !["rar", ""].contains(&v))
            }
            1 => {
                let v = c.t.u(7);
                ("default_version", v.to_string(), (1..=4).contains(&v))
            }
            2 => {
                let v = [0, 1, 3, 22, 23, 24, 255, 65536, 70000][c.t.u(9)];
                ("default_block_size", v.to_string(), v <= 23)
            }
            3 => {
                let v = ["text", "json", "csv", "xml"][c.t.u(4)];
                ("default_output", v.to_string(), v != "xml")
            }
            _ => ("no_such_key", "x".to_string(), false),
        };
        let o = cli(c, &dir, &["-C", "conf.toml", "config", "set", k, &v])?;
        o.expect(ok, "setting a configuration value")?;
        if ok {
            model.insert(k, v);
        }
        if c.t.chance(1, 6) {
            cli(c, &dir, &["-C", "conf.toml", "config", "reset"])?.expect(true, "resetting")?;
            model.insert("default_compression", "zlib".into());
            model.insert("default_version", "1".into());
            model.insert("default_block_size", "3".into());
            model.insert("default_output", "text".into());
        }
    }
    let o = cli(c, &dir, &["-C", "conf.toml", "config", "show"])?;
    o.expect(true, "showing the configuration")?;
    for (label, k) in [
        ("Default compression:", "default_compression"),
        ("Default version:", "default_version"),
        ("Default block size:", "default_block_size"),
        ("Default output:", "default_output"),
    ] {
        let got = o.out.lines().find_map(|l| l.trim().strip_prefix(label)).map(str::trim);
        if got != Some(model[k].as_str()) {
            return Err(format!("config show: {label} {got:?}, set to {:?}", model[k]));
        }
    }
    Ok(())
}
