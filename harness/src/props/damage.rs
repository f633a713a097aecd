//! Damaged, signed, embedded and foreign archives: M08, M09, M10, M13, M14, M15, M16.
use super::lookup::*;
use crate::alloc::measured;
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use crate::sign;
use crate::tape::Tape;
use mopaq::special_files::{AttributeFlags, Attributes, FileAttributes};
use mopaq::{Archive, OpenOptions, SignatureStatus};
use std::collections::HashMap;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    let p = |id, level, rule, assumptions, run, quick, thorough| Prop {
        id,
        level,
        rule,
        assumptions,
        run,
        quick,
        thorough,
        mem_mb: 0,
        unprivileged: false,
    };
    vec![
        p(
            "M08",
            "fault_enumeration",
            "a case counts when at least one change was made to the stored bytes of a non-empty file; distinct by choice tape",
            &["Adler-32 collisions are tolerated sector by sector", "files of up to 20 KB, some of the scale kind"],
            m08,
            72_000,
            600_000,
        ),
        p(
            "M09",
            "fault_enumeration",
            "a case counts when a signed archive was verified and then changed; distinct by choice tape",
            &["the strong scheme's private key is unknown: a test key is substituted by the vp_hooks cfg", "archives of up to about 400 KB, some of 1 to 20 MB"],
            m09,
            12_000,
            100_000,
        ),
        p(
            "M10",
            "exploration",
            "a case counts when the mutated file still contains an archive signature; distinct by choice tape",
            &["declared file sizes of up to 64 MiB for streams that may legitimately expand"],
            m10,
            180_000,
            2_000_000,
        ),
        p(
            "M13",
            "exploration",
            "a case counts when the archive holds at least one file and does not start at byte 0; distinct by choice tape",
            &["preceding data of up to 20 KB"],
            m13,
            36_000,
            300_000,
        ),
        p(
            "M14",
            "exploration",
            "a case counts when attributes of at least one kind for at least one file were compared; distinct by choice tape",
            &["up to 300 files"],
            m14,
            72_000,
            600_000,
        ),
        p(
            "M15",
            "fault_enumeration",
            "a case counts when at least one byte of a table or of the header was changed; distinct by choice tape",
            &["MD5 collisions do not occur"],
            m15,
            36_000,
            300_000,
        ),
        p(
            "M16",
            "exploration",
            "a case counts when the archive holds at least one non-empty file; distinct by choice tape",
            &["the independent writer follows the repository's documentation of the format where published descriptions differ"],
            m16,
            72_000,
            600_000,
        ),
    ]
}

// ------------------------------------------------------------------ M08

/// Changes bytes in a range; false if nothing changed
fn tamper(t: &mut Tape, d: &mut [u8], lo: usize, hi: usize, special: &[(usize, usize)]) -> (bool, String) {
    let before = d[lo..hi].to_vec();
    let n = hi - lo;
    // half of the time aim at a particular part (offset table, checksums)
    let (a, b) = if !special.is_empty() && t.bool() {
        *t.pick(special)
    } else {
        (lo, hi)
    };
    let m = (b - a).max(1);
    let s = match t.u(9) {
        0 => {
            let p = a + t.u(m);
            let k = t.u(8);
            d[p] ^= 1 << k;
            format!("bit {k} of byte {}", p - lo)
        }
        1 => {
            let p = a + t.u(m);
            let v = t.below(256) as u8;
            d[p] = v;
            format!("byte {} = {v:#x}", p - lo)
        }
        2 => {
            let p = a + t.u(m);
            let l = t.urange(1, 40).min(hi - p);
            let mut r = t.sub();
            for x in &mut d[p..p + l] {
                *x = r.below(256) as u8;
            }
            format!("{l} random bytes at {}", p - lo)
        }
        3 => {
            let p = a + t.u(m);
            let l = if t.bool() { t.urange(1, 600).min(hi - p) } else { hi - p };
            let v = if t.bool() { 0 } else { 0xFF };
            d[p..p + l].fill(v);
            format!("{l} bytes {v:#x} at {}", p - lo)
        }
        4 => {
            // swap two ranges
            let l = t.urange(1, (n / 2).clamp(1, 520)).min(n / 2);
            if l > 0 {
                let p = lo + t.u(n - 2 * l + 1);
                let q = p + l + t.u(hi - l - (p + l) + 1);
                for i in 0..l {
                    d.swap(p + i, q + i);
                }
            }
            format!("swapped ranges of {l} bytes")
        }
        5 => {
            // copy one range over another
            let l = t.urange(1, 520).min(n);
            let p = lo + t.u(n - l + 1);
            let q = lo + t.u(n - l + 1);
            d.copy_within(p..p + l, q);
            format!("{l} bytes copied")
        }
        6 => {
            // add to a 32-bit word
            if m >= 4 {
                let p = a + t.u(m / 4) * 4;
                let w = g32(d, p).unwrap_or(0);
                let v = *t.pick(&[1u32, 4, 8, 512, 0x100, !0, !3, !7, 0x8000_0000]);
                if p + 4 <= hi {
                    d[p..p + 4].copy_from_slice(&w.wrapping_add(v).to_le_bytes());
                }
            }
            "word changed".into()
        }
        7 => {
            // several scattered bits
            for _ in 0..t.urange(2, 6) {
                let p = a + t.u(m);
                d[p] ^= 1 << t.u(8);
            }
            "scattered bits".into()
        }
        _ => {
            // rotate a range
            let p = a + t.u(m);
            let l = t.urange(2, 64).min(hi - p);
            if l > 1 {
                d[p..p + l].rotate_left(1);
            }
            format!("rotated {l} bytes at {}", p - lo)
        }
    };
    (d[lo..hi] != before[..], s)
}

/// Sector offsets exactly as in a file that is flagged for checksums but carries no table of them
fn looks_tableless(stored: &[u8], b: &Block, n: usize, name: &str) -> bool {
    let mut t = stored[..4 * (n + 1)].to_vec();
    if b.flags & F_ENCRYPTED != 0 {
        decrypt_file(&mut t, file_key(name, b.pos, b.fsize, b.flags).wrapping_sub(1));
    }
    let at = |i: usize| g32(&t, 4 * i).unwrap_or(0) as u64;
    n > 1 && at(0) < 4 * (2 * n as u64 + 1) && at(n) <= b.csize as u64
}

/// The known finding, reproduced: all sector offsets moved down by the size of the checksum table
fn m08_tableless(c: &mut Ctx) -> Result<(), String> {
    let path = c.path("known.mpq");
    let data: Vec<u8> = (0..1500u32).map(|i| (i.wrapping_mul(2654435761) >> 24) as u8).collect();
    mopaq::ArchiveBuilder::new()
        .generate_crcs(true)
        .block_size(0)
        .listfile_option(mopaq::ListfileOption::None)
        .default_compression(0)
        .add_file_data(data.clone(), "f")
        .build(&path)
        .map_err(|e| e.to_string())?;
    let mut d = std::fs::read(&path).map_err(|e| e.to_string())?;
    let r = Ref::parse(&d)?;
    let p = r.blocks[0].pos as usize;
    for i in 0..4 {
        let v = g32(&d, p + 4 * i)?;
        put32(&mut d, p + 4 * i, v.wrapping_sub(12));
    }
    std::fs::write(&path, &d).map_err(|e| e.to_string())?;
    match open(&path)?.read_file("f") {
        Ok(x) if x != data => c.known("M08", "tableless", "shifted sector offsets: other content without an error".into()),
        _ => Ok(()),
    }
}

fn m08(c: &mut Ctx) -> Result<(), String> {
    if c.case == 0 {
        m08_tableless(c)?;
    }
    let o = GenOpt {
        max_files: 4,
        max_size: 9_000,
        crcs: Some(true),
        ..Default::default()
    };
    let big = scale(c, 1997);
    let mut g = match big {
        Some(k) => GArchive { crcs: true, ..bulk_archive(&mut c.t, 16 + k % 8) },
        None => archive(&mut c.t, &o),
    };
    if big.is_none() && c.t.chance(2, 3) {
        g.shift = c.t.u(2) as u16;
    }
    // sectors of different content but equal arrangement make swaps interesting
    if big.is_none() && c.t.chance(1, 6) && !g.files.is_empty() {
        let i = c.t.u(g.files.len());
        let mut r = c.t.sub();
        g.shift = g.shift.min(3);
        let n = c.t.urange(2, 12) * (512 << g.shift);
        g.files[i].data = r.bytes(n);
    }
    note(c, &g);
    let path = c.path("a.mpq");
    g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
    let clean = std::fs::read(&path).map_err(|e| e.to_string())?;
    let r = Ref::parse(&clean)?;
    let mut names: Vec<String> = g.files.iter().map(|f| f.name.clone()).collect();
    if g.listfile != LF::None {
        names.push("(listfile)".into());
    }
    // name -> (block, content) as the library finds it
    let mut a = open(&path)?;
    let mut files = vec![];
    for n in &names {
        let i = a
            .find_file(n)
            .map_err(|e| e.to_string())?
            .ok_or_else(|| format!("{n:?} not found"))?;
        let d = a.read_file(n).map_err(|e| format!("reading {n:?} failed: {e}"))?;
        files.push((n.clone(), i.block_index, d));
    }
    drop(a);
    let cands: Vec<usize> = (0..files.len()).filter(|&i| !files[i].2.is_empty()).collect();
    if cands.is_empty() {
        return Ok(());
    }
    let trials = c.t.urange(1, 6);
    for _ in 0..trials {
        let k = cands[c.t.u(cands.len())];
        let (nm, bi, want) = &files[k];
        let b = r.blocks[*bi];
        if b.flags & F_CRC == 0 {
            return Err(format!("{nm:?} was stored without checksum"));
        }
        let lo = b.pos as usize;
        let hi = lo + stored_len(&b, r.sector()) as usize;
        let n = want.len().div_ceil(r.sector());
        let special: Vec<(usize, usize)> = if b.flags & F_SINGLE != 0 {
            vec![(hi - 4, hi), (lo, lo + 1)]
        } else {
            vec![(lo, lo + 4), (lo, lo + 4 * (n + 1)), (lo + 4 * (n + 1), lo + 4 * (2 * n + 1))]
        };
        let mut bytes = clean.clone();
        let (mut changed, mut what) = tamper(&mut c.t, &mut bytes, lo, hi, &special);
        if c.t.chance(1, 4) {
            // damage in two places
            let (_, w) = tamper(&mut c.t, &mut bytes, lo, hi, &special);
            what = format!("{what} and {w}");
            changed = bytes[lo..hi] != clean[lo..hi];
        }
        if !changed {
            continue;
        }
        c.nontrivial();
        c.evals += 1;
        c.class(if b.flags & F_SINGLE != 0 { "single unit" } else { "sectored" });
        std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
        let mut a = open(&path)?;
        match a.read_file(nm) {
            Err(_) => c.class("reported"),
            Ok(d) if d == *want => c.class("harmless"),
            Ok(d) => {
                // only content that matches the (possibly altered) checksum excuses a difference
                let single = b.flags & F_SINGLE != 0;
                let s = if single { d.len().max(1) } else { r.sector() };
                let sum = |i: usize| g32(&bytes, if single { hi - 4 } else { lo + 4 * (n + 1) + 4 * i });
                let collision = d.len() == want.len()
                    && d.chunks(s)
                        .zip(want.chunks(s))
                        .enumerate()
                        .all(|(i, (x, y))| x == y || sum(i).ok() == Some(adler32(x)));
                if collision {
                    c.class("checksum collision");
                } else {
                    let msg = format!(
                        "{nm:?} ({} bytes at {lo:#x}, flags {:#x}) after {what}: other content without an error: {}",
                        hi - lo,
                        b.flags,
                        diff(&d, want)
                    );
                    if single || !looks_tableless(&bytes[lo..hi], &b, n, nm) {
                        return Err(msg);
                    }
                    c.known("M08", "tableless", msg)?;
                }
            }
        }
        for (nm2, bi2, want2) in &files {
            if bi2 == bi {
                continue;
            }
            match a.read_file(nm2) {
                Ok(d) if d == *want2 => {}
                Ok(d) => return Err(format!("untouched {nm2:?} changed: {}", diff(&d, want2))),
                Err(e) => return Err(format!("untouched {nm2:?} unreadable after a change to {nm:?}: {e}")),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M09

/// Data that contains no archive or user-data signature at a multiple of 512
pub fn filler(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut d = content(t, n);
    for p in (0..n).step_by(512) {
        if d[p] == b'M' {
            d[p] = b'm';
        }
    }
    d
}

/// Contents with a signature file; returns the archive's bytes and the position of the signature file
pub fn signable(c: &mut Ctx, weak: bool) -> Result<(Vec<u8>, Option<u64>, u16), String> {
    let o = GenOpt {
        max_files: 4,
        max_size: 5_000,
        crcs: if weak { Some(false) } else { None },
        ..Default::default()
    };
    let sig = |len: usize| vec![0u8; len];
    if c.t.bool() {
        let mut g = archive(&mut c.t, &o);
        if weak {
            let at = c.t.u(g.files.len() + 1);
            g.files.insert(
                at,
                GFile {
                    name: "(signature)".into(),
                    data: sig(72),
                    method: 0,
                    default_method: false,
                    mode: Mode::Plain,
                    locale: 0,
                    from_disk: false,
                },
            );
        }
        let long = scale(c, 601).is_some();
        if long || c.t.chance(1, 4) {
            let n = if long { c.t.urange(1 << 20, 20 << 20) } else { c.t.urange(50_000, 140_000) };
            g.files.push(GFile {
                name: "big.bin".into(),
                data: content(&mut c.t, n),
                method: 0,
                default_method: false,
                mode: Mode::Plain,
                locale: 0,
                from_disk: false,
            });
        }
        c.describe(g.describe());
        let p = c.path("s.mpq");
        g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
        let b = std::fs::read(&p).map_err(|e| e.to_string())?;
        let r = Ref::parse(&b)?;
        let pos = r.find("(signature)").first().map(|(_, e)| r.blocks[e.block as usize].pos);
        let v = r.hdr.version;
        return Ok((b, pos, v));
    }
    let (mut files, mut l) = foreign_spec(c, &o, false);
    let n0 = files.len();
    if weak {
        let mut f = WFile::plain("(signature)", sig(72));
        f.single = c.t.bool();
        if c.t.bool() {
            // near a 64 KiB boundary of the digest's chunks
            let d = c.t.urange(0, 160);
            f.gap = (65_536 * c.t.urange(1, 3) - d) as u64;
            if c.t.bool() {
                // exactly at header + gap: first in the archive
                f.gap -= [32, 44, 68, 208][l.version as usize];
                l.order.retain(|p| *p != Part::Files);
                l.order.insert(0, Part::Files);
                l.gaps[0] = 0;
                files.insert(0, f);
            } else {
                files.push(f);
            }
        } else {
            files.push(f);
        }
    }
    let grow = files.len() - n0;
    if grow > 0 {
        // the layout was drawn for one file less
        let mut b: Vec<usize> = l.block_of.clone();
        b.push(l.block_count);
        l.block_of = b;
        l.block_count += 1;
        l.insert.push(n0);
        while (l.hash_size as usize) < files.len() + l.occupied.len() {
            l.hash_size *= 2;
        }
    }
    let w = write_archive(&files, &l);
    let b = w.bytes();
    let pos = files
        .iter()
        .position(|f| f.name == "(signature)")
        .map(|i| w.blocks[l.block_of[i]].pos);
    Ok((b, pos, l.version))
}

fn status(p: &Path) -> Result<Option<(SignatureStatus, SignatureStatus)>, String> {
    let Ok(mut a) = Archive::open(p) else {
        return Ok(None);
    };
    let Ok(s) = a.verify_signature() else {
        return Ok(None);
    };
    let Ok(i) = a.get_info() else {
        return Ok(None);
    };
    Ok(Some((s, i.signature_status)))
}

fn valid(s: &SignatureStatus) -> bool {
    matches!(s, SignatureStatus::WeakValid | SignatureStatus::StrongValid)
}

/// A reader that hands out at most a few bytes at a time, as sockets and pipes do
struct Dribble {
    inner: std::io::Cursor<Vec<u8>>,
    most: usize,
}

impl std::io::Read for Dribble {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most);
        self.inner.read(&mut b[..n])
    }
}

impl std::io::Seek for Dribble {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

/// The verification functions on their own, over any bytes and any excluded range
fn m09_direct(c: &mut Ctx) -> Result<(), String> {
    use mopaq::crypto::*;
    let n = match c.t.u(3) {
        0 => c.t.urange(1, 600),
        1 => (65_536 * c.t.urange(1, 3)) + c.t.u(5) - 2,
        _ => c.t.urange(1, 200_000),
    };
    let data = content(&mut c.t, n);
    let most = if c.t.bool() { usize::MAX } else { 1 << c.t.urange(6, 17) };
    let scheme = c.t.u(3);
    // the signed range within the data, and the range within it that counts as zeros
    let from = if scheme == 0 && c.t.bool() { c.t.u(n) } else { 0 };
    let to = if c.t.bool() { n } else { from + c.t.u(n - from + 1) };
    let (x0, x1) = if scheme == 0 {
        let a = if c.t.bool() { from + c.t.u(to - from + 1) } else { (from + 65_536).saturating_sub(c.t.u(100)) };
        (a, a + [0, 1, 64, 72, 72, 300][c.t.u(6)])
    } else {
        (0, 0)
    };
    let signed = |d: &[u8]| {
        let mut v = d[from..to].to_vec();
        for (i, b) in v.iter_mut().enumerate() {
            if (x0..x1).contains(&(from + i)) {
                *b = 0;
            }
        }
        v
    };
    let make = |d: &[u8]| match scheme {
        2 => sign::strong_of(&signed(d), |_| {})[4..].to_vec(),
        _ => sign::weak_of_digest(md5(&signed(d)), |_| {}),
    };
    let check = |d: &[u8], s: &[u8]| -> Result<bool, String> {
        let r = Dribble { inner: std::io::Cursor::new(d.to_vec()), most };
        let l = (to - from) as u64;
        match scheme {
            0 => verify_weak_signature_stormlib(
                r,
                s,
                &SignatureInfo::new_weak(from as u64, l, x0 as u64, (x1 - x0) as u64, s.to_vec()),
            ),
            1 => verify_weak_signature(r, s, l),
            _ => verify_strong_signature(r, s, l),
        }
        .map_err(|e| e.to_string())
    };
    let name = ["verify_weak_signature_stormlib", "verify_weak_signature", "verify_strong_signature"][scheme];
    c.describe(format!("{name} over {n} bytes, signed [{from}, {to}), zeros [{x0}, {x1}), {most} bytes at a time"));
    c.class(format!("direct {name}"));
    c.nontrivial();
    let sig = make(&data);
    c.evals += 1;
    match check(&data, &sig) {
        Ok(true) => (),
        o => return Err(format!("{name}: a valid signature is answered {o:?}")),
    }
    for _ in 0..4 {
        let mut d = data.clone();
        let mut s = sig.clone();
        let want;
        let what;
        if c.t.chance(1, 3) {
            let p = c.t.u(s.len());
            s[p] ^= 1 << c.t.u(8);
            want = false;
            what = format!("signature byte {p}");
        } else {
            let p = match c.t.u(4) {
                0 => to.saturating_sub(c.t.u(3)).min(n - 1),
                1 => (65_536 + c.t.u(5)).saturating_sub(2).min(n - 1),
                _ => c.t.u(n),
            };
            d[p] ^= 1 << c.t.u(8);
            want = signed(&d) == signed(&data);
            what = format!("byte {p}");
        }
        c.evals += 1;
        let got = check(&d, &s);
        if matches!(got, Ok(true)) != want {
            return Err(format!("{name}: after a change of {what} the signature is answered {got:?}"));
        }
    }
    Ok(())
}

fn m09(c: &mut Ctx) -> Result<(), String> {
    sign::use_test_key();
    if c.t.chance(1, 6) {
        return m09_direct(c);
    }
    let (weak, strong) = [(true, false), (false, true), (true, true), (false, false)][c.t.weighted(&[5, 4, 2, 2])];
    let (mut arch, pos, _) = signable(c, weak)?;
    let pos = pos.map(|p| p as usize);
    if weak {
        let p = pos.ok_or("no signature file")?;
        if c.t.bool() {
            let mut r = c.t.sub();
            let h = r.bytes(8);
            arch[p..p + 8].copy_from_slice(&h);
        }
        let s = sign::weak_of(&arch, p, 72, |_| {});
        arch[p + 8..p + 72].copy_from_slice(&s);
    }
    let n = arch.len();
    let k = if c.t.bool() { 512 * c.t.urange(1, 20) } else { 0 };
    let mut file = filler(&mut c.t, k);
    file.extend(&arch);
    if strong {
        file.extend(sign::strong_of(&arch, |_| {}));
    }
    let tail = if c.t.bool() { c.t.u(700) } else { 0 };
    if tail > 0 {
        let mut d = content(&mut c.t, tail);
        if d.starts_with(b"NGIS") {
            d[0] = 0;
        }
        file.extend(d);
    }
    let path = c.path("a.mpq");
    c.describe(format!("weak {weak} strong {strong} offset {k} archive {n} bytes, signature file at {pos:?}, {tail} bytes behind"));
    c.class(format!("weak {weak} strong {strong}"));
    let want = match (weak, strong) {
        (_, true) => SignatureStatus::StrongValid,
        (true, _) => SignatureStatus::WeakValid,
        _ => SignatureStatus::None,
    };
    std::fs::write(&path, &file).map_err(|e| e.to_string())?;
    let got = status(&path)?;
    c.evals += 1;
    if got.as_ref().map(|x| &x.0) != Some(&want) || got.as_ref().map(|x| &x.1) != Some(&want) {
        return Err(format!("status {got:?} (verify_signature, get_info), expected {want:?}"));
    }
    if !weak && !strong {
        // a signature file without a signature in it
        return Ok(());
    }
    c.nontrivial();
    for _ in 0..c.t.urange(2, 8) {
        let mut f = file.clone();
        let (what, expect_valid): (String, Option<bool>) = match c.t.weighted(&[5, 3, 2, 1, 1, 3]) {
            5 => {
                // the right key, but not the scheme's encoding of the digest
                let l = if strong { 256 } else { 64 };
                let kind = c.t.u(4);
                let i = match c.t.u(5) {
                    0 | 1 => l - 1 - c.t.u(24),
                    2 => c.t.u(4),
                    _ => c.t.u(l),
                };
                let j = if c.t.bool() { i } else { c.t.u(l) };
                let bit = c.t.u(8);
                let mut before = vec![];
                let mut after = vec![];
                let bend = |m: &mut Vec<u8>| {
                    before = m.clone();
                    match kind {
                        0 | 1 => m[i] ^= 1 << bit,
                        2 => m.swap(i, j),
                        // the encoded digest moved, so that something stands behind it
                        _ => {
                            let x = m.remove(2);
                            m.push(x);
                        }
                    }
                    after = m.clone();
                };
                if strong {
                    let w = sign::strong_of(&arch, bend);
                    f[k + n..k + n + 260].copy_from_slice(&w);
                } else {
                    let s = pos.unwrap();
                    let w = sign::weak_of(&arch, s, 72, bend);
                    f[k + s + 8..k + s + 72].copy_from_slice(&w);
                }
                if before == after {
                    continue;
                }
                c.class("forged encoding");
                (format!("encoding forged ({kind}, bytes {i} and {j})"), Some(false))
            }
            0 => {
                // a signed byte
                let mut p = c.t.u(n);
                if c.t.chance(1, 3) {
                    // near the ends, the signature and the chunk boundaries
                    p = match c.t.u(4) {
                        0 => c.t.u(32),
                        1 => n - 1 - c.t.u(16.min(n)),
                        2 => (pos.unwrap_or(0) + 80).saturating_sub(c.t.u(90)).min(n - 1),
                        _ => (65_536 * c.t.urange(1, 4) + 4).saturating_sub(c.t.u(9)).min(n - 1),
                    };
                }
                if weak && !strong {
                    // the first eight bytes of the signature file are not covered
                    let s = pos.unwrap();
                    if p >= s && p < s + 72 {
                        continue;
                    }
                }
                f[k + p] ^= 1 << c.t.u(8);
                (format!("archive byte {p}"), Some(false))
            }
            1 => {
                // the signature itself
                let (s, l) = if strong { (k + n + 4, 256) } else { (k + pos.unwrap() + 8, 64) };
                let p = s + c.t.u(l);
                f[p] ^= 1 << c.t.u(8);
                (format!("signature byte {}", p - s), Some(false))
            }
            2 => {
                // bytes outside
                let lo = k + n + if strong { 260 } else { 0 };
                let out: Vec<usize> = (0..k).chain(lo..f.len()).collect();
                if out.is_empty() {
                    continue;
                }
                let p = out[c.t.u(out.len())];
                f[p] ^= 1 << c.t.u(8);
                // not by chance an archive or a strong signature
                if f[p] == b'M' || f[lo..].starts_with(b"NGIS") {
                    continue;
                }
                (format!("outside byte {p}"), Some(true))
            }
            3 => {
                // more or less behind it
                if c.t.bool() {
                    f.extend(vec![0x11; c.t.urange(1, 300)]);
                } else {
                    f.truncate(k + n + if strong { 260 } else { 0 });
                }
                if !strong && f.len() > k + n && f[k + n..].starts_with(b"NGIS") {
                    continue;
                }
                ("length behind the archive".into(), Some(true))
            }
            _ => {
                // a signature over other data
                let mut other = arch.clone();
                let p = c.t.u(n);
                if weak && !strong {
                    let s = pos.unwrap();
                    if p >= s && p < s + 72 {
                        continue;
                    }
                    other[p] ^= 1;
                    let w = sign::weak_of(&other, s, 72, |_| {});
                    f[k + s + 8..k + s + 72].copy_from_slice(&w);
                } else {
                    other[p] ^= 1;
                    let w = sign::strong_of(&other, |_| {});
                    f[k + n..k + n + 260].copy_from_slice(&w);
                }
                ("signature of other data".into(), Some(false))
            }
        };
        std::fs::write(&path, &f).map_err(|e| e.to_string())?;
        let got = status(&path)?;
        c.evals += 1;
        match expect_valid {
            Some(true) => {
                if got.as_ref().map(|x| (&x.0, &x.1)) != Some((&want, &want)) {
                    return Err(format!("after changing {what}: {got:?}, expected {want:?}"));
                }
            }
            _ => {
                if let Some((a, b)) = &got {
                    if a == &want || b == &want || (strong && !weak && (valid(a) || valid(b))) {
                        return Err(format!("after changing {what}: still {a:?} / {b:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M10

fn interesting(t: &mut Tape) -> u64 {
    match t.u(9) {
        0 => t.below(8),
        1 => 0xFFFF_FFFF,
        2 => 0xFFFF_FFFE,
        3 => 0x8000_0000 >> t.u(24),
        4 => t.any32() as u64,
        5 => 1 << t.u(20),
        6 => t.below(70_000),
        7 => t.any64() >> t.u(64),
        _ => u64::MAX - t.below(600),
    }
}

pub fn put32(d: &mut [u8], p: usize, v: u32) {
    if p + 4 <= d.len() {
        d[p..p + 4].copy_from_slice(&v.to_le_bytes());
    }
}
fn put64(d: &mut [u8], p: usize, v: u64) {
    if p + 8 <= d.len() {
        d[p..p + 8].copy_from_slice(&v.to_le_bytes());
    }
}

fn with_plain(d: &mut [u8], pos: usize, len: usize, key: &str, f: impl FnOnce(&mut [u8])) {
    if pos.checked_add(len).is_some_and(|e| e <= d.len()) {
        let s = &mut d[pos..pos + len];
        let k = hash(key, H_KEY);
        decrypt_table(s, k);
        f(s);
        encrypt_table(s, k);
    }
}

/// One structured change; `h` is the header of the unchanged archive
pub fn corrupt(t: &mut Tape, d: &mut Vec<u8>, h: &Hdr, blocks: &[Block]) -> String {
    if d.len() < 32 {
        return "too short".into();
    }
    match t.weighted(&[4, 5, 5, 4, 4, 3, 2, 2, 1, 2]) {
        0 => {
            // header field
            let f32s = [4usize, 8, 12, 14, 16, 20, 24, 28, 40, 108];
            let f64s = [32usize, 44, 52, 60, 68, 76, 84, 92, 100];
            let v = interesting(t);
            if t.bool() || h.version == 0 {
                let p = *t.pick(&f32s);
                if p == 12 || p == 14 || p == 40 {
                    if p + 2 <= d.len() {
                        d[p..p + 2].copy_from_slice(&(v as u16).to_le_bytes());
                    }
                } else {
                    put32(d, p, v as u32);
                }
                format!("header field {p} = {v:#x}")
            } else {
                let p = *t.pick(&f64s);
                // sometimes close to the truth
                let v = if t.bool() {
                    v
                } else {
                    g64(d, p).unwrap_or(0).wrapping_add(t.below(64)).wrapping_sub(32)
                };
                put64(d, p, v);
                format!("header field {p} = {v:#x}")
            }
        }
        1 => {
            // hash entry
            let n = h.hash_n as usize;
            if n == 0 {
                return "no hash table".into();
            }
            let (i, f) = (t.u(n), t.u(3));
            let v = interesting(t);
            with_plain(d, h.hash_pos as usize, n * 16, "(hash table)", |s| {
                put32(s, i * 16 + [12, 8, 0][f], v as u32)
            });
            format!("hash entry {i} field {f} = {v:#x}")
        }
        2 => {
            // block entry
            let n = h.block_n as usize;
            if n == 0 {
                return "no block table".into();
            }
            let (i, f) = (t.u(n), t.u(4));
            let mut v = interesting(t);
            if f == 2 {
                v &= 0x3FF_FFFF;
            }
            let flip = t.u(32);
            with_plain(d, h.block_pos as usize, n * 16, "(block table)", |s| {
                if f == 3 {
                    let w = g32(s, i * 16 + 12).unwrap_or(0);
                    put32(s, i * 16 + 12, w ^ (1 << flip) | F_EXISTS)
                } else {
                    put32(s, i * 16 + 4 * f, v as u32)
                }
            });
            format!("block entry {i} field {f} = {v:#x} / bit {flip}")
        }
        3 | 4 => {
            // extended table
            let het = t.bool();
            let (pos, key, fields) = if het {
                (h.het_pos as usize, "(hash table)", 8)
            } else {
                (h.bet_pos as usize, "(block table)", 19)
            };
            if pos == 0 {
                let p = t.u(d.len());
                d[p] ^= 1 << t.u(8);
                return format!("byte {p}");
            }
            let end = match &h.v4 {
                Some(v) => pos + if het { v.het } else { v.bet } as usize,
                None if het => h.bet_pos as usize,
                None => h.hash_pos as usize,
            };
            let v = interesting(t);
            if t.chance(1, 4) {
                let f = t.u(3);
                put32(d, pos + 4 * f, v as u32);
                return format!("extended table head {f} = {v:#x}");
            }
            let f = t.u(fields + 3);
            let near = t.bool();
            let delta = t.below(9);
            let len = end.saturating_sub(pos + 12);
            with_plain(d, pos + 12, len, key, |s| {
                let w = g32(s, 4 * f).unwrap_or(0);
                let v = if near {
                    w.wrapping_add(delta as u32).wrapping_sub(4)
                } else {
                    v as u32
                };
                put32(s, 4 * f, v)
            });
            format!("{} field {f} = {v:#x} (near {near} {delta})", if het { "HET" } else { "BET" })
        }
        5 => {
            // file data: sector offsets, method bytes
            let Some(b) = (!blocks.is_empty()).then(|| blocks[t.u(blocks.len())]) else {
                return "no file".into();
            };
            let p = b.pos as usize + if t.bool() { 4 * t.u(4) } else { t.u(b.csize as usize + 1) };
            if t.bool() {
                let v = interesting(t);
                put32(d, p, v as u32);
                format!("file word at {p:#x} = {v:#x}")
            } else {
                let v = t.below(256) as u8;
                if p < d.len() {
                    d[p] = v;
                }
                format!("file byte at {p:#x} = {v:#x}")
            }
        }
        6 => {
            let l = t.u(d.len() + 1);
            d.truncate(l);
            format!("cut to {l}")
        }
        7 => {
            let p = t.u(d.len());
            let l = t.urange(1, 64).min(d.len() - p);
            let mut r = t.sub();
            for x in &mut d[p..p + l] {
                *x = r.below(256) as u8;
            }
            format!("{l} random bytes at {p:#x}")
        }
        8 => {
            // a user-data header in front
            let mut u = vec![0u8; 512 * t.urange(1, 2)];
            put32(&mut u, 0, 0x1B51504D);
            put32(&mut u, 4, interesting(t) as u32);
            let ho = if t.bool() { u.len() as u32 } else { interesting(t) as u32 };
            put32(&mut u, 8, ho);
            put32(&mut u, 12, interesting(t) as u32);
            let l = u.len();
            u.extend_from_slice(d);
            *d = u;
            format!("user data of {l}")
        }
        _ => {
            let l = t.u(4000);
            let x = content(t, l);
            d.extend(x);
            format!("{l} bytes more")
        }
    }
}

/// An archive with a file whose few stored bytes expand to far more than its declared size
fn bomb_archive(c: &mut Ctx, names: &mut Vec<String>) -> Vec<u8> {
    let m = *c.t.pick(&[M_ZLIB, M_BZIP2, M_LZMA, M_SPARSE, M_PKWARE]);
    let single = c.t.bool();
    let size = [100u32, 512, 4096, 70_000][c.t.u(4)];
    let name = *c.t.pick(&["bomb", "(listfile)", "(attributes)", "(signature)"]);
    let implode = m == M_PKWARE && c.t.bool();
    let mut s = vec![];
    if !implode {
        s.push(m);
    }
    s.extend_from_slice(super::codec::bomb(m));
    if !single {
        // the first sector holds all of it
        let n = size.div_ceil(512);
        let mut t = vec![];
        for i in 0..=n {
            t.extend((4 * (n + 1) + if i > 0 { s.len() as u32 } else { 0 }).to_le_bytes());
        }
        t.extend(s);
        s = t;
    }
    let mut files = vec![WFile::plain(name, s)];
    if c.t.bool() {
        files.insert(0, WFile::plain("other", b"other".to_vec()));
    }
    let at = files.len() - 1;
    let v = c.t.u(4) as u16;
    let l = Layout::simple(v, 0, files.len());
    let mut d = write_archive(&files, &l).bytes();
    if let Ok(r) = Ref::parse(&d) {
        let (pos, n) = (r.hdr.block_pos as usize, r.hdr.block_n as usize);
        with_plain(&mut d, pos, n * 16, "(block table)", |t| {
            put32(t, 16 * at + 8, size);
            let f = F_EXISTS | if implode { F_IMPLODE } else { F_COMPRESS } | if single { F_SINGLE } else { 0 };
            put32(t, 16 * at + 12, f);
        });
    }
    names.push(name.into());
    names.push("other".into());
    c.class(format!("expanding file, method {m:#04x}"));
    c.describe(format!("{name:?} of {} stored bytes expands to 64 MiB, {size} declared, single={single} implode={implode} version {}", files[at].data.len(), v + 1));
    d
}

fn m10(c: &mut Ctx) -> Result<(), String> {
    sign::use_test_key();
    let path = c.path("a.mpq");
    let mut d: Vec<u8>;
    let mut names: Vec<String> = vec!["(listfile)".into(), "(attributes)".into(), "(signature)".into(), "nope".into()];
    if c.t.chance(1, 80) {
        d = bomb_archive(c, &mut names);
    } else if c.t.chance(1, 25) {
        // arbitrary bytes behind a signature
        let n = c.t.urange(0, 2000);
        d = content(&mut c.t, n);
        if c.t.chance(5, 6) && n >= 4 {
            d[..4].copy_from_slice(b"MPQ\x1a");
        }
        if c.t.bool() && n >= 32 {
            let v = c.t.u(4) as u16;
            d[12..14].copy_from_slice(&v.to_le_bytes());
            put32(&mut d, 4, [32, 44, 68, 208][v as usize]);
        }
        c.class("arbitrary bytes");
    } else {
        let o = GenOpt {
            max_files: 4,
            max_size: 3_000,
            ..Default::default()
        };
        let (mut files, mut l) = {
            let (f, l) = foreign_spec(c, &o, false);
            (f, l)
        };
        let special = c.t.u(4);
        if special > 0 {
            // attributes and signature files, plausible or not
            let mut extra = vec![];
            if special & 1 != 0 {
                let n = if c.t.bool() { l.block_count + 1 } else { c.t.u(20) };
                let fl = c.t.u(32) as u32;
                let mut a = vec![];
                a.extend(if c.t.chance(1, 5) { c.t.any32() } else { 100 }.to_le_bytes());
                a.extend(fl.to_le_bytes());
                let m = n * 29 + c.t.u(3);
                a.extend(content(&mut c.t, m));
                if c.t.chance(1, 4) {
                    let mut z = vec![*c.t.pick(&[2u8, 8, 0x12, 0x42, 1, 3])];
                    z.extend(ref_compress(&a, 2, 6));
                    a = z;
                }
                extra.push(pick_wfile(&mut c.t, "(attributes)".into(), a));
            }
            if special & 2 != 0 {
                let m = *c.t.pick(&[72usize, 0, 8, 71, 73, 500]);
                let s = content(&mut c.t, m);
                extra.push(pick_wfile(&mut c.t, "(signature)".into(), s));
            }
            for mut f in extra {
                f.locale = 0;
                l.block_of.push(l.block_count);
                l.block_count += 1;
                l.insert.push(files.len());
                files.push(f);
            }
            while (l.hash_size as usize) < files.len() + l.occupied.len() {
                l.hash_size *= 2;
            }
        }
        names.extend(files.iter().map(|f| f.name.clone()));
        if c.t.bool() {
            // the library's own layout (HET and BET, tables behind the files)
            let mut g = archive(&mut c.t, &o);
            for f in &files {
                if is_special(&f.name) && f.name != "(listfile)" {
                    g.files.push(GFile {
                        name: f.name.clone(),
                        data: f.data.clone(),
                        method: 2,
                        default_method: false,
                        mode: Mode::Plain,
                        locale: 0,
                        from_disk: false,
                    });
                }
            }
            g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
            names.extend(g.files.iter().map(|f| f.name.clone()));
            c.describe(g.describe());
            d = std::fs::read(&path).map_err(|e| e.to_string())?;
            c.class(format!("built, version {}", g.version + 1));
        } else {
            d = write_archive(&files, &l).bytes();
            c.class(format!("foreign, version {}", l.version + 1));
        }
        let (h, blocks) = {
            let r = Ref::parse(&d)?;
            (r.hdr.clone(), r.blocks.clone())
        };
        for _ in 0..c.t.urange(1, 4) {
            let s = corrupt(&mut c.t, &mut d, &h, &blocks);
            c.describe(s);
        }
        if c.t.chance(1, 6) {
            let mut v = filler(&mut c.t, 512);
            v.extend(&d);
            d = v;
        }
    }
    std::fs::write(&path, &d).map_err(|e| e.to_string())?;
    if d.windows(4).any(|w| w == b"MPQ\x1a") {
        c.nontrivial();
    }
    let base = (8usize << 20) + 64 * d.len();
    let over = |what: &str, peak: usize, declared: usize| -> Result<(), String> {
        let bound = base + 8 * declared;
        if peak > bound {
            return Err(format!("{what} used {peak} bytes of memory (file {} bytes, declared {declared})", d.len()));
        }
        Ok(())
    };
    let (r, peak) = measured(|| Archive::open(&path));
    // opening reads the attributes file
    let attrs = OpenOptions::new().load_tables(false).open(&path).ok().and_then(|mut a| {
        let _ = a.load_tables();
        let mut size = |n: &str| a.find_file(n).ok().flatten().map_or(0, |i| i.file_size as usize);
        Some((size("(attributes)"), size("(listfile)"), size("(signature)")))
    });
    let (attrs, lf0, sig) = attrs.unwrap_or_default();
    over("opening", peak, attrs)?;
    c.evals += 1;
    // also without loading tables at once
    if c.t.chance(1, 5) {
        if let Ok(mut a) = OpenOptions::new().load_tables(false).open(&path) {
            let (_, peak) = measured(|| {
                let _ = a.find_file("nope");
                let _ = a.read_file("nope");
                let _ = a.list();
                let _ = a.list_all();
                let _ = a.verify_signature();
                let _ = a.get_info();
            });
            over("queries without tables", peak, attrs.max(lf0).max(sig))?;
        }
    }
    let mut a = match r {
        Ok(a) => a,
        Err(_) => {
            c.class("refused");
            return Ok(());
        }
    };
    c.class("opened");
    // listing reads the listfile
    let lf = a.find_file("(listfile)").ok().flatten().map_or(0, |i| i.file_size as usize);
    let (v, peak) = measured(|| {
        let mut v = vec![];
        for l in [a.list(), a.list_all(), a.list_with_hashes(), a.list_all_with_hashes()].into_iter().flatten() {
            v.extend(l.into_iter().map(|e| e.name));
        }
        v
    });
    over("listing", peak, lf)?;
    names.extend(v.into_iter().take(40));
    names.sort();
    names.dedup();
    let (_, peak) = measured(|| {
        let _ = a.get_info();
        let _ = a.verify_signature();
        let _ = a.load_attributes();
        for i in [0, 1, 5, 1 << 20, usize::MAX] {
            let _ = a.get_file_attributes(i);
        }
        if let Some(b) = a.bet_table() {
            for i in [0, 1, 7, u32::MAX] {
                let _ = b.get_file_info(i);
            }
        }
        if let Some(h) = a.het_table() {
            let _ = h.find_file("nope");
        }
    });
    over("information queries", peak, attrs.max(sig))?;
    for n in &names {
        let declared = match a.find_file(n) {
            Ok(Some(i)) => {
                let b = (i.is_compressed(), i.is_encrypted(), i.has_fix_key(), i.is_single_unit(), i.has_sector_crc());
                let _ = b;
                i.file_size
            }
            _ => 0,
        };
        if declared > 64 << 20 {
            // decoding may legitimately need that much
            c.class("declared size too large to exercise");
            continue;
        }
        let (r, peak) = measured(|| a.read_file(n));
        over(&format!("reading {n:?}"), peak, declared as usize)?;
        c.evals += 1;
        if let Ok(x) = r {
            if x.len() as u64 > declared.max(d.len() as u64) {
                return Err(format!("reading {n:?} gave {} bytes, {declared} declared, {} in the file", x.len(), d.len()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M13

fn m13(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: 5,
        max_size: 4_000,
        listable: true,
        external: false,
        ..Default::default()
    };
    let mut s = source(c, &o, "plain.mpq", false)?;
    let path = c.path("a.bin");
    if c.t.chance(1, 8) {
        return m13_refused(c, &s, &path);
    }
    // now and then far into the file, behind a hole
    let mut far = 0u64;
    if let Some(k) = scale(c, 1501) {
        let mut mib = vec![1u64, 9, 17, 33, 65, 130, 260];
        if c.thorough {
            mib.extend([520, 1030, 2050, 4100]);
        }
        far = (mib[k as usize % mib.len()] << 20) + 512 * c.t.below(8);
    }
    let blocks = if c.t.chance(1, 5) { c.t.urange(1, 40) } else { c.t.u(5) };
    let k = 512 * blocks;
    let mut file = filler(&mut c.t, k);
    // decoys: archive signatures at other positions, user-data signatures that lead nowhere
    for _ in 0..c.t.u(4) {
        if k < 64 {
            break;
        }
        if c.t.bool() {
            let p = c.t.u(k - 40);
            if p % 512 > 3 && p % 512 < 509 {
                file[p..p + 4].copy_from_slice(b"MPQ\x1a");
                if c.t.bool() {
                    put32(&mut file, p + 4, 32);
                }
                c.class("decoy signature");
            }
        } else {
            let p = 512 * c.t.u(blocks);
            put32(&mut file, p, 0x1B51504D);
            put32(&mut file, p + 4, 16);
            put32(&mut file, p + 8, 0); // set below
            put32(&mut file, p + 12, 16);
            c.class("decoy user data");
        }
    }
    let decoys: Vec<usize> = (0..blocks).map(|b| b * 512).filter(|&p| file[p..p + 4] == [0x4D, 0x50, 0x51, 0x1B]).collect();
    let mut ud = None;
    let mut offset = k as u64 + far;
    if c.t.bool() {
        // the user-data block begins at k; the archive at k + ho
        let ho = match c.t.weighted(&[30, 30, 30, 1]) {
            0 => 512 * c.t.urange(1, 4),
            1 => 512,
            2 => c.t.urange(16, 1500),
            _ => [4096, 32768, 65536, 66048, 70000, 131072, 1 << 20][c.t.u(7)],
        };
        let mut u = vec![0u8; ho];
        let x = content(&mut c.t, ho - 16);
        u[16..].copy_from_slice(&x);
        // what the block holds is no archive of its own
        for p in (512..ho).step_by(512) {
            if u[p] == b'M' {
                u[p] = b'm';
            }
        }
        let (size, hs) = (c.t.any32() % 4096, c.t.any32() % 64);
        put32(&mut u, 0, 0x1B51504D);
        put32(&mut u, 4, size);
        put32(&mut u, 8, ho as u32);
        put32(&mut u, 12, hs);
        file.extend(&u);
        offset += ho as u64;
        ud = Some((size, ho as u32, hs));
        c.class("user data");
    }
    file.extend(&s.bytes);
    if c.t.bool() {
        let n = if c.t.chance(1, 60) { [4096, 66_000, 200_000][c.t.u(3)] } else { c.t.u(1500) };
        let mut x = content(&mut c.t, n);
        if x.starts_with(b"NGIS") {
            x[0] = 0;
        }
        file.extend(x);
    }
    for p in decoys {
        // nowhere: outside the file, or at something that is no archive
        let t = match c.t.u(3) {
            0 => c.t.any32() | 0x4000_0000,
            1 => (file.len() - p - 1 - c.t.u(6).min(file.len() - p - 1)) as u32,
            _ => c.t.u(file.len()) as u32,
        };
        let at = p + t as usize;
        let hit = file.get(at..at + 4) == Some(b"MPQ\x1a");
        put32(&mut file, p + 8, if hit { 0x7FFF_FFFF } else { t });
    }
    c.describe(format!("archive of {} bytes at {offset}, user data {ud:?}, file {} bytes", s.bytes.len(), file.len()));
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&path).map_err(|e| e.to_string())?;
        f.write_all_at(&file, far).map_err(|e| e.to_string())?;
    }
    if offset > 0 && !s.files.is_empty() {
        c.nontrivial();
    }
    let mut a = open(&path)?;
    if a.archive_offset() != offset {
        return Err(format!("archive offset {} reported, {offset} expected", a.archive_offset()));
    }
    let got = a.user_data().map(|u| (u.user_data_size, u.header_offset, u.user_data_header_size));
    if got != ud {
        return Err(format!("user data {got:?} reported, {ud:?} expected"));
    }
    let i = a.get_info().map_err(|e| format!("get_info failed: {e}"))?;
    let got = i.user_data_info.map(|u| (u.data_size, u.header_size));
    if got != ud.map(|u| (u.0, u.2)) {
        return Err(format!("user data information {got:?} reported, {ud:?} expected"));
    }
    if let Some(m) = &i.md5_status {
        if !(m.hash_table_valid
            && m.block_table_valid
            && m.hi_block_table_valid
            && m.het_table_valid
            && m.bet_table_valid
            && m.header_valid)
        {
            return Err(format!("digests of the embedded archive: {m:?}"));
        }
    }
    let by = s.by_name();
    for f in &s.files {
        c.evals += 1;
        let d = a.read_file(&f.name).map_err(|e| format!("reading {:?} failed: {e}", f.name))?;
        if !by[&fold(&f.name)].iter().any(|m| m.data == d) {
            return Err(format!("content of {:?} differs: {}", f.name, diff(&d, &f.data)));
        }
    }
    s.path = path.clone();
    check_listings(c, &s)?;
    check_metadata(c, &path, offset, &s)
}

/// Files that contain no archive where one may start
fn m13_refused(c: &mut Ctx, s: &Src, path: &Path) -> Result<(), String> {
    let n = match c.t.u(4) {
        0 => 0,
        1 => c.t.u(40),
        _ => c.t.u(3000),
    };
    let mut file = filler(&mut c.t, n);
    match c.t.u(3) {
        0 => {
            // an archive off the grid
            if file.len() % 512 < 4 {
                file.extend([0u8; 4]);
            }
            if file.len() % 512 == 0 {
                file.push(0);
            }
            let off = file.len();
            file.extend(&s.bytes);
            for p in (0..file.len()).step_by(512) {
                if p > off && file[p..].starts_with(b"MPQ") {
                    file[p] = 0;
                }
            }
            c.class("off the grid");
        }
        1 => {
            // user data that points nowhere
            file.resize(file.len().max(16), 7);
            put32(&mut file, 0, 0x1B51504D);
            let t = c.t.any32();
            put32(&mut file, 8, t);
            let at = t as usize;
            if file.get(at..at + 4) == Some(b"MPQ\x1a") {
                put32(&mut file, 8, 0xFFFF_0000);
            }
            c.class("user data without archive");
        }
        _ => c.class("no archive"),
    }
    c.describe(format!("no archive, {} bytes", file.len()));
    std::fs::write(path, &file).map_err(|e| e.to_string())?;
    c.evals += 1;
    if Archive::open(path).is_ok() || OpenOptions::new().load_tables(false).open(path).is_ok() {
        return Err("a file without an archive was opened".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ M14

#[derive(Clone, Debug, PartialEq)]
pub struct RefAttrs {
    pub flags: u32,
    pub crc: Vec<u32>,
    pub time: Vec<u64>,
    pub md5: Vec<[u8; 16]>,
    pub patch: Vec<bool>,
}

/// any value, with special ones (zero, all ones, empty halves) frequent
fn odd(r: &mut crate::tape::Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => r.next() << 32,
        3 => r.next() >> 32,
        4 => r.below(256),
        _ => r.next(),
    }
}

impl RefAttrs {
    pub fn random(t: &mut Tape, n: usize) -> RefAttrs {
        let flags = t.u(16) as u32;
        let mut r = t.sub();
        RefAttrs {
            flags,
            crc: (0..n).map(|_| odd(&mut r) as u32).collect(),
            time: (0..n).map(|_| odd(&mut r)).collect(),
            md5: (0..n)
                .map(|_| {
                    let (a, b) = (odd(&mut r).to_le_bytes(), odd(&mut r).to_le_bytes());
                    [a, b].concat().try_into().unwrap()
                })
                .collect(),
            patch: (0..n).map(|_| r.below(2) == 1).collect(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = 100u32.to_le_bytes().to_vec();
        v.extend(self.flags.to_le_bytes());
        if self.flags & 1 != 0 {
            v.extend(self.crc.iter().flat_map(|x| x.to_le_bytes()));
        }
        if self.flags & 2 != 0 {
            v.extend(self.time.iter().flat_map(|x| x.to_le_bytes()));
        }
        if self.flags & 4 != 0 {
            v.extend(self.md5.iter().flatten());
        }
        if self.flags & 8 != 0 {
            for c in self.patch.chunks(8) {
                v.push(c.iter().enumerate().map(|(i, &b)| (b as u8) << i).sum());
            }
        }
        v
    }
    pub fn at(&self, i: usize) -> FileAttributes {
        FileAttributes {
            crc32: (self.flags & 1 != 0).then(|| self.crc[i]),
            filetime: (self.flags & 2 != 0).then(|| self.time[i]),
            md5: (self.flags & 4 != 0).then(|| self.md5[i]),
            is_patch: (self.flags & 8 != 0).then(|| self.patch[i]),
        }
    }
}

fn compare_attrs(what: &str, a: &Attributes, want: &RefAttrs, n: usize) -> Result<(), String> {
    if a.version != 100 || a.flags.as_u32() != want.flags || a.file_attributes.len() != n {
        return Err(format!(
            "{what}: version {}, kinds {:#x}, {} entries; expected 100, {:#x}, {n}",
            a.version,
            a.flags.as_u32(),
            a.file_attributes.len(),
            want.flags
        ));
    }
    let f = a.flags;
    if (f.has_crc32(), f.has_filetime(), f.has_md5(), f.has_patch_bit())
        != (want.flags & 1 != 0, want.flags & 2 != 0, want.flags & 4 != 0, want.flags & 8 != 0)
    {
        return Err(format!("{what}: kinds {:#x} misreported", want.flags));
    }
    for i in 0..n {
        if a.get_file_attributes(i) != Some(&want.at(i)) {
            return Err(format!("{what}: entry {i} is {:?}, recorded {:?}", a.get_file_attributes(i), want.at(i)));
        }
    }
    for i in [n, n + 1, n + 8, usize::MAX] {
        if a.get_file_attributes(i).is_some() {
            return Err(format!("{what}: entry {i} of {n} exists"));
        }
    }
    Ok(())
}

fn m14(c: &mut Ctx) -> Result<(), String> {
    if c.t.chance(1, 3) {
        return m14_archive(c);
    }
    let n = match c.t.weighted(&[25, 25, 25, 25, 1]) {
        4 => [255, 65535, 1023, 70000][c.t.u(4)] + c.t.u(4),
        0 => c.t.u(4),
        1 => c.t.u(20),
        2 => 8 * c.t.urange(1, 6) + c.t.u(3) - 1,
        _ => c.t.u(300),
    };
    let w = RefAttrs::random(&mut c.t, n);
    let bytes = w.bytes();
    c.describe(format!("{n} files, kinds {:#x}", w.flags));
    if n > 0 && w.flags != 0 {
        c.nontrivial();
    }
    let a = Attributes::parse(&bytes.clone().into(), n).map_err(|e| format!("parsing failed: {e}"))?;
    compare_attrs("parse", &a, &w, n)?;
    c.evals += 1;
    let out = a.to_bytes().map_err(|e| format!("serialising failed: {e}"))?;
    if out != bytes {
        return Err(format!("serialised form differs: {}", diff(&out, &bytes)));
    }
    let b = Attributes {
        version: 100,
        flags: AttributeFlags::new(w.flags),
        file_attributes: (0..n).map(|i| w.at(i)).collect(),
    };
    let out = b.to_bytes().map_err(|e| format!("serialising failed: {e}"))?;
    let back = Attributes::parse(&out.into(), n).map_err(|e| format!("parsing what was serialised failed: {e}"))?;
    compare_attrs("round trip", &back, &w, n)?;
    // bytes behind the recorded values are allowed (other tools pad the patch bits)
    let mut long = bytes.clone();
    long.resize(bytes.len() + 1 + c.t.u(9), c.t.below(256) as u8);
    let x = Attributes::parse(&long.into(), n).map_err(|e| format!("refused for trailing bytes: {e}"))?;
    compare_attrs("with trailing bytes", &x, &w, n)?;
    // values left out of a recorded kind are stored as zero
    if n > 0 {
        let i = c.t.u(n);
        let (mut z, mut y) = (w.clone(), b);
        match c.t.u(4) {
            0 => (z.crc[i], y.file_attributes[i].crc32) = (0, None),
            1 => (z.time[i], y.file_attributes[i].filetime) = (0, None),
            2 => (z.md5[i], y.file_attributes[i].md5) = ([0; 16], None),
            _ => (z.patch[i], y.file_attributes[i].is_patch) = (false, None),
        }
        c.evals += 1;
        let out = y.to_bytes().map_err(|e| format!("serialising failed: {e}"))?;
        if out != z.bytes() {
            return Err(format!("serialised with a missing value: {}", diff(&out, &z.bytes())));
        }
    }
    // refused: too short, wrong version
    for _ in 0..3 {
        let l = if c.t.bool() { bytes.len() - 1 - c.t.u(4) } else { c.t.u(bytes.len()) };
        c.evals += 1;
        if Attributes::parse(&bytes[..l].to_vec().into(), n).is_ok() {
            return Err(format!("{l} of {} bytes accepted for {n} files, kinds {:#x}", bytes.len(), w.flags));
        }
    }
    let mut v = bytes.clone();
    let ver = match c.t.u(3) {
        0 => 100 ^ (1 << c.t.u(32)),
        1 => c.t.any32(),
        _ => *c.t.pick(&[0, 99, 101, 0x6400_0000]),
    };
    if ver != 100 {
        put32(&mut v, 0, ver);
        c.evals += 1;
        if Attributes::parse(&v.into(), n).is_ok() {
            return Err(format!("version {ver} accepted"));
        }
    }
    // more files than recorded
    if w.flags != 0 {
        let more = n + if w.flags == 8 { 8 } else { 1 };
        if Attributes::parse(&bytes.into(), more).is_ok() {
            return Err(format!("attributes of {n} files accepted for {more}"));
        }
    }
    Ok(())
}

fn m14_archive(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: 8,
        max_size: 1_500,
        external: false,
        ..Default::default()
    };
    let path = c.path("a.mpq");
    let w;
    let count;
    let bytes;
    let names: Vec<String>;
    let big = scale(c, 3989).map(|k| [1, 3, 6, 15, 5][k as usize % 5]);
    let bad = big.is_none() && c.t.chance(1, 6);
    let double = !bad && c.t.chance(1, 8);
    let mut spoil = |t: &mut Tape, mut b: Vec<u8>| -> Vec<u8> {
        if bad {
            if t.bool() && b.len() > 8 {
                let l = 8 + t.u(b.len() - 8);
                b.truncate(l);
            } else {
                put32(&mut b, 0, *t.pick(&[101u32, 0x164, 0x8000_0064]));
            }
        } else if double {
            // stored compressed twice, as some tools do
            let mut z = vec![2];
            z.extend(ref_compress(&b, 2, 9));
            b = z;
        }
        b
    };
    if big.is_none() && c.t.bool() {
        let mut g = archive(&mut c.t, &o);
        count = g.files.len() + 1 + (g.listfile != LF::None) as usize;
        w = RefAttrs::random(&mut c.t, count);
        let at = c.t.u(g.files.len() + 1);
        let data = spoil(&mut c.t, w.bytes());
        let mode = [Mode::Plain, Mode::Encrypted, Mode::FixKey][c.t.u(3)].clone();
        g.files.insert(
            at,
            GFile {
                name: "(attributes)".into(),
                data,
                method: method(&mut c.t),
                default_method: false,
                mode,
                locale: 0,
                from_disk: false,
            },
        );
        c.describe(g.describe());
        g.build(&c.dir, &path).map_err(|e| format!("build failed: {e}"))?;
        names = g.files.iter().map(|f| f.name.clone()).collect();
        bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
        c.class("built");
    } else {
        let (mut files, mut l) = match big {
            Some(k) => bulk_foreign(&mut c.t, k),
            None => foreign_spec(c, &o, false),
        };
        count = l.block_count + 1;
        w = RefAttrs::random(&mut c.t, count);
        let data = spoil(&mut c.t, w.bytes());
        let mut f = pick_wfile(&mut c.t, "(attributes)".into(), data);
        f.locale = 0;
        l.block_of.push(l.block_count);
        l.block_count += 1;
        l.insert.push(files.len());
        files.push(f);
        while (l.hash_size as usize) < files.len() + l.occupied.len() {
            l.hash_size *= 2;
        }
        let wr = write_archive(&files, &l);
        wr.save(&path, 0).map_err(|e| e.to_string())?;
        names = files.iter().filter(|f| !f.gone).map(|f| f.name.clone()).collect();
        bytes = wr.bytes();
        c.class("foreign");
    }
    c.describe(format!("{count} entries, kinds {:#x}, bad {bad}, double {double}", w.flags));
    c.evals += 1;
    if bad {
        c.class("refused");
        return match Archive::open(&path) {
            Err(_) => Ok(()),
            Ok(a) if a.attributes().is_none() => Ok(()),
            Ok(_) => Err("attributes of the wrong version or too short were accepted".into()),
        };
    }
    if w.flags != 0 {
        c.nontrivial();
    }
    let a = open(&path)?;
    let at = a.attributes().ok_or("attributes were not loaded")?;
    compare_attrs("archive", at, &w, count)?;
    // per file
    let r = Ref::parse(&bytes)?;
    for n in names.iter().step_by(if big.is_some() { 37 } else { 1 }).chain(names.iter().rev().take(500)) {
        let i = a
            .find_file(n)
            .map_err(|e| e.to_string())?
            .ok_or_else(|| format!("{n:?} not found"))?;
        let hits = r.find(n);
        let want = hits.iter().any(|(_, e)| a.get_file_attributes(i.block_index) == Some(&w.at(e.block as usize)));
        if !want {
            return Err(format!("attributes of {n:?} (block {})", i.block_index));
        }
    }
    for i in [count, count + 1, count + 100, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, usize::MAX] {
        if i >= count && a.get_file_attributes(i).is_some() {
            return Err(format!("attributes of index {i} of {count}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M15

fn m15(c: &mut Ctx) -> Result<(), String> {
    let o = GenOpt {
        max_files: if c.t.chance(1, 20) { 60 } else { 5 },
        max_size: 2_500,
        versions: &[3],
        ..Default::default()
    };
    let big = scale(c, 1997).map(|k| [6, 15, 7, 14][k as usize % 4]);
    let bytes = if big.is_some_and(|k| k > 8) {
        let (files, l) = bulk_foreign(&mut c.t, big.unwrap());
        c.describe(format!("{} files", files.len()));
        write_archive(&files, &l).bytes()
    } else if big.is_some() || c.t.bool() {
        let g = match big {
            Some(k) => bulk_archive(&mut c.t, k),
            None => archive(&mut c.t, &o),
        };
        c.describe(g.describe());
        let p = c.path("b.mpq");
        g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
        c.class("built");
        std::fs::read(&p).map_err(|e| e.to_string())?
    } else {
        let (files, mut l) = foreign_spec(c, &o, false);
        if l.version != 3 {
            l.version = 3;
        }
        c.class("foreign");
        write_archive(&files, &l).bytes()
    };
    let k = if c.t.chance(1, 3) { 512 * c.t.urange(1, 6) } else { 0 };
    let prefix = filler(&mut c.t, k);
    let path = c.path("a.mpq");
    let flags = |d: &[u8]| -> Option<[bool; 6]> {
        let mut f = prefix.clone();
        f.extend(d);
        std::fs::write(&path, &f).ok()?;
        let mut a = Archive::open(&path).ok()?;
        let m = a.get_info().ok()?.md5_status?;
        Some([
            m.hash_table_valid,
            m.block_table_valid,
            m.hi_block_table_valid,
            m.het_table_valid,
            m.bet_table_valid,
            m.header_valid,
        ])
    };
    const WHAT: [&str; 6] = ["hash table", "block table", "hi-block table", "HET table", "BET table", "header"];
    match flags(&bytes) {
        None => return Err("the unchanged archive reports no digests".into()),
        Some(f) => {
            if let Some(i) = f.iter().position(|x| !x) {
                return Err(format!("digest of the {} of an unchanged archive reported invalid (offset {k})", WHAT[i]));
            }
        }
    }
    c.evals += 1;
    let h0 = parse_header(&bytes)?;
    let v0 = h0.v4.clone().unwrap();
    let parts: Vec<(u64, u64)> = [
        (h0.hash_pos, v0.hash),
        (h0.block_pos, v0.block),
        (h0.hi_pos, v0.hi),
        (h0.het_pos, v0.het),
        (h0.bet_pos, v0.bet),
        (0, 208),
    ]
    .into_iter()
    .collect();
    for _ in 0..c.t.urange(1, 6) {
        let mut d = bytes.clone();
        let mut what = vec![];
        for _ in 0..c.t.urange(1, 2) {
            let i = c.t.u(7);
            if i == 6 {
                // anywhere
                let p = c.t.u(d.len());
                d[p] ^= 1 << c.t.u(8);
                what.push(format!("byte {p:#x}"));
                continue;
            }
            let (p, n) = parts[i];
            if n == 0 || p == 0 && i != 5 {
                continue;
            }
            let q = (p + c.t.below(n)) as usize;
            match c.t.u(3) {
                0 => d[q] ^= 1 << c.t.u(8),
                1 => d[q] = c.t.below(256) as u8,
                _ => {
                    let l = c.t.urange(1, 20).min((p + n) as usize - q);
                    d[q..q + l].fill(0);
                }
            }
            what.push(format!("{} byte {}", WHAT[i], q as u64 - p));
        }
        if d == bytes {
            continue;
        }
        c.nontrivial();
        let Ok(h) = parse_header(&d) else { continue };
        let Some(v) = h.v4.clone() else { continue };
        let exp = |pos: u64, size: u64, n: u32, m: [u8; 16]| -> Option<bool> {
            if pos == 0 || size == 0 || n == 0 {
                return None;
            }
            cut(&d, pos, size).ok().map(|s| md5(s) == m)
        };
        let want = [
            exp(h.hash_pos, v.hash, h.hash_n, v.md5_hash),
            exp(h.block_pos, v.block, h.block_n, v.md5_block),
            exp(h.hi_pos, v.hi, 1, v.md5_hi),
            exp(h.het_pos, v.het, 1, v.md5_het),
            exp(h.bet_pos, v.bet, 1, v.md5_bet),
            Some(md5(&d[..192]) == v.md5_header),
        ];
        c.evals += 1;
        let Some(got) = flags(&d) else {
            c.class("does not open any more");
            // changes to file data alone must not matter here
            let touched = parts
                .iter()
                .any(|&(p, n)| d[p as usize..(p + n) as usize] != bytes[p as usize..(p + n) as usize]);
            if !touched {
                return Err(format!("after {what:?}, outside tables and header, no digests are reported"));
            }
            continue;
        };
        for i in 0..6 {
            if let Some(w) = want[i] {
                if got[i] != w {
                    return Err(format!(
                        "after a change to {what:?} the {} is reported {}",
                        WHAT[i],
                        if got[i] { "valid" } else { "invalid" }
                    ));
                }
                c.class(format!("{} {}", WHAT[i], if w { "valid" } else { "invalid" }));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M16

fn m16(c: &mut Ctx) -> Result<(), String> {
    let big = c.t.chance(1, 12);
    let o = GenOpt {
        max_files: if c.t.chance(1, 30) { 60 } else { 6 },
        max_size: if c.t.chance(1, 20) { 60_000 } else { 7_000 },
        ..Default::default()
    };
    let many = scale(c, 1997);
    let (mut files, mut l) = match many {
        Some(k) => bulk_foreign(&mut c.t, k),
        None => foreign_spec(c, &o, false),
    };
    if many.is_some() {
        c.describe(format!("version {}, {} files", l.version + 1, files.len()));
    } else if big {
        l = layout(&mut c.t, files.len(), true);
        if files.len() > 1 && c.t.bool() && l.version > 0 && l.order.contains(&Part::Hi) {
            let i = c.t.u(files.len());
            files[i].gap += far(&mut c.t);
        }
        c.describe(format!("{l:?}"));
    } else if !files.is_empty() && c.t.chance(1, 8) {
        // far into the file, but within what all versions can address
        let i = c.t.u(files.len());
        let most = [1 << 20, 1 << 25, 3 << 30, 4000 << 20][c.t.u(4)];
        files[i].gap += c.t.below(most);
        c.class("large hole");
    }
    // checksums in the place other tools put them, or none at all
    for f in files.iter_mut().take(200) {
        if c.t.chance(1, 6) {
            f.crc_style = 1 + c.t.u(2) as u8;
        }
    }
    let mut by: HashMap<Vec<u8>, Vec<usize>> = HashMap::new();
    for (j, f) in files.iter().enumerate().filter(|(_, f)| !f.gone) {
        by.entry(fold(&f.name)).or_default().push(j);
    }
    // one block under several names
    if many.is_none() && !l.ext_tables && c.t.chance(1, 6) {
        let mut seen: std::collections::HashSet<Vec<u8>> = files.iter().map(|f| fold(&f.name)).collect();
        for _ in 0..c.t.urange(1, 3) {
            let ok: Vec<usize> = (0..files.len()).filter(|&i| !files[i].gone && !files[i].encrypted).collect();
            if ok.is_empty() {
                break;
            }
            let i = ok[c.t.u(ok.len())];
            let nm = unique_name(&mut c.t, &mut seen, true);
            l.alias.push((nm, i));
            c.class("several names for a block");
        }
        while (l.hash_size as usize) < files.len() + l.occupied.len() + l.alias.len() {
            l.hash_size *= 2;
        }
        c.describe(format!("further names {:?}", l.alias));
    }
    let w = write_archive(&files, &l);
    let path = c.path("a.mpq");
    if let Err(e) = w.save(&path, 0) {
        if big && e.raw_os_error() == Some(27) {
            // the scratch file system does not hold files of this size
            c.class("too large for the file system");
            return Ok(());
        }
        return Err(e.to_string());
    }
    if w.size > 1 << 32 {
        c.class(if w.size > 1 << 40 { "beyond 1 TiB" } else { "beyond 4 GiB" });
    }
    if files.iter().any(|f| !f.data.is_empty() && !f.gone) {
        c.nontrivial();
    }
    let mut a = open(&path)?;
    for (i, f) in files.iter().enumerate() {
        if f.gone {
            continue;
        }
        c.evals += 1;
        let same = &by[&fold(&f.name)];
        let d = a
            .read_file(&f.name)
            .map_err(|e| format!("reading {:?} ({:x?}) failed: {e}", f.name, w.blocks[l.block_of[i]]))?;
        if !same.iter().any(|&j| files[j].data == d) {
            return Err(format!("content of {:?} differs: {} ({:x?})", f.name, diff(&d, &f.data), w.blocks[l.block_of[i]]));
        }
        let info = a
            .find_file(&f.name)
            .map_err(|e| e.to_string())?
            .ok_or_else(|| format!("{:?} not found", f.name))?;
        let ok = same.iter().any(|&j| {
            let b = w.blocks[l.block_of[j]];
            info.block_index == l.block_of[j]
                && (info.file_pos, info.compressed_size, info.file_size, info.flags)
                    == (b.pos, b.csize as u64, b.fsize as u64, b.flags)
        });
        if !ok {
            return Err(format!("{:?} reported as {info:x?}, written as {:x?}", f.name, w.blocks[l.block_of[i]]));
        }
    }
    for (nm, i) in &l.alias {
        c.evals += 1;
        let d = a.read_file(nm).map_err(|e| format!("reading {nm:?}, another name of {:?}, failed: {e}", files[*i].name))?;
        if d != files[*i].data {
            return Err(format!("content of {nm:?}, another name of {:?}, differs: {}", files[*i].name, diff(&d, &files[*i].data)));
        }
    }
    if !l.alias.is_empty() {
        // one entry for each file, however many names lead to it
        let want = files.iter().filter(|f| !f.gone).count();
        let x = a.list_all().map_err(|e| format!("list_all failed: {e}"))?.len();
        let y = a.list_all_with_hashes().map_err(|e| format!("list_all_with_hashes failed: {e}"))?.len();
        if (x, y) != (want, want) {
            return Err(format!("{x} and {y} entries listed (list_all, list_all_with_hashes) for {want} files"));
        }
    }
    if w.size < 1 << 24 {
        let s = Src {
            path: path.clone(),
            files: files
                .iter()
                .filter(|f| !f.gone)
                .map(|f| MFile {
                    name: f.name.clone(),
                    locale: f.locale,
                    data: f.data.clone(),
                })
                .collect(),
            gone: vec![],
            bytes: w.bytes(),
            foreign: true,
            junk: !l.junk_blocks.is_empty(),
        };
        check_metadata(c, &path, 0, &s)?;
    } else {
        let i = a.get_info().map_err(|e| format!("get_info failed: {e}"))?;
        if i.file_size != w.size || i.format_version as u16 != l.version {
            return Err(format!("file size {} reported, {} written", i.file_size, w.size));
        }
        let all = a.list_all().map_err(|e| format!("list_all failed: {e}"))?;
        if all.len() != files.iter().filter(|f| !f.gone).count() {
            return Err(format!("{} entries listed for {} files", all.len(), files.len()));
        }
    }
    Ok(())
}
