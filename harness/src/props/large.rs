//! M31: archives around and beyond 4 GiB.
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use mopaq::{ArchiveBuilder, ListfileOption};
use std::os::unix::fs::FileExt;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M31",
        level: "exploration",
        rule: "a case counts when an archive of at least 4 GiB less a few KB, or a file of at least 4 GiB, was attempted; distinct by choice tape",
        assumptions: &[
            "large files are stored without compression and mostly zero",
            "a case is left out (class \"left out\") when memory or space for it is missing",
        ],
        run: m31,
        quick: 12,
        thorough: 120,
        mem_mb: 0,
        unprivileged: false,
    }]
}

struct Map {
    p: *mut libc::c_void,
    n: usize,
}
impl Map {
    fn new(path: &std::path::Path) -> Result<Map, String> {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
        let n = f.metadata().map_err(|e| e.to_string())?.len() as usize;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n.max(1), libc::PROT_READ, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return Err("mmap".into());
        }
        Ok(Map { p, n })
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p as *const u8, self.n) }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p, self.n.max(1));
        }
    }
}

fn available_mb() -> u64 {
    std::fs::read_to_string("/proc/meminfo")
        .unwrap_or_default()
        .lines()
        .find_map(|l| l.strip_prefix("MemAvailable:")?.split_whitespace().next()?.parse::<u64>().ok())
        .unwrap_or(0)
        / 1024
}

fn free_mb(p: &std::path::Path) -> u64 {
    let c = std::ffi::CString::new(p.to_str().unwrap_or("/")).unwrap();
    unsafe {
        let mut s: libc::statvfs = std::mem::zeroed();
        if libc::statvfs(c.as_ptr(), &mut s) != 0 {
            return 0;
        }
        (s.f_bavail as u64 * s.f_frsize as u64) >> 20
    }
}

struct Small {
    name: String,
    data: Vec<u8>,
    method: u8,
    mode: Mode,
}

const G4: u64 = 1 << 32;

fn m31(c: &mut Ctx) -> Result<(), String> {
    // beyond 4 GiB in versions 2 to 4; version 1 refused beyond; version 1 just below; a file of 4 GiB;
    // the tables across the line
    let kind = c.t.given([0, 0, 0, 1, 2, 3, 4, 4, 4, 4, 4, 4][c.case as usize % 12], 5);
    let across = c.t.given([2, 0, 1, 3, 0, 2][c.case as usize % 6], 4);
    let version = match kind {
        0 => 1 + c.t.given(c.case, 3) as usize,
        3 => c.t.u(4),
        4 => [0, 1, 1, 2][across as usize],
        _ => 0,
    };
    let what = ["beyond 4 GiB", "version 1 beyond 4 GiB", "version 1 below 4 GiB", "file of 4 GiB", "tables across the line"][kind as usize];
    c.describe(format!("v{} {what}", version + 1));
    crate::alloc::set_cap(24 << 30);
    let short = || available_mb() < if version == 3 { 20_000 } else { 14_000 } || free_mb(&c.dir) < 7_000;
    // (what earlier cases wrote may still be on its way to the disk)
    for _ in 0..30 {
        if short() {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    if short() {
        c.class("left out");
        return Ok(());
    }
    c.nontrivial();
    c.class(what);
    c.class(format!("v{}", version + 1));
    let shift = c.t.range(12, 15) as u16;
    let sector = 512u64 << shift;
    let crcs = c.t.chance(1, 4) && kind != 4;
    let listfile = c.t.chance(2, 3) && kind != 4;
    let compress_tables = c.t.bool();
    let out = c.path("out");
    std::fs::create_dir_all(&out).map_err(|e| e.to_string())?;
    let target = out.join("a.mpq");
    let old: &[u8] = b"what was there before";
    let existed = c.t.bool();
    if existed {
        std::fs::write(&target, old).map_err(|e| e.to_string())?;
    }

    let mut b = ArchiveBuilder::new()
        .version(VERSIONS[version])
        .block_size(shift)
        .default_compression(0)
        .generate_crcs(crcs)
        .compress_tables(compress_tables)
        .listfile_option(if listfile { ListfileOption::Generate } else { ListfileOption::None });
    let mut smalls: Vec<Small> = vec![];
    let lens = std::cell::RefCell::new(vec![]);
    let mut small = |c: &mut Ctx, b: ArchiveBuilder| {
        let n = c.t.urange(0, 9000);
        lens.borrow_mut().push(n as u64);
        let s = Small {
            name: format!("small\\{}.bin", smalls.len()),
            data: content(&mut c.t, n),
            method: if kind == 4 { 0 } else { *c.t.pick(&[0u8, 0x02, 0x10]) },
            mode: match c.t.u(3) {
                0 => Mode::Plain,
                1 => Mode::Encrypted,
                _ => Mode::FixKey,
            },
        };
        let r = match s.mode {
            Mode::Plain => b.add_file_data_with_options(s.data.clone(), &s.name, s.method, false, 0),
            Mode::Encrypted => b.add_file_data_with_options(s.data.clone(), &s.name, s.method, true, 0),
            Mode::FixKey => b.add_file_data_with_encryption(s.data.clone(), &s.name, s.method, true, 0),
        };
        smalls.push(s);
        r
    };

    // sizes of the large files, stored with 4 bytes per sector and possibly a checksum per sector
    let stored = |n: u64| n + (n.div_ceil(sector) + 1) * 4 + if crcs { n.div_ceil(sector) * 4 } else { 0 };
    let mut sizes: Vec<u64> = match kind {
        3 => vec![G4 + [0u64, 1, 5][c.t.u(3)] + c.t.below(2) * 70_000],
        4 => vec![900 << 20; 4],
        2 => {
            // total below 4 GiB by little: tables, listfile and three small files need less than 90 KB
            let k = c.t.range(4, 6);
            let room = G4 - 100_000 - c.t.below(40_000);
            let over = stored(room / k) - room / k;
            vec![room / k - over; k as usize]
        }
        _ => {
            let k = c.t.range(4, 6);
            (0..k).map(|_| G4 / k + c.t.below(1 << 20)).collect()
        }
    };
    c.describe(format!("sector {sector}, checksums {crcs}, listfile {listfile}, large files {sizes:?}"));
    if crcs {
        c.class("checksums");
    }
    b = small(c, b);
    if kind == 4 {
        b = small(c, b);
        b = small(c, b);
    }
    // (a version 1 archive of 4 GiB or more is expected)
    let mut near_limit = false;
    if kind == 4 {
        // the size of the last file decides where the tables begin
        let files = 3 + 5u64;
        let hash = (files * 2).next_power_of_two().max(16) * 16;
        let end = match across {
            // (version 1) the block table or the end of the archive on the line, or all of it just below
            0 => match c.t.u(3) {
                0 => G4 - hash - c.t.range(1, files * 16 - 1),
                1 => G4 - hash - files * 16 - 1,
                _ => G4 - c.t.range(1, hash - 1),
            },
            // (version 2) the hash table
            1 => G4 - c.t.range(0, hash - 1),
            // (version 2) the block table
            2 => G4 - hash - c.t.range(0, files * 16 - 1),
            _ => G4 - c.t.range(0, 1600),
        };
        let before = [32, 44, 68, 208][version]
            + sizes.iter().map(|n| stored(*n)).sum::<u64>()
            + lens.borrow().iter().sum::<u64>();
        near_limit = end + hash + files * 16 >= G4;
        let room = end - before;
        sizes.push(room - (stored(room) - room));
        if before + stored(sizes[4]) != end {
            c.class("missed the line");
        }
    }
    for (i, n) in sizes.iter().enumerate() {
        let p = c.path(&format!("in{i}"));
        let f = std::fs::File::create(&p).map_err(|e| e.to_string())?;
        f.set_len(*n).map_err(|e| e.to_string())?;
        // marks at the start, the end and somewhere
        for at in [0, n - 16, c.t.below(n - 16)] {
            let m = [(i as u64 + 1).to_le_bytes(), at.to_le_bytes()].concat();
            f.write_at(&m, at).map_err(|e| e.to_string())?;
        }
        b = b.add_file(&p, &format!("large{i}"));
        if kind != 2 && kind != 4 && c.t.bool() {
            b = small(c, b);
        }
    }
    if kind != 4 {
        b = small(c, b);
        b = small(c, b);
    }

    c.evals += 1;
    let r = b.build(&target);
    if let Err(e) = &r {
        let text = e.to_string();
        if text.contains("No space left") || text.contains("memory") {
            c.class("left out");
            return Ok(());
        }
    }
    if kind == 1 || kind == 3 {
        if r.is_ok() {
            return Err(format!("build succeeded although impossible: {what}"));
        }
        let names: Vec<_> = std::fs::read_dir(&out)
            .map_err(|e| e.to_string())?
            .flatten()
            .map(|e| e.file_name())
            .collect();
        if names.len() != existed as usize {
            return Err(format!("a refused build left {names:?}"));
        }
        if existed && std::fs::read(&target).map_err(|e| e.to_string())? != old {
            return Err("a refused build changed the file at its path".into());
        }
        return Ok(());
    }
    if kind == 4 && version == 0 {
        // refused above the limit; where the layout is another one than expected, either will do
        let len = std::fs::metadata(&target).map_or(0, |m| m.len());
        match &r {
            Ok(()) if len > G4 => return Err(format!("a version 1 archive of {len} bytes was built")),
            Err(_) if near_limit => {
                let now = std::fs::read(&target).ok();
                if now.as_deref() != existed.then_some(old) {
                    return Err("a refused build changed the file at its path".into());
                }
                return Ok(());
            }
            _ => {}
        }
    }
    r.map_err(|e| format!("build failed: {e}"))?;

    // by the library
    let mut a = open(&target)?;
    for s in &smalls {
        c.evals += 1;
        let got = a.read_file(&s.name).map_err(|e| format!("reading {:?} failed: {e}", s.name))?;
        if got != s.data {
            return Err(format!("content of {:?} differs: {}", s.name, diff(&got, &s.data)));
        }
    }
    let total = smalls.len() + sizes.len() + listfile as usize;
    let len = std::fs::metadata(&target).map_err(|e| e.to_string())?.len();
    if kind == 0 && len <= G4 || kind == 2 && len >= G4 {
        return Err(format!("harness: archive of {len} bytes"));
    }
    let listed = a.list_all().map_err(|e| format!("listing failed: {e}"))?;
    if listed.len() != total {
        return Err(format!("{} entries listed, {total} stored", listed.len()));
    }
    let mut got: Vec<u64> = listed.iter().map(|e| e.size).collect();
    let mut want: Vec<u64> = sizes.iter().copied().chain(smalls.iter().map(|s| s.data.len() as u64)).collect();
    if listfile {
        want.push(a.read_file("(listfile)").map_err(|e| format!("listfile: {e}"))?.len() as u64);
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("sizes listed {got:?}, stored {want:?}"));
    }

    // by the independent reader
    let map = Map::new(&target)?;
    let d = map.bytes();
    let rf = Ref::parse(d).map_err(|e| format!("independent reader: {e}"))?;
    if rf.hdr.version >= 2 && rf.hdr.size64 != len {
        return Err(format!("header declares {} bytes (64 bit), archive has {len}", rf.hdr.size64));
    }
    if len < G4 && rf.hdr.size32 as u64 != len {
        return Err(format!("header declares {} bytes, archive has {len}", rf.hdr.size32));
    }
    let block = |name: &str| -> Result<usize, String> {
        let f = rf.find(name);
        if f.len() != 1 {
            return Err(format!("{} hash entries for {name:?}", f.len()));
        }
        Ok(f[0].1.block as usize)
    };
    for s in &smalls {
        c.evals += 1;
        let got = rf.read(block(&s.name)?, &s.name).map_err(|e| format!("independent reader: {:?}: {e}", s.name))?;
        if got != s.data {
            return Err(format!("{:?} decodes differently: {}", s.name, diff(&got, &s.data)));
        }
    }
    let mut at = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let name = format!("large{i}");
        let bl = rf.blocks[block(&name)?];
        if bl.fsize as u64 != *n {
            return Err(format!("{name}: block declares {} bytes, file has {n}", bl.fsize));
        }
        at.push(bl.pos);
        let info = a.find_file(&name).map_err(|e| e.to_string())?.ok_or_else(|| format!("{name} not found"))?;
        if (info.file_pos, info.file_size, info.compressed_size) != (bl.pos, *n, bl.csize as u64) {
            return Err(format!("{name}: reported at {}, {} bytes, block table {bl:?}", info.file_pos, info.file_size));
        }
    }
    if let Some(bet) = &rf.bet {
        for (i, (x, y)) in bet.entries.iter().zip(&rf.blocks).enumerate() {
            if x != y {
                return Err(format!("entry {i}: BET {x:?}, block table {y:?}"));
            }
        }
    } else if version >= 2 {
        return Err("extended tables missing".into());
    }
    if let Some(v) = &rf.hdr.v4 {
        let h = &rf.hdr;
        for (what, got, pos, n) in [
            ("hash table", v.md5_hash, h.hash_pos, h.hash_n as u64 * 16),
            ("block table", v.md5_block, h.block_pos, h.block_n as u64 * 16),
            ("hi-block table", v.md5_hi, h.hi_pos, h.block_n as u64 * 2),
            ("HET table", v.md5_het, h.het_pos, v.het),
            ("BET table", v.md5_bet, h.bet_pos, v.bet),
            ("header", v.md5_header, 0, 192),
        ] {
            if got != md5(cut(d, pos, n)?) {
                return Err(format!("digest of the {what}"));
            }
        }
        let i = a.get_info().map_err(|e| format!("get_info failed: {e}"))?;
        let m = i.md5_status.ok_or("no digests reported")?;
        if !(m.header_valid && m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid) {
            return Err(format!("digests reported as {m:?}"));
        }
    }
    // one large file as a whole
    let i = c.t.u(sizes.len());
    c.evals += 1;
    let got = a.read_file(&format!("large{i}")).map_err(|e| format!("reading large{i} failed: {e}"))?;
    let src = Map::new(&c.path(&format!("in{i}")))?;
    if got != src.bytes() {
        return Err(format!("content of large{i} differs: {}", diff(&got, src.bytes())));
    }
    Ok(())
}
