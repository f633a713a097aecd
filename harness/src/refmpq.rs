//! Independent implementation of the MPQ format: cipher, hashes, reader and writer.
//! Shares no code with the library under test.
use std::sync::OnceLock;

pub const F_IMPLODE: u32 = 0x100;
pub const F_COMPRESS: u32 = 0x200;
pub const F_ENCRYPTED: u32 = 0x10000;
pub const F_FIX_KEY: u32 = 0x20000;
pub const F_SINGLE: u32 = 0x0100_0000;
pub const F_DELETE: u32 = 0x0200_0000;
pub const F_CRC: u32 = 0x0400_0000;
pub const F_EXISTS: u32 = 0x8000_0000;

pub const H_OFFSET: u32 = 0;
pub const H_NAME_A: u32 = 1;
pub const H_NAME_B: u32 = 2;
pub const H_KEY: u32 = 3;

pub fn crypt_table() -> &'static [u32; 0x500] {
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u64 = 0x0010_0001;
        for i in 0..0x100usize {
            for j in 0..5usize {
                seed = (seed * 125 + 3) % 0x2A_AAAB;
                let hi = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2A_AAAB;
                let lo = seed & 0xFFFF;
                t[i + j * 0x100] = (hi | lo) as u32;
            }
        }
        t
    })
}

fn up(b: u8) -> u8 {
    match b {
        b'a'..=b'z' => b - 32,
        b'/' => b'\\',
        x => x,
    }
}
fn low(b: u8) -> u8 {
    match b {
        b'A'..=b'Z' => b + 32,
        b'/' => b'\\',
        x => x,
    }
}

pub fn hash(name: &str, kind: u32) -> u32 {
    let t = crypt_table();
    let (mut s1, mut s2) = (0x7FED_7FEDu32, 0xEEEE_EEEEu32);
    for b in name.bytes() {
        let c = up(b) as u32;
        s1 = t[(kind * 0x100 + c) as usize] ^ s1.wrapping_add(s2);
        s2 = c
            .wrapping_add(s1)
            .wrapping_add(s2)
            .wrapping_add(s2 << 5)
            .wrapping_add(3);
    }
    s1
}

/// One-at-a-time hash, 64 bits
pub fn jenkins(name: &str) -> u64 {
    let mut h = 0u64;
    for b in name.bytes() {
        h = h.wrapping_add(low(b) as u64);
        h = h.wrapping_add(h << 10);
        h ^= h >> 6;
    }
    h = h.wrapping_add(h << 3);
    h ^= h >> 11;
    h.wrapping_add(h << 15)
}

/// Two names are the same name for the format
pub fn fold(name: &str) -> Vec<u8> {
    name.bytes().map(up).collect()
}

pub fn encrypt_words(d: &mut [u32], mut key: u32) {
    if key == 0 {
        return;
    }
    let t = crypt_table();
    let mut seed = 0xEEEE_EEEEu32;
    for w in d {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let plain = *w;
        *w = plain ^ key.wrapping_add(seed);
        key = ((!key << 21).wrapping_add(0x1111_1111)) | (key >> 11);
        seed = plain
            .wrapping_add(seed)
            .wrapping_add(seed << 5)
            .wrapping_add(3);
    }
}

pub fn decrypt_words(d: &mut [u32], mut key: u32) {
    if key == 0 {
        return;
    }
    let t = crypt_table();
    let mut seed = 0xEEEE_EEEEu32;
    for w in d {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        *w ^= key.wrapping_add(seed);
        key = ((!key << 21).wrapping_add(0x1111_1111)) | (key >> 11);
        seed = w
            .wrapping_add(seed)
            .wrapping_add(seed << 5)
            .wrapping_add(3);
    }
}

fn map_words(d: &mut [u8], key: u32, tail: bool, f: fn(&mut [u32], u32)) {
    if key == 0 {
        return;
    }
    let n = d.len() / 4;
    let mut w: Vec<u32> = d
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
        .collect();
    f(&mut w, key);
    for (i, v) in w.iter().enumerate() {
        d[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    // file data: the last 1-3 bytes count as a zero-padded word under key + number of words
    let r = d.len() - n * 4;
    if tail && r > 0 {
        let mut b = [0u8; 4];
        b[..r].copy_from_slice(&d[n * 4..]);
        let mut w = [u32::from_le_bytes(b)];
        f(&mut w, key.wrapping_add(n as u32));
        d[n * 4..].copy_from_slice(&w[0].to_le_bytes()[..r]);
    }
}
pub fn encrypt_file(d: &mut [u8], key: u32) {
    map_words(d, key, true, encrypt_words)
}
pub fn decrypt_file(d: &mut [u8], key: u32) {
    map_words(d, key, true, decrypt_words)
}
pub fn encrypt_table(d: &mut [u8], key: u32) {
    map_words(d, key, false, encrypt_words)
}
pub fn decrypt_table(d: &mut [u8], key: u32) {
    map_words(d, key, false, decrypt_words)
}

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in d.chunks(2000) {
        for &x in c {
            a += x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    (b << 16) | a
}

pub fn md5(d: &[u8]) -> [u8; 16] {
    use md5::{Digest, Md5};
    let mut h = Md5::new();
    h.update(d);
    h.finalize().into()
}
pub fn sha1(d: &[u8]) -> [u8; 20] {
    use sha1::{Digest, Sha1};
    let mut h = Sha1::new();
    h.update(d);
    h.finalize().into()
}

pub fn file_key(name: &str, pos: u64, size: u32, flags: u32) -> u32 {
    let k = hash(name, H_KEY);
    if flags & F_FIX_KEY != 0 {
        k.wrapping_add(pos as u32) ^ size
    } else {
        k
    }
}

// ---------------------------------------------------------------- compression

pub const M_ZLIB: u8 = 0x02;
pub const M_PKWARE: u8 = 0x08;
pub const M_BZIP2: u8 = 0x10;
pub const M_LZMA: u8 = 0x12;
pub const M_SPARSE: u8 = 0x20;
pub const M_ADPCM_MONO: u8 = 0x40;
pub const M_ADPCM_STEREO: u8 = 0x80;
pub const CHAIN_ZLIB: u8 = M_SPARSE | M_ZLIB;
pub const CHAIN_BZIP2: u8 = M_SPARSE | M_BZIP2;
pub const LOSSLESS: [u8; 6] = [0, M_ZLIB, M_BZIP2, M_LZMA, M_SPARSE, M_PKWARE];

pub fn ref_decompress(d: &[u8], method: u8, size: usize) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let out = match method {
        0 => d.to_vec(),
        M_ZLIB => {
            let mut o = vec![];
            flate2::read::ZlibDecoder::new(d)
                .take(size as u64 + 1)
                .read_to_end(&mut o)
                .map_err(|e| e.to_string())?;
            o
        }
        M_BZIP2 => {
            let mut o = vec![];
            bzip2::read::BzDecoder::new(d)
                .take(size as u64 + 1)
                .read_to_end(&mut o)
                .map_err(|e| e.to_string())?;
            o
        }
        M_LZMA => {
            let mut o = vec![];
            lzma_rs::lzma_decompress(&mut std::io::Cursor::new(d), &mut o)
                .map_err(|e| format!("{e:?}"))?;
            o
        }
        M_SPARSE => sparse_decode(d, size)?,
        // chains: sparse is undone last
        CHAIN_ZLIB | CHAIN_BZIP2 => {
            let mut o = vec![];
            let r = if method == CHAIN_ZLIB {
                flate2::read::ZlibDecoder::new(d).read_to_end(&mut o)
            } else {
                bzip2::read::BzDecoder::new(d).read_to_end(&mut o)
            };
            r.map_err(|e| e.to_string())?;
            sparse_decode(&o, size)?
        }
        M_PKWARE => pklib::explode_bytes(d).map_err(|e| e.to_string())?,
        _ => return Err(format!("method {method:#x}")),
    };
    if out.len() != size {
        return Err(format!("decoded {} bytes, expected {size}", out.len()));
    }
    Ok(out)
}

/// Control byte: 0xFF end, 0x80|n zeros, n literals
pub fn sparse_decode(d: &[u8], size: usize) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut p = 0;
    while p < d.len() && o.len() < size {
        let c = d[p];
        p += 1;
        if c == 0xFF {
            break;
        } else if c >= 0x80 {
            o.extend(std::iter::repeat_n(0, (c & 0x7F) as usize));
        } else {
            let e = p + c as usize;
            o.extend_from_slice(d.get(p..e).ok_or("sparse: truncated")?);
            p = e;
        }
    }
    o.resize(size, 0);
    Ok(o)
}

/// A compressor of another tool: same formats, own choices (levels, run lengths)
pub fn ref_compress(d: &[u8], method: u8, variant: u64) -> Vec<u8> {
    use std::io::Write;
    match method {
        M_ZLIB => {
            let mut e = flate2::write::ZlibEncoder::new(
                vec![],
                flate2::Compression::new((variant % 10) as u32),
            );
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        M_BZIP2 => {
            let mut e = bzip2::write::BzEncoder::new(
                vec![],
                bzip2::Compression::new(1 + (variant % 9) as u32),
            );
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        M_LZMA => {
            let mut o = vec![];
            lzma_rs::lzma_compress(&mut std::io::Cursor::new(d), &mut o).unwrap();
            o
        }
        M_SPARSE => {
            // zero runs of up to 126 (fewer by variant), literals of up to 127
            let zmax = 126 - (variant % 100) as usize;
            let lmax = 127 - (variant / 7 % 100) as usize;
            let mut o = vec![];
            let mut p = 0;
            while p < d.len() {
                let z = d[p..].iter().take(zmax).take_while(|&&b| b == 0).count();
                if z > 0 {
                    o.push(0x80 | z as u8);
                    p += z;
                    continue;
                }
                let l = d[p..].iter().take(lmax).take_while(|&&b| b != 0).count();
                o.push(l as u8);
                o.extend_from_slice(&d[p..p + l]);
                p += l;
            }
            if variant % 2 == 1 {
                o.push(0xFF);
            }
            o
        }
        CHAIN_ZLIB | CHAIN_BZIP2 => {
            ref_compress(&ref_compress(d, M_SPARSE, variant), method ^ M_SPARSE, variant)
        }
        M_PKWARE => {
            use pklib::{CompressionMode::*, DictionarySize::*};
            let m = if variant % 2 == 0 { ASCII } else { Binary };
            let s = [Size1K, Size2K, Size4K][(variant / 2 % 3) as usize];
            let c = pklib::implode_bytes(d, m, s).unwrap_or_default();
            // pklib's encoder drops input beyond its work buffer
            match pklib::explode_bytes(&c) {
                Ok(x) if x == d => c,
                _ => vec![0; d.len()],
            }
        }
        _ => d.to_vec(),
    }
}

// ---------------------------------------------------------------- reader

pub fn g16(d: &[u8], p: usize) -> Result<u16, String> {
    Ok(u16::from_le_bytes(
        d.get(p..p + 2).ok_or("short")?.try_into().unwrap(),
    ))
}
pub fn g32(d: &[u8], p: usize) -> Result<u32, String> {
    Ok(u32::from_le_bytes(
        d.get(p..p + 4)
            .ok_or_else(|| format!("short at {p:#x}"))?
            .try_into()
            .unwrap(),
    ))
}
pub fn g64(d: &[u8], p: usize) -> Result<u64, String> {
    Ok(u64::from_le_bytes(
        d.get(p..p + 8)
            .ok_or_else(|| format!("short at {p:#x}"))?
            .try_into()
            .unwrap(),
    ))
}
pub fn cut(d: &[u8], p: u64, n: u64) -> Result<&[u8], String> {
    let e = p.checked_add(n).ok_or("range")?;
    if e > d.len() as u64 {
        return Err(format!("range {p:#x}+{n:#x} outside {:#x}", d.len()));
    }
    Ok(&d[p as usize..e as usize])
}

#[derive(Clone, Debug, Default)]
pub struct V4 {
    pub hash: u64,
    pub block: u64,
    pub hi: u64,
    pub het: u64,
    pub bet: u64,
    pub chunk: u32,
    pub md5_block: [u8; 16],
    pub md5_hash: [u8; 16],
    pub md5_hi: [u8; 16],
    pub md5_bet: [u8; 16],
    pub md5_het: [u8; 16],
    pub md5_header: [u8; 16],
}

#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub header_size: u32,
    pub size32: u32,
    pub version: u16,
    pub shift: u16,
    pub hash_pos: u64,
    pub block_pos: u64,
    pub hash_n: u32,
    pub block_n: u32,
    pub hi_pos: u64,
    pub size64: u64,
    pub bet_pos: u64,
    pub het_pos: u64,
    pub v4: Option<V4>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct HashEnt {
    pub a: u32,
    pub b: u32,
    pub locale: u16,
    pub platform: u16,
    pub block: u32,
}
impl HashEnt {
    pub const EMPTY: HashEnt = HashEnt {
        a: !0,
        b: !0,
        locale: !0,
        platform: !0,
        block: !0,
    };
    pub const DELETED: HashEnt = HashEnt {
        a: !0,
        b: !0,
        locale: !0,
        platform: !0,
        block: 0xFFFF_FFFE,
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Block {
    pub pos: u64,
    pub csize: u32,
    pub fsize: u32,
    pub flags: u32,
}

#[derive(Clone, Debug)]
pub struct Het {
    pub max_files: u32,
    pub hash_bits: u32,
    pub index_bits: u32,
    /// (hash bits, index) per slot
    pub slots: Vec<(u64, u64)>,
    pub compressed: bool,
}

#[derive(Clone, Debug)]
pub struct Bet {
    pub count: u32,
    pub entries: Vec<Block>,
    pub hashes: Vec<u64>,
    pub compressed: bool,
}

pub struct Ref<'a> {
    pub d: &'a [u8],
    pub hdr: Hdr,
    pub hash: Vec<HashEnt>,
    pub blocks: Vec<Block>,
    pub has_hi: bool,
    pub het: Option<Het>,
    pub bet: Option<Bet>,
}

fn bits(d: &[u8], first: usize, n: u32) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..n as usize {
        let p = first + i;
        let b = *d.get(p / 8).ok_or("bit range")?;
        v |= ((b >> (p % 8)) as u64 & 1) << i;
    }
    Ok(v)
}

pub fn parse_header(d: &[u8]) -> Result<Hdr, String> {
    if g32(d, 0)? != 0x1A51504D {
        return Err("no archive signature".into());
    }
    let mut h = Hdr {
        header_size: g32(d, 4)?,
        size32: g32(d, 8)?,
        version: g16(d, 12)?,
        shift: g16(d, 14)?,
        hash_pos: g32(d, 16)? as u64,
        block_pos: g32(d, 20)? as u64,
        hash_n: g32(d, 24)?,
        block_n: g32(d, 28)?,
        ..Default::default()
    };
    let want = [32, 44, 68, 208];
    if h.version > 3 || h.header_size != want[h.version as usize] {
        return Err(format!(
            "version {} with header size {}",
            h.version, h.header_size
        ));
    }
    if h.version >= 1 {
        h.hi_pos = g64(d, 32)?;
        h.hash_pos |= (g16(d, 40)? as u64) << 32;
        h.block_pos |= (g16(d, 42)? as u64) << 32;
    }
    if h.version >= 2 {
        h.size64 = g64(d, 44)?;
        h.bet_pos = g64(d, 52)?;
        h.het_pos = g64(d, 60)?;
    }
    if h.version >= 3 {
        let m = |p: usize| -> [u8; 16] { d[p..p + 16].try_into().unwrap() };
        cut(d, 0, 208)?;
        h.v4 = Some(V4 {
            hash: g64(d, 68)?,
            block: g64(d, 76)?,
            hi: g64(d, 84)?,
            het: g64(d, 92)?,
            bet: g64(d, 100)?,
            chunk: g32(d, 108)?,
            md5_block: m(112),
            md5_hash: m(128),
            md5_hi: m(144),
            md5_bet: m(160),
            md5_het: m(176),
            md5_header: m(192),
        });
    }
    Ok(h)
}

/// Decrypts (and decompresses) an extended table; returns (plain data after the 12-byte header, was compressed)
fn ext_table(raw: &[u8], sig: u32, key: &str) -> Result<(Vec<u8>, bool), String> {
    if g32(raw, 0)? != sig || g32(raw, 4)? != 1 {
        return Err("bad extended table header".into());
    }
    let size = g32(raw, 8)? as usize;
    let mut body = raw[12..].to_vec();
    decrypt_table(&mut body, hash(key, H_KEY));
    if size > body.len() {
        let m = *body.first().ok_or("empty table")?;
        METHODS.with(|v| v.borrow_mut().push(m));
        Ok((ref_decompress(&body[1..], m, size)?, true))
    } else if size == body.len() {
        Ok((body, false))
    } else {
        Err(format!("table has {} bytes, declares {size}", body.len()))
    }
}

impl<'a> Ref<'a> {
    /// `d` starts at the archive's header
    pub fn parse(d: &'a [u8]) -> Result<Ref<'a>, String> {
        let hdr = parse_header(d)?;
        let mut ht = cut(d, hdr.hash_pos, hdr.hash_n as u64 * 16)
            .map_err(|e| format!("hash table: {e}"))?
            .to_vec();
        decrypt_table(&mut ht, hash("(hash table)", H_KEY));
        let hash_t: Vec<HashEnt> = ht
            .chunks_exact(16)
            .map(|c| HashEnt {
                a: g32(c, 0).unwrap(),
                b: g32(c, 4).unwrap(),
                locale: g16(c, 8).unwrap(),
                platform: g16(c, 10).unwrap(),
                block: g32(c, 12).unwrap(),
            })
            .collect();
        let mut bt = cut(d, hdr.block_pos, hdr.block_n as u64 * 16)
            .map_err(|e| format!("block table: {e}"))?
            .to_vec();
        decrypt_table(&mut bt, hash("(block table)", H_KEY));
        let mut blocks: Vec<Block> = bt
            .chunks_exact(16)
            .map(|c| Block {
                pos: g32(c, 0).unwrap() as u64,
                csize: g32(c, 4).unwrap(),
                fsize: g32(c, 8).unwrap(),
                flags: g32(c, 12).unwrap(),
            })
            .collect();
        let has_hi = hdr.hi_pos != 0;
        if has_hi {
            let hi = cut(d, hdr.hi_pos, hdr.block_n as u64 * 2)
                .map_err(|e| format!("hi-block table: {e}"))?;
            for (i, b) in blocks.iter_mut().enumerate() {
                b.pos |= (g16(hi, i * 2)? as u64) << 32;
            }
        }
        let mut het = None;
        let mut bet = None;
        if hdr.het_pos != 0 {
            let end = match &hdr.v4 {
                Some(v) => hdr.het_pos + v.het,
                None if hdr.bet_pos > hdr.het_pos => hdr.bet_pos,
                None => hdr.hash_pos,
            };
            let raw = cut(
                d,
                hdr.het_pos,
                end.checked_sub(hdr.het_pos).ok_or("HET position")?,
            )?;
            let (t, compressed) =
                ext_table(raw, 0x1A544548, "(hash table)").map_err(|e| format!("HET: {e}"))?;
            let (max_files, hash_size, hash_bits) = (g32(&t, 4)?, g32(&t, 8)?, g32(&t, 12)?);
            let (total_index, index_bits) = (g32(&t, 16)?, g32(&t, 24)?);
            if g32(&t, 0)? as usize != t.len() + 12 {
                return Err("HET: table_size".into());
            }
            if hash_bits == 0 || hash_bits + index_bits > 64 || index_bits == 0 {
                return Err("HET: bit sizes".into());
            }
            let n = (hash_size as u64 * 8 / hash_bits as u64) as usize;
            let n = n.min((total_index / index_bits) as usize);
            let mut slots = vec![];
            for i in 0..n {
                let p = 32 * 8 + i * (hash_bits + index_bits) as usize;
                slots.push((
                    bits(&t, p, hash_bits)?,
                    bits(&t, p + hash_bits as usize, index_bits)?,
                ));
            }
            het = Some(Het {
                max_files,
                hash_bits,
                index_bits,
                slots,
                compressed,
            });
        }
        if hdr.bet_pos != 0 {
            let end = match &hdr.v4 {
                Some(v) => hdr.bet_pos + v.bet,
                None => hdr.hash_pos,
            };
            let raw = cut(
                d,
                hdr.bet_pos,
                end.checked_sub(hdr.bet_pos).ok_or("BET position")?,
            )?;
            let (t, compressed) =
                ext_table(raw, 0x1A544542, "(block table)").map_err(|e| format!("BET: {e}"))?;
            let f = |i: usize| g32(&t, i * 4);
            if f(0)? as usize != t.len() + 12 {
                return Err("BET: table_size".into());
            }
            let count = f(1)?;
            let esize = f(3)? as usize;
            let idx = [f(4)?, f(5)?, f(6)?, f(7)?];
            let cnt = [f(9)?, f(10)?, f(11)?, f(12)?];
            let (hash_bits, hash_array, nflags) = (f(16)?, f(17)?, f(18)?);
            let mut flags = vec![];
            for i in 0..nflags as usize {
                flags.push(g32(&t, 76 + i * 4)?);
            }
            let ft = 76 + nflags as usize * 4;
            let ftn = (count as usize * esize).div_ceil(8);
            let mut entries = vec![];
            for i in 0..count as usize {
                let g = |k: usize| bits(&t, ft * 8 + i * esize + idx[k] as usize, cnt[k]);
                let fi = g(3)? as usize;
                entries.push(Block {
                    pos: g(0)?,
                    fsize: g(1)? as u32,
                    csize: g(2)? as u32,
                    flags: *flags.get(fi).ok_or("BET: flag index")?,
                });
            }
            if hash_bits != 64 || hash_array as usize != count as usize * 8 {
                return Err("BET: hash array".into());
            }
            if t.len() != ft + ftn + hash_array as usize {
                return Err("BET: size".into());
            }
            let mut hashes = vec![];
            for i in 0..count as usize {
                hashes.push(g64(&t, ft + ftn + i * 8)?);
            }
            bet = Some(Bet {
                count,
                entries,
                hashes,
                compressed,
            });
        }
        Ok(Ref {
            d,
            hdr,
            hash: hash_t,
            blocks,
            has_hi,
            het,
            bet,
        })
    }

    pub fn sector(&self) -> usize {
        512usize << self.hdr.shift
    }

    /// All hash entries of a name reachable by probing
    pub fn find(&self, name: &str) -> Vec<(usize, HashEnt)> {
        let n = self.hash.len();
        if n == 0 {
            return vec![];
        }
        let (a, b) = (hash(name, H_NAME_A), hash(name, H_NAME_B));
        let start = hash(name, H_OFFSET) as usize & (n - 1);
        let mut out = vec![];
        for i in 0..n {
            let s = (start + i) % n;
            let e = self.hash[s];
            if e.block == !0 {
                break;
            }
            if e.block < 0xFFFF_FFFE && e.a == a && e.b == b {
                out.push((s, e));
            }
        }
        out
    }

    /// Decodes a block under a name; strict about sizes and checksums
    pub fn read(&self, bi: usize, name: &str) -> Result<Vec<u8>, String> {
        let b = self.blocks.get(bi).ok_or("no such block")?;
        if b.flags & F_EXISTS == 0 {
            return Err("block does not exist".into());
        }
        read_block(self.d, b, name, self.sector())
    }

    /// Bytes a block occupies in the archive
    pub fn extent(&self, b: &Block) -> (u64, u64) {
        (b.pos, stored_len(b, self.sector()))
    }
}

/// Length of a block's data, its checksum part included
pub fn stored_len(b: &Block, sector: usize) -> u64 {
    let mut n = b.csize as u64;
    if b.flags & F_CRC != 0 {
        n += if b.flags & F_SINGLE != 0 {
            4
        } else {
            4 * (b.fsize as u64).div_ceil(sector as u64)
        };
    }
    n
}

thread_local! {
    /// Method bytes met by `read_block`
    pub static METHODS: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
}

pub fn read_block(d: &[u8], b: &Block, name: &str, sector: usize) -> Result<Vec<u8>, String> {
    let enc = b.flags & F_ENCRYPTED != 0;
    let key = file_key(name, b.pos, b.fsize, b.flags);
    let fsize = b.fsize as usize;
    if b.flags & F_SINGLE != 0 {
        let mut raw = cut(d, b.pos, b.csize as u64)?.to_vec();
        if enc {
            decrypt_file(&mut raw, key);
        }
        let out = if b.flags & F_COMPRESS != 0 {
            if raw.len() >= fsize {
                return Err("compressed file is not smaller than its content".into());
            }
            let m = *raw.first().ok_or("empty")?;
            METHODS.with(|v| v.borrow_mut().push(m));
            ref_decompress(&raw[1..], m, fsize)?
        } else {
            raw
        };
        if out.len() != fsize {
            return Err(format!("{} bytes instead of {fsize}", out.len()));
        }
        if b.flags & F_CRC != 0 {
            let c = g32(cut(d, b.pos + b.csize as u64, 4)?, 0)?;
            if c != adler32(&out) {
                return Err("checksum".into());
            }
        }
        return Ok(out);
    }
    let n = fsize.div_ceil(sector);
    if b.flags & F_COMPRESS == 0 {
        if b.csize != b.fsize {
            return Err("raw file with different sizes".into());
        }
        let mut raw = cut(d, b.pos, fsize as u64)?.to_vec();
        if enc {
            for (i, c) in raw.chunks_mut(sector).enumerate() {
                decrypt_file(c, key.wrapping_add(i as u32));
            }
        }
        return Ok(raw);
    }
    let tl = (n + 1) * 4;
    let mut ot = cut(d, b.pos, tl as u64)?.to_vec();
    if enc {
        decrypt_file(&mut ot, key.wrapping_sub(1));
    }
    let off: Vec<u64> = (0..=n).map(|i| g32(&ot, i * 4).unwrap() as u64).collect();
    let crc = b.flags & F_CRC != 0;
    let data_start = tl as u64 + if crc { 4 * n as u64 } else { 0 };
    if off[0] != data_start {
        return Err(format!("first sector at {} not {data_start}", off[0]));
    }
    let end = b.csize as u64 + if crc { 4 * n as u64 } else { 0 };
    if off[n] != end {
        return Err(format!("sectors end at {} not {end}", off[n]));
    }
    let mut out = vec![];
    for i in 0..n {
        if off[i + 1] < off[i] {
            return Err("sector offsets".into());
        }
        let want = (fsize - i * sector).min(sector);
        let mut raw = cut(d, b.pos + off[i], off[i + 1] - off[i])?.to_vec();
        if raw.len() > want {
            return Err("sector larger than its content".into());
        }
        if enc {
            decrypt_file(&mut raw, key.wrapping_add(i as u32));
        }
        let s = if raw.len() < want {
            let m = *raw.first().ok_or("empty sector")?;
            METHODS.with(|v| v.borrow_mut().push(m));
            ref_decompress(&raw[1..], m, want)?
        } else {
            raw
        };
        if crc {
            let c = g32(cut(d, b.pos + (tl + 4 * i) as u64, 4)?, 0)?;
            if c != adler32(&s) {
                return Err(format!("checksum of sector {i}"));
            }
        }
        out.extend_from_slice(&s);
    }
    Ok(out)
}

// ---------------------------------------------------------------- writer

/// How the writer stores one file
#[derive(Clone, Debug)]
pub struct WFile {
    pub name: String,
    pub data: Vec<u8>,
    pub locale: u16,
    pub platform: u16,
    pub single: bool,
    /// compression method per sector (cycled); 0 = raw. Empty = file not marked compressed
    pub methods: Vec<u8>,
    pub variant: u64,
    pub encrypted: bool,
    pub fix_key: bool,
    pub crc: bool,
    /// unused bytes before the data
    pub gap: u64,
    /// where the checksums of sectors are: 0 behind the offset table, 1 in an extra sector at the end, 2 nowhere
    /// (although flagged)
    pub crc_style: u8,
    /// the block has been freed: entry without the exists flag, hash entry still there
    pub gone: bool,
}

impl WFile {
    pub fn plain(name: &str, data: Vec<u8>) -> WFile {
        WFile {
            name: name.into(),
            data,
            locale: 0,
            platform: 0,
            single: true,
            methods: vec![],
            variant: 0,
            encrypted: false,
            fix_key: false,
            crc: false,
            gap: 0,
            crc_style: 0,
            gone: false,
        }
    }

    /// Stored bytes and block entry for a position
    pub fn encode(&self, pos: u64, sector: usize) -> (Vec<u8>, Block) {
        let mut flags = F_EXISTS;
        let d = &self.data;
        let fsize = d.len() as u32;
        if self.encrypted {
            flags |= F_ENCRYPTED;
            if self.fix_key {
                flags |= F_FIX_KEY;
            }
        }
        let key = file_key(&self.name, pos, fsize, flags);
        let pack = |m: u8, s: &[u8], v: u64| -> Option<Vec<u8>> {
            if m == 0 {
                return None;
            }
            let mut c = vec![m];
            c.extend(ref_compress(s, m, v));
            (c.len() < s.len()).then_some(c)
        };
        if self.single {
            flags |= F_SINGLE;
            let mut raw = d.clone();
            if let Some(&m) = self.methods.first() {
                if let Some(c) = pack(m, d, self.variant) {
                    raw = c;
                    flags |= F_COMPRESS;
                }
            }
            if self.encrypted {
                encrypt_file(&mut raw, key);
            }
            let csize = raw.len() as u32;
            if self.crc {
                flags |= F_CRC;
                raw.extend(adler32(d).to_le_bytes());
            }
            return (
                raw,
                Block {
                    pos,
                    csize,
                    fsize,
                    flags,
                },
            );
        }
        if self.methods.is_empty() || d.is_empty() {
            let mut raw = d.clone();
            if self.encrypted {
                for (i, c) in raw.chunks_mut(sector).enumerate() {
                    encrypt_file(c, key.wrapping_add(i as u32));
                }
            }
            return (
                raw,
                Block {
                    pos,
                    csize: fsize,
                    fsize,
                    flags,
                },
            );
        }
        flags |= F_COMPRESS;
        let n = d.len().div_ceil(sector);
        // a checksum table is only recognised for more than one sector
        let storm = self.crc_style == 1;
        let crc = self.crc && n > 1 && self.crc_style == 0;
        if self.crc_style == 2 {
            flags |= F_CRC;
        }
        let mut body = vec![];
        let mut off = vec![];
        let mut sums = vec![];
        let start = (n + 1) * 4 + if crc { 4 * n } else { 0 } + if storm { 4 } else { 0 };
        for (i, s) in d.chunks(sector).enumerate() {
            off.push((start + body.len()) as u32);
            let m = self.methods[i % self.methods.len()];
            let mut c = pack(m, s, self.variant.wrapping_add(i as u64)).unwrap_or(s.to_vec());
            if self.encrypted {
                encrypt_file(&mut c, key.wrapping_add(i as u32));
            }
            body.extend(c);
            sums.push(adler32(s));
        }
        off.push((start + body.len()) as u32);
        if storm {
            flags |= F_CRC;
            body.extend(sums.iter().flat_map(|o| o.to_le_bytes()));
            off.push((start + body.len()) as u32);
        }
        let mut ot: Vec<u8> = off.iter().flat_map(|o| o.to_le_bytes()).collect();
        if self.encrypted {
            encrypt_file(&mut ot, key.wrapping_sub(1));
        }
        let csize = (ot.len() + body.len()) as u32;
        if crc {
            flags |= F_CRC;
            ot.extend(sums.iter().flat_map(|o| o.to_le_bytes()));
        }
        ot.extend(body);
        (
            ot,
            Block {
                pos,
                csize,
                fsize,
                flags,
            },
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    Files,
    Het,
    Hash,
    Block,
    Hi,
}

/// Layout decisions of the writer
#[derive(Clone, Debug)]
pub struct Layout {
    /// 0..=3 (format versions 1 to 4)
    pub version: u16,
    pub shift: u16,
    pub hash_size: u32,
    /// Order of the parts (Het stands for HET and BET; Hi may be left out)
    pub order: Vec<Part>,
    /// gap before each part (same length as order)
    pub gaps: Vec<u64>,
    pub ext_tables: bool,
    pub ext_compress: u8,
    /// block index of file i (a permutation into block_count slots)
    pub block_of: Vec<usize>,
    pub block_count: usize,
    /// extra content of unused block entries
    pub junk_blocks: Vec<Block>,
    /// slots filled before any file is inserted: (slot, entry); removed ones become DELETED afterwards
    pub occupied: Vec<usize>,
    /// deleted entries keep the name hashes of a (re-added) file
    pub deleted_keep: bool,
    /// order in which the files enter the hash table
    pub insert: Vec<usize>,
    /// bit field order / slack of the BET table
    pub bet_perm: [usize; 4],
    pub bet_slack: [u32; 4],
    pub bet_unknown: u32,
    /// bytes between the HET and the BET table, and whether the BET table comes first (version 4)
    pub bet_gap: u64,
    pub bet_first: bool,
    /// trailing bytes inside the archive
    pub trailer: u64,
    pub gap_fill: u8,
    /// further names of files: hash entries that share a file's block
    pub alias: Vec<(String, usize)>,
}

impl Layout {
    pub fn simple(version: u16, shift: u16, n: usize) -> Layout {
        Layout {
            version,
            shift,
            hash_size: ((n * 2).max(16) as u32).next_power_of_two(),
            order: vec![Part::Files, Part::Hash, Part::Block],
            gaps: vec![0; 3],
            ext_tables: false,
            ext_compress: 0,
            block_of: (0..n).collect(),
            block_count: n,
            junk_blocks: vec![],
            occupied: vec![],
            deleted_keep: false,
            insert: (0..n).collect(),
            bet_perm: [0, 1, 2, 3],
            bet_slack: [0; 4],
            bet_unknown: 0,
            bet_gap: 0,
            bet_first: false,
            trailer: 0,
            gap_fill: 0,
            alias: vec![],
        }
    }
}

pub struct Written {
    /// (position, bytes), in increasing order; what lies between is a hole
    pub segs: Vec<(u64, Vec<u8>)>,
    pub size: u64,
    pub blocks: Vec<Block>,
    /// hash slot of file i
    pub slot: Vec<usize>,
}

impl Written {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.size as usize];
        for (p, d) in &self.segs {
            v[*p as usize..*p as usize + d.len()].copy_from_slice(d);
        }
        v
    }
    /// Writes the archive to a file at an offset, leaving holes
    pub fn save(&self, path: &std::path::Path, offset: u64) -> std::io::Result<()> {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new()
            .create(true)
            .truncate(false)
            .write(true)
            .open(path)?;
        for (p, d) in &self.segs {
            f.write_all_at(d, offset + p)?;
        }
        if f.metadata()?.len() < offset + self.size {
            f.set_len(offset + self.size)?;
        }
        Ok(())
    }
}

fn put_bits(d: &mut [u8], first: usize, n: u32, v: u64) {
    for i in 0..n as usize {
        let p = first + i;
        if v >> i & 1 != 0 {
            d[p / 8] |= 1 << (p % 8);
        }
    }
}
fn width(v: u64) -> u32 {
    (64 - v.leading_zeros()).max(1)
}

pub fn write_archive(files: &[WFile], l: &Layout) -> Written {
    let sector = 512usize << l.shift;
    let header_size = [32u64, 44, 68, 208][l.version as usize];
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    let mut pos = header_size;
    let mut blocks = vec![
        Block {
            pos: 0,
            csize: 0,
            fsize: 0,
            flags: 0
        };
        l.block_count
    ];
    {
        let used: std::collections::HashSet<usize> = l.block_of.iter().copied().collect();
        let mut j = 0;
        for (i, b) in blocks.iter_mut().enumerate() {
            if !used.contains(&i) && !l.junk_blocks.is_empty() {
                *b = l.junk_blocks[j % l.junk_blocks.len()];
                b.flags &= !F_EXISTS;
                j += 1;
            }
        }
    }
    let (mut hash_pos, mut block_pos, mut hi_pos, mut het_pos, mut bet_pos) = (0, 0, 0, 0, 0);
    let mut v4 = V4 {
        chunk: 0x4000,
        ..Default::default()
    };

    // the hash table does not depend on positions
    let n = l.hash_size as usize;
    let mut ht = vec![HashEnt::EMPTY; n];
    for &s in &l.occupied {
        ht[s % n] = HashEnt {
            a: 1,
            b: 2,
            locale: 0,
            platform: 0,
            block: 0xFFFF_FFFD,
        };
    }
    let mut slot = vec![0; files.len()];
    for &i in &l.insert {
        let f = &files[i];
        let start = hash(&f.name, H_OFFSET) as usize & (n - 1);
        let s = (0..n)
            .map(|k| (start + k) % n)
            .find(|&s| ht[s].block == !0)
            .expect("room in the hash table");
        ht[s] = HashEnt {
            a: hash(&f.name, H_NAME_A),
            b: hash(&f.name, H_NAME_B),
            locale: f.locale,
            platform: f.platform,
            block: l.block_of[i] as u32,
        };
        slot[i] = s;
    }
    for (name, i) in &l.alias {
        let start = hash(name, H_OFFSET) as usize & (n - 1);
        let s = (0..n)
            .map(|k| (start + k) % n)
            .find(|&s| ht[s].block == !0)
            .expect("room in the hash table");
        ht[s] = HashEnt {
            a: hash(name, H_NAME_A),
            b: hash(name, H_NAME_B),
            locale: 0,
            platform: 0,
            block: l.block_of[*i] as u32,
        };
    }
    for (s, e) in ht.iter_mut().enumerate() {
        if e.block == 0xFFFF_FFFD {
            *e = HashEnt::DELETED;
            if l.deleted_keep && !files.is_empty() {
                let f = &files[s % files.len()];
                e.a = hash(&f.name, H_NAME_A);
                e.b = hash(&f.name, H_NAME_B);
                e.locale = 0;
            }
        }
    }

    // two passes: tables in front of the files need the files' positions
    for (k, part) in l
        .order
        .iter()
        .enumerate()
        .chain(std::iter::once((usize::MAX, &Part::Files)))
        .chain(l.order.iter().enumerate())
    {
        if k == usize::MAX {
            segs.clear();
            pos = header_size;
            continue;
        }
        let gap = l.gaps.get(k).copied().unwrap_or(0);
        if gap > 0 && gap <= 1 << 20 && l.gap_fill != 0 {
            segs.push((pos, vec![l.gap_fill; gap as usize]));
        }
        pos += gap;
        match part {
            Part::Files => {
                for (i, f) in files.iter().enumerate() {
                    if f.gap > 0 && f.gap <= 1 << 20 && l.gap_fill != 0 {
                        segs.push((pos, vec![l.gap_fill; f.gap as usize]));
                    }
                    pos += f.gap;
                    let (raw, b) = f.encode(pos, sector);
                    blocks[l.block_of[i]] = b;
                    if f.gone {
                        blocks[l.block_of[i]].flags &= !F_EXISTS;
                    }
                    pos += raw.len() as u64;
                    segs.push((b.pos, raw));
                }
            }
            Part::Hash => {
                hash_pos = pos;
                let mut raw = vec![];
                for e in &ht {
                    raw.extend(e.a.to_le_bytes());
                    raw.extend(e.b.to_le_bytes());
                    raw.extend(e.locale.to_le_bytes());
                    raw.extend(e.platform.to_le_bytes());
                    raw.extend(e.block.to_le_bytes());
                }
                encrypt_table(&mut raw, hash("(hash table)", H_KEY));
                v4.hash = raw.len() as u64;
                v4.md5_hash = md5(&raw);
                pos += raw.len() as u64;
                segs.push((hash_pos, raw));
            }
            Part::Block => {
                block_pos = pos;
                let mut raw = vec![];
                for b in &blocks {
                    raw.extend((b.pos as u32).to_le_bytes());
                    raw.extend(b.csize.to_le_bytes());
                    raw.extend(b.fsize.to_le_bytes());
                    raw.extend(b.flags.to_le_bytes());
                }
                encrypt_table(&mut raw, hash("(block table)", H_KEY));
                v4.block = raw.len() as u64;
                v4.md5_block = md5(&raw);
                pos += raw.len() as u64;
                segs.push((block_pos, raw));
            }
            Part::Hi => {
                hi_pos = pos;
                let raw: Vec<u8> = blocks
                    .iter()
                    .flat_map(|b| ((b.pos >> 32) as u16).to_le_bytes())
                    .collect();
                v4.hi = raw.len() as u64;
                v4.md5_hi = md5(&raw);
                pos += raw.len() as u64;
                segs.push((hi_pos, raw));
            }
            Part::Het => {
                let ext = |sig: u32, t: Vec<u8>, key: &str| -> Vec<u8> {
                    let size = t.len() as u32;
                    let mut body = t;
                    if l.ext_compress != 0 {
                        let mut c = vec![l.ext_compress];
                        c.extend(ref_compress(&body, l.ext_compress, 6));
                        if c.len() < body.len() {
                            body = c;
                        }
                    }
                    encrypt_table(&mut body, hash(key, H_KEY));
                    let mut raw = vec![];
                    raw.extend(sig.to_le_bytes());
                    raw.extend(1u32.to_le_bytes());
                    raw.extend(size.to_le_bytes());
                    raw.extend(body);
                    raw
                };
                // HET
                let nf = l.block_count as u32;
                let slots = (nf * 2).next_power_of_two() as usize;
                let hb = width(slots as u64);
                let ib = width(nf as u64);
                let hbytes = (slots * (hb + ib) as usize).div_ceil(8);
                let ibytes = (slots * ib as usize).div_ceil(8);
                let mut body = vec![0u8; hbytes + ibytes];
                let mut used = vec![false; slots];
                for (i, f) in files.iter().enumerate().filter(|x| !x.1.gone) {
                    let h = jenkins(&f.name);
                    let mut s = h as usize & (slots - 1);
                    while used[s] {
                        s = (s + 1) % slots;
                    }
                    used[s] = true;
                    let p = s * (hb + ib) as usize;
                    put_bits(&mut body, p, hb, h & ((1 << hb) - 1));
                    put_bits(&mut body, p + hb as usize, ib, l.block_of[i] as u64);
                }
                let mut t = vec![];
                for v in [
                    (32 + body.len() + 12) as u32,
                    nf,
                    (slots as u32 * hb).div_ceil(8),
                    hb,
                    slots as u32 * ib,
                    0,
                    ib,
                    0,
                ] {
                    t.extend(v.to_le_bytes());
                }
                t.extend(body);
                let het = ext(0x1A544548, t, "(hash table)");
                v4.het = het.len() as u64;
                v4.md5_het = md5(&het);
                // BET
                let mut flags: Vec<u32> = blocks.iter().map(|b| b.flags).collect();
                flags.sort();
                flags.dedup();
                let val = |b: &Block| -> [u64; 4] {
                    [
                        b.pos,
                        b.fsize as u64,
                        b.csize as u64,
                        flags.binary_search(&b.flags).unwrap() as u64,
                    ]
                };
                let mut cnt = [0u32; 4];
                for b in &blocks {
                    let v = val(b);
                    for k in 0..4 {
                        cnt[k] = cnt[k].max(width(v[k]));
                    }
                }
                for k in 0..4 {
                    cnt[k] = (cnt[k] + l.bet_slack[k]).min(if k == 0 { 60 } else { 32 });
                }
                let mut idx = [0u32; 4];
                let mut p = l.bet_unknown;
                for &k in &l.bet_perm {
                    idx[k] = p;
                    p += cnt[k];
                }
                let esize = p;
                let ftn = (blocks.len() * esize as usize).div_ceil(8);
                let mut ft = vec![0u8; ftn];
                for (i, b) in blocks.iter().enumerate() {
                    let v = val(b);
                    for k in 0..4 {
                        put_bits(&mut ft, i * esize as usize + idx[k] as usize, cnt[k], v[k]);
                    }
                }
                let mut hashes = vec![!0u64; blocks.len()];
                for (i, f) in files.iter().enumerate().filter(|x| !x.1.gone) {
                    hashes[l.block_of[i]] = jenkins(&f.name);
                }
                let size = 76 + flags.len() * 4 + ftn + hashes.len() * 8;
                let mut t = vec![];
                for v in [
                    (size + 12) as u32,
                    blocks.len() as u32,
                    0x10,
                    esize,
                    idx[0],
                    idx[1],
                    idx[2],
                    idx[3],
                    0,
                    cnt[0],
                    cnt[1],
                    cnt[2],
                    cnt[3],
                    l.bet_unknown,
                    blocks.len() as u32 * 64,
                    0,
                    64,
                    blocks.len() as u32 * 8,
                    flags.len() as u32,
                ] {
                    t.extend(v.to_le_bytes());
                }
                for f in &flags {
                    t.extend(f.to_le_bytes());
                }
                t.extend(ft);
                for h in &hashes {
                    t.extend(h.to_le_bytes());
                }
                let bet = ext(0x1A544542, t, "(block table)");
                v4.bet = bet.len() as u64;
                v4.md5_bet = md5(&bet);
                let gap = if l.version == 3 { l.bet_gap } else { 0 };
                let fill = |segs: &mut Vec<(u64, Vec<u8>)>, at: u64| {
                    if gap > 0 && gap <= 1 << 20 && l.gap_fill != 0 {
                        segs.push((at, vec![l.gap_fill; gap as usize]));
                    }
                };
                let (hl, bl) = (het.len() as u64, bet.len() as u64);
                if l.bet_first && l.version == 3 {
                    bet_pos = pos;
                    het_pos = pos + bl + gap;
                    segs.push((bet_pos, bet));
                    fill(&mut segs, bet_pos + bl);
                    segs.push((het_pos, het));
                } else {
                    het_pos = pos;
                    bet_pos = pos + hl + gap;
                    segs.push((het_pos, het));
                    fill(&mut segs, het_pos + hl);
                    segs.push((bet_pos, bet));
                }
                pos += hl + gap + bl;
            }
        }
    }
    if l.trailer > 0 && l.gap_fill != 0 && l.trailer <= 1 << 20 {
        segs.push((pos, vec![l.gap_fill; l.trailer as usize]));
    }
    let size = pos + l.trailer;

    let mut h = vec![];
    h.extend(0x1A51504Du32.to_le_bytes());
    h.extend((header_size as u32).to_le_bytes());
    h.extend((size.min(u32::MAX as u64) as u32).to_le_bytes());
    h.extend(l.version.to_le_bytes());
    h.extend(l.shift.to_le_bytes());
    h.extend((hash_pos as u32).to_le_bytes());
    h.extend((block_pos as u32).to_le_bytes());
    h.extend(l.hash_size.to_le_bytes());
    h.extend((l.block_count as u32).to_le_bytes());
    if l.version >= 1 {
        h.extend((hi_pos as u64).to_le_bytes());
        h.extend(((hash_pos >> 32) as u16).to_le_bytes());
        h.extend(((block_pos >> 32) as u16).to_le_bytes());
    }
    if l.version >= 2 {
        h.extend(size.to_le_bytes());
        h.extend((bet_pos as u64).to_le_bytes());
        h.extend((het_pos as u64).to_le_bytes());
    }
    if l.version >= 3 {
        for v in [v4.hash, v4.block, v4.hi, v4.het, v4.bet] {
            h.extend(v.to_le_bytes());
        }
        h.extend(v4.chunk.to_le_bytes());
        for m in [
            v4.md5_block,
            v4.md5_hash,
            v4.md5_hi,
            v4.md5_bet,
            v4.md5_het,
        ] {
            h.extend(m);
        }
        let m = md5(&h);
        h.extend(m);
    }
    assert_eq!(h.len() as u64, header_size);
    segs.insert(0, (0, h));
    Written {
        segs,
        size,
        blocks,
        slot,
    }
}
