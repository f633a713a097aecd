//! Codecs and primitives: M05, M06, M07, M11, M27.
use crate::alloc::measured;
use crate::engine::{Ctx, Prop};
use crate::gen::*;
use crate::refmpq::*;
use mopaq::{compress, decompress};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M05",
            level: "exploration",
            rule: "a case counts when the input is compressed (result shorter than input) or the method must be refused; distinct by choice tape",
            assumptions: &["inputs of up to 300 KB", "the third-party codecs (flate2, bzip2, lzma-rs, pklib) decode their own formats correctly"],
            run: m05,
            quick: 120_000,
            thorough: 1_500_000,
            mem_mb: 0,
            unprivileged: false,
        },
        Prop {
            id: "M06",
            level: "exploration",
            rule: "a case counts when at least one non-initial sample is coded; distinct by choice tape",
            assumptions: &["signals of up to 6000 samples"],
            run: m06,
            quick: 450_000,
            thorough: 3_000_000,
            mem_mb: 0,
            unprivileged: false,
        },
        Prop {
            id: "M07",
            level: "exploration",
            rule: "a case counts when key and data, or the name, are non-empty; distinct by choice tape",
            assumptions: &["names of up to 300 bytes, blocks of up to 2000 words"],
            run: m07,
            quick: 1_200_000,
            thorough: 12_000_000,
            mem_mb: 0,
            unprivileged: false,
        },
        Prop {
            id: "M11",
            level: "exploration",
            rule: "a case counts when the stream is non-empty; distinct by choice tape",
            assumptions: &[
                "memory bound: 24 MiB + 40 x (input + declared size)",
                "an endless loop is recognised by using more than 60 s of CPU for a single case, twice",
            ],
            run: m11,
            quick: 450_000,
            thorough: 2_500_000,
            mem_mb: 12_000,
            unprivileged: false,
        },
        Prop {
            id: "M27",
            level: "exploration",
            rule: "a case counts when the text has at least one name; distinct by choice tape",
            assumptions: &["texts of up to 3000 bytes"],
            run: m27,
            quick: 450_000,
            thorough: 2_000_000,
            mem_mb: 0,
            unprivileged: false,
        },
    ]
}

fn m05(c: &mut Ctx) -> Result<(), String> {
    let max = if c.t.chance(1, 40) { 300_000 } else { 9_000 };
    let sec = *c.t.pick(&[512usize, 4096, 8708]);
    let big = scale(c, 499);
    let d = match big {
        Some(k) => {
            let n = [1usize << 20, 65_536, 2_500_000, 131_072, 900_001, 5_000_000, 1 << 23][c.t.u(7)] + c.t.u(5) - 2;
            content(&mut c.t, n)
        }
        None => data(&mut c.t, sec, max),
    };
    let m = if let Some(k) = big {
        LOSSLESS[k as usize % LOSSLESS.len()]
    } else if c.t.chance(1, 8) {
        c.t.below(256) as u8
    } else {
        *c.t.pick(&LOSSLESS)
    };
    c.describe(format!("method {m:#04x}, {}", short(&d)));
    c.class(format!("method {m:#04x}"));
    let bits = [M_ZLIB, M_PKWARE, M_BZIP2, M_SPARSE, 0x01, 0x04];
    let nb = bits.iter().filter(|b| m & **b != 0).count();
    let adpcm = m & 0xC0;
    let lossless = LOSSLESS.contains(&m);
    let r = compress(&d, m);
    c.evals += 1;
    if lossless {
        let out = r.map_err(|e| format!("supported method {m:#04x} refused: {e}"))?;
        return check_lossless(c, &d, &out, m);
    }
    if adpcm == 0 {
        c.nontrivial();
        // several methods at once, Huffman and Implode: not offered for writing
        return match r {
            Err(_) => Ok(()),
            Ok(out) => {
                // acceptable only if it can really be restored
                check_lossless(c, &d, &out, m)
                    .map_err(|e| format!("unsupported method {m:#04x} accepted, {e}"))
            }
        };
    }
    // audio: only shape and length here (M06 judges the samples)
    c.nontrivial();
    let ok = adpcm != 0xC0 && nb <= 1 && m & 0x05 == 0;
    match r {
        Err(e) => {
            let frame = if adpcm == 0x80 { 4 } else { 2 };
            if ok && d.len() % frame == 0 && !d.is_empty() {
                return Err(format!("audio method {m:#04x} refused {} bytes: {e}", d.len()));
            }
            Ok(())
        }
        Ok(out) => {
            if out == d {
                return Ok(());
            }
            if out.len() >= d.len() || out[0] != m {
                return Err(format!(
                    "result of {} bytes for {} bytes of input, first byte {:#x}",
                    out.len(),
                    d.len(),
                    out[0]
                ));
            }
            let back = decompress(&out[1..], m, d.len())
                .map_err(|e| format!("{m:#04x}: not restorable: {e}"))?;
            if back.len() != d.len() {
                return Err(format!(
                    "{m:#04x}: restored {} bytes instead of {}",
                    back.len(),
                    d.len()
                ));
            }
            Ok(())
        }
    }
}

fn check_lossless(c: &mut Ctx, d: &[u8], out: &[u8], m: u8) -> Result<(), String> {
    if out == d {
        // unchanged: stored raw
        return Ok(());
    }
    c.nontrivial();
    c.class("compressed");
    if out.len() >= d.len() {
        return Err(format!(
            "result has {} bytes for {} bytes of input and is not the input",
            out.len(),
            d.len()
        ));
    }
    if out[0] != m {
        return Err(format!("result starts with {:#x}, not with the method", out[0]));
    }
    let back = decompress(&out[1..], m, d.len())
        .map_err(|e| format!("decompression failed: {e}"))?;
    if back != d {
        return Err(format!("round trip differs: {}", diff(&back, d)));
    }
    // and an independent decoder agrees on what the stream means
    if LOSSLESS.contains(&m) {
        let r = ref_decompress(&out[1..], m, d.len())
            .map_err(|e| format!("independent decoder refuses the stream: {e}"))?;
        if r != d {
            return Err(format!("independent decoder differs: {}", diff(&r, d)));
        }
    }
    // streams of other encoders of the same method
    if m != 0 {
        let v = c.t.below(1000);
        let s = ref_compress(d, m, v);
        if m != M_PKWARE || s.len() < d.len() {
            let back = decompress(&s, m, d.len())
                .map_err(|e| format!("stream of another encoder ({m:#04x}, {v}) refused: {e}"))?;
            if back != d {
                return Err(format!(
                    "stream of another encoder ({m:#04x}, {v}): {}",
                    diff(&back, d)
                ));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M06

const STEP: [i32; 89] = [
    7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73,
    80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494,
    544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499,
    2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487,
    12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767,
];
const NEXT: [i32; 32] = [
    -1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4,
    -1, 6, -1, 8,
];

/// Reference decoder; returns samples and the step size used for each
pub fn adpcm_decode(s: &[u8], channels: usize) -> Option<(Vec<i16>, Vec<i32>)> {
    let shift = *s.get(1)? as u32;
    let mut p = 2;
    let mut pred = [0i32; 2];
    let mut idx = [0x2Ci32; 2];
    let (mut out, mut steps) = (vec![], vec![]);
    for ch in pred.iter_mut().take(channels) {
        let v = i16::from_le_bytes([*s.get(p)?, *s.get(p + 1)?]);
        p += 2;
        *ch = v as i32;
        out.push(v);
        steps.push(0);
    }
    let mut ch = 0;
    while p < s.len() {
        let b = s[p] as i32;
        p += 1;
        match b {
            0x81 => {
                idx[ch] = (idx[ch] + 8).min(88);
                continue;
            }
            0x80 => {
                steps.push(STEP[idx[ch] as usize]);
                idx[ch] = (idx[ch] - 1).max(0);
            }
            _ => {
                let st = STEP[idx[ch] as usize];
                steps.push(st);
                let mut d = if shift < 32 { st >> shift } else { 0 };
                for k in 0..6 {
                    if b >> k & 1 != 0 {
                        d += st >> k;
                    }
                }
                let v = if b & 0x40 != 0 { pred[ch] - d } else { pred[ch] + d };
                pred[ch] = v.clamp(-32768, 32767);
                idx[ch] = (idx[ch] + NEXT[(b & 0x1F) as usize]).clamp(0, 88);
            }
        }
        out.push(pred[ch] as i16);
        ch = (ch + 1) % channels;
    }
    Some((out, steps))
}

pub fn signal(c: &mut Ctx, n: usize, ch: usize) -> Vec<i16> {
    let t = &mut c.t;
    let mut kinds = [0; 2];
    for k in kinds.iter_mut() {
        *k = t.u(7);
    }
    let mut r = t.sub();
    let amp = [40i32, 400, 6000, 32767][r.below(4) as usize];
    let mut last = [0i32; 2];
    let mut out = vec![];
    for i in 0..n {
        let k = i % ch;
        let j = (i / ch) as f64;
        let v = match kinds[k] {
            0 => 0,
            1 => (r.below(65536) as i32) - 32768,
            2 => (amp as f64 * (j / 9.0).sin()) as i32,
            3 => {
                last[k] = (last[k] + r.below(2 * 60) as i32 - 60).clamp(-32768, 32767);
                last[k]
            }
            4 => {
                if (i / ch / 17) % 2 == 0 {
                    32767
                } else {
                    -32768
                }
            }
            5 => {
                if r.below(40) == 0 {
                    last[k] = r.below(65536) as i32 - 32768;
                }
                last[k]
            }
            _ => ((i / ch) as i32 * 37) % (2 * amp + 1) - amp,
        };
        out.push(v as i16);
    }
    out
}

fn m06(c: &mut Ctx) -> Result<(), String> {
    let stereo = c.t.bool();
    let ch = if stereo { 2 } else { 1 };
    let base = if stereo { M_ADPCM_STEREO } else { M_ADPCM_MONO };
    let extra = [0, 0, 0, M_ZLIB, M_BZIP2, M_SPARSE, M_PKWARE][c.t.u(7)];
    let m = base | extra;
    c.class(format!("method {m:#04x}"));
    if c.t.chance(1, 3) {
        // any well-formed stream decodes by the rule
        let n = if c.t.chance(1, 2000) { [65_530, 131_060, 700_000][c.t.u(3)] + c.t.u(20) } else { c.t.u(400) };
        let shift = c.t.u(8) as u8;
        let mut r = c.t.sub();
        let mut s = vec![0, shift];
        s.extend(r.bytes(2 * ch));
        for _ in 0..n {
            let b = match r.below(6) {
                0 => 0x80,
                1 => 0x81,
                _ => r.below(0x80) as u8,
            };
            s.push(b);
        }
        let (want, _) = adpcm_decode(&s, ch).unwrap();
        c.describe(format!("stream of {} bytes, {ch} channels, shift {shift}", s.len()));
        if n > 0 {
            c.nontrivial();
        }
        c.class("free stream");
        let packed = if extra == 0 {
            s.clone()
        } else {
            ref_compress(&s, extra, 4)
        };
        if extra == M_PKWARE && packed.len() >= s.len() {
            return Ok(());
        }
        if extra == M_SPARSE && want.len() * 8 < s.len() {
            return Ok(());
        }
        let got = decompress(&packed, m, want.len() * 2)
            .map_err(|e| format!("well-formed stream refused: {e}"))?;
        let want: Vec<u8> = want.iter().flat_map(|v| v.to_le_bytes()).collect();
        if got != want {
            return Err(format!("decoded samples differ: {}", diff(&got, &want)));
        }
        return Ok(());
    }
    let n = match c.t.weighted(&[800, 1600, 400, 1]) {
        0 => c.t.u(12),
        1 => c.t.u(400),
        2 => c.t.u(6000),
        _ => [65_530, 65_530, 131_070, 300_001, 1_048_570][c.t.u(5)] + c.t.u(20),
    };
    let s = signal(c, n, ch);
    let mut d: Vec<u8> = s.iter().flat_map(|v| v.to_le_bytes()).collect();
    let odd = c.t.chance(1, 12);
    if odd {
        d.push(7);
    }
    c.describe(format!("{} samples{}, method {m:#04x}", n, if odd { " and a byte" } else { "" }));
    let bad = odd || n % ch != 0;
    let out = match compress(&d, m) {
        Ok(o) => o,
        Err(e) => {
            return if bad {
                c.nontrivial();
                Ok(())
            } else {
                Err(format!("representable signal refused: {e}"))
            }
        }
    };
    if bad {
        return Err(format!("signal of {} bytes, {ch} channels, accepted", d.len()));
    }
    if out == d {
        return Ok(());
    }
    if n > ch {
        c.nontrivial();
    }
    if out.len() >= d.len() || out[0] != m {
        return Err("result is neither the input nor shorter with the method in front".into());
    }
    let back = decompress(&out[1..], m, d.len()).map_err(|e| format!("not decodable: {e}"))?;
    if back.len() != d.len() {
        return Err(format!("{} bytes restored of {}", back.len(), d.len()));
    }
    // the ADPCM stream itself
    let inner = if extra == 0 {
        out[1..].to_vec()
    } else {
        use std::io::Read;
        let mut v = vec![];
        match extra {
            M_ZLIB => {
                flate2::read::ZlibDecoder::new(&out[1..])
                    .read_to_end(&mut v)
                    .map_err(|e| e.to_string())?;
            }
            M_BZIP2 => {
                bzip2::read::BzDecoder::new(&out[1..])
                    .read_to_end(&mut v)
                    .map_err(|e| e.to_string())?;
            }
            M_PKWARE => v = pklib::explode_bytes(&out[1..]).map_err(|e| e.to_string())?,
            _ => {
                // sparse: the exact length is unknown, decode all of it
                let mut p = 1;
                while p < out.len() && out[p] != 0xFF {
                    let b = out[p];
                    p += 1;
                    if b >= 0x80 {
                        v.extend(std::iter::repeat_n(0, (b & 0x7F) as usize));
                    } else {
                        v.extend_from_slice(&out[p..(p + b as usize).min(out.len())]);
                        p += b as usize;
                    }
                }
            }
        }
        v
    };
    let (want, steps) = adpcm_decode(&inner, ch).ok_or("stream too short")?;
    let got: Vec<i16> = back
        .chunks_exact(2)
        .map(|b| i16::from_le_bytes([b[0], b[1]]))
        .collect();
    if got != want {
        return Err("library and reference decoder disagree on the library's stream".into());
    }
    for i in 0..n {
        let e = (got[i] as i32 - s[i] as i32).abs();
        if i < ch {
            if e != 0 {
                return Err(format!("first sample of channel {i}: {} -> {}", s[i], got[i]));
            }
        } else if e > (steps[i] >> 3) + 8 {
            return Err(format!(
                "sample {i} (channel {}): {} -> {}, step {}",
                i % ch,
                s[i],
                got[i],
                steps[i]
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M07

fn m07(c: &mut Ctx) -> Result<(), String> {
    match c.t.weighted(&[2, 3]) {
        0 => {
            let n = match c.t.weighted(&[300, 300, 100, 2]) {
                0 => c.t.u(4),
                1 => c.t.u(40),
                2 => c.t.u(2000),
                _ => *c.t.pick(&[65_537, 16_385, 300_000, 65_535]),
            };
            let key = match c.t.weighted(&[6, 1, 1, 2]) {
                0 => c.t.any32(),
                1 => 0,
                2 => *c.t.pick(&[1, !0, 0x8000_0000, 0xC3AF3770, 0xEC83B3A3, 0xFF, 0x100]),
                _ => hash(&name(&mut c.t, false), H_KEY).wrapping_add(c.t.u(3) as u32).wrapping_sub(1),
            };
            let zeros = c.t.chance(1, 6);
            let mut r = c.t.sub();
            let plain: Vec<u32> = (0..n)
                .map(|_| match r.below(8) {
                    _ if zeros => 0,
                    0 => [0, !0, 1, 0x8000_0000, 0xFFFF_0000, 0xFFFF, 0xFFFF_FFFE][r.below(7) as usize],
                    _ => r.next() as u32,
                })
                .collect();
            c.describe(format!("{n} words, key {key:#x}"));
            c.class("cipher");
            if n > 0 && key != 0 {
                c.nontrivial();
            }
            let mut enc = plain.clone();
            mopaq::encrypt_block(&mut enc, key);
            let mut want = plain.clone();
            encrypt_words(&mut want, key);
            if enc != want {
                return Err("ciphertext is not the published algorithm's".into());
            }
            if key == 0 && enc != plain {
                return Err("key 0 changes data".into());
            }
            let mut dec = enc.clone();
            mopaq::decrypt_block(&mut dec, key);
            if dec != plain {
                return Err("decryption does not undo encryption".into());
            }
            // decrypting arbitrary data is the published inverse, too
            let mut d2 = plain.clone();
            let mut w2 = plain.clone();
            mopaq::decrypt_block(&mut d2, key);
            decrypt_words(&mut w2, key);
            if d2 != w2 {
                return Err("plaintext is not the published algorithm's".into());
            }
            if let Some(&w) = plain.first() {
                let mut one = [w];
                mopaq::decrypt_block(&mut one, key);
                if mopaq::decrypt_dword(w, key) != one[0] {
                    return Err("single-word and block decryption differ".into());
                }
            }
            // bytes through the builder's cipher
            let k = if r.below(8) == 0 { r.below(9000) } else { r.below(40) } as usize;
            let bytes = r.bytes(k);
            let mut e = bytes.clone();
            mopaq::ArchiveBuilder::new().encrypt_data(&mut e, key);
            let mut w = bytes;
            encrypt_file(&mut w, key);
            let whole = k / 4 * 4;
            if e[..whole] != w[..whole] {
                return Err("byte-wise encryption differs from the word cipher".into());
            }
            c.evals += 6;
        }
        _ => {
            let n = match c.t.weighted(&[3, 3, 1]) {
                0 => name(&mut c.t, false),
                1 => {
                    // any characters at all
                    let l = c.t.u(24);
                    (0..l)
                        .map(|_| match c.t.weighted(&[4, 2, 1]) {
                            0 => char::from(c.t.u(128) as u8),
                            1 => char::from_u32(0x80 + c.t.u(0x780) as u32).unwrap_or('x'),
                            _ => char::from_u32(c.t.u(0x11_0000) as u32).unwrap_or('y'),
                        })
                        .collect()
                }
                _ => {
                    let l = if c.t.chance(1, 50) { *c.t.pick(&[1025, 4097, 65_537, 40_000]) } else { c.t.u(300) };
                    let mut r = c.t.sub();
                    (0..l).map(|_| char::from(32 + r.below(95) as u8)).collect()
                }
            };
            c.describe(format!("name {n:?}"));
            c.class("names");
            if !n.is_empty() {
                c.nontrivial();
            }
            let kinds = [
                ("offset", mopaq::hash_type::TABLE_OFFSET, H_OFFSET),
                ("name a", mopaq::hash_type::NAME_A, H_NAME_A),
                ("name b", mopaq::hash_type::NAME_B, H_NAME_B),
                ("key", mopaq::hash_type::FILE_KEY, H_KEY),
            ];
            let other = respell(&mut c.t, &n);
            for (what, k, rk) in kinds {
                let h = mopaq::hash_string(&n, k);
                if h != hash(&n, rk) {
                    return Err(format!("{what} hash is not the published algorithm's"));
                }
                if mopaq::hash_string(&other, k) != h {
                    return Err(format!("{what} hash differs for the spelling {other:?}"));
                }
            }
            let j = mopaq::jenkins_hash(&n);
            if j != jenkins(&n) {
                return Err("Jenkins hash is not the published algorithm's".into());
            }
            if mopaq::jenkins_hash(&other) != j {
                return Err(format!("Jenkins hash differs for the spelling {other:?}"));
            }
            // one changed character: not alike
            if !n.is_empty() {
                let cs: Vec<char> = n.chars().collect();
                let i = c.t.u(cs.len());
                let mut v = cs.clone();
                v[i] = *c.t.pick(&['a', 'Z', '0', '_', '\\', ' ', 'é', 'É', '`', '{', '[', '@', '.', '|']);
                let n2: String = v.iter().collect();
                if fold(&n2) != fold(&n) {
                    let same = mopaq::jenkins_hash(&n2) == j
                        || (mopaq::hash_string(&n2, 1) == mopaq::hash_string(&n, 1)
                            && mopaq::hash_string(&n2, 2) == mopaq::hash_string(&n, 2));
                    if same {
                        return Err(format!("{n:?} and {n2:?} are treated alike"));
                    }
                }
            }
            c.evals += 10;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M11

/// Short streams that stand for 64 MiB of zeros
pub fn bomb(m: u8) -> &'static [u8] {
    use std::sync::OnceLock;
    static SPARSE: OnceLock<Vec<u8>> = OnceLock::new();
    static PKWARE: OnceLock<Vec<u8>> = OnceLock::new();
    match m {
        M_ZLIB => include_bytes!("../../data/zlib.bin"),
        M_BZIP2 => include_bytes!("../../data/bzip2.bin"),
        M_LZMA => include_bytes!("../../data/lzma.bin"),
        0xFF => include_bytes!("../../data/xz.bin"),
        M_SPARSE => SPARSE.get_or_init(|| ref_compress(&vec![0; 64 << 20], M_SPARSE, 0)),
        _ => PKWARE.get_or_init(|| ref_compress(&vec![0; 64 << 20], M_PKWARE, 2)),
    }
}

/// A tiny stream that expands to far more than declared
fn m11_bomb(c: &mut Ctx) -> Result<(), String> {
    let (m, which) = *c.t.pick(&[(M_ZLIB, M_ZLIB), (M_BZIP2, M_BZIP2), (M_LZMA, M_LZMA), (M_LZMA, 0xFF), (M_SPARSE, M_SPARSE), (M_PKWARE, M_PKWARE)]);
    let mut stream = bomb(which).to_vec();
    let size = [0, 1, 4096, 1 << 20][c.t.u(4)] + c.t.u(600);
    let mode = c.t.u(4);
    match mode {
        // its declared size altered to fit
        1 if which == M_LZMA => stream[5..13].copy_from_slice(&(size as u64).to_le_bytes()),
        // cut short
        2 => {
            let l = stream.len() - c.t.u(stream.len());
            stream.truncate(l);
        }
        _ => {}
    }
    c.class(format!("expanding stream {which:#04x}"));
    c.describe(format!("method {m:#04x}, declared {size}, {} bytes that expand to 64 MiB, mode {mode}", stream.len()));
    c.nontrivial();
    let (r, peak) = measured(|| decompress(&stream, m, size));
    let bound = (8 << 20) + 40 * size + 16 * stream.len();
    if peak > bound {
        let msg = format!("decompressing {} bytes to {size} used {peak} bytes of memory", stream.len());
        if which != 0xFF || r.is_ok() {
            return Err(msg);
        }
        c.known("M11", "xz-memory", msg)?;
    }
    match r {
        Ok(o) if o.len() > size => Err(format!("{} bytes delivered, {size} declared", o.len())),
        _ => Ok(()),
    }
}

fn m11(c: &mut Ctx) -> Result<(), String> {
    if c.t.chance(1, 600) {
        return m11_bomb(c);
    }
    let kind = c.t.weighted(&[2, 5, 3]);
    let m = match c.t.weighted(&[6, 2, 2]) {
        0 => *c.t.pick(&[M_ZLIB, M_BZIP2, M_LZMA, M_SPARSE, M_PKWARE, M_ADPCM_MONO, M_ADPCM_STEREO]),
        1 => *c.t.pick(&[0x01u8, 0x04, 0x41, 0x81, 0x42, 0x48, 0x82, 0x88, 0xC9, 0x0A, 0x30, 0x09, 0]),
        _ => c.t.below(256) as u8,
    };
    c.class(format!("method {m:#04x}"));
    let (stream, size0) = match kind {
        0 => {
            let n = c.t.u(600);
            (content(&mut c.t, n), c.t.u(2000))
        }
        _ => {
            // a valid stream, altered (kind 1) or with another size declared (kind 2)
            let n = c.t.urange(1, 5000);
            let mut d = content(&mut c.t, n);
            if d.len() % 4 != 0 {
                let l = d.len() / 4 * 4;
                d.truncate(l);
            }
            let mut s = compress(&d, m)
                .ok()
                .filter(|o| o.len() < d.len())
                .map(|o| o[1..].to_vec())
                .unwrap_or_else(|| ref_compress(&d, m, c.t.below(100)));
            if s.is_empty() {
                s.push(1);
            }
            if kind == 1 {
                mutate(c, &mut s);
            }
            (s, d.len())
        }
    };
    let size = match c.t.weighted(&[4, 2, 1, 1, 1]) {
        0 => size0,
        1 => c.t.u(size0 + 2),
        2 => size0 * 4 + c.t.u(1000),
        3 => *c.t.pick(&[0, 1, 2, 3, 4]),
        _ => *c.t.pick(&[1 << 20, 16 << 20]),
    };
    c.describe(format!("method {m:#04x}, declared {size}, stream {}", short(&stream)));
    if !stream.is_empty() {
        c.nontrivial();
    }
    let (r, peak) = measured(|| decompress(&stream, m, size));
    let bound = (24 << 20) + 40 * (stream.len() + size);
    if peak > bound {
        return Err(format!(
            "decompressing {} bytes to {size} used {peak} bytes of memory",
            stream.len()
        ));
    }
    if let Ok(o) = r {
        // an archive's raw data has no decoder: method 0 hands the input through
        if m != 0 && o.len() > size {
            return Err(format!("{} bytes delivered, {size} declared", o.len()));
        }
        c.class("accepted");
    } else {
        c.class("refused");
    }
    Ok(())
}

pub fn mutate(c: &mut Ctx, s: &mut Vec<u8>) {
    let k = c.t.urange(1, 4);
    for _ in 0..k {
        if s.is_empty() {
            break;
        }
        let n = s.len();
        match c.t.u(7) {
            0 => {
                let i = c.t.u(n);
                s[i] ^= 1 << c.t.u(8);
            }
            1 => {
                let i = c.t.u(n);
                s[i] = c.t.below(256) as u8;
            }
            2 => {
                let l = c.t.u(n);
                s.truncate(l.max(1));
            }
            3 => {
                let i = c.t.u(n);
                let l = c.t.u(9);
                let v = *c.t.pick(&[0u8, 0xFF, 0x80, 0x81, 0x7F]);
                for b in s.iter_mut().skip(i).take(l) {
                    *b = v;
                }
            }
            4 => {
                let l = c.t.u(12);
                let x = content(&mut c.t, l);
                s.extend(x);
            }
            5 => {
                let i = c.t.u(n);
                s.remove(i);
            }
            _ => {
                // the first bytes carry the parameters
                let i = c.t.u(n.min(14));
                s[i] = c.t.below(256) as u8;
            }
        }
    }
}

// ------------------------------------------------------------------ M27

/// Names of a listfile by its documentation
pub fn listfile_names(d: &[u8]) -> Vec<String> {
    let text = String::from_utf8_lossy(d);
    let mut out = vec![];
    for l in text.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l).trim();
        if l.is_empty() || l.starts_with(';') || l.starts_with('#') {
            continue;
        }
        let name = match l.find(';') {
            Some(i) => l[..i].trim(),
            None => l,
        };
        if !name.is_empty() {
            out.push(name.to_string());
        }
    }
    out
}

pub fn listfile_text(c: &mut Ctx, known: &[String]) -> Vec<u8> {
    let n = match c.t.weighted(&[4, 2, 1]) {
        0 => c.t.u(6),
        1 => c.t.u(25),
        _ => c.t.u(80),
    };
    let mut v = vec![];
    for _ in 0..n {
        match c.t.weighted(&[8, 2, 2, 2, 2, 1, 1]) {
            0 => {
                let s = if !known.is_empty() && c.t.bool() {
                    known[c.t.u(known.len())].clone()
                } else {
                    name(&mut c.t, true)
                };
                v.extend(s.as_bytes());
            }
            1 => {
                let s = name(&mut c.t, true);
                v.extend(format!("{s};{}", ["", "1", "a;b", " x"][c.t.u(4)]).as_bytes());
            }
            2 => v.extend([&b"; comment"[..], b"# c", b";", b"#", b"  # indented", b"\t;x"][c.t.u(6)]),
            3 => v.extend([&b""[..], b"   ", b"\t"][c.t.u(3)]),
            4 => {
                let s = name(&mut c.t, true);
                v.extend(format!("{}{s}{}", [" ", "\t", "  "][c.t.u(3)], [" ", "\t", ""][c.t.u(3)]).as_bytes());
            }
            5 => {
                let l = c.t.u(12);
                let mut r = c.t.sub();
                v.extend(r.bytes(l));
            }
            _ => v.extend([&b"a\xffb.txt"[..], b"\xc3\x28", b"\xef\xbb\xbfbom", b"x\0y"][c.t.u(4)]),
        }
        v.extend([&b"\r\n"[..], b"\n", b"\r\n", b"\n\n", b"\r\r\n", b"\n\r", b"\r"][c.t.weighted(&[6, 4, 2, 1, 1, 1, 1])]);
    }
    if c.t.bool() {
        while matches!(v.last(), Some(b'\r' | b'\n')) {
            v.pop();
        }
    }
    v
}

fn m27(c: &mut Ctx) -> Result<(), String> {
    let in_archive = c.t.chance(1, 10);
    if !in_archive {
        let mut d = listfile_text(c, &[]);
        let big = scale(c, 1999);
        if big.is_some() || c.t.chance(1, 500) {
            // a long one
            let mut r = c.t.sub();
            let base = d.clone();
            let (len, line) = match big {
                Some(k) => [(1_200_000, 200), (700_000, 2), (2_100_000, 90_000), (300_000, 6_000)][k as usize % 4],
                None => (80_000, 200),
            };
            while d.len() < len + r.below(40_000) as usize {
                let l = r.below(line) as usize;
                d.extend((0..l).map(|_| b'a' + r.below(26) as u8));
                d.extend(b"\r\n");
                d.extend(&base);
            }
            c.class("long text");
        }
        c.describe(format!("text {:?}", String::from_utf8_lossy(&d[..d.len().min(3000)])));
        let want = listfile_names(&d);
        if !want.is_empty() {
            c.nontrivial();
        }
        let got = mopaq::special_files::parse_listfile(&d).map_err(|e| format!("refused: {e}"))?;
        if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let part = |v: &[String]| format!("{:?}", &v[i.min(v.len())..(i + 20).min(v.len())]);
            return Err(format!("{} names, expected {}; from name {i}: {}, expected {}", got.len(), want.len(), part(&got), part(&want)));
        }
        return Ok(());
    }
    // an external listfile is stored unchanged and decides what is listed
    c.class("archive");
    let mut g = archive(
        &mut c.t,
        &GenOpt {
            max_files: 6,
            max_size: 1500,
            listable: true,
            locales: false,
            external: false,
            disk: false,
            ..Default::default()
        },
    );
    let names: Vec<String> = g.files.iter().map(|f| f.name.clone()).collect();
    let mut text = listfile_text(c, &names);
    if c.t.chance(1, 100) {
        let n = [500, 4_000, 70_000, 260_000][c.t.u(4)];
        let mut r = c.t.sub();
        let mut more = vec![];
        while more.len() < n {
            more.extend(format!("not\\there{}\r\n", r.below(1 << 40)).bytes());
        }
        text.splice(0..0, more);
        c.class("long text");
    }
    g.listfile = LF::External(text.clone());
    note(c, &g);
    c.describe(format!("text {:?}", String::from_utf8_lossy(&text[..text.len().min(3000)])));
    let want = listfile_names(&text);
    if !want.is_empty() {
        c.nontrivial();
    }
    let p = c.path("a.mpq");
    g.build(&c.dir, &p).map_err(|e| format!("build failed: {e}"))?;
    let mut a = open(&p)?;
    let stored = a.read_file("(listfile)").map_err(|e| format!("listfile unreadable: {e}"))?;
    if stored != text {
        return Err(format!("stored listfile differs: {}", diff(&stored, &text)));
    }
    let have: Vec<Vec<u8>> = names
        .iter()
        .map(|n| fold(n))
        .chain([fold("(listfile)")])
        .collect();
    let want: Vec<String> = want.into_iter().filter(|n| have.contains(&fold(n))).collect();
    let got: Vec<String> = a
        .list()
        .map_err(|e| format!("list failed: {e}"))?
        .into_iter()
        .map(|e| e.name)
        .collect();
    if got != want {
        return Err(format!("listed {got:?}, expected {want:?}"));
    }
    Ok(())
}
