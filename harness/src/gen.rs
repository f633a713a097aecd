//! Generators: file contents, names, build specifications, layouts for the independent writer.
use crate::engine::Ctx;
use crate::refmpq::*;
use crate::tape::Tape;
use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
use std::collections::HashSet;
use std::path::Path;

pub const VERSIONS: [FormatVersion; 4] = [
    FormatVersion::V1,
    FormatVersion::V2,
    FormatVersion::V3,
    FormatVersion::V4,
];

/// Length around the interesting boundaries of a sector size
pub fn len(t: &mut Tape, sector: usize, max: usize) -> usize {
    let n = match t.weighted(&[2, 3, 4, 5, 2]) {
        0 => t.u(4),
        1 => t.urange(0, 64),
        2 => t.urange(0, sector.saturating_mul(2).min(max)),
        3 => {
            let k = t.urange(1, (max / sector.max(1)).clamp(1, 9));
            let d = t.u(9);
            (k * sector + d).saturating_sub(4)
        }
        _ => t.urange(0, max),
    };
    n.min(max)
}

/// File content of a given length; kinds that compress well, badly and partly
pub fn content(t: &mut Tape, n: usize) -> Vec<u8> {
    let kind = t.u(10);
    let mut r = t.sub();
    let mut d = vec![0u8; n];
    match kind {
        0 => {
            let b = r.below(256) as u8;
            d.fill(if r.below(2) == 0 { 0 } else { b });
        }
        1 => {
            // text-like
            let words = ["the ", "archive ", "MPQ ", "file", "\r\n", "0123", "sector"];
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(words[r.below(words.len() as u64) as usize].as_bytes());
            }
            v.truncate(n);
            d = v;
        }
        2 => d = r.bytes(n),
        3 => {
            // zero runs of critical lengths between literals
            let mut v = vec![];
            while v.len() < n {
                let z = match r.below(5) {
                    0 => 125 + r.below(5),
                    1 => 252 + r.below(5),
                    2 => 1,
                    3 => r.below(20),
                    _ => r.below(600),
                };
                v.extend(std::iter::repeat_n(0u8, z as usize));
                let l = match r.below(4) {
                    0 => 125 + r.below(5),
                    1 => 1,
                    _ => r.below(40),
                };
                for _ in 0..l {
                    v.push(1 + r.below(255) as u8);
                }
            }
            v.truncate(n);
            d = v;
        }
        4 => {
            // compressible and incompressible stretches alternate
            let mut i = 0;
            while i < n {
                let l = (1 + r.below(1200) as usize).min(n - i);
                if r.below(2) == 0 {
                    let b = r.bytes(l);
                    d[i..i + l].copy_from_slice(&b);
                } else {
                    let b = r.below(256) as u8;
                    d[i..i + l].fill(b);
                }
                i += l;
            }
        }
        5 => {
            // barely compressible: random with one short repetition
            d = r.bytes(n);
            if n > 24 {
                let l = 3 + r.below(12) as usize;
                let a = r.below((n - l) as u64) as usize;
                let b = r.below((n - l) as u64) as usize;
                let c: Vec<u8> = d[a..a + l].to_vec();
                d[b..b + l].copy_from_slice(&c);
            }
        }
        6 => {
            // looks like a compressed stream or an archive
            d = r.bytes(n);
            let heads: [&[u8]; 8] = [
                &[0x02, 0x78, 0x9c],
                &[0x10, b'B', b'Z', b'h'],
                &[0x12, 0x5d, 0, 0],
                &[0x08, 0, 6],
                &[0x20, 0xff],
                b"MPQ\x1a",
                &[0x40, 0, 4],
                &[0],
            ];
            let h = heads[r.below(heads.len() as u64) as usize];
            let l = h.len().min(n);
            d[..l].copy_from_slice(&h[..l]);
        }
        7 => {
            // small alphabet
            let k = 2 + r.below(6);
            for b in d.iter_mut() {
                *b = b'a' + r.below(k) as u8;
            }
        }
        8 => {
            // 32-bit counter
            for (i, c) in d.chunks_mut(4).enumerate() {
                let w = (i as u32).to_le_bytes();
                let l = c.len();
                c.copy_from_slice(&w[..l]);
            }
        }
        _ => {
            // random, with zero tail or head
            d = r.bytes(n);
            let k = r.below(n as u64 + 1) as usize;
            if r.below(2) == 0 {
                d[k..].fill(0);
            } else {
                d[..k].fill(0);
            }
        }
    }
    d
}

pub fn data(t: &mut Tape, sector: usize, max: usize) -> Vec<u8> {
    let n = len(t, sector, max);
    content(t, n)
}

/// Names whose hashes are special: file key just above zero or just below 2^32 (sector keys wrap around), or a name
/// hash of 0, 0xFFFFFFFE or 0xFFFFFFFF (the values that mark unused table entries)
pub const KEYED: &[&str] = &[
    "093Q9UN", "0T3QL7U", "0GX88KZ", "0YK59AO", "174IG8K", "1BOMBEP", "0AA8FSM", "0VK25XF", "0QG9LIR", "5LALTBT",
    "1IHBSCZ", "1NNN9FQ", "0QF1EJL", "71GXAYP", "83Q3AN4", "4WN0VB2", "7MLFHT1", "8OE9MFD", "369DFYG", "3Y216IE",
    "2L7OS7D", "32034UU", "0G9LT1M", "0EHVFI8", "0NB5HR0", "096MAWH", "2O31D19", "0GFMPXK", "42BV3K2", "07GXDC6",
    "0QASA9H", "0P39E22", "5NCBNWV", "2DDZWL1", "0VTCU5U", "0J2SQUV", "0WSM22H", "3BX3474", "0JW1AWU", "3HSSI2M",
    "15CIL67", "1TDJ9B3", "4W484TI", "0S90O1S", "0TNA84M", "207A0PT", "1EH6VHS", "2K1Q427", "4RHF66N", "5TXCUBI",
    "0A2IE7M", "0ESELAY", "0XYENQD",
];

/// Pairs of names with the same 64-bit Jenkins hash, told apart by the hash table only
pub const TWINS: &[(&str, &str)] = &[
    ("PWR4G00", "PWR4B50"), ("PWR4G10", "PWR4B60"), ("P0OES30", "P0OEV60"), ("P0OES20", "P0OEV50"), ("P0OES10", "P0OEV40"),
    ("P0OES00", "P0OEV30"), ("PZ0F030", "PZ03O30"), ("PZ0F000", "PZ03O00"), ("PZ0F010", "PZ03O10"), ("PZ0F020", "PZ03O20"),
    ("PZ0F040", "PZ03O40"), ("PZ0F050", "PZ03O50"), ("PZ0F060", "PZ03O60"), ("PZ0F160", "PZ03P60"), ("PZ0F120", "PZ03P20"),
    ("PZ0F130", "PZ03P30"), ("PZ0F140", "PZ03P40"), ("PZ0F150", "PZ03P50"), ("PZ0F100", "PZ03P00"), ("PZ0F110", "PZ03P10"),
    ("PZ0F240", "PZ03Q40"), ("PZ0F250", "PZ03Q50"), ("PZ0F260", "PZ03Q60"), ("PZ0F200", "PZ03Q00"), ("PZ0F210", "PZ03Q10"),
    ("PZ0F220", "PZ03Q20"), ("PZ0F230", "PZ03Q30"), ("PZ0F830", "PZ03W30"), ("PZ0F800", "PZ03W00"), ("PZ0F850", "PZ03W50"),
    ("PZ0F860", "PZ03W60"), ("PZ0F840", "PZ03W40"), ("PZ0F810", "PZ03W10"), ("PZ0F820", "PZ03W20"), ("PZ0F540", "PZ03T40"),
    ("PZ0F510", "PZ03T10"), ("PZ0F520", "PZ03T20"), ("PZ0F530", "PZ03T30"), ("PZ0F550", "PZ03T50"), ("PZ0F560", "PZ03T60"),
    ("PZ0F500", "PZ03T00"), ("PZ0F300", "PZ03R00"), ("PZ0F330", "PZ03R30"), ("PZ0F340", "PZ03R40"), ("PZ0F310", "PZ03R10"),
    ("PZ0F320", "PZ03R20"), ("PZ0F350", "PZ03R50"), ("PZ0F360", "PZ03R60"), ("PZ0F920", "PZ03X20"), ("PZ0F900", "PZ03X00"),
    ("PZ0F940", "PZ03X40"), ("PZ0F930", "PZ03X30"), ("PZ0F910", "PZ03X10"), ("PZ0F960", "PZ03X60"), ("PZ0F950", "PZ03X50"),
    ("PZ0F660", "PZ03U60"), ("PZ0F610", "PZ03U10"), ("PZ0F600", "PZ03U00"), ("PZ0F620", "PZ03U20"), ("PZ0F630", "PZ03U30"),
    ("PZ0F640", "PZ03U40"), ("PZ0F650", "PZ03U50"), ("PZ0F760", "PZ03V60"), ("PZ0F750", "PZ03V50"), ("PZ0F720", "PZ03V20"),
    ("PZ0F740", "PZ03V40"), ("PZ0F730", "PZ03V30"), ("PZ0F710", "PZ03V10"), ("PZ0F700", "PZ03V00"), ("PZ0F410", "PZ03S10"),
    ("PZ0F420", "PZ03S20"), ("PZ0F460", "PZ03S60"), ("PZ0F450", "PZ03S50"), ("PZ0F400", "PZ03S00"), ("PZ0F430", "PZ03S30"),
    ("PZ0F440", "PZ03S40"), ("PUXF420", "PUXF240"), ("PUXF430", "PUXF250"), ("PUXF400", "PUXF220"), ("PUXF410", "PUXF230"),
    ("PUXF440", "PUXF260"), ("PUXF450", "PUXF270"), ("PKTH830", "PKTSA30"), ("PKTH840", "PKTSA40"), ("PKTH850", "PKTSA50"),
    ("PKTH860", "PKTSA60"), ("PKTH820", "PKTSA20"), ("PKTH810", "PKTSA10"), ("PKTH800", "PKTSA00"), ("PKTH920", "PKTSB20"),
    ("PKTH900", "PKTSB00"), ("PKTH910", "PKTSB10"), ("PKTH950", "PKTSB50"), ("PKTH960", "PKTSB60"), ("PKTH930", "PKTSB30"),
    ("PKTH940", "PKTSB40"), ("P1WKP00", "P1WKS30"), ("P1WKP10", "P1WKS40"), ("P1WKP20", "P1WKS50"), ("P1WKP30", "P1WKS60"),
    ("P1YT600", "P1YT060"), ("P1YT610", "P1YT070"), ("PXQR300", "PXQR960"), ("PMIN040", "PMIDZ40"), ("PMIN030", "PMIDZ30"),
    ("PMIN000", "PMIDZ00"), ("PMIN020", "PMIDZ20"), ("PMIN010", "PMIDZ10"), ("PMIN060", "PMIDZ60"), ("PMIN050", "PMIDZ50"),
    ("PVV3T00", "PVV3O50"), ("PVV3T10", "PVV3O60"), ("P6OQ430", "P6OQ760"), ("P6OQ420", "P6OQ750"), ("P6OQ400", "P6OQ730"),
    ("P6OQ410", "P6OQ740"), ("PN0OX00", "PN0OR60"), ("PSDV330", "PSDV660"), ("PSDV300", "PSDV630"), ("PSDV310", "PSDV640"),
];

/// Pairs of names that agree in one of the name hashes and the starting slot of small tables (first eleven), in one
/// name hash and part of the other, or in 32 or 40 bits of the Jenkins hash
pub const PAIRS: &[(&str, &str)] = &[
    ("PAS1730", "PXZ1950"), ("PU9ZX20", "P9H2J40"), ("POE5T10", "PI9LD30"), ("P26SD40", "PZQX060"), ("P8GC640", "PCOWX40"),
    ("PDRM440", "PR3AP50"), ("PIJMJ20", "POLOA60"), ("PIBT540", "PIHW750"), ("PYCWX00", "PDESI50"), ("PLJLF10", "PGOC420"),
    ("PMXOF50", "PDIS060"), ("PQYZQ10", "PU00920"), ("P31OS30", "PPUBW60"), ("P953030", "PU7B550"), ("PUW1V30", "P7TV070"),
    ("PIZ5O10", "PNT2350"), ("PEARQ10", "PIYN960"), ("PH7DD10", "PNF5W30"), ("PS9KO00", "PVCER50"), ("PM4KE60", "P7UUS60"),
    ("PJUH000", "P6QWC60"), ("PJLS960", "PVXKN60"), ("PMB8M00", "PILOD10"), ("P3VH540", "P731E40"), ("PGS7R00", "PRDUF40"),
    ("PJDZ720", "P5OLS60"), ("PNLK230", "P1NI530"), ("PW23110", "PZ3GY60"), ("PZ1AC40", "P1Y7F40"), ("PHC0A10", "PB14U30"),
    ("PEWG160", "P007E60"), ("PEMUE00", "PK7MT00"), ("P1VM330", "PCIE430"),
];

/// Pairs of names that agree in the low bits of the starting slot and in 48 bits of the two name hashes, in one name
/// hash and 19 bits of the starting slot, or in the sum or difference of the name hashes
pub const NEARS: &[(&str, &str)] = &[
    ("QSABGR3", "QEJNHUN"), ("QC0L3OE", "QHOIZ7I"), ("QCJH4L5", "Q7FMMF7"), ("QM77GZ2", "Q10WOKN"),
    ("QTEY7A9", "QHV82NZ"), ("QOJSWKI", "QB4V0OH"), ("QEF0L6Z", "Q4LJOZT"), ("QWG4GO7", "Q90CHTV"),
    ("QGHRIFX", "Q8BGTWS"), ("QZZTP54", "QYH9GHE"), ("QASO0C7", "QZYX1QF"), ("Q7WVJ6Q", "Q0W5IOY"),
    ("QH0GAH4", "QX4YSPI"), ("Q9S60M8", "QBN0LLH"), ("Q7ABL66", "Q97N6ZD"), ("Q98BXWN", "Q7JDCGT"),
    ("QZS4QUF", "Q0M98O9"), ("QPGUKTI", "QQQHKYY"), ("QA55GF0", "QV4YOID"), ("QZ2RYMK", "QID9OLW"),
    ("Q0SLYB5", "QDGFAHG"), ("QIC5ZES", "QFXMLMU"), ("Q9KZZEF", "QHKDDFV"), ("Q8RZ2WP", "QCNYPOW"),
    ("QMPHWGK", "Q2IBEFU"), ("QYHOPXL", "QF8QA9Z"), ("QIU09OC", "QJETW2U"), ("QM9WRN2", "QNKVUXA"),
    ("QZJXUBU", "Q3SGS7Y"), ("QJ4XDBO", "QR5C5LZ"), ("QI3EI4P", "QSSHJB0"), ("QUBZBRG", "QSV8QNQ"),
    ("QJD2FP6", "QNX5BZD"), ("QO8RJ72", "QDYPJS8"), ("Q1CKNXQ", "QVDST41"), ("QL0MB3C", "Q0CNGCV"),
    ("QIC376I", "QL4KXKW"), ("QTXAYR3", "Q4F2IUA"),
];

/// A name; listable: survives a listfile line (no line breaks, ';', leading '#', outer blanks)
pub fn name(t: &mut Tape, listable: bool) -> String {
    if t.chance(1, 16) {
        let s = match t.weighted(&[4, 1, 1, 1]) {
            0 => KEYED[t.u(KEYED.len())],
            k => {
                let p = [PAIRS, TWINS, NEARS][k - 1];
                let p = p[t.u(p.len())];
                if t.bool() { p.0 } else { p.1 }
            }
        };
        return if t.bool() { s.to_lowercase() } else { s.to_string() };
    }
    let segs = [
        "a", "b", "Unit", "war3map", "DATA", "data", "Interface", "x", "textures", "é", "日本",
        "ß", "with space", "UPPER", "lower", "Mixed.Case", "..", "-", "{0}", "_", "~", "'q'",
        "100%", "$x", "(file)", "file_00000001", "Ä", "ı", "\u{1F600}", "K", "@",
        "[z]", "`", "^", "\u{7f}", "q!", "=", "&",
    ];
    let ext = ["", ".txt", ".blp", ".MDX", ".j", ".", ".tar.gz"];
    let mut s = String::new();
    let depth = match t.weighted(&[4, 4, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => t.urange(4, 12),
    };
    for i in 0..depth {
        if i > 0 {
            s.push_str(["\\", "/", "\\\\"][t.weighted(&[4, 4, 1])]);
        }
        match t.weighted(&[5, 3, 1]) {
            0 => s.push_str(segs[t.u(segs.len())]),
            1 => {
                let l = t.urange(1, 10);
                for _ in 0..l {
                    let c = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-"
                        [t.u(65)];
                    s.push(c as char);
                }
            }
            _ => {
                let l = if t.chance(1, 16) { t.urange(240, 530) } else { t.urange(1, 60) };
                let mut r = t.sub();
                for _ in 0..l {
                    s.push((b'a' + r.below(26) as u8) as char);
                }
            }
        }
    }
    s.push_str(ext[t.u(ext.len())]);
    if listable {
        if s.starts_with('#') || s.contains(';') || s.trim() != s || s.is_empty() {
            s = format!("n{}", s.replace(';', "_").trim());
        }
    } else {
        match t.weighted(&[20, 1, 1, 1, 1]) {
            1 => s = String::new(),
            2 => s = format!("#{s}"),
            3 => s = format!("{s};1"),
            4 => s = format!(" {s}\t"),
            _ => {}
        }
    }
    s
}

pub fn is_special(n: &str) -> bool {
    let f = fold(n);
    [&b"(LISTFILE)"[..], b"(ATTRIBUTES)", b"(SIGNATURE)"].contains(&&f[..])
}

pub fn unique_name(t: &mut Tape, seen: &mut HashSet<Vec<u8>>, listable: bool) -> String {
    for _ in 0..20 {
        let n = name(t, listable);
        if !is_special(&n) && seen.insert(fold(&n)) {
            return n;
        }
    }
    let mut k = seen.len();
    loop {
        let n = format!("u{k}");
        if seen.insert(fold(&n)) {
            return n;
        }
        k += 1;
    }
}

/// Another spelling of a name (letter case, slashes)
pub fn respell(t: &mut Tape, n: &str) -> String {
    let mut r = t.sub();
    n.chars()
        .map(|c| match c {
            '/' | '\\' => ['/', '\\'][r.below(2) as usize],
            c if c.is_ascii_alphabetic() => {
                if r.below(2) == 0 {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            }
            c => c,
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Plain,
    Encrypted,
    FixKey,
}

#[derive(Clone)]
pub struct GFile {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u8,
    /// use the builder's default method (plain add_file / add_file_data)
    pub default_method: bool,
    pub mode: Mode,
    pub locale: u16,
    pub from_disk: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LF {
    Generate,
    None,
    External(Vec<u8>),
}

#[derive(Clone)]
pub struct GArchive {
    pub version: usize,
    pub shift: u16,
    pub crcs: bool,
    pub listfile: LF,
    pub compress_tables: Option<bool>,
    pub table_method: Option<u8>,
    pub default_method: Option<u8>,
    pub files: Vec<GFile>,
}

pub struct GenOpt {
    pub max_files: usize,
    pub max_size: usize,
    pub listable: bool,
    pub crcs: Option<bool>,
    pub locales: bool,
    pub external: bool,
    pub versions: &'static [usize],
    pub disk: bool,
}
impl Default for GenOpt {
    fn default() -> Self {
        GenOpt {
            max_files: 8,
            max_size: 20_000,
            listable: false,
            crcs: None,
            locales: true,
            external: true,
            versions: &[0, 1, 2, 3],
            disk: true,
        }
    }
}

pub fn method(t: &mut Tape) -> u8 {
    LOSSLESS[t.u(LOSSLESS.len())]
}

pub fn archive(t: &mut Tape, o: &GenOpt) -> GArchive {
    let version = *t.pick(o.versions);
    let shift = match t.weighted(&[6, 3, 2, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => t.urange(2, 3),
        3 => t.urange(4, 8),
        _ => t.urange(9, 16),
    } as u16;
    let sector = 512usize << shift;
    let crcs = o.crcs.unwrap_or_else(|| t.bool());
    let listfile = match t.weighted(&[4, 2, if o.external { 1 } else { 0 }]) {
        0 => LF::Generate,
        1 => LF::None,
        _ => {
            let n = t.u(200);
            LF::External(content(t, n))
        }
    };
    let (mut compress_tables, mut table_method) = (None, None);
    if t.bool() {
        compress_tables = Some(t.bool());
        if t.bool() {
            table_method = Some(method(t));
        }
    }
    let default_method = if t.bool() { Some(method(t)) } else { None };
    let nf = match t.weighted(&[6, 3, 1]) {
        0 => t.urange(0, o.max_files.min(4)),
        1 => t.urange(0, o.max_files),
        _ => t.urange(0, 4 * o.max_files),
    };
    let mut seen = HashSet::new();
    let mut files: Vec<GFile> = vec![];
    for _ in 0..nf {
        let mut locale = if o.locales && t.chance(1, 5) {
            [0x409u16, 0x407, 1, 0xFFFF, 0x404, 0x809, 0x8000, 0x100][t.u(8)]
        } else {
            0
        };
        let mut nm = unique_name(t, &mut seen, o.listable);
        if o.locales && !files.is_empty() && t.chance(1, 10) {
            // the same name in another language
            let i = t.u(files.len());
            let base = files[i].name.clone();
            let used: Vec<u16> = files
                .iter()
                .filter(|f| fold(&f.name) == fold(&base))
                .map(|f| f.locale)
                .collect();
            let from = t.u(8);
            if let Some(l) = [0x409u16, 0x407, 0, 0x40C, 0x411, 0x809, 0x800, 0x109]
                .into_iter()
                .cycle()
                .skip(from)
                .take(8)
                .find(|l| !used.contains(l))
            {
                locale = l;
                nm = base;
            }
        }
        let max = if nf > 12 {
            o.max_size / 8
        } else {
            o.max_size
        };
        let data = data(t, sector, max);
        let mode = [Mode::Plain, Mode::Encrypted, Mode::FixKey][t.weighted(&[3, 2, 2])].clone();
        let default_method = mode == Mode::Plain && locale == 0 && t.chance(1, 4);
        files.push(GFile {
            name: nm,
            data,
            method: method(t),
            default_method,
            mode,
            locale,
            from_disk: o.disk && t.chance(1, 4),
        });
    }
    GArchive {
        version,
        shift,
        crcs,
        listfile,
        compress_tables,
        table_method,
        default_method,
        files,
    }
}

impl GArchive {
    pub fn sector(&self) -> usize {
        512usize << self.shift
    }
    /// Effective compression method of a file (zlib is the documented default)
    pub fn method_of(&self, f: &GFile) -> u8 {
        if f.default_method {
            self.default_method.unwrap_or(M_ZLIB)
        } else {
            f.method
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "v{} shift {} crcs {} listfile {} tables {:?}/{:?} default {:?}",
            self.version + 1,
            self.shift,
            self.crcs,
            match &self.listfile {
                LF::Generate => "generate".into(),
                LF::None => "none".into(),
                LF::External(d) => format!("external {} bytes", d.len()),
            },
            self.compress_tables,
            self.table_method,
            self.default_method
        );
        for f in self.files.iter().take(12) {
            s.push_str(&format!(
                " | {:?} {} bytes m={:#x}{} {:?} loc={:#x}{}",
                f.name,
                f.data.len(),
                f.method,
                if f.default_method { "(default)" } else { "" },
                f.mode,
                f.locale,
                if f.from_disk { " disk" } else { "" }
            ));
        }
        if self.files.len() > 12 {
            s.push_str(&format!(" | and {} more", self.files.len() - 12));
        }
        s
    }

    pub fn builder(&self, dir: &Path) -> ArchiveBuilder {
        // settings that equal the documented defaults are left alone in half of the archives
        let lazy = self.files.len() % 2 == 0;
        let mut b = if lazy { ArchiveBuilder::default() } else { ArchiveBuilder::new() };
        if !(lazy && self.version == 0) {
            b = b.version(VERSIONS[self.version]);
        }
        if !(lazy && self.shift == 3) {
            b = b.block_size(self.shift);
        }
        if !lazy || self.crcs {
            b = b.generate_crcs(self.crcs);
        }
        b = match &self.listfile {
            LF::Generate if lazy => b,
            LF::Generate => b.listfile_option(ListfileOption::Generate),
            LF::None => b.listfile_option(ListfileOption::None),
            LF::External(d) => {
                let p = dir.join("external-listfile");
                std::fs::write(&p, d).unwrap();
                b.listfile_option(ListfileOption::External(p))
            }
        };
        if let Some(c) = self.compress_tables {
            b = b.compress_tables(c);
        }
        if let Some(m) = self.table_method {
            b = b.table_compression(m);
        }
        if let Some(m) = self.default_method {
            b = b.default_compression(m);
        }
        for (i, f) in self.files.iter().enumerate() {
            b = add(b, f, dir, i);
        }
        b
    }

    pub fn build(&self, dir: &Path, path: &Path) -> Result<(), mopaq::Error> {
        self.builder(dir).build(path)
    }

    pub fn listfile_text(&self) -> Option<Vec<u8>> {
        match &self.listfile {
            LF::None => None,
            LF::External(d) => Some(d.clone()),
            LF::Generate => {
                let mut s = String::new();
                for f in &self.files {
                    s.push_str(&f.name);
                    s.push_str("\r\n");
                }
                s.push_str("(listfile)\r\n");
                Some(s.into_bytes())
            }
        }
    }

    /// Candidates for what reading a name may return (several only if stored in several languages)
    pub fn contents<'a>(&'a self, n: &str) -> Vec<&'a [u8]> {
        let f = fold(n);
        self.files
            .iter()
            .filter(|x| fold(&x.name) == f)
            .map(|x| &x.data[..])
            .collect()
    }
}

pub fn add(b: ArchiveBuilder, f: &GFile, dir: &Path, i: usize) -> ArchiveBuilder {
    if f.from_disk {
        let p = dir.join(format!("input-{i}"));
        std::fs::write(&p, &f.data).unwrap();
        match f.mode {
            Mode::Plain if f.default_method => b.add_file(&p, &f.name),
            Mode::Plain => b.add_file_with_options(&p, &f.name, f.method, false, f.locale),
            Mode::Encrypted if i % 2 == 0 => {
                b.add_file_with_options(&p, &f.name, f.method, true, f.locale)
            }
            Mode::Encrypted => b.add_file_with_encryption(&p, &f.name, f.method, false, f.locale),
            Mode::FixKey => b.add_file_with_encryption(&p, &f.name, f.method, true, f.locale),
        }
    } else {
        let d = f.data.clone();
        match f.mode {
            Mode::Plain if f.default_method => b.add_file_data(d, &f.name),
            Mode::Plain => b.add_file_data_with_options(d, &f.name, f.method, false, f.locale),
            Mode::Encrypted if i % 2 == 0 => {
                b.add_file_data_with_options(d, &f.name, f.method, true, f.locale)
            }
            Mode::Encrypted => {
                b.add_file_data_with_encryption(d, &f.name, f.method, false, f.locale)
            }
            Mode::FixKey => b.add_file_data_with_encryption(d, &f.name, f.method, true, f.locale),
        }
    }
}

/// Every so often a case of unusual scale: thousands of files, or a file of thousands of sectors
/// (counts around the powers of two at which a narrower integer would wrap)
pub fn scale(c: &mut Ctx, every: u64) -> Option<u64> {
    if c.t.given((c.case % every == 3) as u64, 2) == 0 {
        return None;
    }
    c.class("large scale");
    Some(c.t.given(c.case / every, 24))
}

/// Number of files for a scale number below 16
pub fn scale_files(t: &mut Tape, k: u64) -> usize {
    if k % 2 == 0 {
        [257, 1025, 4097, 511][(k / 2) as usize % 4] + t.u(5) - 2
    } else {
        [65537, 66001, 65536, 70003][(k / 2) as usize % 4] + t.u(5) - 2
    }
}

/// A long file for a scale number from 16 on: length in bytes for 512-byte sectors
pub fn scale_len(t: &mut Tape, k: u64) -> usize {
    let s = match k % 4 {
        0 => 257,
        1 => 65537,
        2 => 4097,
        _ => 32769,
    };
    (s + t.u(4) - 2) * 512 + [0, 1, 511][t.u(3)]
}

/// Long content whose sectors all differ and compress cheaply
pub fn scale_data(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut r = t.sub();
    let salt = r.next();
    let mut d = vec![0u8; n];
    for (i, s) in d.chunks_mut(512).enumerate() {
        let x = crate::tape::mix(salt, i as u64).to_le_bytes();
        for (j, b) in s.iter_mut().enumerate().take(24) {
            *b = x[j % 8].wrapping_add(j as u8);
        }
    }
    d
}

pub fn bulk_archive(t: &mut Tape, k: u64) -> GArchive {
    let mode = [Mode::Plain, Mode::Encrypted, Mode::FixKey][t.u(3)].clone();
    // long files also in long sectors or as single units, by any method
    let wide = k >= 24 || k >= 16 && t.bool();
    let method = if wide { *t.pick(&LOSSLESS) } else { [0u8, M_ZLIB][t.u(2)] };
    let file = |name: String, data: Vec<u8>| GFile {
        name,
        data,
        method,
        default_method: false,
        mode: mode.clone(),
        locale: 0,
        from_disk: false,
    };
    let files = if k < 16 {
        let n = scale_files(t, k);
        let big = t.u(3);
        // sometimes one that differs from all others
        let lone = if t.bool() { t.u(n) } else { n };
        let other = [Mode::Plain, Mode::Encrypted, Mode::FixKey][t.u(3)].clone();
        (0..n)
            .map(|i| {
                let d = if big == 0 {
                    format!("{i}").into_bytes()
                } else {
                    format!("content of file {i};").into_bytes().repeat(1 + i % (2 * big))
                };
                let mut f = file(format!("dir{}\\file{i}.ext", i % 7), d);
                if i == lone {
                    f.mode = other.clone();
                }
                f
            })
            .collect()
    } else {
        let d = if wide {
            let n = [1 << 20, 1 << 21, 1 << 22, 900_001, 3_000_000, 5_000_000, 1 << 23][t.u(7)] + t.u(1500);
            if t.bool() {
                scale_data(t, n)
            } else {
                content(t, n)
            }
        } else {
            let n = scale_len(t, k);
            scale_data(t, n)
        };
        let mut v = vec![file("long".into(), d)];
        v.insert(t.u(2), file("before".into(), b"short".to_vec()));
        v.push(file("after".into(), vec![7; 1500]));
        v
    };
    GArchive {
        version: (k / 2) as usize % 4,
        shift: match (k < 16, wide) {
            (true, _) => t.u(4) as u16,
            (_, true) => t.u(17) as u16,
            _ => 0,
        },
        crcs: t.bool(),
        listfile: [LF::Generate, LF::None][t.u(2)].clone(),
        compress_tables: [None, Some(true)][t.u(2)],
        table_method: None,
        default_method: None,
        files,
    }
}

/// The same for the independent writer
pub fn bulk_foreign(t: &mut Tape, k: u64) -> (Vec<WFile>, Layout) {
    let mut files: Vec<WFile>;
    if k < 16 {
        let n = scale_files(t, k);
        let proto = pick_wfile(t, String::new(), vec![]);
        let lone = if t.bool() { t.u(n) } else { n };
        files = (0..n)
            .map(|i| WFile {
                name: format!("dir{}\\file{i}.ext", i % 7),
                data: format!("content of file {i};").into_bytes().repeat(1 + i % 3),
                gap: if proto.gap > 0 && i % 97 == 5 { proto.gap } else { 0 },
                methods: if proto.methods.is_empty() { vec![] } else { vec![M_ZLIB] },
                gone: i % 1001 == 77 && i != lone,
                encrypted: proto.encrypted != (i == lone),
                fix_key: proto.fix_key && i != lone,
                ..proto.clone()
            })
            .collect();
    } else {
        let n = scale_len(t, k);
        let d = scale_data(t, n);
        let mut f = pick_wfile(t, "long".into(), d);
        if !f.methods.is_empty() {
            f.methods = [vec![M_ZLIB], vec![M_ZLIB, 0], vec![0]][t.u(3)].clone();
        }
        let g = pick_wfile(t, "after".into(), vec![7; 1500]);
        files = vec![WFile::plain("before", b"short".to_vec()), f, g];
    }
    if t.bool() {
        let mut text = vec![];
        for f in &files {
            text.extend(f.name.as_bytes());
            text.extend(b"\r\n");
        }
        files.push(WFile::plain("(listfile)", text));
    }
    let mut l = layout_of(t, files.len(), false, (k / 2) as u16 % 4);
    if k >= 16 {
        l.shift = 0;
    }
    (files, l)
}

/// A method another writer may use, chains included
fn wmethod(t: &mut Tape) -> u8 {
    if t.chance(1, 8) {
        *t.pick(&[CHAIN_ZLIB, CHAIN_BZIP2])
    } else {
        method(t)
    }
}

pub fn pick_wfile(t: &mut Tape, name: String, data: Vec<u8>) -> WFile {
    let single = t.bool();
    let methods = match t.weighted(&[2, 4, 3]) {
        0 => vec![],
        1 => vec![wmethod(t)],
        _ => (0..t.urange(2, 4)).map(|_| wmethod(t)).collect(),
    };
    let encrypted = t.bool();
    let fix_key = encrypted && t.bool();
    WFile {
        name,
        data,
        locale: if t.chance(1, 6) { [0x409, 0x809, 1, 0x100, 0xFFFF, 0x8000][t.u(6)] } else { 0 },
        platform: 0,
        single,
        methods,
        variant: t.below(1000),
        encrypted,
        fix_key,
        crc: t.bool(),
        gap: if t.chance(1, 3) { t.below(700) } else { 0 },
        crc_style: 0,
        gone: false,
    }
}

fn perm(t: &mut Tape, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if n > 1 && t.bool() {
        let mut r = t.sub();
        for i in (1..n).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    v
}

/// A free layout for `n` files; `big` allows positions above 4 GiB (versions 2 and up)
pub fn layout(t: &mut Tape, n: usize, big: bool) -> Layout {
    let version = t.u(4) as u16;
    layout_of(t, n, big, version)
}

/// A distance above 4 GiB; several of them stay below 2^48
pub fn far(t: &mut Tape) -> u64 {
    let hi = match t.weighted(&[3, 2, 1]) {
        0 => t.range(1, 3),
        1 => 1 << t.u(14),
        _ => t.range(1, 0x3FFE),
    };
    (hi << 32) + if t.bool() { t.below(1 << 20) } else { t.below(1 << 32) }
}

pub fn layout_of(t: &mut Tape, n: usize, big: bool, version: u16) -> Layout {
    let shift = [0, 1, 2, 3, 5][t.u(5)] as u16;
    let mut l = Layout::simple(version, shift, n);
    let ext = version >= 2 && t.bool();
    let extra_blocks = if t.chance(1, 3) { t.urange(1, 5) } else { 0 };
    l.block_count = n + extra_blocks;
    let p = perm(t, l.block_count);
    l.block_of = p[..n].to_vec();
    if extra_blocks > 0 && t.bool() {
        l.junk_blocks = vec![Block {
            pos: t.any32() as u64,
            csize: t.any32(),
            fsize: t.any32(),
            flags: t.any32() & !F_EXISTS,
        }];
    }
    l.insert = perm(t, n);
    let min = (n.max(1) as u32).next_power_of_two();
    l.hash_size = match t.weighted(&[3, 2, 2]) {
        0 => l.hash_size,
        1 => min, // possibly completely full
        _ => min << t.u(5),
    };
    let free = l.hash_size as usize - n;
    if free > 0 && t.bool() {
        let k = t.urange(1, free.min(40));
        let mut set = std::collections::BTreeSet::new();
        for _ in 0..k {
            set.insert(t.u(l.hash_size as usize));
        }
        l.occupied = set.into_iter().take(free).collect();
        l.deleted_keep = t.bool();
    }
    let mut order = vec![Part::Files, Part::Hash, Part::Block];
    if version >= 1 && (big || t.chance(1, 3)) {
        order.push(Part::Hi);
    }
    // any order of files and classic tables
    let p = perm(t, order.len());
    let mut order: Vec<Part> = p.iter().map(|&i| order[i]).collect();
    if ext {
        l.ext_tables = true;
        l.ext_compress = if t.bool() { method(t) } else { 0 };
        // The BET table's fields come from the block entries: the files must be placed before it.
        // Version 3 gives no table sizes: the hash table follows directly.
        order.retain(|p| *p != Part::Files);
        if version == 2 {
            order.retain(|p| *p != Part::Hash);
            let rest = order;
            order = vec![Part::Files, Part::Het, Part::Hash];
            order.extend(rest);
        } else {
            let k = t.u(order.len() + 1);
            order.insert(k, Part::Het);
            order.insert(0, Part::Files);
        }
        let bp = perm(t, 4);
        l.bet_perm = [bp[0], bp[1], bp[2], bp[3]];
        for k in 0..4 {
            l.bet_slack[k] = if t.chance(1, 3) { t.u(9) as u32 } else { 0 };
        }
        l.bet_unknown = if t.chance(1, 4) { t.u(12) as u32 } else { 0 };
        if version == 3 {
            l.bet_first = t.chance(1, 3);
            l.bet_gap = if t.chance(1, 3) { t.below(1500) } else { 0 };
            if big && t.chance(1, 3) {
                l.bet_gap += far(t);
            }
        }
    }
    l.order = order;
    l.gaps = l
        .order
        .iter()
        .map(|_| if t.chance(1, 4) { t.below(1500) } else { 0 })
        .collect();
    if version == 2 && ext {
        // no gap between HET, BET and the hash table
        for (i, p) in l.order.iter().enumerate() {
            if *p == Part::Hash {
                l.gaps[i] = 0;
            }
        }
    }
    if big && version >= 1 {
        let k = t.u(l.order.len());
        if !(version == 2 && ext && l.order[k] == Part::Hash) {
            l.gaps[k] += far(t);
        }
    }
    l.trailer = if t.chance(1, 4) { t.below(600) } else { 0 };
    l.gap_fill = t.below(256) as u8;
    l
}

pub fn short(d: &[u8]) -> String {
    let h: String = d.iter().take(24).map(|b| format!("{b:02x}")).collect();
    format!(
        "{} bytes [{h}{}]",
        d.len(),
        if d.len() > 24 { ".." } else { "" }
    )
}

pub fn diff(got: &[u8], want: &[u8]) -> String {
    let p = got
        .iter()
        .zip(want)
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    format!(
        "got {} bytes, expected {} bytes, first difference at {p}",
        got.len(),
        want.len()
    )
}

/// Opens an archive or explains
pub fn open(p: &Path) -> Result<mopaq::Archive, String> {
    mopaq::Archive::open(p).map_err(|e| format!("open failed: {e}"))
}

pub fn note(c: &mut Ctx, g: &GArchive) {
    c.describe(g.describe());
    c.class(format!("version {}", g.version + 1));
    if g.files.iter().any(|f| f.data.len() > g.sector()) {
        c.class("multi-sector file");
    }
    if g.files.iter().any(|f| f.mode != Mode::Plain) {
        c.class("encrypted file");
    }
    if g.files.iter().any(|f| f.data.is_empty()) {
        c.class("empty file");
    }
    if g.crcs {
        c.class("checksums");
    }
}
