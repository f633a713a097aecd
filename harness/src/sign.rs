//! Independent signer for the format's two signature schemes.
use crate::refmpq::{md5, sha1};
use num_bigint::BigUint;
use num_traits::Num;

/// The weak scheme's key pair is public knowledge (its private part has long been factored and published)
pub const WEAK_N: &str = "92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837";
pub const WEAK_D: &str = "36D8B3B550CC261DA11358633C32B2526109F54FDA3778289AE28E8DB41B43F6D659C33F59F85254798FAADAA1FDB408D945C5AF4AE75E781EB5E6472EBFDBF1";
/// Stand-in for the strong scheme's unknown private key (substituted through the vp_hooks cfg)
pub const STRONG_N: &str = "95614D3C3B7D969EB4637191E25C85FF5E2BDD4F99790B6300FC27A13C2FD48ED5563F36855A1EBF943B5FD8484B86E23E8182FD1FEFB4A28CB71300B61E66B5B9E3AB95F1E66C70412911296377A7E7C65EB6E964A61D185F4892FC8F68E538C99B9FA12DFC92E5705B05ED9A5320BEE8F776F617FB8B392BC5ED5B60241CAC0DF220D46ED051C6D946F401E2B26545BF32BA1B0E32D3D7CD7B506ECA254AB4E903A39F71752A3C0E552AF456CC33776CFCE34410BCB590175F14BD8FC175AE8D489FE501A3162E5F96B7159D470C057B49658A327DFDD1C57F159802E580542DC222A335A1CD4087147800B54797B333F3A665C835DF017137547158977A6F";
pub const STRONG_D: &str = "8BEA94964B3EA9FAC309B611A7CD73F12A7AB9935A342777372FF7CAACFE3C010150046B83E25294AD3A23DF08703DC9E2341AC60EC8CE0FC6EF9F8BF60969B8E3819D71181FF507FBF08453990835AC01812BA05696C4FFD417BD1D75121249EB84A9B325C8C2AAC75F6AA11000B6D63A8DB7CE6FCE3BAC7414B2EAF8953A887B3BC464EB1C1908717B9309326B7C1D1063D15FBBA196CCCC1E6C0F8AEF0E1396EC76123A2631F8B5331E8C34C9CE1920162179010CC1DEABAD743B2C05EEE2FC48819254B317518260256C9853EF509103E5133AF4C2F8062E8D03ECA83D2688C54B890B9705325605E575A917CED3337417E2A2D4742B3CE5F21B6EE0F131";

fn num(s: &str) -> BigUint {
    BigUint::from_str_radix(s, 16).unwrap()
}

fn rsa(padded: &[u8], d: &str, n: &str) -> Vec<u8> {
    let m = BigUint::from_bytes_be(padded);
    let s = m.modpow(&num(d), &num(n));
    let mut v = s.to_bytes_le();
    v.resize(padded.len(), 0);
    v
}

/// PKCS#1 v1.5 encoding of an MD5 digest, 64 bytes
fn weak_encoding(digest: [u8; 16]) -> Vec<u8> {
    let info = [
        0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10,
    ];
    let mut m = vec![0x00, 0x01];
    m.extend(vec![0xFF; 64 - 3 - info.len() - 16]);
    m.push(0);
    m.extend(info);
    m.extend(digest);
    assert_eq!(m.len(), 64);
    m
}

/// Weak signature (little-endian, 64 bytes) of an archive (bytes from its header on) whose signature file lies at
/// [pos, pos+len); `bend` may alter the encoded digest first, which makes it a forgery
pub fn weak_of(archive: &[u8], pos: usize, len: usize, bend: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut d = archive.to_vec();
    d[pos..pos + len].fill(0);
    let mut m = weak_encoding(md5(&d));
    bend(&mut m);
    rsa(&m, WEAK_D, WEAK_N)
}

/// Weak signature of a digest, possibly a forgery
pub fn weak_of_digest(digest: [u8; 16], bend: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut m = weak_encoding(digest);
    bend(&mut m);
    rsa(&m, WEAK_D, WEAK_N)
}

/// "NGIS" and the signature over an archive's bytes, possibly a forgery
pub fn strong_of(archive: &[u8], bend: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut m = vec![0x0B];
    m.extend(vec![0xBB; 235]);
    m.extend(sha1(archive));
    bend(&mut m);
    let mut v = b"NGIS".to_vec();
    v.extend(rsa(&m, STRONG_D, STRONG_N));
    v
}

pub fn use_test_key() {
    let _ = mopaq::crypto::public_keys::VP_STRONG_KEY_N.set(STRONG_N.to_string());
}
