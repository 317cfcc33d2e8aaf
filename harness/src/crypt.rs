//! Reference definitions of the primitive encodings, written from the format and not from the crate.
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use std::sync::OnceLock;

pub const GMS: [u8; 4] = [0x4D, 0x23, 0xC7, 0x2B];
pub const EMS: [u8; 4] = [0xB9, 0x7D, 0x63, 0xE9];
pub const BMS: [u8; 4] = [0, 0, 0, 0];
pub const STD: [[u8; 4]; 3] = [BMS, GMS, EMS];
pub fn iv_name(iv: [u8; 4]) -> &'static str {
    match iv {
        GMS => "GMS",
        EMS => "EMS",
        BMS => "BMS",
        _ => "custom",
    }
}
pub const USER_KEY: [u8; 32] = [
    0x13, 0, 0, 0, 0x08, 0, 0, 0, 0x06, 0, 0, 0, 0xB4, 0, 0, 0, 0x1B, 0, 0, 0, 0x0F, 0, 0, 0, 0x33, 0, 0, 0, 0x52, 0, 0, 0,
];
pub fn aes256_enc(key: &[u8; 32], b: &[u8; 16]) -> [u8; 16] {
    let c = aes::Aes256::new(GenericArray::from_slice(key));
    let mut g = GenericArray::clone_from_slice(b);
    c.encrypt_block(&mut g);
    g.into()
}
/// cipher feedback keystream: k0 = E(iv iv iv iv), k(n+1) = E(k(n)); iv 0 is no encryption
pub fn keystream(iv: [u8; 4], key: &[u8; 32], n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 16);
    if iv == [0; 4] {
        return vec![0; n];
    }
    let mut b = [0u8; 16];
    for (i, x) in b.iter_mut().enumerate() {
        *x = iv[i % 4];
    }
    let c = aes::Aes256::new(GenericArray::from_slice(key));
    while out.len() < n {
        let mut g = GenericArray::clone_from_slice(&b);
        c.encrypt_block(&mut g);
        b = g.into();
        out.extend_from_slice(&b);
    }
    out.truncate(n);
    out
}
const CACHED: usize = 300_000;
/// cached keystream for a standard iv
pub fn ks(iv: [u8; 4]) -> &'static [u8] {
    static S: OnceLock<Vec<([u8; 4], Vec<u8>)>> = OnceLock::new();
    let v = S.get_or_init(|| STD.iter().chain([[1u8, 2, 3, 4]].iter()).map(|iv| (*iv, keystream(*iv, &USER_KEY, CACHED))).collect());
    &v.iter().find(|x| x.0 == iv).expect("key not cached").1
}
pub fn xor_ks(iv: [u8; 4], data: &[u8]) -> Vec<u8> {
    if iv == [0; 4] {
        return data.to_vec();
    }
    let k = ks(iv);
    data.iter().zip(k).map(|(a, b)| a ^ b).collect()
}

/// body of a narrow string
pub fn enc_narrow(iv: [u8; 4], s: &[u8]) -> Vec<u8> {
    let k = ks(iv);
    s.iter().enumerate().map(|(i, b)| b ^ (0xAAu8.wrapping_add(i as u8)) ^ k[i]).collect()
}
/// body of a wide string
pub fn enc_wide(iv: [u8; 4], s: &[u16]) -> Vec<u8> {
    let k = ks(iv);
    let mut o = vec![];
    for (i, c) in s.iter().enumerate() {
        let kk = u16::from_le_bytes([k[2 * i], k[2 * i + 1]]);
        o.extend_from_slice(&(c ^ 0xAAAAu16.wrapping_add(i as u16) ^ kk).to_le_bytes());
    }
    o
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    /// shortest form
    Auto,
    /// extended length even when the short form would do
    Long,
}
/// full wz string: length prefix + body
pub fn wz_string(iv: [u8; 4], s: &str, wide: bool, form: Form) -> Vec<u8> {
    let mut o = vec![];
    if wide {
        let u: Vec<u16> = s.encode_utf16().collect();
        if u.is_empty() {
            if form == Form::Long {
                o.push(127);
                o.extend_from_slice(&0i32.to_le_bytes());
            } else {
                o.push(0);
            }
            return o;
        }
        if u.len() >= 127 || form == Form::Long {
            o.push(127);
            o.extend_from_slice(&(u.len() as i32).to_le_bytes());
        } else {
            o.push(u.len() as u8);
        }
        o.extend(enc_wide(iv, &u));
    } else {
        let b = s.as_bytes();
        if b.is_empty() {
            if form == Form::Long {
                o.push(0x80);
                o.extend_from_slice(&0i32.to_le_bytes());
            } else {
                o.push(0);
            }
            return o;
        }
        if b.len() >= 128 || form == Form::Long {
            o.push(0x80);
            o.extend_from_slice(&(b.len() as i32).to_le_bytes());
        } else {
            o.push((-(b.len() as i32)) as i8 as u8);
        }
        o.extend(enc_narrow(iv, b));
    }
    o
}
pub fn wz_int(v: i32, form: Form) -> Vec<u8> {
    if (-127..=127).contains(&v) && form == Form::Auto {
        vec![v as i8 as u8]
    } else {
        let mut o = vec![0x80];
        o.extend_from_slice(&v.to_le_bytes());
        o
    }
}
pub fn wz_int64(v: i64, form: Form) -> Vec<u8> {
    if (-127..=127).contains(&v) && form == Form::Auto {
        vec![v as i8 as u8]
    } else {
        let mut o = vec![0x80];
        o.extend_from_slice(&v.to_le_bytes());
        o
    }
}
pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
