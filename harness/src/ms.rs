//! C17 packs of both generations list and decrypt exactly what was stored.
//! The ciphers here are written from their published definitions (SNOW 2.0 over its field
//! constants, ChaCha20), not from the crate's tables.
use crate::c01::check_tree;
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use std::sync::OnceLock;
use wz_reader::util::node_util;
use wz_reader::*;

// ------------------------------------------------------------------ SNOW 2.0
fn gmul(poly: u16, mut a: u16, mut b: u16) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= poly;
        }
        b >>= 1;
    }
    r as u8
}
struct Tables {
    alpha: [u32; 256],
    inv: [u32; 256],
    t: [[u32; 256]; 4],
}
fn tables() -> &'static Tables {
    static S: OnceLock<Tables> = OnceLock::new();
    S.get_or_init(|| {
        const P: u16 = 0x1A9;
        let pw = |n: usize| (0..n).fold(1u16, |x, _| gmul(P, x, 2) as u16);
        let mk = |e: [usize; 4]| -> [u32; 256] {
            let c: Vec<u16> = e.iter().map(|n| pw(*n)).collect();
            core::array::from_fn(|w| u32::from_be_bytes(core::array::from_fn(|i| gmul(P, c[i], w as u16))))
        };
        let alpha = mk([23, 245, 48, 239]);
        let inv = mk([16, 39, 6, 64]);
        // the AES substitution: inverse in GF(2^8)/0x11B, then the affine map
        let mut sbox = [0u8; 256];
        for (x, s) in sbox.iter_mut().enumerate() {
            let i = (1..256u16).find(|y| gmul(0x11B, x as u16, *y) == 1).unwrap_or(0) as u8;
            *s = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
        }
        let m = |a: u16, b: u8| gmul(0x11B, b as u16, a);
        let t = core::array::from_fn(|k| {
            core::array::from_fn(|x| {
                let s = sbox[x];
                let col = [m(2, s), s, s, m(3, s)];
                let mut b = [0u8; 4];
                for i in 0..4 {
                    b[(i + k) % 4] = col[i];
                }
                u32::from_le_bytes(b)
            })
        });
        Tables { alpha, inv, t }
    })
}
pub struct Snow {
    s: [u32; 16],
    r1: u32,
    r2: u32,
}
impl Snow {
    pub fn new(key: [u8; 16]) -> Snow {
        let w = |i: usize| {
            let b: Vec<u32> = (0..4).map(|j| key[i * 4 + j] as i8 as i32 as u32).collect();
            (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]
        };
        let k = [w(3), w(2), w(1), w(0)];
        let mut s = [0; 16];
        for i in 0..4 {
            s[12 + i] = k[i];
            s[8 + i] = !k[i];
            s[4 + i] = k[i];
            s[i] = !k[i];
        }
        let mut x = Snow { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            let f = x.fsm();
            x.clock(f);
        }
        x.clock(0);
        x
    }
    fn fsm(&self) -> u32 {
        self.s[15].wrapping_add(self.r1) ^ self.r2
    }
    fn clock(&mut self, f: u32) {
        let t = tables();
        let a = |w: u32| (w << 8) ^ t.alpha[(w >> 24) as usize];
        let ai = |w: u32| (w >> 8) ^ t.inv[(w & 0xFF) as usize];
        let new = a(self.s[0]) ^ self.s[2] ^ ai(self.s[11]) ^ f;
        let r1 = self.s[5].wrapping_add(self.r2);
        let b = self.r1.to_le_bytes();
        self.r2 = t.t[0][b[0] as usize] ^ t.t[1][b[1] as usize] ^ t.t[2][b[2] as usize] ^ t.t[3][b[3] as usize];
        self.r1 = r1;
        self.s.copy_within(1.., 0);
        self.s[15] = new;
    }
    pub fn next(&mut self) -> u32 {
        let z = self.fsm() ^ self.s[0];
        self.clock(0);
        z
    }
    /// encrypts whole words; the tail stays as it is
    pub fn encrypt(&mut self, b: &mut [u8]) {
        for c in b.chunks_exact_mut(4) {
            let x = u32::from_le_bytes([c[0], c[1], c[2], c[3]]).wrapping_add(self.next());
            c.copy_from_slice(&x.to_le_bytes());
        }
    }
}
// ------------------------------------------------------------------ ChaCha20
pub fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[i * 4..i * 4 + 4].try_into().unwrap());
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[i * 4..i * 4 + 4].try_into().unwrap());
    }
    let mut x = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    let mut o = [0; 64];
    for i in 0..16 {
        o[i * 4..i * 4 + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}
const BASE: [u8; 32] = [
    0x7B, 0x2F, 0x35, 0x48, 0x43, 0x95, 0x02, 0xB9, 0xAE, 0x91, 0xA6, 0xE1, 0xD8, 0xD6, 0x24, 0xB4, 0x33, 0x10, 0x1D, 0x3D, 0xC1, 0xBB, 0xC6, 0xF4, 0xA5, 0xFE, 0xB3, 0x69, 0x6B, 0x56, 0xE4, 0x75,
];

// ------------------------------------------------------------------ model and encoder
#[derive(Clone)]
pub struct Pe {
    pub name: String,
    pub top: Vec<N>,
    pub bytes: Vec<u8>,
    pub key: [u8; 16],
    /// stored size beyond the content, in bytes
    pub pad: usize,
    /// free units before the block
    pub gap: usize,
    pub misc: i32,
}
impl std::fmt::Debug for Pe {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}[{}+{} gap {}]", self.name, self.bytes.len(), self.pad, self.gap)?;
        if self.bytes.len() < 200 {
            write!(f, "{:?}", self.top)?;
        }
        Ok(())
    }
}
pub fn pe(name: &str, top: Vec<N>) -> Pe {
    let bytes = image(BMS, &top);
    let pad = (1024 - bytes.len() % 1024) % 1024;
    Pe { name: name.into(), top, bytes, key: core::array::from_fn(|i| (i * 37 + 11) as u8), pad, gap: 0, misc: 0 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
    Fwd,
    Rev,
    Gaps,
}
#[derive(Clone)]
pub struct Pack {
    pub gen: u8,
    pub file: String,
    pub salt: Vec<u8>,
    /// seed of the bytes the format leaves free
    pub junk: u8,
    pub ents: Vec<Pe>,
    pub order: Order,
    /// another content of one field of the entry table
    pub over: Option<(usize, Vec<u8>)>,
    /// another entry count
    pub cnt: Option<i32>,
}
impl std::fmt::Debug for Pack {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "pack v{} {:?} salt {:02x?} junk {} {:?} {:?}", self.gen, self.file, self.salt, self.junk, self.order, self.ents)
    }
}
/// places of the parts of a built pack
#[derive(Clone, Copy, Debug, Default)]
pub struct Map {
    pub rand: usize,
    pub hstart: usize,
    pub estart: usize,
    pub eend: usize,
    pub data: usize,
}
impl Pack {
    pub fn new(gen: u8, file: &str, salt: &[u8], ents: Vec<Pe>) -> Pack {
        Pack { gen, file: file.into(), salt: salt.to_vec(), junk: 1, ents, order: Order::Fwd, over: None, cnt: None }
    }
    fn lname(&self) -> Vec<u8> {
        self.file.bytes().map(|b| b.to_ascii_lowercase()).collect()
    }
    pub fn sum(&self) -> usize {
        self.lname().iter().map(|b| *b as usize).sum()
    }
    pub fn build(&self) -> Vec<u8> {
        self.build_map().0
    }
    pub fn build_map(&self) -> (Vec<u8>, Map) {
        let mut m = Map::default();
        let sum = self.sum();
        let mut lcg = 0x9E37u32.wrapping_mul(self.junk as u32 + 1) | 1;
        let mut junk = || {
            lcg = lcg.wrapping_mul(1664525).wrapping_add(1013904223);
            if self.junk == 0 {
                0
            } else if self.junk == 255 {
                255
            } else {
                (lcg >> 24) as u8
            }
        };
        let rc = sum % 312 + 30;
        m.rand = rc;
        let raw: Vec<u8> = (0..rc).map(|_| junk()).collect();
        assert!(self.salt.len() <= rc && self.salt.len() <= 255);
        let eff: Vec<u8> = if self.gen == 1 { raw.clone() } else { raw.iter().map(|b| ((*b as i8) >> 1) as u8).collect() };
        let mut b = raw;
        if self.gen == 2 {
            b.push(4 ^ eff[0]);
        }
        let lenw = i32::from_le_bytes([self.salt.len() as u8 ^ eff[0], junk(), junk(), junk()]);
        b.extend(lenw.to_le_bytes());
        let mut saltsum = 0i32;
        for (i, c) in self.salt.iter().enumerate() {
            let lo = if self.gen == 1 { c ^ eff[i] } else { c ^ eff[i] ^ 0x4B };
            let hi = junk();
            b.extend([lo, hi]);
            saltsum = saltsum.wrapping_add(u16::from_le_bytes([lo, hi]) as i32);
        }
        m.hstart = b.len();
        let mut ns = self.lname();
        ns.extend(&self.salt);
        let k1 = |i: usize| ns[i % ns.len()].wrapping_add(i as u8);
        let k2 = |i: usize| (i as u8).wrapping_add((i as u8 % 3 + 2).wrapping_mul(ns[ns.len() - 1 - i % ns.len()]));
        let count = self.cnt.unwrap_or(self.ents.len() as i32);
        if self.gen == 1 {
            let hash = lenw.wrapping_add(2).wrapping_add(count).wrapping_add(saltsum);
            let mut h = hash.to_le_bytes().to_vec();
            h.push(2);
            h.extend(count.to_le_bytes());
            h.extend([junk(), junk(), junk()]);
            Snow::new(core::array::from_fn(k1)).encrypt(&mut h);
            b.extend(h);
            m.estart = m.hstart + 9 + sum * 3 % 212 + 33;
        } else {
            let key: [u8; 32] = core::array::from_fn(|i| k1(i) ^ BASE[i]);
            let mut h = vec![junk(), junk(), junk(), junk()];
            h.extend(count.to_le_bytes());
            let ks = chacha_block(&key, 0, &[0; 12]);
            for (x, k) in h.iter_mut().zip(ks) {
                *x ^= k;
            }
            b.extend(h);
            m.estart = m.hstart + 8 + sum * 3 % 212 + 64;
        }
        while b.len() < m.estart {
            b.push(junk());
        }
        assert_eq!(b.len(), m.estart);
        // places of the image blocks, in units of 1024
        let n = self.ents.len();
        let units: Vec<usize> = self.ents.iter().map(|e| (e.bytes.len() + e.pad).div_ceil(1024)).collect();
        let mut pos = vec![0usize; n];
        let mut at = 0;
        let idx: Vec<usize> = if self.order == Order::Rev { (0..n).rev().collect() } else { (0..n).collect() };
        for i in idx {
            at += self.ents[i].gap + if self.order == Order::Gaps { 1 } else { 0 };
            pos[i] = at;
            at += units[i];
        }
        // the entry table as a list of separately read fields
        let mut fields: Vec<Vec<u8>> = vec![];
        for (i, e) in self.ents.iter().enumerate() {
            let u: Vec<u16> = e.name.encode_utf16().collect();
            fields.push((u.len() as i32).to_le_bytes().to_vec());
            fields.push(u.iter().flat_map(|c| c.to_le_bytes()).collect());
            for x in [e.misc.wrapping_mul(7), e.misc.wrapping_mul(5), pos[i] as i32, e.bytes.len() as i32, (e.bytes.len() + e.pad) as i32, e.misc, e.misc.wrapping_neg()] {
                fields.push(x.to_le_bytes().to_vec());
            }
            fields.push(e.key.to_vec());
            if self.gen == 2 {
                fields.push(e.misc.wrapping_mul(3).to_le_bytes().to_vec());
                fields.push(e.misc.wrapping_mul(11).to_le_bytes().to_vec());
            }
        }
        if let Some((i, v)) = &self.over {
            fields[*i] = v.clone();
        }
        if self.gen == 1 {
            let mut t: Vec<u8> = fields.concat();
            while t.len() % 4 != 0 {
                t.push(junk());
            }
            Snow::new(core::array::from_fn(k2)).encrypt(&mut t);
            b.extend(t);
        } else if n > 0 {
            let key: [u8; 32] = core::array::from_fn(|i| k2(i) ^ BASE[i]);
            let mut ctr = 0;
            let mut p = 0usize;
            let mut ks = [0; 64];
            let mut t = vec![];
            for f in &fields {
                for x in f {
                    if p % 64 == 0 {
                        ks = chacha_block(&key, ctr, &[0; 12]);
                        ctr += 1;
                    }
                    t.push(x ^ ks[p % 64]);
                    p += 1;
                }
                // a field that ends with the block starts the cipher again
                if p % 64 == 0 {
                    ctr = 0;
                }
            }
            while t.len() % 64 != 0 {
                t.push(junk());
            }
            b.extend(t);
        }
        m.eend = b.len();
        while b.len() % 1024 != 0 {
            b.push(junk());
        }
        m.data = b.len();
        b.resize(m.data + at * 1024, 0xA5);
        for (i, e) in self.ents.iter().enumerate() {
            let mut d = e.bytes.clone();
            d.extend((0..e.pad).map(|_| junk()));
            self.encrypt_image(e, &mut d);
            let o = m.data + pos[i] * 1024;
            b[o..o + d.len()].copy_from_slice(&d);
        }
        (b, m)
    }
    fn encrypt_image(&self, e: &Pe, d: &mut [u8]) {
        let h = self.salt.iter().fold(0x811C9DC5u32, |h, c| (h ^ *c as u32).wrapping_mul(0x1000193));
        let dig: Vec<u8> = h.to_string().bytes().map(|c| c - b'0').collect();
        let nm: Vec<u8> = e.name.encode_utf16().map(|c| c as u8).collect();
        let kb = |i: usize| {
            let dg = |k: usize| dig[(i + k) % dig.len()] as usize;
            let f = (dg(0) % 2) + e.key[(dg(2) + i) % 16] as usize + (dg(1) + i) % 5;
            (i + nm[i % nm.len()] as usize * f) as u8
        };
        let head = d.len().min(1024);
        if self.gen == 1 {
            let key: [u8; 16] = core::array::from_fn(kb);
            Snow::new(key).encrypt(d);
            Snow::new(key).encrypt(&mut d[..head]);
        } else {
            let key: [u8; 32] = core::array::from_fn(|i| kb(i) ^ BASE[i]);
            let mut s = [0u8; 12];
            s[..4].copy_from_slice(&h.to_le_bytes());
            s[4..8].copy_from_slice(&(h >> 1).to_le_bytes());
            s[8..].copy_from_slice(&((h >> 1) ^ 0x6C).to_le_bytes());
            for (i, x) in s.iter_mut().enumerate() {
                let i = i as i32;
                *x ^= (11 * (i / 11) - i + ((90 + 43 * i) ^ (i >> 2)) + ((8 * i) ^ (17 * i))) as u8;
            }
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&s[..8]);
            let ctr = u32::from_le_bytes(s[8..].try_into().unwrap());
            for (i, c) in d[..head].chunks_mut(64).enumerate() {
                let ks = chacha_block(&key, ctr.wrapping_add(i as u32), &nonce);
                for (x, k) in c.iter_mut().zip(ks) {
                    *x ^= k;
                }
            }
        }
    }
    pub fn node_name(&self) -> &str {
        self.file.rsplit_once('.').map(|x| x.0).unwrap_or(&self.file)
    }
}
pub fn open_pack(file: &str, b: &[u8]) -> Result<WzNodeArc, String> {
    let p = scratch_file(file, b);
    Ok(WzNode::from_ms_file(&p, None).map_err(|e| format!("open: {e}"))?.into_lock())
}
pub fn check_pack(p: &Pack, n: &WzNodeArc, st: &mut Stats) -> R {
    node_util::parse_node(n).map_err(|e| format!("parse: {e}"))?;
    let want = T { name: p.node_name().into(), v: "MsFile".into(), kids: p.ents.iter().map(|e| T { name: e.name.clone(), v: "MsImage".into(), kids: vec![] }).collect() };
    same(&want, &dump(n)?)?;
    for e in &p.ents {
        let k = n.read().unwrap().children.get(e.name.as_str()).cloned().ok_or("entry is gone")?;
        {
            let r = k.read().unwrap();
            let WzObjectType::MsImage(i) = &r.object_type else { return Err("not a pack image".into()) };
            let m = &i.meta;
            ensure_eq!(
                (m.check_sum, m.flags, m.size, m.size_aligned, m.unk1, m.unk2, m.entry_key),
                (e.misc.wrapping_mul(7), e.misc.wrapping_mul(5), e.bytes.len() as i32, (e.bytes.len() + e.pad) as i32, e.misc, e.misc.wrapping_neg(), e.key),
                "entry fields of {:?}",
                e.name
            );
            if p.gen == 2 {
                ensure_eq!((m.unk3, m.unk4), (e.misc.wrapping_mul(3), e.misc.wrapping_mul(11)), "entry fields of {:?}", e.name);
            }
        }
        check_tree(&k, &e.name, &e.top, st).map_err(|x| format!("image {:?}: {x}", e.name))?;
        let r = k.read().unwrap();
        let i = r.try_as_image().ok_or("a parsed pack image is not an image")?;
        ensure!(i.reader.map.get(i.offset..i.offset + i.block_size) == Some(&e.bytes[..]), "image {:?} holds other bytes than were stored", e.name);
    }
    ensure_eq!(n.read().unwrap().children.len(), p.ents.len(), "images");
    Ok(())
}
fn run_pack(p: &Pack, st: &mut Stats) -> R {
    let n = open_pack(&p.file, &p.build())?;
    check_pack(p, &n, st)?;
    st.traces += 1;
    Ok(())
}
/// an image whose encoding has exactly n bytes
pub fn sized(n: usize) -> Vec<N> {
    let base = image(BMS, &[nn(s("p"), V::Raw { ver: 0, kids: None, data: vec![] })]).len();
    let mk = |k: usize| vec![nn(s("p"), V::Raw { ver: 0, kids: None, data: (0..k).map(|i| (i * 13 + i / 256) as u8).collect() })];
    // the length of the blob takes one or five bytes
    for k in [n.wrapping_sub(base), n.wrapping_sub(base + 4)] {
        if k < 1 << 24 {
            let t = mk(k);
            if image(BMS, &t).len() == n {
                return t;
            }
        }
    }
    // sizes in the gap between the two forms: one more plain node
    let mut t = vec![n_null()];
    let rest = n - image(BMS, &t).len() + image(BMS, &[]).len();
    t.extend(sized(rest));
    t
}
fn n_null() -> N {
    crate::img::n("q", V::Null)
}
pub fn sample_pack_ents() -> Vec<Pe> {
    vec![
        pe("Mob/0100100.img", vec![n("info", V::Sub(vec![n("level", int(1)), n("name", st("snail"))])), n("link", V::Uol(s("../nowhere/level")))]),
        pe("Mob/a.img", vec![n("t", st("楓之谷")), n("c", small_canvas(None))]),
        pe("B.img", vec![]),
    ]
}
pub fn gens() -> [u8; 2] {
    [1, 2]
}
fn salt_pat(k: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match k {
            0 => b'a' + (i % 26) as u8,
            1 => (i * 73 + 7) as u8,
            2 => 0x80 | (i * 29) as u8,
            _ => 255 - (i % 3) as u8,
        })
        .collect()
}
/// must every reader refuse these bytes? (None: the format does not say)
fn must_refuse(file: &str, b: &[u8]) -> Option<bool> {
    let sum: usize = file.bytes().map(|c| c.to_ascii_lowercase() as usize).sum();
    let rc = sum % 312 + 30;
    let v1 = || -> Option<()> {
        let rand = b.get(..rc)?;
        let lw = b.get(rc..rc + 4)?;
        let sl = (lw[0] ^ rand[0]) as usize;
        let salt = b.get(rc + 4..rc + 4 + 2 * sl)?;
        let h = b.get(rc + 4 + 2 * sl..rc + 16 + 2 * sl)?;
        if sl > rc {
            return None;
        }
        let mut ns: Vec<u8> = file.bytes().map(|c| c.to_ascii_lowercase()).collect();
        ns.extend((0..sl).map(|i| rand[i] ^ salt[2 * i]));
        let mut k = Snow::new(core::array::from_fn(|i| ns[i % ns.len()].wrapping_add(i as u8)));
        let d: Vec<u8> = h.chunks(4).flat_map(|c| u32::from_le_bytes(c.try_into().unwrap()).wrapping_sub(k.next()).to_le_bytes()).collect();
        let sum = salt.chunks(2).fold(0i32, |a, c| a.wrapping_add(u16::from_le_bytes([c[0], c[1]]) as i32));
        let count = i32::from_le_bytes(d[5..9].try_into().unwrap());
        let want = i32::from_le_bytes(lw.try_into().unwrap()).wrapping_add(2).wrapping_add(count).wrapping_add(sum);
        (d[4] == 2 && i32::from_le_bytes(d[..4].try_into().unwrap()) == want).then_some(())
    };
    if v1().is_some() {
        return Some(false);
    }
    let v2 = || -> Option<bool> {
        let r0 = ((*b.first()? as i8) >> 1) as u8;
        if *b.get(rc)? ^ r0 != 4 {
            return None;
        }
        let sl = (*b.get(rc + 1)? ^ r0) as usize;
        // without a hash over the header, a short tail decides nothing
        b.get(rc + 5 + 2 * sl..rc + 13 + 2 * sl)?;
        (sl <= rc).then_some(true)
    };
    match v2() {
        None => Some(true),
        Some(_) => None,
    }
}
fn run_refuse(file: &str, b: &[u8], st: &mut Stats) -> R {
    let p = scratch_file(file, b);
    let r = WzNode::from_ms_file(&p, None);
    st.transitions += 1;
    match (must_refuse(file, b), &r) {
        (Some(true), Ok(_)) => Err("a file of neither generation is accepted".into()),
        (Some(false), Err(e)) => Err(format!("a first-generation header is refused: {e}")),
        _ => Ok(()),
    }
}
pub fn c17(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let k = t.q(3, 4);
    f.push(Family::new(
        "shapes",
        format!("both generations x every combination of up to {k} deviations from a sample pack: file name, salt length and bytes, free bytes, entry count, name forms, entry keys, order and gaps, stored sizes, entry fields"),
        k,
        |ch| {
            let gen = *ch.of(&gens());
            let file = ch.dev_of(&["Mob_00000.ms", "m", "MOB.MS", "a.ms", "x.y.z.ms", "Etc_00012.ms", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz.ms", "data_0001"]).to_string();
            let sl = *ch.dev_of(&[12usize, 0, 1, 2, 15, 16, 17, 31, 32, 33, 60, 127, 128, 129, 200, 255]);
            let salt = salt_pat(ch.dev(4), sl);
            let mut p = Pack::new(gen, &file, &salt, vec![]);
            p.junk = *ch.dev_of(&[1u8, 0, 255, 2, 3]);
            let mut e = sample_pack_ents();
            match ch.dev(6) {
                1 => e.truncate(1),
                2 => e.clear(),
                3 => e.extend((0..40).map(|i| pe(&format!("n/{i}.img"), vec![n("i", int(i))]))),
                4 => e.rotate_left(1),
                5 => e.reverse(),
                _ => {}
            }
            match ch.dev(7) {
                1 => e.iter_mut().for_each(|x| x.name = format!("몹/{}", x.name)),
                2 => e.iter_mut().for_each(|x| x.name = format!("é{}", x.name)),
                3 => e.iter_mut().enumerate().for_each(|(i, x)| x.name = format!("{i}")),
                4 => e.iter_mut().for_each(|x| x.name = format!("{}{}", "long/".repeat(40), x.name)),
                5 => e.iter_mut().for_each(|x| x.name = format!("𝕏{}", x.name)),
                6 => e.iter_mut().for_each(|x| x.name.push('/')),
                _ => {}
            }
            let kp = ch.dev(4);
            let mp = *ch.dev_of(&[0i32, 1, -1, i32::MIN, i32::MAX, 0x1234567]);
            for (i, x) in e.iter_mut().enumerate() {
                x.key = core::array::from_fn(|j| match kp {
                    0 => (i * 91 + j * 37 + 11) as u8,
                    1 => 0,
                    2 => 255,
                    _ => 128 + j as u8,
                });
                x.misc = mp;
            }
            p.order = *ch.dev_of(&[Order::Fwd, Order::Rev, Order::Gaps]);
            let pad = *ch.dev_of(&[0usize, 1024, 4096]);
            let gap = *ch.dev_of(&[0usize, 1, 70]);
            for x in e.iter_mut() {
                x.pad += pad;
                x.gap = gap;
            }
            p.ents = e;
            if p.salt.len() > p.sum() % 312 + 30 {
                return None;
            }
            Some(p)
        },
        run_pack,
    ));
    let m = t.q(340, 1400);
    f.push(Family::new(
        "file names",
        format!("both generations x {m} file names, so that every header size (30..=341 random bytes) and every gap before the entry table occurs; salts of 0 and 9 characters"),
        0,
        move |ch| {
            let gen = *ch.of(&gens());
            let i = ch.pick(m);
            // consecutive sums, so that all residues modulo 312 and 212 occur
            let mut want = 400 + i;
            let mut name = String::new();
            while want > 0 {
                let c = want.min(122);
                let c = if want - c < 33 && want != c { want - 50 } else { c };
                name.push(if (b'A'..=b'Z').contains(&(c as u8)) || c as u8 == b'/' || c as u8 == b'.' { return None } else { c as u8 as char });
                want -= c;
            }
            let salt = salt_pat(1, *ch.of(&[0usize, 9]));
            Some(Pack::new(gen, &name, &salt, vec![pe("a.img", vec![n("i", int(i as i32))]), pe("b/c.img", vec![n("x", st("y"))])]))
        },
        run_pack,
    ));
    f.push(Family::new(
        "salts",
        "both generations x every salt length that the header has room for (0..=255) x 4 byte patterns; every single salt byte value at 3 positions",
        0,
        |ch| {
            let gen = *ch.of(&gens());
            // 281 random bytes: room for every length
            let file = "zz%.ms";
            let salt = match ch.pick(2) {
                0 => {
                    let n = ch.pick(256);
                    salt_pat(ch.pick(4), n)
                }
                _ => {
                    let mut v = salt_pat(0, 17);
                    let at = *ch.of(&[0usize, 1, 16]);
                    v[at] = ch.pick(256) as u8;
                    v
                }
            };
            let mut p = Pack::new(gen, file, &salt, vec![pe("a.img", vec![n("i", int(7))]), pe("β.img", vec![n("x", st("y"))])]);
            p.junk = 5;
            if salt.len() > p.sum() % 312 + 30 {
                return None;
            }
            Some(p)
        },
        run_pack,
    ));
    let (nl, cnt) = (t.q(70, 140), t.q(5, 12));
    f.push(Family::new(
        "entry tables",
        format!("both generations x name lengths 1..={nl} of the first entry x name lengths {{1..=4, 31..=34}} of the others x 1..={cnt} entries: every alignment of every field with the cipher blocks"),
        0,
        move |ch| {
            let gen = *ch.of(&gens());
            let a = 1 + ch.pick(nl);
            let b = *ch.of(&[1usize, 2, 3, 4, 31, 32, 33, 34]);
            let c = 1 + ch.pick(cnt);
            let wide = ch.flag();
            let mk = |i: usize, n: usize| -> String {
                let c = if wide { char::from_u32(0x4E00 + i as u32).unwrap() } else { (b'a' + i as u8) as char };
                std::iter::repeat_n(c, n).collect()
            };
            let ents = (0..c)
                .map(|i| {
                    let mut e = pe(&mk(i, if i == 0 { a } else { b }), vec![n("i", int(i as i32))]);
                    e.misc = -3 - i as i32;
                    e
                })
                .collect();
            Some(Pack::new(gen, "Skill.ms", b"saltsalt", ents))
        },
        run_pack,
    ));
    let bs: Vec<usize> = (40..=t.q(100, 400)).chain(1000..1050).chain(2030..2070).chain([4096, 5000, 70_000, t.q(100_000, 1 << 20)]).collect();
    f.push(Family::new(
        "image sizes",
        format!("both generations x {} image sizes around the doubly or solely encrypted first 1024 bytes and around the block size, stored at the next multiple of 1024 or of 4 bytes", bs.len()),
        0,
        move |ch| {
            let gen = *ch.of(&gens());
            let size = *ch.of(&bs);
            let exact = ch.flag();
            let mut e = pe("Mob/x.img", sized(size));
            if exact {
                e.pad = (4 - e.bytes.len() % 4) % 4;
            }
            let salt = salt_pat(1, 3 + size % 7);
            Some(Pack::new(gen, "Mob_00001.ms", &salt, vec![pe("first.img", vec![n("i", int(1))]), e, pe("last.img", vec![n("i", int(2))])]))
        },
        |p, st| {
            ensure!(p.ents.iter().all(|e| e.bytes.len() > 10), "bad case");
            run_pack(p, st)
        },
    ));
    f.push(Family::new(
        "entry keys",
        "both generations x every value of every byte of the entry key x 3 salts; every first character 1..=255 of the entry name",
        0,
        |ch| {
            let gen = *ch.of(&gens());
            let salt = salt_pat(ch.pick(3), 6);
            let mut e = pe("Mob/x.img", vec![n("i", int(5)), n("s", st("text of some length, more than a block of sixteen"))]);
            match ch.pick(2) {
                0 => e.key[ch.pick(16)] = ch.pick(256) as u8,
                _ => {
                    let c = char::from_u32(1 + ch.pick(255) as u32).unwrap();
                    e.name = format!("{c}Mob{c}.img");
                }
            }
            Some(Pack::new(gen, "Mob_00001.ms", &salt, vec![e]))
        },
        run_pack,
    ));
    let r = t.q(2, 3);
    f.push(Family::new(
        "rich images",
        format!("both generations x the image of C01's sample with every combination of up to {r} deviations in how its parts are stored"),
        r,
        |ch| {
            let gen = *ch.of(&gens());
            Some(Pack::new(gen, "Map_00003.ms", b"q8dkeysalt", vec![pe("Map/rich.img", rich(ch)), pe("Map/z.img", vec![n("i", int(1))])]))
        },
        run_pack,
    ));
    f.push(Family::new(
        "other files",
        "small packs of both generations with every byte of the header (version, salt length, hash, count) replaced by every value, every truncation of a small pack, and files of other formats: exactly the files whose header the format rejects are refused, with an error",
        0,
        |ch| {
            let gen = *ch.of(&gens());
            let salt = salt_pat(ch.pick(3), *ch.of(&[0usize, 1, 20]));
            let p = Pack::new(gen, "m", &salt, vec![pe("a.img", vec![n("i", int(1))])]);
            let mode = ch.pick(3);
            let (b, m) = p.build_map();
            let out = match mode {
                0 => {
                    // the first random byte, then everything from the random bytes to the end of the header
                    let at = if ch.flag() { 0 } else { m.rand + ch.pick(m.hstart + 12 - m.rand) };
                    let mut b = b;
                    b[at] = ch.pick(256) as u8;
                    b
                }
                1 => b[..ch.pick(m.estart + 40)].to_vec(),
                _ => {
                    let mut v = match ch.pick(6) {
                        0 => crate::pkg::Arch::p1(83, GMS, crate::pkg::sample_ents(GMS)).build(),
                        1 => image(GMS, &p.ents[0].top),
                        2 => vec![0; 700],
                        3 => vec![255; 700],
                        4 => (0..2000).map(|i| (i * 7) as u8).collect(),
                        _ => b"\x89PNG\r\n\x1a\n".repeat(90),
                    };
                    if ch.flag() {
                        v.truncate(1 + ch.pick(200));
                    }
                    v
                }
            };
            Some(out)
        },
        |b: &Vec<u8>, st| {
            run_refuse("m", b, st)?;
            run_refuse("Mob_00000.ms", b, st)?;
            st.traces += 1;
            Ok(())
        },
    ));
    f
}
