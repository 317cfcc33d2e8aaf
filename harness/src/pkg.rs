//! Own encoders of both archive generations, and C03 / C04.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use std::sync::{Arc, RwLock};
use wz_reader::util::node_util;
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};

// ------------------------------------------------------------------ description of an archive
#[derive(Clone, Debug)]
pub enum K {
    Dir(Vec<Ent>, DirSize),
    /// stored bytes; content when it is a property image
    Img(Vec<u8>, Option<Vec<N>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DirSize {
    /// length of the directory block
    Block,
    /// any other non-zero size that stays inside the file
    One,
    /// 0: the directory is empty
    Zero,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub name: S,
    pub k: K,
    /// name and type are stored elsewhere (type 2, classic only)
    pub off: bool,
    /// an entry of type 1 that is skipped comes before (classic only)
    pub junk: bool,
    pub csum: i32,
    pub form: Form,
}
impl Ent {
    pub fn new(name: &str, k: K) -> Ent {
        Ent { name: s(name), k, off: false, junk: false, csum: 1234, form: Form::Auto }
    }
    pub fn is_dir(&self) -> bool {
        matches!(self.k, K::Dir(..))
    }
}
pub fn dir(name: &str, kids: Vec<Ent>) -> Ent {
    Ent::new(name, K::Dir(kids, DirSize::Block))
}
pub fn img(name: &str, iv: [u8; 4], top: Vec<N>) -> Ent {
    Ent::new(name, K::Img(image(iv, &top), Some(top)))
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Plain,
    /// directories and images in reverse order
    Reverse,
    /// images first, gaps between everything
    ImagesFirst,
}
pub const LAYOUTS: [Layout; 3] = [Layout::Plain, Layout::Reverse, Layout::ImagesFirst];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Head {
    Plain(usize),
    Rand68,
    Rand150,
}
/// the release an archive belongs to
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gen {
    /// classic, with the version and whether the header carries its checksum
    P1 { ver: i32, enc: Enc1 },
    P2 { rel: Rel, hash1: u64, t: u64, count: i64 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc1 {
    None,
    Checksum,
    /// the header value is the version itself
    Direct,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rel {
    R1196,
    R1197,
    R1198,
    R1199,
    R1200,
    R1202,
}
pub const RELS: [Rel; 6] = [Rel::R1196, Rel::R1197, Rel::R1198, Rel::R1199, Rel::R1200, Rel::R1202];
#[derive(Clone, Debug)]
pub struct Arch {
    pub gen: Gen,
    pub head: Head,
    pub iv: [u8; 4],
    pub ents: Vec<Ent>,
    pub layout: Layout,
}

// ------------------------------------------------------------------ the formulas of the format
pub fn ver_hash(v: i32) -> u32 {
    let mut h = 0u32;
    for c in v.to_string().bytes() {
        h = h.wrapping_mul(32).wrapping_add(c as u32 + 1);
    }
    h
}
pub fn checksum(h: u32) -> u16 {
    let b = h.to_le_bytes();
    (0xff ^ b[0] ^ b[1] ^ b[2] ^ b[3]) as u16
}
const C: u32 = 0x581C3F6D;
#[inline(always)]
pub fn mix(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ (k >> 16)
}
/// second header hash of an archive of a release with first hash h1 and version hash t
#[inline(always)]
pub fn hash2(rel: Rel, h1: u64, t: u64) -> u64 {
    let (h, v) = (h1 as u32, t as u32);
    match rel {
        Rel::R1196 => (h.rotate_left(7) ^ v) as u64,
        Rel::R1197 => ((h ^ v.wrapping_add(0x1A2B3C4D)).rotate_left(v & 0x1f) ^ v) as u64,
        Rel::R1198 => !((h ^ v.wrapping_add(0x1A2B3C4D)).rotate_left((v & 0xf) + (h & 0xf)) ^ v ^ h) as u64,
        Rel::R1199 | Rel::R1200 => {
            let mb = h ^ v;
            let m = mix(mb ^ 0x6D4C3B2A) ^ 0x91E10DA5;
            let rb = h ^ (m & 0xffff).wrapping_add(v).wrapping_add(0x1A2B3C4D);
            let lt = rb.rotate_left(((m ^ v) & 0xf) + (h & 0xf)) ^ mb.wrapping_add(m);
            if rel == Rel::R1199 {
                !lt as u64
            } else {
                (lt ^ 0x2A2C818B) as u64
            }
        }
        Rel::R1202 => h1 ^ t ^ 0xABCDEF0123456789,
    }
}
/// key of the first name in a directory, when the release encrypts it apart
pub fn name_key(rel: Rel, h1: u64, t: u64) -> Option<u64> {
    match rel {
        Rel::R1196 | Rel::R1197 => None,
        Rel::R1198 => Some(0xDEADBEEF),
        Rel::R1199 | Rel::R1200 => Some(mix(mix(h1 as u32 ^ t as u32 ^ 0x6D4C3B2A) ^ 0x4F4CB34A) as u64),
        Rel::R1202 => Some(h1 ^ t ^ 0x66B57FEE317FD3DF),
    }
}
pub fn key_bytes(k: u64) -> [u8; 8] {
    let b = k.to_le_bytes();
    [b[0], b[1], b[1], b[2], b[2], b[3], b[3], b[4]]
}
/// a name in the form used for the first entry of a directory
pub fn pkg2_name(t: &str, key: u64, wide64: bool) -> Vec<u8> {
    let u: Vec<u16> = t.encode_utf16().collect();
    let n = -(u.len() as i32);
    let mut o = if wide64 { (n as i16).to_le_bytes().to_vec() } else { vec![n as i8 as u8] };
    let kb = key_bytes(key);
    let b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
    o.extend(b.iter().enumerate().map(|(i, x)| x ^ kb[i % 8]));
    o
}
/// stored offset for a block at `target`, whose offset field is at `pos`
pub fn enc_offset(g: &Gen, fstart: usize, pos: usize, target: usize) -> u32 {
    let f = fstart as u32;
    let o = !((pos as u32).wrapping_sub(f));
    match *g {
        Gen::P1 { ver, .. } => {
            let x = o.wrapping_mul(ver_hash(ver)).wrapping_sub(C);
            x.rotate_left(x & 0x1f) ^ (target as u32).wrapping_sub(2u32.wrapping_mul(f))
        }
        Gen::P2 { rel, hash1, t, .. } => {
            let (h1, h) = (hash1 as u32, t as u32);
            let rel_target = (target as u32).wrapping_sub(f);
            let spread = h1.wrapping_mul(0x01010101);
            match rel {
                Rel::R1196 => (o.wrapping_mul(h).wrapping_sub(C) ^ spread).rotate_left((h ^ h1) & 0x1f) ^ rel_target,
                Rel::R1197 | Rel::R1198 => (o.wrapping_mul(h ^ h1).wrapping_sub(C) ^ spread).rotate_left((h ^ h1) & 0x1f) ^ !rel_target,
                Rel::R1199 | Rel::R1200 => {
                    let p = h1 ^ h;
                    let m = mix(p ^ 0x6D4C3B2A) ^ 0x91E10DA5;
                    let x = o.wrapping_mul(p.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ spread ^ m.wrapping_mul(0x9E3779B9);
                    x.rotate_left((p ^ m) & 0x1f) ^ !rel_target
                }
                Rel::R1202 => {
                    let p = h1 ^ h;
                    let m = p ^ 0x33BBBB33;
                    let x = o.wrapping_mul(p.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ spread ^ m.wrapping_mul(0x9E3779B9);
                    x.rotate_left(19) ^ !rel_target
                }
            }
        }
    }
}
pub fn enc_count64(h1: u64, t: u64, n: usize, low: u16) -> i64 {
    ((((n as u64) << 16) | low as u64) ^ h1 ^ t ^ 0x550EC4DD02C468EC) as i64
}

// ------------------------------------------------------------------ encoder
fn collect<'a>(l: &'a [Ent], dirs: &mut Vec<&'a Ent>, imgs: &mut Vec<&'a Ent>) {
    for e in l {
        match &e.k {
            K::Dir(k, sz) => {
                if *sz != DirSize::Zero {
                    dirs.push(e);
                }
                collect(k, dirs, imgs);
            }
            K::Img(..) => imgs.push(e),
        }
    }
}
impl Arch {
    pub fn p1(ver: i32, iv: [u8; 4], ents: Vec<Ent>) -> Arch {
        Arch { gen: Gen::P1 { ver, enc: Enc1::Checksum }, head: Head::Plain(60), iv, ents, layout: Layout::Plain }
    }
    pub fn fstart(&self) -> usize {
        match self.head {
            Head::Plain(f) => f,
            Head::Rand68 => 68,
            Head::Rand150 => 150,
        }
    }
    pub fn data_start(&self) -> usize {
        match (self.gen, self.head) {
            (Gen::P1 { enc: Enc1::None, .. }, Head::Plain(f)) => f,
            (Gen::P1 { .. }, Head::Plain(f)) => f + 2,
            (Gen::P2 { .. }, Head::Plain(f)) => f + 8,
            (_, Head::Rand68) => 68,
            (_, Head::Rand150) => 150,
        }
    }
    fn is64(&self) -> bool {
        self.head == Head::Rand150
    }
    fn name(&self, x: &S, first: bool) -> Vec<u8> {
        if let (Gen::P2 { rel, hash1, t, .. }, true) = (self.gen, first) {
            if let Some(k) = name_key(rel, hash1, t) {
                return pkg2_name(&x.t, k, self.is64());
            }
        }
        wz_string(self.iv, &x.t, x.wide, x.form)
    }
    /// directory block; `at` gives (position of a block, its length) or None while measuring
    fn dir_block(&self, kids: &[Ent], pos: usize, at: &dyn Fn(&Ent) -> (usize, usize), pool: &dyn Fn(&Ent) -> usize) -> Vec<u8> {
        let mut b = vec![];
        match self.gen {
            Gen::P1 { .. } => {
                let n = kids.len() + kids.iter().filter(|e| e.junk).count();
                b.extend(wz_int(n as i32, Form::Auto));
                for e in kids {
                    if e.junk {
                        b.push(1);
                        b.extend([0xAB, 3, 0x80, 2, 4, 1, 0, 0x7F, 3, 3]);
                    }
                    if e.off {
                        b.push(2);
                        b.extend(((pool(e) as i64 - self.fstart() as i64) as i32).to_le_bytes());
                    } else {
                        b.push(if e.is_dir() { 3 } else { 4 });
                        b.extend(self.name(&e.name, false));
                    }
                    let (to, len) = at(e);
                    b.extend(wz_int(len as i32, e.form));
                    b.extend(wz_int(e.csum, e.form));
                    b.extend(enc_offset(&self.gen, self.fstart(), pos + b.len(), to).to_le_bytes());
                }
            }
            Gen::P2 { hash1, t, count, .. } => {
                if self.is64() {
                    b.extend(wz_int64(enc_count64(hash1, t, kids.len(), count as u16), Form::Long));
                } else {
                    b.extend(wz_int(count as i32, Form::Auto));
                }
                for (i, e) in kids.iter().enumerate() {
                    b.push(if e.is_dir() { 3 } else { 4 });
                    b.extend(self.name(&e.name, i == 0));
                    let (_, len) = at(e);
                    b.extend(wz_int(len as i32, e.form));
                    b.extend(wz_int(e.csum, e.form));
                }
                if !self.is64() {
                    b.extend(wz_int(count as i32, Form::Auto));
                }
                for e in kids {
                    let (to, _) = at(e);
                    b.extend(enc_offset(&self.gen, self.fstart(), pos + b.len(), to).to_le_bytes());
                }
            }
        }
        b
    }
    pub fn build(&self) -> Vec<u8> {
        self.build_map().0
    }
    /// bytes, and the start and length of every stored block in order of the tree (root first)
    pub fn build_map(&self) -> (Vec<u8>, Vec<(String, usize, usize)>) {
        let id = |e: &Ent| e as *const Ent as usize;
        let (mut dirs, mut imgs) = (vec![], vec![]);
        collect(&self.ents, &mut dirs, &mut imgs);
        // lengths, innermost first
        let mut len: HashMap<usize, usize> = HashMap::new();
        for e in &imgs {
            if let K::Img(b, _) = &e.k {
                len.insert(id(e), b.len());
            }
        }
        let field = |len: &HashMap<usize, usize>, e: &Ent| -> usize {
            match &e.k {
                K::Dir(_, DirSize::Zero) => 0,
                K::Dir(_, DirSize::One) => 1,
                _ => *len.get(&id(e)).unwrap(),
            }
        };
        for e in dirs.iter().rev() {
            if let K::Dir(k, _) = &e.k {
                let l = self.dir_block(k, 0, &|x| (0, field(&len, x)), &|_| 0).len();
                len.insert(id(e), l);
            }
        }
        let root_len = self.dir_block(&self.ents, 0, &|x| (0, field(&len, x)), &|_| 0).len();
        // positions
        let mut pos: HashMap<usize, usize> = HashMap::new();
        let mut pool: Vec<(usize, usize, Vec<u8>)> = vec![];
        let mut p = self.data_start() + root_len;
        let gap = if self.layout == Layout::ImagesFirst { 3 } else { 0 };
        let mut place = |l: &mut dyn Iterator<Item = &&Ent>, p: &mut usize| {
            for e in l {
                *p += gap;
                pos.insert(id(e), *p);
                *p += len[&id(e)];
            }
        };
        let mut pooled = |p: &mut usize| {
            fn walk<'a>(l: &'a [Ent], f: &mut dyn FnMut(&'a Ent)) {
                for e in l {
                    if e.off {
                        f(e);
                    }
                    if let K::Dir(k, _) = &e.k {
                        walk(k, f);
                    }
                }
            }
            walk(&self.ents, &mut |e| {
                let mut b = vec![if e.is_dir() { 3 } else { 4 }];
                b.extend(wz_string(self.iv, &e.name.t, e.name.wide, e.name.form));
                let l = b.len();
                pool.push((id(e), *p, b));
                *p += l;
            });
        };
        match self.layout {
            Layout::Plain => {
                place(&mut dirs.iter(), &mut p);
                pooled(&mut p);
                place(&mut imgs.iter(), &mut p);
            }
            Layout::Reverse => {
                place(&mut dirs.iter().rev(), &mut p);
                place(&mut imgs.iter().rev(), &mut p);
                pooled(&mut p);
            }
            Layout::ImagesFirst => {
                place(&mut imgs.iter(), &mut p);
                pooled(&mut p);
                place(&mut dirs.iter(), &mut p);
                p += gap;
            }
        }
        let total = p;
        let ds = self.data_start();
        let at = |e: &Ent| -> (usize, usize) { (pos.get(&id(e)).copied().unwrap_or(ds), field(&len, e)) };
        let poolpos = |e: &Ent| pool.iter().find(|x| x.0 == id(e)).unwrap().1;
        let mut b = vec![0x5Au8; total];
        self.header(&mut b);
        let root = self.dir_block(&self.ents, ds, &at, &poolpos);
        assert_eq!(root.len(), root_len);
        let mut map = vec![("root".to_string(), ds, root_len)];
        b[ds..ds + root_len].copy_from_slice(&root);
        for e in &dirs {
            if let K::Dir(k, _) = &e.k {
                let at0 = pos[&id(e)];
                let d = self.dir_block(k, at0, &at, &poolpos);
                assert_eq!(d.len(), len[&id(e)]);
                b[at0..at0 + d.len()].copy_from_slice(&d);
                map.push((e.name.t.clone(), at0, d.len()));
            }
        }
        for (_, at0, x) in &pool {
            b[*at0..at0 + x.len()].copy_from_slice(x);
        }
        for e in &imgs {
            if let K::Img(d, _) = &e.k {
                let at0 = pos[&id(e)];
                b[at0..at0 + d.len()].copy_from_slice(d);
                map.push((e.name.t.clone(), at0, d.len()));
            }
        }
        (b, map)
    }
    fn header(&self, b: &mut [u8]) {
        let f = self.fstart();
        let fsize = (b.len() - f) as u64;
        match self.head {
            Head::Plain(_) => {
                let text = b"Package file v1.0 Copyright 2002 Wizet, ZMS\0";
                for (i, x) in b[16..f].iter_mut().enumerate() {
                    *x = *text.get(i).unwrap_or(&0);
                }
                b[0..4].copy_from_slice(if matches!(self.gen, Gen::P1 { .. }) { b"PKG1" } else { b"PKG2" });
                b[4..12].copy_from_slice(&fsize.to_le_bytes());
                b[12..16].copy_from_slice(&(f as u32).to_le_bytes());
                match self.gen {
                    Gen::P1 { enc: Enc1::None, .. } => {}
                    Gen::P1 { ver, enc } => {
                        let v = if enc == Enc1::Direct { ver as u16 } else { checksum(ver_hash(ver)) };
                        b[f..f + 2].copy_from_slice(&v.to_le_bytes());
                    }
                    Gen::P2 { rel, hash1, t, .. } => {
                        b[f..f + 4].copy_from_slice(&(hash1 as u32).to_le_bytes());
                        b[f + 4..f + 8].copy_from_slice(&(hash2(rel, hash1, t) as u32).to_le_bytes());
                    }
                }
            }
            Head::Rand68 | Head::Rand150 => {
                let Gen::P2 { rel, hash1, t, .. } = self.gen else { panic!() };
                for (i, x) in b[..f].iter_mut().enumerate() {
                    *x = (i * 89 + 17) as u8;
                }
                let h2 = hash2(rel, hash1, t);
                let mut put = |at: &[usize], v: u64| {
                    for (i, p) in at.iter().enumerate() {
                        b[*p] = (v >> (8 * i)) as u8;
                    }
                };
                if self.head == Head::Rand68 {
                    put(&[0x43, 0x1A, 0x30, 0x10], hash1);
                    put(&[0x2D, 0x07, 0x3F, 0x2E], h2);
                    put(&[0x15, 0x19, 0x39, 0x41], fsize);
                } else {
                    put(&[0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67], hash1);
                    put(&[0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D], h2);
                    put(&[0x12, 0x09, 0x02, 0x95], fsize);
                }
            }
        }
    }
    /// directories and images as they must be listed, images closed
    pub fn listing(&self, name: &str) -> T {
        T { name: name.into(), v: "File".into(), kids: list_kids(&self.ents, false) }
    }
    /// the same with every property image opened
    pub fn full(&self, name: &str) -> T {
        T { name: name.into(), v: "File".into(), kids: list_kids(&self.ents, true) }
    }
}
pub fn list_kids(l: &[Ent], open: bool) -> Vec<T> {
    l.iter()
        .map(|e| match &e.k {
            K::Dir(k, _) => T { name: e.name.t.clone(), v: "Dir".into(), kids: list_kids(k, open) },
            K::Img(_, top) => T { name: e.name.t.clone(), v: "Image".into(), kids: if open { top.as_ref().map(|t| model(t)).unwrap_or_default() } else { vec![] } },
        })
        .collect()
}
pub fn keys(iv: [u8; 4]) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(EcbDecryptor::from_iv(iv)))
}
pub fn open_file(name: &str, bytes: &[u8], ver: Option<i32>, key: Option<&SharedWzStringDecryptor>) -> Result<WzNodeArc, String> {
    let p = scratch_file(name, bytes);
    let n = WzNode::from_wz_file_full(&p, None, ver, None, key).map_err(|e| format!("open: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}
pub fn images_of(n: &WzNodeArc, out: &mut Vec<WzNodeArc>) {
    let kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
    for k in kids {
        let is = k.read().unwrap().try_as_image().is_some();
        if is {
            out.push(k);
        } else {
            images_of(&k, out);
        }
    }
}
pub fn parse_images(n: &WzNodeArc) -> R {
    let mut v = vec![];
    images_of(n, &mut v);
    for i in v {
        node_util::parse_node(&i).map_err(|e| format!("image {}: {e}", path_up(&i)))?;
    }
    Ok(())
}
/// listing, then content, then stored bytes of every image
pub fn check_arch(a: &Arch, n: &WzNodeArc, name: &str, st: &mut Stats) -> R {
    same(&a.listing(name), &dump(n)?)?;
    fn blocks(l: &[Ent], n: &WzNodeArc) -> R {
        for e in l {
            let k = n.read().unwrap().children.get(e.name.t.as_str()).cloned().ok_or("entry is gone")?;
            match &e.k {
                K::Dir(d, _) => blocks(d, &k)?,
                K::Img(b, _) => {
                    let r = k.read().unwrap();
                    let i = r.try_as_image().ok_or("not an image")?;
                    ensure_eq!(i.block_size, b.len(), "size of image {}", e.name.t);
                    ensure!(i.reader.map.get(i.offset..i.offset + i.block_size) == Some(&b[..]), "image {} covers other bytes than were stored", e.name.t);
                }
            }
        }
        Ok(())
    }
    blocks(&a.ents, n)?;
    parse_images(n)?;
    let got = dump(n)?;
    same(&a.full(name), &got)?;
    st.states += got.count() as u64;
    st.transitions += 2;
    st.observe(&got.show());
    Ok(())
}

// ------------------------------------------------------------------ C03
#[derive(Debug)]
pub struct Case {
    pub a: Arch,
    pub given: Option<i32>,
    /// a key is handed over instead of being detected
    pub key: bool,
}
fn file_version(n: &WzNodeArc) -> i32 {
    n.read().unwrap().try_as_file().map(|f| f.wz_file_meta.patch_version).unwrap_or(-2)
}
fn run_case(c: &Case, st: &mut Stats) -> R {
    let b = c.a.build();
    let k = if c.key { Some(keys(c.a.iv)) } else { None };
    let n = open_file("Base.wz", &b, c.given, k.as_ref())?;
    check_arch(&c.a, &n, "Base", st)?;
    if let Gen::P1 { ver, enc } = c.a.gen {
        if !c.a.ents.is_empty() {
            let got = file_version(&n);
            // two version numbers may share a hash only if they are equal; the version is part of the result
            ensure_eq!(got, ver, "version of the opened archive (version field {enc:?})");
        }
    }
    st.traces += 1;
    Ok(())
}
/// every ordered forest of directories and images with up to `left` entries
pub fn ent_forest(ch: &mut Ch, left: &mut u32, depth: u32, iv: [u8; 4], c: &mut u32) -> Vec<Ent> {
    let mut v: Vec<Ent> = vec![];
    loop {
        if *left == 0 || ch.pick(2) == 0 {
            return v;
        }
        *left -= 1;
        *c += 1;
        let me = *c;
        let nm = |x: &str| format!("{x}{}", v.len());
        if ch.pick(2) == 0 {
            let top = match me % 3 {
                0 => vec![],
                1 => vec![n("v", int(me as i32 * 7))],
                _ => vec![n("s", V::Sub(vec![n("t", st(&format!("x{me}")))])), n("c", small_canvas(None))],
            };
            v.push(img(&format!("{}.img", nm("Im")), iv, top));
        } else {
            let name = nm("Dir");
            let kids = ent_forest(ch, left, depth + 1, iv, c);
            v.push(Ent::new(&name, K::Dir(kids, DirSize::Block)));
        }
    }
}
pub fn sample_ents(iv: [u8; 4]) -> Vec<Ent> {
    vec![
        img("Aa.img", iv, vec![n("a", int(1)), n("b", st("text"))]),
        dir("Mob", vec![img("100.img", iv, vec![n("x", small_canvas(None))]), dir("Deep", vec![img("1.img", iv, vec![n("q", int(-77777))])])]),
        img("Zz.img", iv, vec![n("z", V::Sub(vec![n("y", V::Vector(3, -400, Form::Auto))]))]),
    ]
}
fn ename(ch: &mut Ch, t: &str) -> S {
    let wide = !t.is_ascii() || ch.devf();
    let form = if ch.devf() { Form::Long } else { Form::Auto };
    S { t: t.into(), wide, form, place: Place::Inline }
}
fn dev_ent(ch: &mut Ch, e: &mut Ent, classic: bool, first: bool) {
    let t = ch.dev_of(&[e.name.t.clone(), format!("{}楓", e.name.t), format!("{}_{}", "n".repeat(130), e.name.t)]).clone();
    // the first name is what the key is detected by
    let t = if first && !t.is_ascii() { e.name.t.clone() } else { t };
    e.name = ename(ch, &t);
    if classic {
        e.off = ch.devf();
        e.junk = ch.devf();
    }
    e.csum = *ch.dev_of(&[1234i32, 0, -1, 127, 128, i32::MIN, i32::MAX]);
    if ch.devf() {
        e.form = Form::Long;
    }
    if let K::Dir(k, sz) = &mut e.k {
        if ch.devf() {
            *sz = DirSize::One;
        }
        if classic && ch.devf() {
            k.clear();
            *sz = *ch.of(&[DirSize::Zero, DirSize::Block, DirSize::One]);
        }
        for x in k {
            dev_ent(ch, x, classic, false);
        }
    }
}
fn heads() -> Vec<usize> {
    (16..=80).chain([100, 128, 255, 256, 1000, 4095, 65536]).collect()
}
pub fn c03(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let size = t.q(6, 8);
    f.push(Family::new(
        "trees",
        format!("every ordered tree of up to {size} directories and images (nesting to depth {size}) x 3 layouts x version given or detected, version field present or absent; key detected"),
        0,
        move |ch| {
            let iv = *ch.of(&STD);
            let mut left = size;
            let mut c = 0;
            let ents = ent_forest(ch, &mut left, 0, iv, &mut c);
            let layout = *ch.of(&LAYOUTS);
            let (ver, enc) = *ch.of(&[(83, Enc1::Checksum), (777, Enc1::None)]);
            let given = if ch.flag() { Some(ver) } else { None };
            let empty = ents.is_empty();
            Some(Case { a: Arch { gen: Gen::P1 { ver, enc }, head: Head::Plain(60), iv, ents, layout }, given, key: empty && iv != BMS })
        },
        run_case,
    ));
    let vmax = 2000;
    f.push(Family::new(
        "versions",
        "every version 1..=2000 with a version field (checksum, or the number itself up to 255), every version 770..=780 without one; given and detected; every version 1..=2000 given without a field; 3 keys",
        0,
        move |ch| {
            let ver = 1 + ch.pick(vmax) as i32;
            let enc = *ch.of(&[Enc1::Checksum, Enc1::Direct, Enc1::None]);
            let given = ch.flag();
            if enc == Enc1::Direct && (ver > 255 || ver == 0x80 && false) {
                return None;
            }
            if enc == Enc1::None && !given && !(770..=780).contains(&ver) {
                return None;
            }
            let iv = STD[ver as usize % 3];
            let mut a = Arch::p1(ver, iv, sample_ents(iv));
            a.gen = Gen::P1 { ver, enc };
            // the number itself may be the checksum of an earlier version as well; the offsets decide
            Some(Case { a, given: if given { Some(ver) } else { None }, key: false })
        },
        run_case,
    ));
    let step = t.q(3, 1);
    f.push(Family::new(
        "wrong versions",
        format!("archives of versions 1..=2000 in steps of {step}, with and without a field, opened with another version: all numbers at distance up to 12, all that share the checksum, and boundary numbers; opening must fail"),
        0,
        move |ch| {
            let ver = 1 + (ch.pick(2000 / step) * step) as i32;
            let field = ch.flag();
            let cs = checksum(ver_hash(ver));
            let mut l: Vec<i32> = (ver - 12..=ver + 12).chain([0, 1, 2, 113, 255, 256, 770, 1999, 2000, 2001, 9999, 32767, 1_000_000, 99_999_999, i32::MAX, i32::MIN, -2]).collect();
            l.extend((1..=3000).filter(|v| checksum(ver_hash(*v)) == cs));
            if cs < 256 {
                l.push(cs as i32);
            }
            l.retain(|v| *v != ver && *v != -1);
            Some((ver, field, l))
        },
        |(ver, field, l), st| {
            let mut a = Arch::p1(*ver, GMS, sample_ents(GMS));
            if !field {
                a.gen = Gen::P1 { ver: *ver, enc: Enc1::None };
            }
            let p = scratch_file("Base.wz", &a.build());
            for v in l {
                if ver_hash(*v) == ver_hash(*ver) {
                    continue;
                }
                let n = WzNode::from_wz_file_full(&p, None, Some(*v), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
                let r = n.write().unwrap().parse(&n);
                ensure!(r.is_err(), "an archive of version {ver} opens as version {v}");
                ensure!(n.read().unwrap().children.is_empty(), "children after opening with a wrong version");
                st.transitions += 1;
            }
            st.traces += 1;
            Ok(())
        },
    ));
    f.push(Family::new(
        "header sizes and root counts",
        "every header size 16..=80 and larger ones x version field x keys; every root entry count 1..=300 and around 512, 768, 1000, 4096 with and without version field (the count starts where the version field would be)",
        0,
        |ch| {
            let enc = *ch.of(&[Enc1::Checksum, Enc1::None, Enc1::Direct]);
            if ch.flag() {
                let h = heads();
                let f = *ch.of(&h);
                let iv = *ch.of(&STD);
                let ver = if enc == Enc1::None { 775 } else { 95 };
                let mut a = Arch::p1(ver, iv, sample_ents(iv));
                a.gen = Gen::P1 { ver, enc };
                a.head = Head::Plain(f);
                a.layout = *ch.of(&LAYOUTS);
                let given = if ch.flag() { Some(ver) } else { None };
                Some(Case { a, given, key: false })
            } else {
                let counts: Vec<usize> = (1..=300).chain([511, 512, 513, 767, 768, 1000, 1024, 4096]).collect();
                let k = *ch.of(&counts);
                // 0x80 as a version field looks like the start of a long count
                let ver = match enc {
                    Enc1::None => 771,
                    Enc1::Direct => 128,
                    Enc1::Checksum => (1..2000).find(|v| checksum(ver_hash(*v)) == 0x80).unwrap(),
                };
                let iv = STD[k % 3];
                let ents = (0..k).map(|i| if i % 5 == 4 { dir(&format!("d{i}"), vec![img("q.img", iv, vec![n("v", int(i as i32))])]) } else { img(&format!("m{i}.img"), iv, vec![n("v", int(i as i32))]) }).collect();
                let mut a = Arch::p1(ver, iv, ents);
                a.gen = Gen::P1 { ver, enc };
                let given = if ch.flag() { Some(ver) } else { None };
                Some(Case { a, given, key: false })
            }
        },
        run_case,
    ));
    let dv = t.q(3, 4);
    f.push(Family::new(
        "entry deviations",
        format!("a nested archive with up to {dv} storage deviations at every entry: name wide, long form, non-ASCII, over 128 bytes, stored elsewhere (type 2), unknown entries (type 1) in between, checksum values, extended integers, directory sizes, empty directories in every form; layout, header size, key (standard, private, given), version, field"),
        dv,
        |ch| {
            let (iv, key) = *ch.dev_of(&[(GMS, false), (EMS, false), (BMS, false), ([1, 2, 3, 4], true), (EMS, true)]);
            let (ver, enc) = *ch.dev_of(&[(83, Enc1::Checksum), (777, Enc1::None), (176, Enc1::Direct), (113, Enc1::Checksum), (1, Enc1::Checksum), (2000, Enc1::Checksum)]);
            let given = if ch.devf() { Some(ver) } else { None };
            let layout = *ch.dev_of(&LAYOUTS);
            let h = *ch.dev_of(&[60usize, 16, 17, 300]);
            let mut ents = sample_ents(iv);
            match ch.dev(3) {
                1 => ents.rotate_left(1),
                2 => ents.reverse(),
                _ => {}
            }
            for (i, e) in ents.iter_mut().enumerate() {
                dev_ent(ch, e, true, i == 0);
            }
            Some(Case { a: Arch { gen: Gen::P1 { ver, enc }, head: Head::Plain(h), iv, ents, layout }, given, key })
        },
        run_case,
    ));
    let cn = t.q(3, 5);
    f.push(Family::new(
        "contents",
        format!("archives whose images hold every forest of up to {cn} nodes over 17 property kinds, next to other images"),
        0,
        move |ch| {
            let mut left = cn;
            let mut c = 0;
            let kinds: Vec<usize> = (0..KINDS).collect();
            let top = forest(ch, &mut left, 0, cn, &kinds, &mut c);
            let iv = STD[(c as usize + top.len()) % 3];
            let layout = LAYOUTS[c as usize % 3];
            let ents = vec![img("First.img", iv, vec![n("f", int(5))]), dir("D", vec![img("X.img", iv, top)]), img("Last.img", iv, vec![n("l", st("last"))])];
            let mut a = Arch::p1(83, iv, ents);
            a.layout = layout;
            Some(Case { a, given: Some(83), key: false })
        },
        run_case,
    ));
    f
}

// ------------------------------------------------------------------ C04
/// (release, first hash, version hash): each costs one search of the hash space per process
pub fn p2_pairs(t: Tier) -> Vec<(Rel, u64, u64)> {
    let mut v = vec![
        (Rel::R1199, 0x9E3779B9, 0x00ABCDEF),
        (Rel::R1200, 0x0000abcd, 0x7654321F),
        (Rel::R1198, 0x12345678, 0xBEEF0012),
        (Rel::R1197, 0xDEADBEEF, 0x00C0FFEE),
        (Rel::R1196, 0x80000001, 0x00000312),
    ];
    if t == Tier::Thorough {
        v.extend([
            (Rel::R1199, 0xFFFFFFFF, 0xFFFFFFFF),
            (Rel::R1199, 0, 1),
            (Rel::R1200, 0x7FFFFFFF, 0x80000000),
            (Rel::R1198, 0x0000000F, 0xFFFFFFF0),
            (Rel::R1198, 0xFFFFFFF0, 0x10),
            (Rel::R1197, 0, 0x20),
            (Rel::R1197, 0xFFFFFFFF, 31),
            (Rel::R1196, 0, 0xFFFFFFFF),
        ]);
    }
    v
}
const P64: [(u64, u64); 6] = [
    (0x1234567890ABCDEF, 0x0FEDCBA987654321),
    (0, 1),
    (u64::MAX, 0x8000000000000000),
    (1, u64::MAX),
    (0x00000000FFFFFFFF, 0xFFFFFFFF00000000),
    (0x8000000000000000, 0x123),
];
const COUNTS: [i64; 12] = [1000, 5, 0, 127, 128, 100, 65536, i32::MAX as i64, -1, -127, -128, i32::MIN as i64];
/// a release with its hashes and a header form it comes with
fn p2(ch: &mut Ch, t: Tier) -> (Gen, Head) {
    let v = p2_pairs(t);
    let (rel, hash1, tt) = *ch.of(&v);
    (Gen::P2 { rel, hash1, t: tt, count: 1000 }, Head::Plain(60))
}
fn no_empty_dir(l: &[Ent]) -> bool {
    l.iter().all(|e| match &e.k {
        K::Dir(k, sz) => (*sz == DirSize::Zero || !k.is_empty()) && no_empty_dir(k),
        _ => true,
    })
}
/// an empty directory of the 32-bit form has no block
fn zero_dirs(l: &mut [Ent]) {
    for e in l {
        if let K::Dir(k, sz) = &mut e.k {
            if k.is_empty() {
                *sz = DirSize::Zero;
            }
            zero_dirs(k);
        }
    }
}
fn p2_heads(rel: Rel) -> Vec<Head> {
    match rel {
        Rel::R1202 => vec![Head::Rand150],
        Rel::R1199 => vec![Head::Plain(60), Head::Rand68, Head::Plain(16), Head::Plain(333)],
        _ => vec![Head::Plain(60), Head::Plain(16), Head::Plain(333)],
    }
}
/// a nested archive with storage deviations
fn p2_devs(ch: &mut Ch, rel: Rel, hash1: u64, tt: u64) -> Option<Case> {
    let head = *ch.dev_of(&p2_heads(rel));
    let layout = *ch.dev_of(&LAYOUTS);
    let count = *ch.dev_of(&COUNTS);
    let mut ents = sample_ents(BMS);
    match ch.dev(3) {
        1 => ents.rotate_left(1),
        2 => ents.reverse(),
        _ => {}
    }
    for (i, e) in ents.iter_mut().enumerate() {
        dev_ent(ch, e, false, i == 0);
        if let K::Dir(k, sz) = &mut e.k {
            if ch.devf() {
                k.clear();
                *sz = if rel == Rel::R1202 && ch.flag() { *ch.of(&[DirSize::Block, DirSize::One]) } else { DirSize::Zero };
            }
        }
    }
    // the end of the entries is told by a byte that is no entry type
    if rel != Rel::R1202 && !no_empty_dir(&ents) {
        return None;
    }
    // the length of a first name with a key of its own is one byte
    if !matches!(rel, Rel::R1196 | Rel::R1197 | Rel::R1202) && !first_fits(&ents) {
        return None;
    }
    Some(Case { a: Arch { gen: Gen::P2 { rel, hash1, t: tt, count }, head, iv: BMS, ents, layout }, given: None, key: false })
}
fn first_fits(l: &[Ent]) -> bool {
    l.first().map_or(true, |e| e.name.t.encode_utf16().count() <= 128)
        && l.iter().all(|e| match &e.k {
            K::Dir(k, _) => first_fits(k),
            _ => true,
        })
}
/// first names of all lengths
fn p2_names(ch: &mut Ch, rel: Rel, hash1: u64, tt: u64, nl: usize) -> Option<Case> {
    let len = 1 + ch.pick(nl);
    let calc = matches!(rel, Rel::R1199 | Rel::R1200 | Rel::R1202);
    let keyed = calc || rel == Rel::R1198;
    if keyed && rel != Rel::R1202 && len > 128 {
        return None;
    }
    // one letter of a release without own name key does not tell the standard keys apart
    if !keyed && len < 2 {
        return None;
    }
    let wide = ch.flag();
    let head = *ch.of(&p2_heads(rel)[..p2_heads(rel).len().min(2)]);
    let first_dir = ch.flag();
    let name: String = if wide { text_wide(len) } else { text_ascii(len) };
    let root = if wide && !calc { text_ascii(len) } else { name.clone() };
    let inner = vec![Ent { name: S { wide, ..s(&name) }, ..img("", BMS, vec![n("v", int(len as i32))]) }, img("b.img", BMS, vec![n("w", int(2))])];
    let rname = S { wide: !root.is_ascii(), ..s(&root) };
    let mut ents = vec![];
    if first_dir {
        ents.push(Ent { name: rname, ..dir("", inner) });
        ents.push(img("last.img", BMS, vec![]));
    } else {
        ents.push(Ent { name: rname, ..img("", BMS, vec![n("r", st("root"))]) });
        ents.push(dir("last_", inner));
    }
    Some(Case { a: Arch { gen: Gen::P2 { rel, hash1, t: tt, count: 1000 + len as i64 }, head, iv: BMS, ents, layout: Layout::Plain }, given: None, key: false })
}
pub fn c04(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let (s32, s64) = (t.q(4, 6), t.q(6, 7));
    let dv = t.q(2, 3);
    let nl = t.q(130, 400);
    // one family, because only the first opening of a pair of hashes pays for the search
    f.push(
        Family::new(
            "32-bit hashes",
            format!("releases 1196 to 1201, for each pair of hashes: every ordered tree of 1..={s32} directories and images x 3 layouts x header forms (plain of 3 sizes, random); a nested archive with up to {dv} storage deviations (names wide, long form, over 128 characters, checksums, extended sizes, directory sizes, empty directories, encrypted counts of either sign, layout, header, order); first names of every length 1..=128, narrow and beyond ASCII where the key does not depend on the name, in the root and in a directory"),
            dv,
            move |ch| {
                let (gen, _) = p2(ch, t);
                let Gen::P2 { rel, hash1, t: tt, .. } = gen else { unreachable!() };
                match ch.pick(3) {
                    0 => p2_names(ch, rel, hash1, tt, nl),
                    1 => p2_devs(ch, rel, hash1, tt),
                    _ => {
                        let head = *ch.of(&p2_heads(rel));
                        let layout = *ch.of(&LAYOUTS);
                        let mut left = s32;
                        let mut c = 0;
                        let mut ents = ent_forest(ch, &mut left, 0, BMS, &mut c);
                        if ents.is_empty() {
                            return None;
                        }
                        zero_dirs(&mut ents);
                        let count = COUNTS[c as usize % 8];
                        Some(Case { a: Arch { gen: Gen::P2 { rel, hash1, t: tt, count }, head, iv: BMS, ents, layout }, given: None, key: false })
                    }
                }
            },
            run_case,
        )
        .solo()
        .limit(120),
    );
    f.push(Family::new(
        "trees, 64-bit hashes",
        format!("release 1202: every ordered tree of 0..={s64} directories and images (empty ones too) x 3 layouts x 6 pairs of hashes; every search runs anew"),
        0,
        move |ch| {
            let mut left = s64;
            let mut c = 0;
            let ents = ent_forest(ch, &mut left, 0, BMS, &mut c);
            let layout = *ch.of(&LAYOUTS);
            let (hash1, tt) = *ch.of(&P64);
            Some(Case { a: Arch { gen: Gen::P2 { rel: Rel::R1202, hash1, t: tt, count: 0x1234 * c as i64 }, head: Head::Rand150, iv: BMS, ents, layout }, given: None, key: false })
        },
        run_case,
    ));
    f.push(Family::new(
        "64-bit deviations",
        format!("release 1202: a nested archive with up to {dv} storage deviations, and first names of every length 1..={nl}"),
        dv,
        move |ch| if ch.flag() { p2_devs(ch, Rel::R1202, P64[0].0, P64[0].1) } else { p2_names(ch, Rel::R1202, P64[0].0, P64[0].1, nl) },
        run_case,
    ));
    f.push(Family::new(
        "64-bit header fields",
        "release 1202: every single bit of both hashes, and every entry count 0..=300, 1000, 5000",
        0,
        |ch| {
            let (h1, tt, k) = match ch.pick(3) {
                0 => (1u64 << ch.pick(64), 0x1122334455667788, 3),
                1 => (0x8877665544332211, 1u64 << ch.pick(64), 3),
                _ => (P64[0].0, P64[0].1, *ch.of(&(0..=300).chain([1000, 5000]).collect::<Vec<_>>())),
            };
            let ents = if k == 3 { sample_ents(BMS) } else { (0..k).map(|i| if i % 4 == 1 { dir(&format!("d{i}"), vec![img("q.img", BMS, vec![])]) } else { img(&format!("m{i}"), BMS, vec![n("v", int(i as i32))]) }).collect() };
            Some(Case { a: Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: h1, t: tt, count: 0 }, head: Head::Rand150, iv: BMS, ents, layout: Layout::Plain }, given: None, key: false })
        },
        run_case,
    ));
    f.push(Family::new(
        "no version, 64-bit",
        "release 1202: every one-bit change of the low half of the first and of the whole second header hash of a nested archive: opening fails and leaves no children (the high half of the first hash cancels out of every formula)",
        0,
        |ch| {
            let which = ch.pick(2);
            Some((which, ch.pick(if which == 0 { 32 } else { 64 }), *ch.of(&P64)))
        },
        |(which, bit, (h1, tt)), st| {
            let a = Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: *h1, t: *tt, count: 0 }, head: Head::Rand150, iv: BMS, ents: sample_ents(BMS), layout: Layout::Plain };
            let mut b = a.build();
            let at: [usize; 8] = if *which == 0 { [0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67] } else { [0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D] };
            b[at[bit / 8]] ^= 1 << (bit % 8);
            refused("Base.wz", &b)?;
            st.traces += 1;
            st.observe(&format!("{which}{bit}"));
            Ok(())
        },
    ));
    let bad = t.q(1usize, 12);
    f.push(
        Family::new(
            "no version, 32-bit",
            format!("{bad} archives of the 32-bit releases with a changed second hash: opening fails after the whole search"),
            0,
            move |ch| Some(ch.pick(bad)),
            |i, st| {
                let v = p2_pairs(Tier::Quick);
                let (rel, hash1, tt) = v[(i * 2) % v.len()];
                let a = Arch { gen: Gen::P2 { rel, hash1, t: tt, count: 1000 }, head: Head::Plain(60), iv: BMS, ents: sample_ents(BMS), layout: Layout::Plain };
                let mut b = a.build();
                b[64 + (i / 2) % 4] ^= 1 << (i % 8);
                refused("Base.wz", &b)?;
                st.traces += 1;
                Ok(())
            },
        )
        .solo(),
    );
    f
}
/// opening must fail and leave no children
pub fn refused(name: &str, b: &[u8]) -> R {
    let p = scratch_file(name, b);
    let n = match WzNode::from_wz_file(&p, None) {
        Err(_) => return Ok(()),
        Ok(n) => n.into_lock(),
    };
    let r = n.write().unwrap().parse(&n);
    ensure!(r.is_err(), "opens with children {:?}", n.read().unwrap().children.keys().map(|k| k.to_string()).collect::<Vec<_>>());
    ensure!(n.read().unwrap().children.is_empty(), "children after a failed open");
    Ok(())
}
