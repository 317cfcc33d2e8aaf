//! C19: damaged input ends in a result or an error, within bounded time and memory, and leaves the
//! shared keys usable.
use crate::core::*;
use crate::crypt::*;
use crate::gens;
use crate::img::*;
use crate::ms;
use crate::pkg::*;
use std::cell::Cell;
use std::rc::Rc;
use wz_reader::property::WzValue;
use wz_reader::util::{node_util, walk_node};
use wz_reader::*;

/// memory one damaged small file may take
const MEM: u64 = 512 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// standalone image, opened with this iv and without any
    Img([u8; 4]),
    /// archive; keyed: also opened with this key
    Wz([u8; 4], Option<i32>),
    Ms,
}
pub struct Base {
    pub name: String,
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub paths: Vec<String>,
}
fn paths_of(t: &[T], at: &str, out: &mut Vec<String>) {
    for x in t {
        let p = if at.is_empty() { x.name.clone() } else { format!("{at}/{}", x.name) };
        out.push(p.clone());
        paths_of(&x.kids, &p, out);
    }
}
pub fn base_img(name: &str, iv: [u8; 4], top: Vec<N>) -> Base {
    let mut paths = vec![];
    paths_of(&model(&top), "", &mut paths);
    paths.push("no/such".into());
    let bytes = image(iv, &top);
    Base { name: name.into(), kind: Kind::Img(iv), bytes, paths }
}
fn base_raw(name: &str, iv: [u8; 4], bytes: Vec<u8>) -> Base {
    Base { name: name.into(), kind: Kind::Img(iv), bytes, paths: vec!["Script".into(), "a".into()] }
}
pub fn base_arch(name: &str, a: &Arch, iv: [u8; 4], ver: Option<i32>) -> Base {
    let mut paths = vec![];
    let full = a.full(name.trim_end_matches(".wz"));
    paths_of(&full.kids, "", &mut paths);
    let bytes = a.build();
    Base { name: name.into(), kind: Kind::Wz(iv, ver), bytes, paths }
}
pub fn base_pack(g: u8) -> Base {
    let p = ms::Pack::new(g, "mob_00000.ms", b"ab", ms::sample_pack_ents());
    let mut paths = vec![];
    for e in &p.ents {
        paths.push(e.name.clone());
    }
    Base { name: "mob_00000.ms".into(), kind: Kind::Ms, bytes: p.build(), paths }
}

pub struct Lim {
    pub nodes: Cell<usize>,
}
fn read_value(a: &WzNodeArc, st: &mut Stats) {
    let (obj, kids) = {
        let r = a.read().unwrap();
        st.observe(&obs(&r));
        let _ = (r.get_full_path(), r.get_path_from_root(), r.get_path_from_image());
        let _ = (r.get_parent_wz_image().is_some(), r.get_base_wz_file().is_some());
        (r.object_type.clone(), r.children.len())
    };
    match &obj {
        WzObjectType::Property(property::WzSubProperty::PNG(p)) => {
            if let Ok(i) = p.extract_png() {
                st.observe_bytes(i.as_bytes());
            }
            let _ = property::get_image(a).is_ok();
        }
        WzObjectType::Property(property::WzSubProperty::Sound(s)) => {
            let _ = s.get_wav_header();
            let _ = s.write_to(&mut std::io::Cursor::new(vec![])).is_ok();
            let _ = s.get_buffer();
        }
        WzObjectType::Value(WzValue::UOL(_)) => {
            let _ = property::resolve_string_from_node(a).is_ok();
        }
        WzObjectType::Value(WzValue::String(_)) => {
            let _ = property::resolve_string_from_node(a).is_ok();
        }
        _ => {}
    }
    st.transitions += 4 + kids as u64;
}
fn visit(a: &WzNodeArc, d: usize, left: &mut usize, st: &mut Stats) -> R {
    if d > 1000 {
        return Err("tree deeper than 1000".into());
    }
    if *left == 0 {
        return Err("more nodes than the file has bytes".into());
    }
    *left -= 1;
    let _ = node_util::parse_node(a).is_ok();
    read_value(a, st);
    let kids: Vec<WzNodeArc> = a.read().unwrap().children.values().cloned().collect();
    for k in kids {
        visit(&k, d + 1, left, st)?;
    }
    Ok(())
}
/// everything a user may do with an opened node
pub fn exercise(root: &WzNodeArc, paths: &[String], size: usize, st: &mut Stats) -> R {
    for p in paths {
        if let Some(n) = node_util::get_node_without_parse(root, p) {
            read_value(&n, st);
        }
    }
    match node_util::parse_node(root) {
        Ok(_) => st.observe("parses"),
        Err(e) => st.observe(&format!("{e}")),
    }
    for p in paths {
        let r = root.read().unwrap().at_path(p);
        if let Some(n) = r {
            let _ = node_util::parse_node(&n).is_ok();
        }
    }
    for p in paths.iter().take(6) {
        let r = root.read().unwrap().at_path_parsed(p);
        if let Ok(n) = r {
            read_value(&n, st);
        }
    }
    let mut left = size + 64;
    visit(root, 0, &mut left, st)?;
    if let Ok(v) = root.read().unwrap().to_json() {
        st.transitions += v.is_object() as u64;
    }
    if let Ok(v) = root.read().unwrap().to_simple_json() {
        st.transitions += v.is_object() as u64;
    }
    let mut all = vec![];
    links(root, &mut all);
    for l in all {
        node_util::resolve_uol(&l, None);
    }
    let seen = Cell::new(0usize);
    walk_node(root, true, &|_| seen.set(seen.get() + 1));
    // a link resolved to another place may be walked more than once
    st.states += seen.get().min(1000) as u64;
    root.write().unwrap().unparse();
    let _ = node_util::parse_node(root).is_ok();
    Ok(())
}
fn links(a: &WzNodeArc, out: &mut Vec<WzNodeArc>) {
    let r = a.read().unwrap();
    if matches!(&r.object_type, WzObjectType::Value(WzValue::UOL(_))) {
        out.push(a.clone());
    }
    for k in r.children.values() {
        links(k, out);
    }
}
fn fresh(name: &str, b: &[u8]) -> std::path::PathBuf {
    let p = scratch().join(name);
    let _ = std::fs::remove_file(&p);
    std::fs::write(&p, b).unwrap();
    p
}
/// open in every way the kind offers and use the result; the shared key must serve others afterwards
pub fn hit(b: &Base, bytes: &[u8], st: &mut Stats) -> R {
    mem_reset();
    let live = mem_live();
    let p = fresh(&b.name, bytes);
    let mut opened = 0u64;
    match b.kind {
        Kind::Img(iv) => {
            for given in [false, true] {
                let r = no_panic(|| if given { WzNode::from_img_file_with_iv(&p, iv, None) } else { WzNode::from_img_file(&p, None, None) }).map_err(|e| format!("opening: {e}"))?;
                if let Ok(n) = r {
                    let n = n.into_lock();
                    opened += 1;
                    no_panic(|| exercise(&n, &b.paths, bytes.len(), st)).map_err(|e| format!("using (iv given: {given}): {e}"))??;
                }
            }
            // inside a larger file, where nothing stops at the end of the file
            if !bytes.is_empty() {
                let n = crate::c01::embed_img(&b.name, bytes, iv, 40, 70);
                let keys = {
                    let r = n.read().unwrap();
                    let WzObjectType::Image(i) = &r.object_type else { unreachable!() };
                    i.reader.keys.clone()
                };
                opened += 1;
                no_panic(|| exercise(&n, &b.paths, bytes.len() + 110, st)).map_err(|e| format!("using as part of an archive: {e}"))??;
                good_after(&keys, iv)?;
            }
        }
        Kind::Wz(iv, ver) => {
            let key = keys(iv);
            for (k, v) in [(None, None), (Some(&key), ver), (Some(&key), None)] {
                let r = no_panic(|| WzNode::from_wz_file_full(&p, None, v, None, k)).map_err(|e| format!("opening (key given: {}): {e}", k.is_some()))?;
                if let Ok(n) = r {
                    let n = n.into_lock();
                    opened += 1;
                    no_panic(|| exercise(&n, &b.paths, bytes.len(), st)).map_err(|e| format!("using (key given: {}): {e}", k.is_some()))??;
                }
            }
            good_after(&key, iv)?;
        }
        Kind::Ms => {
            let r = no_panic(|| WzNode::from_ms_file(&p, None)).map_err(|e| format!("opening: {e}"))?;
            if let Ok(n) = r {
                let n = n.into_lock();
                opened += 1;
                no_panic(|| exercise(&n, &b.paths, bytes.len(), st)).map_err(|e| format!("using: {e}"))??;
            }
        }
    }
    let peak = mem_peak_since(live);
    if peak > MEM {
        return Err(format!("{} MB of memory for a file of {} bytes", peak >> 20, bytes.len()));
    }
    st.states += 1;
    st.transitions += opened;
    Ok(())
}
fn good_after(key: &SharedWzStringDecryptor, iv: [u8; 4]) -> R {
    let enc = wz_string(iv, "the text another file stores", false, Form::Auto);
    let got = {
        let mut r = reader::WzReader::from_buff(&enc);
        r.keys = key.clone();
        no_panic(|| r.create_slice_reader_without_hash().read_wz_string_at_offset(0)).map_err(|e| format!("another file with the same key: {e}"))?.map_err(|e| format!("another file with the same key: {e}"))?
    };
    if got != "the text another file stores" {
        return Err(format!("another file with the same key reads {got:?}"));
    }
    Ok(())
}

/// only as part of an archive (no file system), for the large families
fn hit_embedded(name: &str, paths: &[String], iv: [u8; 4], bytes: &[u8], st: &mut Stats) -> R {
    mem_reset();
    let live = mem_live();
    let n = crate::c01::embed_img(name, bytes, iv, 8, 8);
    let keys = {
        let r = n.read().unwrap();
        let WzObjectType::Image(i) = &r.object_type else { unreachable!() };
        i.reader.keys.clone()
    };
    no_panic(|| exercise(&n, paths, bytes.len() + 16, st)).map_err(|e| format!("using: {e}"))??;
    good_after(&keys, iv)?;
    let peak = mem_peak_since(live);
    if peak > MEM {
        return Err(format!("{} MB of memory for an image of {} bytes", peak >> 20, bytes.len()));
    }
    st.states += 1;
    Ok(())
}
fn small_kind(k: usize) -> Vec<N> {
    let kids = match k {
        0 => vec![n("q", int(3))],
        1 => vec![n("origin", V::Vector(1, 2, Form::Auto))],
        2 => vec![n("q", st("v"))],
        3 => vec![n("0", V::Vector(1, 2, Form::Auto)), n("1", V::Vector(3, 4, Form::Auto))],
        _ => vec![],
    };
    vec![n("k", gens::kind(k, 3, kids)), n("z", int(7))]
}
fn lua(iv: [u8; 4], t: &[u8]) -> Vec<u8> {
    let mut b = vec![1u8];
    b.extend(wz_int(t.len() as i32, Form::Auto));
    b.extend(xor_ks(iv, t));
    b
}
fn rich_top() -> Vec<N> {
    let mut t = gens::rich(&mut Ch::new(vec![], 0));
    t.push(n(
        "linked",
        V::Canvas(Canvas { kids: Some(vec![n("_inlink", st("sub/0")), n("_outlink", st("Map/x.img/1"))]), w: 1, h: 1, f1: 2, f2: 0, pages: 0, data: zlib(&[1, 2, 3, 4], 6) }),
    ));
    t.push(n("self", V::Uol(s("../self"))));
    t.push(n("loop1", V::Uol(s("../loop2"))));
    t.push(n("loop2", V::Uol(s("../loop1"))));
    t.push(n("good", V::Uol(s("../sub/z"))));
    t
}
pub fn bases() -> Vec<Base> {
    let mut v = vec![];
    v.push(base_img("rich.img", GMS, rich_top()));
    v.push(base_img("rich.img", BMS, rich_top()));
    for k in 0..gens::KINDS {
        v.push(base_img("kind.img", if k % 2 == 0 { GMS } else { BMS }, small_kind(k)));
    }
    v.push(base_raw("s.lua", GMS, lua(GMS, "function f() return 1 end".as_bytes())));
    v.push(base_raw("t.txt", BMS, b"#Property\r\na = 1\r\nsub = {\r\n  b = text\r\n}\r\n".to_vec()));
    v.push(base_raw("p.img", BMS, b"#Property\r\na = 1\r\nsub = {\r\n  b = text\r\n}\r\n".to_vec()));
    v.push(base_raw("e.img", BMS, vec![]));
    for (i, (iv, enc, given)) in [(GMS, Enc1::Checksum, None), (BMS, Enc1::None, Some(83)), (EMS, Enc1::None, None)].into_iter().enumerate() {
        let mut a = Arch::p1(if i == 2 { 777 } else { 83 }, iv, sample_ents(iv));
        if enc == Enc1::None {
            let ver = if i == 2 { 777 } else { 83 };
            a.gen = Gen::P1 { ver, enc };
        }
        v.push(base_arch("Base.wz", &a, iv, given.or(Some(if i == 2 { 777 } else { 83 }))));
    }
    let a = arch64();
    v.push(base_arch("Base.wz", &a, BMS, None));
    v.push(base_pack(1));
    v.push(base_pack(2));
    v
}
fn arch64() -> Arch {
    Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: 0x1234567890ABCDEF, t: 0x0FEDCBA987654321, count: 3 }, head: Head::Rand150, iv: BMS, ents: sample_ents(BMS), layout: Layout::Plain }
}
/// would these bytes start the search over all 32-bit keys (minutes of work by design)?
fn brute(b: &Base, bytes: &[u8]) -> bool {
    matches!(b.kind, Kind::Wz(..)) && bytes.starts_with(b"PKG2") && !b.bytes.starts_with(b"PKG2")
}
fn label(b: &Base) -> String {
    format!("{} ({:?}, {} bytes)", b.name, b.kind, b.bytes.len())
}
const HOSTILE: [i32; 14] = [-1, 0, 1, i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1, 0x10000, 0x0100_0000, 0x4000_0000, -2, -128, 127, 0x7FFF_8000];

pub fn c19(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let bs: Rc<Vec<Base>> = Rc::new(bases());
    let b1 = bs.clone();
    let b2 = bs.clone();
    f.push(
        Family::new(
            "truncations",
            "every prefix of every sample file: rich and single-kind images, scripts, text images, archives of every header form, packs of both generations; each opened with and without the key and inside a larger file, looked up in unparsed, parsed, extracted, walked, resolved, exported and unparsed",
            0,
            move |ch| {
                let i = ch.pick(b1.len());
                let len = ch.pick(b1[i].bytes.len() + 1);
                Some((i, len, label(&b1[i])))
            },
            move |(i, len, _), st| {
                let b = &b2[*i];
                hit(b, &b.bytes[..*len], st)?;
                if *len == b.bytes.len() && *len > 0 {
                    undamaged(b)?;
                }
                Ok(())
            },
        )
        .limit(15),
    );
    let b1 = bs.clone();
    let b2 = bs.clone();
    let all = t == Tier::Thorough;
    f.push(
        Family::new(
            "single bytes",
            format!("every byte of every sample file replaced by {}", if all { "every other value" } else { "0, 1, 7F, 80, 81, FE, FF and its value with the lowest or highest bit flipped" }),
            0,
            move |ch| {
                let i = ch.pick(b1.len());
                let len = b1[i].bytes.len();
                if len == 0 {
                    return None;
                }
                Some((i, ch.pick(len), label(&b1[i])))
            },
            move |(i, at, _), st| {
                let b = &b2[*i];
                let old = b.bytes[*at];
                let mut vs: Vec<u8> = if all { (0..=255).collect() } else { vec![0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF, old ^ 1, old ^ 0x80] };
                vs.sort();
                vs.dedup();
                for v in vs {
                    if v == old {
                        continue;
                    }
                    let mut x = b.bytes.clone();
                    x[*at] = v;
                    if brute(b, &x) {
                        continue;
                    }
                    hit(b, &x, st).map_err(|e| format!("byte {at} = {v:#x}: {e}"))?;
                }
                Ok(())
            },
        )
        .limit(if all { 120 } else { 20 }),
    );
    let b1 = bs.clone();
    let b2 = bs.clone();
    f.push(
        Family::new(
            "hostile numbers",
            format!("the four bytes at every position of every sample file replaced by each of {} extreme numbers", HOSTILE.len()),
            0,
            move |ch| {
                let i = ch.pick(b1.len());
                let len = b1[i].bytes.len();
                if len < 4 {
                    return None;
                }
                Some((i, ch.pick(len - 3), label(&b1[i])))
            },
            move |(i, at, _), st| {
                let b = &b2[*i];
                for v in HOSTILE {
                    let mut x = b.bytes.clone();
                    x[*at..*at + 4].copy_from_slice(&v.to_le_bytes());
                    if brute(b, &x) {
                        continue;
                    }
                    hit(b, &x, st).map_err(|e| format!("bytes {at}.. = {v}: {e}"))?;
                }
                Ok(())
            },
        )
        .limit(30),
    );
    let vals: Vec<u8> = t.q(vec![0x00, 0x80, 0xFF], vec![0x00, 0x01, 0x1B, 0x73, 0x7F, 0x80, 0xFF]);
    let nv = vals.len();
    f.push(
        Family::new(
            "pairs of bytes",
            format!("every pair of bytes of the small image of each of the {} kinds replaced by every pair of {nv} values", gens::KINDS),
            0,
            move |ch| {
                let k = ch.pick(gens::KINDS);
                let len = image(BMS, &small_kind(k)).len();
                let i = ch.pick(len - 1);
                Some((k, i))
            },
            move |(k, i), st| {
                let top = small_kind(*k);
                let b = base_img("kind.img", BMS, top);
                for j in *i + 1..b.bytes.len() {
                    for v in &vals {
                        for w in &vals {
                            let mut x = b.bytes.clone();
                            x[*i] = *v;
                            x[j] = *w;
                            hit_embedded("kind.img", &b.paths, BMS, &x, st).map_err(|e| format!("bytes {i}, {j} = {v:#x}, {w:#x}: {e}"))?;
                        }
                    }
                }
                Ok(())
            },
        )
        .limit(60),
    );
    f.push(
        Family::new(
            "bitmaps",
            "every known and several unknown format codes x scales x widths and heights from {negative, 0, 1, 4, 15, 16, 17, huge} x payloads: none, one byte, two bytes, exact, one byte short, longer, not compressed, chunked, chunk lengths 0, -1, huge or past the end",
            0,
            |ch| {
                let f1 = *ch.of(&[1i32, 2, 3, 257, 513, 517, 769, 1026, 2050, 2304, 2562, 4097, 4098, 4100, 0, -1, i32::MAX, i32::MIN, 5]);
                let f2 = *ch.of(&[0i8, 2, 4, -1, 127]);
                let dims = [-1i32, 0, 1, 4, 15, 16, 17, 0xFFFF, i32::MAX, i32::MIN];
                let w = *ch.of(&dims);
                let h = *ch.of(&dims);
                Some((f1, f2, w, h))
            },
            |(f1, f2, w, h), st| {
                let small = |x: i32| (0..64).contains(&x);
                let need = if small(*w) && small(*h) { (*w as usize + 3) / 4 * 4 * ((*h as usize + 3) / 4 * 4) * 4 } else { 64 };
                let chunk = |l: i32, d: &[u8]| {
                    let mut v = l.to_le_bytes().to_vec();
                    v.extend(xor_ks(GMS, d));
                    v
                };
                let z = zlib(&vec![0x5Au8; need], 6);
                let mut payloads: Vec<Vec<u8>> = vec![vec![], vec![0x78], vec![0x78, 0x9C], zlib(&vec![1; need.saturating_sub(1)], 6), z.clone(), z[..z.len() - 1].to_vec(), z[..z.len() / 2].to_vec(), vec![0xAB; 40], zlib(&[], 6)];
                payloads.push([z.clone(), vec![1, 2, 3]].concat());
                payloads.push([chunk(3, &z[..3]), chunk(z.len() as i32 - 3, &z[3..])].concat());
                payloads.push([chunk(0, &[]), chunk(0, &[])].concat());
                for l in [-1, i32::MAX, i32::MIN, z.len() as i32 + 1, 1, 2, 0x9C78] {
                    payloads.push(chunk(l, &z));
                }
                for (i, data) in payloads.into_iter().enumerate() {
                    let top = vec![n("c", V::Canvas(Canvas { kids: None, w: *w, h: *h, f1: *f1, f2: *f2, pages: 0, data })), n("z", int(1))];
                    let b = image(GMS, &top);
                    hit_embedded("c.img", &["c".into(), "z".into()], GMS, &b, st).map_err(|e| format!("payload {i}: {e}"))?;
                }
                Ok(())
            },
        )
        .limit(30),
    );
    let depths: Vec<usize> = t.q(vec![1, 2, 60, 120, 126, 127, 128, 129, 130, 200, 1000, 5000], (1..400).chain([1000, 5000, 20000, 100_000]).collect());
    let d2 = depths.clone();
    f.push(
        Family::new(
            "nesting",
            format!("properties, bitmaps, convexes and raw data nested {depths:?} deep; parsed on a thread with an ordinary stack"),
            0,
            move |ch| Some((*ch.of(&d2), ch.pick(5))),
            |(d, k), st| {
                let b = nested(*d, *k);
                let paths = vec!["k".into(), "k/k/k".into()];
                std::thread::scope(|sc| {
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(sc, || hit_embedded("d.img", &paths, BMS, &b, st))
                        .map_err(|e| e.to_string())?
                        .join()
                        .map_err(|_| "the thread panicked".to_string())?
                })
            },
        )
        .limit(60),
    );
    let ds = d2_dirs(t);
    let kmax = t.q(2, 3);
    f.push(
        Family::new(
            "directories that contain themselves",
            format!("archives whose directory entries point at any directory of the archive (self, parent, sibling, chains), every assignment for up to {kmax} directories, and chains of directories up to {} deep", ds.last().unwrap()),
            0,
            move |ch| {
                if ch.flag() {
                    return Some(DirCase::Chain(*ch.of(&ds)));
                }
                let k = 1 + ch.pick(kmax);
                // each directory holds two entries, each naming a directory (0 = root) or an image
                let mut e = vec![];
                for _ in 0..=k {
                    e.push([ch.pick(k + 2), ch.pick(k + 2)]);
                }
                Some(DirCase::Graph(e))
            },
            |c, st| run_dirs(c, st),
        )
        .limit(20),
    );
    f.push(
        Family::new(
            "other readers of the key",
            "each sample image with one hostile number at every position, read through a key that another image shares; the other image must then parse to the right tree",
            0,
            {
                let b1 = bs.clone();
                move |ch| {
                    let i = ch.pick(2);
                    Some((i, ch.pick(b1[i].bytes.len() - 3)))
                }
            },
            {
                let b2 = bs.clone();
                move |(i, at), st| {
                    let b = &b2[*i];
                    let Kind::Img(iv) = b.kind else { unreachable!() };
                    let mut x = b.bytes.clone();
                    for v in [-1i32, i32::MIN, 0x00FF_FFFF] {
                        x[*at..*at + 4].copy_from_slice(&v.to_le_bytes());
                        shared(b, iv, &x, st).map_err(|e| format!("bytes {at}.. = {v}: {e}"))?;
                    }
                    Ok(())
                }
            },
        )
        .limit(20),
    );
    f.push(
        Family::new(
            "pack tables",
            "packs of both generations whose encrypted entry table holds, in any one field, each hostile number (or a field of another length), whose entry count is hostile, or whose encrypted images are truncated or have a hostile number at any position",
            0,
            |ch| {
                let g = *ch.of(&ms::gens());
                let ents = ms::sample_pack_ents();
                let per = if g == 1 { 10 } else { 12 };
                let what = match ch.pick(4) {
                    0 => PackCase::Count,
                    1 => PackCase::Field(ch.pick(per * ents.len())),
                    2 => {
                        let e = ch.pick(2);
                        PackCase::Image(e, ch.pick(ents[e].bytes.len() - 3))
                    }
                    _ => {
                        let e = ch.pick(2);
                        PackCase::Cut(e, ch.pick(ents[e].bytes.len()))
                    }
                };
                Some((g, what))
            },
            |(g, what), st| {
                let mut nums: Vec<i32> = HOSTILE.to_vec();
                nums.extend([1000, 1 << 21, 1 << 20, (1 << 21) - 1, i32::MAX / 1024, i32::MAX / 1024 + 1, 2, 4, 5000]);
                let mut packs = vec![];
                let mk = || ms::Pack::new(*g, "mob_00000.ms", b"ab", ms::sample_pack_ents());
                match what {
                    PackCase::Count => {
                        for v in &nums {
                            let mut p = mk();
                            p.cnt = Some(*v);
                            packs.push((format!("count {v}"), p));
                        }
                    }
                    PackCase::Field(i) => {
                        for v in &nums {
                            let mut p = mk();
                            p.over = Some((*i, v.to_le_bytes().to_vec()));
                            packs.push((format!("{v}"), p));
                        }
                        for l in [0usize, 1, 3, 17, 300] {
                            let mut p = mk();
                            p.over = Some((*i, vec![0xD8; l]));
                            packs.push((format!("{l} bytes of D8"), p));
                        }
                    }
                    PackCase::Image(e, at) => {
                        for v in HOSTILE {
                            let mut p = mk();
                            p.ents[*e].bytes[*at..*at + 4].copy_from_slice(&v.to_le_bytes());
                            packs.push((format!("{v}"), p));
                        }
                    }
                    PackCase::Cut(e, l) => {
                        let mut p = mk();
                        p.ents[*e].bytes.truncate(*l);
                        packs.push((String::new(), p));
                    }
                }
                for (d, p) in packs {
                    let b = Base { name: "mob_00000.ms".into(), kind: Kind::Ms, bytes: vec![], paths: p.ents.iter().map(|e| e.name.clone()).collect() };
                    hit(&b, &p.build(), st).map_err(|e| format!("{d}: {e}"))?;
                }
                Ok(())
            },
        )
        .limit(30),
    );
    let arch = Rc::new({
        let mut v = vec![];
        for (ver, enc) in [(83, Enc1::Checksum), (777, Enc1::None)] {
            let mut a = Arch::p1(ver, BMS, vec![img("a.img", BMS, vec![n("x", int(5))]), dir("d", vec![img("b.img", BMS, vec![])])]);
            a.gen = Gen::P1 { ver, enc };
            v.push(base_arch("Base.wz", &a, BMS, Some(ver)));
        }
        v
    });
    let avals: Vec<u8> = t.q(vec![0x00, 0x7F, 0xFF], vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x7F, 0x80, 0xFF]);
    let a1 = arch.clone();
    f.push(
        Family::new(
            "pairs of bytes in an archive",
            format!("every pair of bytes of two small archives (with and without a version field) replaced by every pair of {} values", avals.len()),
            0,
            move |ch| {
                let k = ch.pick(2);
                Some((k, ch.pick(a1[k].bytes.len() - 1)))
            },
            move |(k, i), st| {
                let b = &arch[*k];
                for j in *i + 1..b.bytes.len() {
                    for v in &avals {
                        for w in &avals {
                            let mut x = b.bytes.clone();
                            x[*i] = *v;
                            x[j] = *w;
                            if brute(b, &x) {
                                continue;
                            }
                            hit(b, &x, st).map_err(|e| format!("bytes {i}, {j} = {v:#x}, {w:#x}: {e}"))?;
                        }
                    }
                }
                Ok(())
            },
        )
        .limit(120),
    );
    f
}
#[derive(Debug)]
enum PackCase {
    Count,
    Field(usize),
    Image(usize, usize),
    Cut(usize, usize),
}
/// the samples themselves are good: everything in them is reached
fn undamaged(b: &Base) -> R {
    if matches!(b.name.as_str(), "s.lua" | "t.txt" | "p.img") {
        let Kind::Img(iv) = b.kind else { unreachable!() };
        let n = crate::c01::embed_img(&b.name, &b.bytes, iv, 40, 70);
        node_util::parse_node(&n).map_err(|e| format!("sample: {e}"))?;
        return if n.read().unwrap().children.len() == 1 { Ok(()) } else { Err(format!("sample {} is empty", b.name)) };
    }
    let p = fresh(&b.name, &b.bytes);
    let n = match b.kind {
        Kind::Img(iv) => WzNode::from_img_file_with_iv(&p, iv, None),
        Kind::Wz(iv, ver) => WzNode::from_wz_file_full(&p, None, ver, None, Some(&keys(iv))),
        Kind::Ms => WzNode::from_ms_file(&p, None),
    }
    .map_err(|e| format!("sample: {e}"))?
    .into_lock();
    node_util::parse_node(&n).map_err(|e| format!("sample: {e}"))?;
    for p in &b.paths {
        if p == "no/such" {
            continue;
        }
        let ok = if b.kind == Kind::Ms { n.read().unwrap().children.contains_key(p.as_str()) } else { n.read().unwrap().at_path_parsed(p).is_ok() };
        if !ok {
            return Err(format!("sample {}: no {p}", label(b)));
        }
    }
    Ok(())
}
fn shared(b: &Base, iv: [u8; 4], x: &[u8], st: &mut Stats) -> R {
    let good_top = small_kind(0);
    let good = image(iv, &good_top);
    let key = keys(iv);
    let mk = |bytes: &[u8]| {
        let mut r = reader::WzReader::from_buff(bytes);
        r.keys = key.clone();
        let r = std::sync::Arc::new(r);
        WzNode::new(&"x.img".into(), WzImage::new(&"x.img".into(), 0, bytes.len(), &r), None).into_lock()
    };
    let bad = mk(x);
    let before = mk(&good);
    let after = mk(&good);
    crate::c01::check_tree(&before, "x.img", &good_top, st)?;
    no_panic(|| exercise(&bad, &b.paths, x.len(), st)).map_err(|e| format!("using: {e}"))??;
    no_panic(|| crate::c01::check_tree(&after, "x.img", &good_top, st)).map_err(|e| format!("the other image: {e}"))??;
    st.traces += 1;
    Ok(())
}
/// an image whose property k nests d deep (built without recursion)
fn nested(d: usize, k: usize) -> Vec<u8> {
    let iv = BMS;
    let name = |t: &str| [vec![0u8], wz_string(iv, t, false, Form::Auto)].concat();
    let core: Vec<u8> = [name("Property"), vec![0, 0], vec![0]].concat();
    let z = zlib(&[1, 2, 3, 4], 6);
    // what stands before and after the inner one, innermost first
    let (mut before, mut after, mut len) = (vec![], vec![], core.len());
    for i in 0..d {
        let kind = if k == 4 { i % 4 } else { k };
        let child = [name("k"), vec![9], (len as u32).to_le_bytes().to_vec()].concat();
        let (pre, post) = match kind {
            0 => ([name("Property"), vec![0, 0], vec![1], child].concat(), vec![]),
            1 => (
                [name("Canvas"), vec![0, 1, 0, 0, 1], child].concat(),
                [vec![1, 1, 2, 0], vec![0; 4], ((z.len() + 1) as u32).to_le_bytes().to_vec(), vec![0], z.clone()].concat(),
            ),
            2 => ([name("Shape2D#Convex2D"), vec![1]].concat(), vec![]),
            _ => ([name("RawData"), vec![1, 1, 0, 0, 1], child].concat(), vec![1, 0xAA]),
        };
        len += pre.len() + post.len();
        before.push(pre);
        after.push(post);
    }
    let inner = [before.into_iter().rev().flatten().collect(), core, after.concat()].concat();
    // the image is a property that holds the outermost one
    let child = [name("k"), vec![9], (inner.len() as u32).to_le_bytes().to_vec()].concat();
    let mut b = vec![0x73];
    b.extend(wz_string(iv, "Property", false, Form::Auto));
    b.extend([0, 0, 1]);
    b.extend(child);
    b.extend(inner);
    b
}
#[derive(Debug)]
enum DirCase {
    Chain(usize),
    Graph(Vec<[usize; 2]>),
}
fn d2_dirs(t: Tier) -> Vec<usize> {
    t.q(vec![1, 100, 126, 127, 128, 129, 1000, 5000], (1..300).chain([1000, 5000, 20000]).collect())
}
/// classic archive of version 83 whose directories are laid out by hand; `ents[i]` lists what directory i holds
fn by_hand(ents: &[Vec<usize>], image_at: usize) -> Vec<u8> {
    let fs = 60usize;
    let g = Gen::P1 { ver: 83, enc: Enc1::Checksum };
    let img = image(BMS, &[n("a", int(1))]);
    let elen = |is_dir: bool, j: usize, k: usize| 1 + wz_string(BMS, &ename(is_dir, j, k), false, Form::Auto).len() + wz_int(100, Form::Auto).len() + 1 + 4;
    let size = |i: usize| wz_int(ents[i].len() as i32, Form::Auto).len() + ents[i].iter().enumerate().map(|(j, k)| elen(*k != image_at, j, *k)).sum::<usize>();
    let mut at = vec![];
    let mut p = fs + 2;
    for i in 0..ents.len() {
        at.push(p);
        p += size(i);
    }
    let img_at = p;
    let mut b = b"PKG1".to_vec();
    b.extend(((p + img.len() - fs) as u64).to_le_bytes());
    b.extend((fs as u32).to_le_bytes());
    b.resize(fs, b'x');
    b.extend(checksum(ver_hash(83)).to_le_bytes());
    for l in ents {
        b.extend(wz_int(l.len() as i32, Form::Auto));
        for (j, k) in l.iter().enumerate() {
            let is_dir = *k != image_at;
            b.push(if is_dir { 3 } else { 4 });
            b.extend(wz_string(BMS, &ename(is_dir, j, *k), false, Form::Auto));
            b.extend(wz_int(if is_dir { 100 } else { img.len() as i32 }, Form::Auto));
            b.push(0);
            let pos = b.len();
            let target = if is_dir { at[*k] } else { img_at };
            b.extend(enc_offset(&g, fs, pos, target).to_le_bytes());
        }
    }
    b.extend(img);
    b
}
fn ename(is_dir: bool, j: usize, k: usize) -> String {
    if is_dir {
        format!("d{j}to{k}")
    } else {
        format!("i{j}.img")
    }
}
fn run_dirs(c: &DirCase, st: &mut Stats) -> R {
    let (bytes, paths) = match c {
        DirCase::Chain(d) => {
            let ents: Vec<Vec<usize>> = (0..=*d).map(|i| vec![if i == *d { usize::MAX } else { i + 1 }]).collect();
            (by_hand(&ents, usize::MAX), vec!["d0to1".to_string(), "d0to1/d0to2/d0to3".into()])
        }
        DirCase::Graph(e) => {
            let k = e.len();
            let ents: Vec<Vec<usize>> = e.iter().map(|x| x.iter().map(|y| if *y >= k { usize::MAX } else { *y }).collect()).collect();
            (by_hand(&ents, usize::MAX), vec!["d0to0".to_string(), "d0to1/d0to0/d0to1".into(), "i0.img/a".into()])
        }
    };
    let b = Base { name: "Base.wz".into(), kind: Kind::Wz(BMS, Some(83)), bytes: vec![], paths };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, || hit(&b, &bytes, st))
            .map_err(|e| e.to_string())?
            .join()
            .map_err(|_| "the thread panicked".to_string())?
    })
}
