//! C20: data folders.
use crate::core::*;
use crate::crypt::*;
use crate::img::*;
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::path::{Path, PathBuf};
use wz_reader::util::{node_util, resolve_base, resolve_root_wz_file_dir, version::WzMapleVersion};
use wz_reader::*;

/// one archive on disk: its main file, its numbered parts and the archives in its sub folders
#[derive(Clone, Debug, Default)]
pub struct Ar {
    pub name: String,
    /// [0] is NAME.wz, [i] is NAME_00(i-1).wz
    pub parts: Vec<Vec<Ent>>,
    pub subs: Vec<Ar>,
}
/// how all the archives of a folder are stored
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form_ {
    Classic([u8; 4]),
    NoField([u8; 4]),
    Rand(usize),
    P2,
}
pub const FORMS: [Form_; 7] = [Form_::Classic(GMS), Form_::Classic(EMS), Form_::Classic(BMS), Form_::NoField(BMS), Form_::NoField(GMS), Form_::Rand(0), Form_::P2];
fn iv_of(f: Form_) -> [u8; 4] {
    match f {
        Form_::Classic(iv) | Form_::NoField(iv) => iv,
        _ => BMS,
    }
}
fn bytes(f: Form_, ents: &[Ent], c: u32) -> Vec<u8> {
    let iv = iv_of(f);
    let ents = ents.to_vec();
    let mut a = Arch::p1(83, iv, ents.clone());
    match f {
        Form_::Classic(_) => {
            a.gen = Gen::P1 { ver: 83, enc: Enc1::Checksum };
            a.layout = LAYOUTS[c as usize % 3];
        }
        Form_::NoField(_) => a.gen = Gen::P1 { ver: 777, enc: Enc1::None },
        Form_::Rand(_) => {
            a.gen = Gen::P1 { ver: 83, enc: Enc1::Checksum };
            a.head = Head::Plain(64 + c as usize % 9);
        }
        Form_::P2 => {
            let n = ents.len() as i64;
            a.gen = Gen::P2 { rel: Rel::R1202, hash1: 0x1234567890ABCDEF, t: 0x0FEDCBA987654321, count: n };
            a.head = Head::Rand150;
        }
    }
    a.build()
}
fn write(p: PathBuf, b: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, b).unwrap();
}
impl Ar {
    pub fn new(name: &str, parts: Vec<Vec<Ent>>) -> Ar {
        Ar { name: name.into(), parts, subs: vec![] }
    }
    /// the folder of this archive in the nested layout
    pub fn put_nested(&self, at: &Path, f: Form_, c: &mut u32) {
        let d = at.join(&self.name);
        for (i, p) in self.parts.iter().enumerate() {
            *c += 1;
            let n = if i == 0 { format!("{}.wz", self.name) } else { format!("{}_{:03}.wz", self.name, i - 1) };
            write(d.join(n), &bytes(f, p, *c));
        }
        for s in &self.subs {
            s.put_nested(&d, f, c);
        }
    }
    pub fn put_flat(&self, at: &Path, f: Form_, c: &mut u32) {
        *c += 1;
        write(at.join(format!("{}.wz", self.name)), &bytes(f, &self.parts[0], *c));
        for (i, p) in self.parts.iter().enumerate().skip(1) {
            *c += 1;
            write(at.join(format!("{}_{:03}.wz", self.name, i - 1)), &bytes(f, p, *c));
        }
    }
    pub fn tree(&self) -> T {
        let mut t = T { name: self.name.clone(), v: "File".into(), kids: vec![] };
        for p in &self.parts {
            merge(&mut t, list_kids(p, true));
        }
        for s in &self.subs {
            let mut x = s.tree();
            // only what the archive lists is placed
            if let Some(k) = t.kids.iter().position(|k| k.name == s.name) {
                let old = t.kids.remove(k);
                merge(&mut x, old.kids);
                t.kids.push(x);
            }
        }
        t
    }
}
fn merge(t: &mut T, kids: Vec<T>) {
    for k in kids {
        match t.kids.iter_mut().find(|x| x.name == k.name) {
            Some(x) => merge(x, k.kids),
            None => t.kids.push(k),
        }
    }
}
/// the tree of the base with the archives put in the places the base lists
fn base_tree(base: &Ar, others: &[Ar]) -> T {
    let mut b = base.clone();
    b.subs.extend(others.iter().cloned());
    b.tree()
}
fn images(n: &WzNodeArc, out: &mut Vec<WzNodeArc>) {
    images_of(n, out)
}
fn compare(want: &T, n: &WzNodeArc, st: &mut Stats) -> R {
    let mut v = vec![];
    images(n, &mut v);
    for i in &v {
        node_util::parse_node(i).map_err(|e| format!("image {}: {e}", path_up(i)))?;
    }
    let got = dump(n)?;
    same(want, &got)?;
    for i in &v {
        let p = i.read().unwrap().get_full_path();
        ensure_eq!(p, path_up(i), "full path");
        let rel = p.split_once('/').map(|x| x.1).unwrap_or("").to_string();
        let back = n.read().unwrap().at_path(&rel).ok_or(format!("{rel} is not found from the base"))?;
        ensure!(std::sync::Arc::ptr_eq(&back, i), "{rel} leads to another node");
        let b = i.read().unwrap().get_base_wz_file();
        ensure!(b.map(|b| std::sync::Arc::ptr_eq(&b, n)).unwrap_or(n.read().unwrap().name.as_str() != "Base"), "{rel} does not find the base file");
    }
    st.states += got.count() as u64;
    st.transitions += v.len() as u64 + 1;
    st.observe(&got.show());
    Ok(())
}
fn root() -> PathBuf {
    let d = scratch().join("data");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn im(f: Form_, name: &str, v: i32) -> Ent {
    img(name, iv_of(f), vec![n("value", int(v)), n("name", st(&format!("text of {name} {v}")))])
}
fn content(f: Form_, what: usize, salt: i32) -> Vec<Ent> {
    match what {
        0 => vec![],
        1 => vec![im(f, "One.img", salt)],
        2 => vec![im(f, "One.img", salt), dir("Sub", vec![im(f, "Two.img", salt + 1), dir("Deep", vec![im(f, "Three.img", salt + 2)])])],
        _ => vec![dir("Empty", vec![]), im(f, "Zed.img", salt)],
    }
}
/// the ways a data set names its key
fn version_of(f: Form_) -> Option<WzMapleVersion> {
    match f {
        Form_::Classic(iv) | Form_::NoField(iv) if iv == GMS => Some(WzMapleVersion::GMS),
        Form_::Classic(iv) if iv == EMS => Some(WzMapleVersion::EMS),
        Form_::Classic(_) | Form_::NoField(_) => Some(WzMapleVersion::BMS),
        _ => None,
    }
}
fn open(p: &Path, v: Option<WzMapleVersion>) -> Result<WzNodeArc, String> {
    no_panic(|| resolve_base(p, v)).map_err(|e| format!("PANIC {e}"))?.map_err(|e| e.to_string())
}
#[derive(Debug, Clone)]
struct Flat {
    form: Form_,
    given: bool,
    listed: Vec<usize>,
    present: Vec<Option<usize>>,
    base_img: bool,
}
const NAMES: [&str; 3] = ["Map", "Mob", "Item"];

fn strays(d: &Path, which: usize, f: Form_) {
    let good = bytes(f, &content(f, 1, 900), 7);
    match which {
        0 => {}
        1 => write(d.join("Map.txt"), b"text"),
        2 => write(d.join("Map_123.txt"), b"text"),
        3 => write(d.join("Mob.img"), &image(BMS, &[])),
        4 => write(d.join("Unlisted.wz"), &good),
        5 => write(d.join("Unlisted_000.wz"), &good),
        6 => write(d.join("Unlisted_000.wz"), b"garbage"),
        7 => write(d.join("Unlisted/Unlisted.wz"), &good),
        8 => write(d.join("Mob.bak/Mob.wz"), &good),
        9 => write(d.join("Mob.bak/Mob.bak.wz"), &good),
        10 => write(d.join("Map_abc.wz"), &good),
        11 => write(d.join("Map.wz.bak"), b"garbage"),
        12 => {
            use std::os::unix::ffi::OsStrExt;
            write(d.join(std::ffi::OsStr::from_bytes(b"\xff\xfe.wz")), b"x");
            write(d.join(std::ffi::OsStr::from_bytes(b"\xff_001.wz")), b"x");
            std::fs::create_dir_all(d.join(std::ffi::OsStr::from_bytes(b"d\xff"))).unwrap();
        }
        13 => write(d.join("noext"), b""),
        14 => write(d.join(".hidden"), b""),
        15 => write(d.join("_000.wz"), b"garbage"),
        16 => write(d.join("a_b_000.wz"), &good),
        17 => std::fs::create_dir_all(d.join("Item_000.wz")).unwrap(),
        18 => write(d.join("Unlisted.wz"), b"garbage"),
        19 => write(d.join("List.wz"), b"\x05\x00\x00\x00"),
        20 => std::fs::create_dir_all(d.join("EmptyFolder")).unwrap(),
        21 => write(d.join("Map.ini"), b"LastWzIndex|0"),
        _ => unreachable!(),
    }
}
const STRAYS: usize = 22;

#[derive(Debug, Clone)]
struct Nest {
    form: Form_,
    base: Ar,
    others: Vec<Ar>,
    stray: Option<(usize, usize)>,
    /// listed folders that hold no archive of their name
    hollow: Vec<&'static str>,
    given: bool,
}
fn run_nested(c: &Nest, st: &mut Stats) -> R {
    let d = root();
    let mut k = 0;
    c.base.put_nested(&d, c.form, &mut k);
    for o in &c.others {
        o.put_nested(&d, c.form, &mut k);
    }
    for h in &c.hollow {
        write(d.join(h).join("readme.txt"), b"no archive here");
    }
    if let Some((place, w)) = c.stray {
        let at = match place {
            0 => d.clone(),
            1 => d.join("Base"),
            _ => d.join(&c.others[0].name),
        };
        strays(&at, w, c.form);
    }
    let v = if c.given { version_of(c.form) } else { None };
    let n = open(&d.join("Base/Base.wz"), v).map_err(|e| format!("open: {e}"))?;
    compare(&base_tree(&c.base, &c.others), &n, st)
}

pub fn c20(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(Family::new(
        "flat folders",
        "all flat folders: the base lists any of 3 names (and an image), any of 3 archives is there, each with 4 kinds of content; 7 ways to store archives; key detected or given",
        0,
        |ch| {
            let form = *ch.of(&FORMS);
            let given = ch.flag();
            if given && version_of(form).is_none() {
                return None;
            }
            let listed: Vec<usize> = (0..3).filter(|_| ch.flag()).collect();
            let present: Vec<Option<usize>> = (0..3).map(|_| ch.pick(4).checked_sub(1).map(|x| x + 1)).collect();
            Some(Flat { form, given, listed, present, base_img: ch.flag() })
        },
        |c, st| {
            let d = root();
            let mut ents: Vec<Ent> = c.listed.iter().map(|i| dir(NAMES[*i], vec![])).collect();
            if c.base_img {
                ents.push(im(c.form, "smap.img", 4));
            }
            let base = Ar::new("Base", vec![ents]);
            let mut k = 0;
            base.put_flat(&d, c.form, &mut k);
            let mut others = vec![];
            for (i, p) in c.present.iter().enumerate() {
                if let Some(w) = p {
                    let a = Ar::new(NAMES[i], vec![content(c.form, *w, 100 * i as i32)]);
                    a.put_flat(&d, c.form, &mut k);
                    others.push(a);
                }
            }
            let n = open(&d.join("Base.wz"), if c.given { version_of(c.form) } else { None }).map_err(|e| format!("open: {e}"))?;
            compare(&base_tree(&base, &others), &n, st)
        },
    ));
    f.push(Family::new(
        "flat folders with parts",
        "flat folders with two archives of one to three parts each, and a base of one or two parts; every distribution of the parts' contents over 4 kinds; parts belong to their own archive only",
        0,
        |ch| {
            let form = *ch.of(&[Form_::Classic(GMS), Form_::NoField(BMS), Form_::P2]);
            let m: Vec<usize> = (0..1 + ch.pick(3)).map(|_| ch.pick(4)).collect();
            let b: Vec<usize> = (0..1 + ch.pick(2)).map(|_| ch.pick(4)).collect();
            Some((form, m, b, ch.flag()))
        },
        |(form, m, b, basepart), st| {
            let d = root();
            // distinct names in the parts, so that every entry has a place of its own
            let mk = |l: &[usize], salt: i32| -> Vec<Vec<Ent>> {
                l.iter()
                    .enumerate()
                    .map(|(i, w)| {
                        let mut e = content(*form, *w, salt + 10 * i as i32);
                        for x in &mut e {
                            if !x.is_dir() {
                                x.name = s(&format!("p{i}{}", x.name.t));
                            } else if let K::Dir(k, _) = &mut x.k {
                                for y in k {
                                    if !y.is_dir() {
                                        y.name = s(&format!("q{i}{}", y.name.t));
                                    } else if let K::Dir(k, _) = &mut y.k {
                                        for z in k {
                                            z.name = s(&format!("r{i}{}", z.name.t));
                                        }
                                    }
                                }
                            }
                        }
                        e
                    })
                    .collect()
            };
            let mut bp = vec![vec![dir("Map", vec![]), dir("Mob", vec![])]];
            if *basepart {
                bp.push(vec![im(*form, "extra.img", 7)]);
            }
            let base = Ar::new("Base", bp);
            let others = vec![Ar::new("Map", mk(m, 100)), Ar::new("Mob", mk(b, 200))];
            let mut k = 0;
            base.put_flat(&d, *form, &mut k);
            for o in &others {
                o.put_flat(&d, *form, &mut k);
            }
            let n = open(&d.join("Base.wz"), None).map_err(|e| format!("open: {e}"))?;
            compare(&base_tree(&base, &others), &n, st)
        },
    ));
    let pm = t.q(3usize, 4);
    f.push(Family::new(
        "parts in a folder",
        format!("a folder whose archive has 1..={pm} files (main and numbered): every assignment of 4 entries (two images, two images in one directory) to the files, empty directories repeated in any file; folder opened alone and below a base"),
        0,
        move |ch| {
            let form = *ch.of(&[Form_::Classic(GMS), Form_::NoField(BMS), Form_::P2]);
            let parts = 1 + ch.pick(pm);
            let place: Vec<usize> = (0..4).map(|_| ch.pick(parts)).collect();
            let empty = ch.pick(1 << parts);
            let alone = ch.flag();
            Some((form, parts, place, empty, alone))
        },
        |(form, parts, place, empty, alone), st| {
            let mut p: Vec<Vec<Ent>> = vec![vec![]; *parts];
            p[place[0]].push(im(*form, "a.img", 1));
            p[place[1]].push(im(*form, "b.img", 2));
            for i in 0..*parts {
                let mut k = vec![];
                for j in 2..4 {
                    if place[j] == i {
                        k.push(im(*form, &format!("d{j}.img"), j as i32));
                    }
                }
                if empty >> i & 1 == 1 || !k.is_empty() {
                    p[i].push(dir("Both", k));
                }
            }
            let a = Ar::new("Mob", p);
            let d = root();
            let mut k = 0;
            a.put_nested(&d, *form, &mut k);
            if *alone {
                let n = no_panic(|| resolve_root_wz_file_dir(d.join("Mob/Mob.wz"), None)).map_err(|e| format!("PANIC {e}"))?.map_err(|e| format!("open: {e}"))?;
                return compare(&a.tree(), &n, st);
            }
            let base = Ar::new("Base", vec![vec![dir("Mob", vec![])]]);
            base.put_nested(&d, *form, &mut k);
            let n = open(&d.join("Base/Base.wz"), None).map_err(|e| format!("open: {e}"))?;
            compare(&base_tree(&base, &[a]), &n, st)
        },
    ));
    f.push(Family::new(
        "nested folders",
        "a base folder, an archive folder with a sub folder with a sub folder: each listed in no file, in the main file or in a part; each with one or two files; each holding something already where it is listed; other listed folders without an archive; 7 ways to store archives",
        0,
        |ch| {
            let form = *ch.of(&FORMS);
            // where the lower one is listed: 0 nowhere, 1 main, 2 part
            let l1 = ch.pick(3);
            let l2 = ch.pick(3);
            let held = ch.flag();
            let present = ch.pick(3);
            let hollow = ch.flag();
            let given = ch.flag();
            if given && version_of(form).is_none() {
                return None;
            }
            let inner = |f: Form_, name: &str| -> Ent { dir(name, if held { vec![im(f, "held.img", 55)] } else { vec![] }) };
            let mut low = Ar::new("Map0", vec![vec![im(form, "000.img", 1)], vec![im(form, "001.img", 2)]]);
            if present == 0 {
                low.parts.pop();
            }
            let mut mid = Ar::new("Map", vec![vec![im(form, "mid.img", 3)], vec![im(form, "mid2.img", 4)]]);
            let mut top = Ar::new("Map", vec![vec![im(form, "top.img", 5)], vec![im(form, "top2.img", 6)]]);
            if l2 > 0 {
                mid.parts[l2 - 1].push(inner(form, "Map0"));
            }
            if l1 > 0 {
                top.parts[l1 - 1].push(inner(form, "Map"));
            }
            if present > 0 {
                mid.subs.push(low);
            }
            if present > 1 {
                top.subs.push(mid);
            }
            let mut be = vec![dir("Map", vec![])];
            if hollow {
                be.push(dir("Gone", vec![]));
            }
            Some(Nest { form, base: Ar::new("Base", vec![be]), others: vec![top], stray: None, hollow: if hollow { vec!["Gone"] } else { vec![] }, given })
        },
        run_nested,
    ));
    f.push(Family::new(
        "stray files",
        format!("{STRAYS} kinds of files that are not part of the set, in each folder of a nested set and in a flat set, one and two at a time; 3 ways to store archives"),
        0,
        |ch| {
            let form = *ch.of(&[Form_::Classic(GMS), Form_::NoField(BMS), Form_::P2]);
            Some((form, ch.pick(4), ch.pick(STRAYS), ch.pick(STRAYS)))
        },
        |(form, place, w, w2), st| {
            let base = Ar::new("Base", vec![vec![dir("Map", vec![]), dir("Mob", vec![])]]);
            let mut map = Ar::new("Map", vec![content(*form, 2, 100), vec![im(*form, "part.img", 3)]]);
            map.parts[0].push(dir("Inner", vec![]));
            let d = root();
            let mut k = 0;
            if *place == 3 {
                map.parts.truncate(1);
                base.put_flat(&d, *form, &mut k);
                map.put_flat(&d, *form, &mut k);
                strays(&d, *w, *form);
                strays(&d, *w2, *form);
                let n = open(&d.join("Base.wz"), None).map_err(|e| format!("open: {e}"))?;
                return compare(&base_tree(&base, &[map]), &n, st);
            }
            map.subs.push(Ar::new("Inner", vec![vec![im(*form, "inner.img", 9)]]));
            base.put_nested(&d, *form, &mut k);
            map.put_nested(&d, *form, &mut k);
            let at = match place {
                0 => d.clone(),
                1 => d.join("Base"),
                _ => d.join("Map"),
            };
            strays(&at, *w, *form);
            strays(&at, *w2, *form);
            let n = open(&d.join("Base/Base.wz"), None).map_err(|e| format!("open: {e}"))?;
            compare(&base_tree(&base, &[map]), &n, st)
        },
    ));
    f.push(Family::new(
        "how the base is named",
        "flat and nested sets opened by absolute path and by relative paths from the folder, its parent and a sibling, with . and .. in them, in folders of other names; through symbolic links to folders",
        0,
        |ch| Some((ch.flag(), ch.pick(6), *ch.of(&["Data", "Base.v83", "Base Data", "データ", "base"]), ch.flag())),
        |(nested, how, folder, link), st| {
            let form = Form_::Classic(GMS);
            let d = root();
            let at = d.join(folder);
            std::fs::create_dir_all(&at).unwrap();
            std::fs::create_dir_all(d.join("sibling")).unwrap();
            let base = Ar::new("Base", vec![vec![dir("Map", vec![])]]);
            let map = Ar::new("Map", vec![content(form, 2, 5)]);
            let mut k = 0;
            if *nested {
                base.put_nested(&at, form, &mut k);
                if *link {
                    map.put_nested(&d.join("elsewhere"), form, &mut k);
                    std::os::unix::fs::symlink(d.join("elsewhere/Map"), at.join("Map")).unwrap();
                } else {
                    map.put_nested(&at, form, &mut k);
                }
            } else {
                base.put_flat(&at, form, &mut k);
                if *link {
                    std::fs::create_dir_all(d.join("elsewhere")).unwrap();
                    map.put_flat(&d.join("elsewhere"), form, &mut k);
                    std::os::unix::fs::symlink(d.join("elsewhere/Map.wz"), at.join("Map.wz")).unwrap();
                } else {
                    map.put_flat(&at, form, &mut k);
                }
            }
            let rel = if *nested { "Base/Base.wz" } else { "Base.wz" };
            let (cwd, path) = match how {
                0 => (d.clone(), at.join(rel)),
                1 => (at.clone(), PathBuf::from(rel)),
                2 => (at.clone(), PathBuf::from("./").join(rel)),
                3 => (d.clone(), PathBuf::from(folder).join(rel)),
                4 => (d.join("sibling"), PathBuf::from("..").join(folder).join(rel)),
                _ => (d.join("sibling"), PathBuf::from("../sibling/..").join(folder).join(rel)),
            };
            let old = std::env::current_dir().map_err(|e| e.to_string())?;
            std::env::set_current_dir(&cwd).map_err(|e| e.to_string())?;
            let r = open(&path, None).map_err(|e| format!("open: {e}")).and_then(|n| compare(&base_tree(&base, &[map]), &n, st));
            std::env::set_current_dir(old).map_err(|e| e.to_string())?;
            r
        },
    ));
    f.push(Family::new(
        "what cannot be opened",
        "missing folders and files, files of another name, directories in place of files, damaged or empty main files, parts and sub archives at each level: an error, and no panic",
        0,
        |ch| Some((*ch.of(&[Form_::Classic(GMS), Form_::NoField(BMS), Form_::P2]), ch.flag(), ch.pick(9), ch.pick(4))),
        |(form, nested, what, how), st| {
            let d = root();
            let base = Ar::new("Base", vec![vec![dir("Map", vec![]), dir("Mob", vec![])], vec![im(*form, "x.img", 1)]]);
            let mut map = Ar::new("Map", vec![vec![dir("Sub", vec![]), im(*form, "top.img", 1)], vec![im(*form, "part.img", 2)]]);
            let sub = Ar::new("Sub", vec![vec![im(*form, "s.img", 1)], vec![im(*form, "s1.img", 2)]]);
            let mut k = 0;
            if *nested {
                map.subs.push(sub);
                base.put_nested(&d, *form, &mut k);
                map.put_nested(&d, *form, &mut k);
            } else {
                base.put_flat(&d, *form, &mut k);
                map.put_flat(&d, *form, &mut k);
            }
            let b = if *nested { d.join("Base/Base.wz") } else { d.join("Base.wz") };
            let spoil = |p: PathBuf| match how {
                0 => std::fs::write(p, b"").unwrap(),
                1 => std::fs::write(p, b"this is not an archive, whatever its name says").unwrap(),
                2 => {
                    let x = std::fs::read(&p).unwrap();
                    std::fs::write(&p, &x[..70.min(x.len() / 2)]).unwrap()
                }
                _ => {
                    let mut x = std::fs::read(&p).unwrap();
                    // what a generation with a random header does not read proves nothing
                    let at = if x.starts_with(b"PKG") { 0 } else { x.len() };
                    if at == 0 {
                        x[0] ^= 0x20;
                    } else {
                        x.truncate(150);
                    }
                    std::fs::write(&p, &x).unwrap()
                }
            };
            let m = |s: &str| if *nested { d.join("Map").join(s) } else { d.join(s) };
            let target = match what {
                0 => d.join("nowhere/Base.wz"),
                1 => d.join("nowhere/Base/Base.wz"),
                2 => b.with_file_name("Map.wz"),
                3 => {
                    std::fs::create_dir_all(d.join("odd/Base.wz")).unwrap();
                    d.join("odd/Base.wz")
                }
                4 => {
                    spoil(b.clone());
                    b
                }
                5 => {
                    spoil(b.with_file_name("Base_000.wz"));
                    b
                }
                6 => {
                    spoil(m("Map.wz"));
                    b
                }
                7 => {
                    spoil(m("Map_000.wz"));
                    b
                }
                _ => {
                    if !*nested {
                        return Ok(());
                    }
                    spoil(m("Sub/Sub.wz"));
                    b
                }
            };
            let r = open(&target, None);
            match r {
                Ok(_) => return Err("opens".into()),
                Err(e) if e.starts_with("PANIC") => return Err(e),
                Err(e) => st.observe(&e.replace(scratch().to_str().unwrap(), "")),
            }
            let r = no_panic(|| resolve_root_wz_file_dir(&target, None)).map_err(|e| format!("PANIC {e}"))?;
            ensure!(r.is_err() || matches!(what, 2 | 6 | 7 | 8), "the folder opens");
            st.states += 1;
            st.transitions += 2;
            Ok(())
        },
    ));
    f
}
