//! C05: the key a file was written with is found.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::sync::Arc;
use wz_reader::util::string_decryptor::{DecrypterType, GLOBAL_STRING_DECRYPTOR};
use wz_reader::version::WzMapleVersion;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeCast};

const OWN: [u8; 4] = [1, 2, 3, 4];
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Given {
    Nothing,
    /// keys made for this iv
    Key([u8; 4]),
    /// the shared keys of this iv
    Shared([u8; 4]),
    Version(WzMapleVersion),
    /// fixed keys of release 1198
    K1198,
    /// calculated keys of later releases, not set yet
    K1199,
    /// a version and keys that disagree
    Both([u8; 4], WzMapleVersion),
}
fn version_of(iv: [u8; 4]) -> WzMapleVersion {
    match iv {
        GMS => WzMapleVersion::GMS,
        EMS => WzMapleVersion::EMS,
        _ => WzMapleVersion::BMS,
    }
}
/// every way to give a key; `custom`: also keys of no standard version
fn givens(custom: bool) -> Vec<Given> {
    let mut v = vec![Given::Nothing, Given::K1198, Given::K1199];
    for iv in STD {
        v.extend([Given::Key(iv), Given::Shared(iv), Given::Version(version_of(iv))]);
        for w in STD {
            if w != iv {
                v.push(Given::Both(iv, version_of(w)));
            }
        }
    }
    v.push(Given::Version(WzMapleVersion::UNKNOWN));
    if custom {
        v.extend([Given::Key(OWN), Given::Key([0xFF; 4]), Given::Key([0x4D, 0x23, 0xC7, 0x2C]), Given::Key([1, 0, 0, 0])]);
    }
    v
}
impl Given {
    fn key(&self) -> Option<SharedWzStringDecryptor> {
        match *self {
            Given::Key(iv) | Given::Both(iv, _) => Some(keys(iv)),
            Given::Shared(iv) => Some(GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv)),
            Given::K1198 => Some(GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMST1198)),
            Given::K1199 => Some(GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMST1199)),
            _ => None,
        }
    }
    fn version(&self) -> Option<WzMapleVersion> {
        match *self {
            Given::Version(v) | Given::Both(_, v) => Some(v),
            _ => None,
        }
    }
    fn iv(&self) -> Option<[u8; 4]> {
        match *self {
            Given::Key(iv) | Given::Shared(iv) | Given::Both(iv, _) => Some(iv),
            _ => None,
        }
    }
}
fn open_given(a: &Arch, g: Given, patch: Option<i32>, st: &mut Stats) -> R {
    let p = scratch_file("Base.wz", &a.build());
    let k = g.key();
    let n = WzNode::from_wz_file_full(&p, g.version(), patch, None, k.as_ref()).map_err(|e| format!("open: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    check_arch(a, &n, "Base", st)?;
    if g.iv() == Some(a.iv) && matches!(a.gen, Gen::P1 { .. } | Gen::P2 { rel: Rel::R1196 | Rel::R1197, .. }) {
        let r = n.read().unwrap();
        ensure!(Arc::ptr_eq(&r.try_as_file().unwrap().reader.keys, k.as_ref().unwrap()), "keys that fit were given and others are used");
    }
    st.traces += 1;
    Ok(())
}
#[derive(Debug)]
struct C {
    a: Arch,
    g: Given,
    patch: Option<i32>,
}
fn with_first(iv: [u8; 4], first: Ent) -> Vec<Ent> {
    let mut v = vec![first];
    v.push(img("other.img", iv, vec![n("v", st("value"))]));
    v.push(dir("sub", vec![img("deep.img", iv, vec![n("w", int(300))])]));
    v
}
/// forms the first entry comes in
fn first_ent(iv: [u8; 4], name: &str, form: usize) -> Ent {
    let mut e = if form % 2 == 0 { img(name, iv, vec![n("a", st("first"))]) } else { dir(name, vec![img("in.img", iv, vec![n("b", st("in"))])]) };
    match form / 2 {
        1 => e.off = true,
        2 => e.junk = true,
        3 => e.name.form = Form::Long,
        4 => e.name.wide = true,
        _ => {}
    }
    e
}
fn classic(k: usize, iv: [u8; 4], ents: Vec<Ent>) -> Arch {
    let (ver, enc, head) = [(83, Enc1::Checksum, 60), (777, Enc1::None, 60), (176, Enc1::Checksum, 16), (95, Enc1::Direct, 333)][k];
    Arch { gen: Gen::P1 { ver, enc }, head: Head::Plain(head), iv, ents, layout: Layout::Plain }
}
pub fn c05(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(Family::new(
        "first names of two letters",
        "classic archives under each standard key whose first name is every pair of printable ASCII characters, as image and as directory, opened without a key",
        0,
        |ch| {
            let iv = *ch.of(&STD);
            let nm: String = [32 + ch.pick(95) as u8 as char as u8, 32 + ch.pick(95) as u8].iter().map(|b| *b as char).collect();
            let e = first_ent(iv, &nm, ch.pick(2));
            Some(C { a: classic(0, iv, vec![e]), g: Given::Nothing, patch: None })
        },
        |c, st| open_given(&c.a, c.g, c.patch, st),
    ));
    let ln = lengths(t.q(300, 1200), &[]);
    f.push(Family::new(
        "first name forms",
        "classic archives under each standard key: first names of every length from 2, in every storage form of the first entry (image, directory, stored elsewhere, after a skipped entry, long form, wide form) and every header form, opened without a key and with each standard key",
        0,
        move |ch| {
            let iv = *ch.of(&STD);
            let l = *ch.of(&ln);
            if l < 2 {
                return None;
            }
            let form = ch.pick(10);
            let k = ch.pick(4);
            let g = *ch.of(&[Given::Nothing, Given::Key(BMS), Given::Key(GMS), Given::Key(EMS)]);
            if l > 40 && (l + form) % 4 != k {
                return None;
            }
            let e = first_ent(iv, &text_ascii(l), form);
            Some(C { a: classic(k, iv, with_first(iv, e)), g, patch: None })
        },
        |c, st| open_given(&c.a, c.g, c.patch, st),
    ));
    f.push(Family::new(
        "given keys, classic",
        "classic archives of every key (three standard ones; one of its own, which must be given) and header form, with every way of giving a key, keys and version that agree or not, keys of the other generation and keys that fit nothing, with and without the patch version",
        0,
        |ch| {
            let iv = *ch.of(&[BMS, GMS, EMS, OWN]);
            let k = ch.pick(4);
            let form = ch.pick(10);
            let g = *ch.of(&givens(true));
            // only the caller knows a key of no standard version
            if iv == OWN && !(g.iv() == Some(iv)) {
                return None;
            }
            let a = classic(k, iv, with_first(iv, first_ent(iv, "FirstEntryOfAll", form)));
            let Gen::P1 { ver, .. } = a.gen else { unreachable!() };
            let patch = if ch.flag() { Some(ver) } else { None };
            Some(C { a, g, patch })
        },
        |c, st| open_given(&c.a, c.g, c.patch, st),
    ));
    f.push(Family::new(
        "given keys, 64-bit",
        "archives of release 1202, which names its keys itself, with every way of giving a key that is its own or of the other generation",
        0,
        |ch| {
            let g = *ch.of(&[Given::Nothing, Given::K1198, Given::K1199, Given::Key(BMS), Given::Shared(BMS), Given::Version(WzMapleVersion::BMS)]);
            let form = ch.pick(2);
            let l = 1 + ch.pick(130);
            let a = Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: 0x1234567890ABCDEF, t: 0x0FEDCBA987654321, count: 1000 }, head: Head::Rand150, iv: BMS, ents: with_first(BMS, first_ent(BMS, &text_ascii(l), form)), layout: Layout::Plain };
            Some(C { a, g, patch: None })
        },
        |c, st| open_given(&c.a, c.g, c.patch, st),
    ));
    // a search of the 32-bit hash space for the first archive of each family only
    for (name, rel) in [("given keys, 1196", Rel::R1196), ("given keys, 1198", Rel::R1198), ("given keys, 1199", Rel::R1199)] {
        let (_, hash1, tt) = *p2_pairs(Tier::Quick).iter().find(|x| x.0 == rel).unwrap();
        f.push(
            Family::new(
                name,
                "archives of a 32-bit release: first names of every length 2..=127, and every pair of printable ASCII characters when no key is given, as image and directory, under every key the release can carry, with every way of giving a key that fits or, where the first name shows it, does not fit",
                0,
                move |ch| {
                    let own_key = rel != Rel::R1196;
                    let iv = if own_key { BMS } else { *ch.of(&[BMS, GMS, EMS, OWN]) };
                    let l = 2 + ch.pick(126);
                    let g = *ch.of(&givens(l >= 12 && !own_key));
                    // names after the first one do not tell their key when the first one has its own
                    if own_key && !matches!(g, Given::Nothing | Given::K1198 | Given::K1199) && g.iv().is_some_and(|x| x != BMS) {
                        return None;
                    }
                    if own_key && g.version().is_some_and(|x| !matches!(x, WzMapleVersion::BMS | WzMapleVersion::UNKNOWN)) {
                        return None;
                    }
                    if iv == OWN && g.iv() != Some(OWN) {
                        return None;
                    }
                    let form = ch.pick(2);
                    if l > 20 && l % 2 != form {
                        return None;
                    }
                    // two letters: every pair of them
                    let name = if l == 2 && g == Given::Nothing { [32 + ch.pick(95) as u8, 32 + ch.pick(95) as u8].iter().map(|b| *b as char).collect() } else { text_ascii(l) };
                    let a = Arch { gen: Gen::P2 { rel, hash1, t: tt, count: 1000 + l as i64 }, head: Head::Plain(60), iv, ents: with_first(iv, first_ent(iv, &name, form)), layout: Layout::Plain };
                    Some(C { a, g, patch: None })
                },
                |c, st| open_given(&c.a, c.g, c.patch, st),
            )
            .solo()
            .limit(200),
        );
    }
    f.push(Family::new(
        "images",
        "standalone images under each standard key and under three others, of every content of a set, opened without a version, with each standard version and with each iv: decoded right when the key fits or is found, refused otherwise",
        0,
        |ch| {
            let tops: Vec<Vec<N>> = vec![
                vec![],
                vec![n("a", st("text")), n("b", int(-40000)), n("楓", st("葉"))],
                vec![n("s", V::Sub(vec![n("c", small_canvas(None)), n("u", V::Uol(s("../../a")))])), n("Property", st("Property"))],
                vec![n("x", st(&text_ascii(700)))],
            ];
            let other = [OWN, [0x4D, 0x23, 0xC7, 0x2C], [0xFF; 4]];
            let iv = *ch.of(&[BMS, GMS, EMS, OWN]);
            let top = ch.of(&tops).clone();
            let wide = ch.flag();
            let form = *ch.of(&[Form::Auto, Form::Long]);
            let given = match ch.pick(4) {
                0 => None,
                1 => Some(Ok(*ch.of(&[WzMapleVersion::BMS, WzMapleVersion::GMS, WzMapleVersion::EMS, WzMapleVersion::UNKNOWN]))),
                2 => Some(Err(*ch.of(&STD))),
                _ => Some(Err(*ch.of(&other))),
            };
            Some((iv, top, wide, form, given))
        },
        |(iv, top, wide, form, given), st| {
            // the type of the image in another storage form
            let mut b = image(*iv, top);
            if *wide || *form != Form::Auto {
                // the strings of the image carry no positions in these contents
                let head = 1 + wz_string(*iv, "Property", false, Form::Auto).len();
                let mut o = vec![0x73];
                o.extend(wz_string(*iv, "Property", *wide, *form));
                o.extend(&b[head..]);
                b = o;
            }
            let p = scratch_file("Some.img", &b);
            let r = match given {
                None => WzNode::from_img_file(&p, None, None),
                Some(Ok(v)) => WzNode::from_img_file(&p, Some(*v), None),
                Some(Err(x)) => WzNode::from_img_file_with_iv(&p, *x, None),
            };
            let fits = match given {
                None => STD.contains(iv),
                Some(Ok(v)) => wz_reader::version::get_iv_by_maple_version(*v) == *iv,
                Some(Err(x)) => x == iv,
            };
            st.traces += 1;
            match r {
                Ok(x) => {
                    ensure!(fits, "opens although the key does not fit");
                    let x = x.into_lock();
                    x.write().unwrap().parse(&x).map_err(|e| format!("parse: {e}"))?;
                    let got = dump(&x)?;
                    st.states += got.count() as u64;
                    st.observe(&got.show());
                    same(&crate::c01::expect("Some.img", top), &got)
                }
                Err(e) => {
                    ensure!(!fits, "refused: {e}");
                    st.states += 1;
                    st.observe("refused");
                    Ok(())
                }
            }
        },
    ));
    f.push(Family::new(
        "no images",
        "a standalone image under each standard key with every other value of each of its first ten bytes, every truncation inside its type, and every two-byte file: refused when no version is given, without panic",
        0,
        |ch| {
            let iv = *ch.of(&STD);
            let b = image(iv, &[n("a", st("text"))]);
            Some(match ch.pick(3) {
                0 => {
                    let at = ch.pick(10);
                    let v = ch.pick(256) as u8;
                    if b[at] == v {
                        return None;
                    }
                    let mut b = b;
                    b[at] = v;
                    b
                }
                1 => b[..ch.pick(10)].to_vec(),
                _ => vec![ch.pick(256) as u8, ch.pick(256) as u8],
            })
        },
        |b, st| {
            let p = scratch_file("Some.img", b);
            let r = WzNode::from_img_file(&p, None, None);
            st.traces += 1;
            st.states += 1;
            st.observe_bytes(b);
            ensure!(r.is_err(), "opens");
            for iv in STD {
                let r = WzNode::from_img_file_with_iv(&p, iv, None);
                // a type that reads right under this key may still come after another first byte
                if r.is_ok() {
                    let head = image(iv, &[]);
                    ensure_eq!(b.get(1..10), head.get(1..10), "opens with a given key");
                }
            }
            Ok(())
        },
    ));
    f
}
