//! Shared generators of image contents.
use crate::core::Ch;
use crate::crypt::*;
use crate::img::*;

pub const KINDS: usize = 17;
/// kinds that hold children
pub fn is_container(k: usize) -> bool {
    matches!(k, 0..=3)
}
/// value of kind k; c makes it distinct, kids only used by containers
pub fn kind(k: usize, c: u32, kids: Vec<N>) -> V {
    match k {
        0 => V::Sub(kids),
        1 => V::Canvas(Canvas {
            w: 2 + (c as i32 % 5),
            h: 1 + c as i32 % 3,
            f1: 2,
            f2: 0,
            pages: c as i32 % 7,
            data: zlib(&[c as u8, 2, 3, 4, 5, 6, 7, 8], 6),
            kids: if kids.is_empty() { None } else { Some(kids) },
        }),
        2 => V::Raw { ver: 1, kids: if kids.is_empty() { None } else { Some(kids) }, data: vec![c as u8; 3 + (c as usize) % 4] },
        3 => V::Convex(kids.into_iter().map(|x| if matches!(x.v, V::Sub(_) | V::Vector(..) | V::Uol(_) | V::Convex(_) | V::Canvas(_) | V::Raw { .. } | V::Video(_)) { x.v } else { V::Vector(c as i32, -(c as i32), Form::Auto) }).collect()),
        4 => V::Null,
        5 => V::Short(1000 + c as i16, 2),
        6 => int(100 + c as i32 * 13),
        7 => V::Long(5_000_000_000 + c as i64, Form::Auto),
        8 => V::Float(1.5 + c as f32),
        9 => V::FloatC(0),
        10 => V::Double(2.25 + c as f64),
        11 => V::Str(s(&format!("text{c}"))),
        12 => V::Vector(c as i32, 200 + c as i32, Form::Auto),
        13 => V::Sound(Sound { header: vec![c as u8; 0x52], data: vec![c as u8 ^ 0x5A; 5 + c as usize % 9], duration: 300 + c as i32 }),
        14 => V::Uol(s(&format!("../gone{c}"))),
        15 => V::Raw { ver: 0, kids: None, data: vec![c as u8 ^ 0x33; 2] },
        16 => V::Video(vec![c as u8; 4]),
        _ => unreachable!(),
    }
}
/// every ordered forest of at most `left` nodes over all kinds (names distinct per level)
pub fn forest(ch: &mut Ch, left: &mut u32, depth: u32, maxd: u32, kinds: &[usize], c: &mut u32) -> Vec<N> {
    let mut v = vec![];
    loop {
        if *left == 0 || (depth > 0 && ch.pick(2) == 0) || (depth == 0 && !v.is_empty() && ch.pick(2) == 0) {
            return v;
        }
        *left -= 1;
        let k = *ch.of(kinds);
        *c += 1;
        let me = *c;
        let kids = if is_container(k) && depth < maxd { forest(ch, left, depth + 1, maxd, kinds, c) } else { vec![] };
        v.push(n(&format!("n{}", v.len()), kind(k, me, kids)));
    }
}
pub fn str_dev(ch: &mut Ch, t: &str) -> S {
    let place = *ch.dev_of(&PLACES);
    let wide = !t.is_ascii() || ch.devf();
    let form = if ch.devf() { Form::Long } else { Form::Auto };
    S { t: t.into(), wide, form, place }
}
/// A rich default image in which every storage dimension may deviate.
pub fn rich(ch: &mut Ch) -> Vec<N> {
    let mut c = 0u32;
    let mut node = |name: &str, v: V, ch: &mut Ch| -> N {
        c += 1;
        let nm = str_dev(ch, name);
        let tp = if is_ext(&v) { *ch.dev_of(&[Place::InlineAlt, Place::Ref, Place::Inline, Place::RefAlt, Place::RefBack]) } else { Place::InlineAlt };
        N { name: nm, v, tp }
    };
    let ic = *ch.dev_of(&[3u8, 19]);
    let iv = *ch.dev_of(&[7i32, 127, 128, -127, -128, -129, i32::MIN, i32::MAX]);
    let ifm = if ch.devf() { Form::Long } else { Form::Auto };
    let sc = *ch.dev_of(&[2u8, 11]);
    let sv = str_dev(ch, "value of it");
    let sv2 = str_dev(ch, "楓之谷");
    let uv = str_dev(ch, "../nowhere/at");
    let v0 = node("a", V::Int(iv, ic, ifm), ch);
    let v1 = node("b", V::Str(sv), ch);
    let v2 = node("名", V::Str(sv2), ch);
    let v3 = node("origin", V::Vector(-5, 300, ifm), ch);
    let inner1 = node("z", V::Short(-3, sc), ch);
    let inner2 = node("origin", V::Vector(1, 2, Form::Auto), ch);
    let inner3 = node("b", V::Double(0.5), ch);
    let mut ck = vec![inner2, inner3];
    if ch.devf() {
        ck.clear();
    }
    let none = ck.is_empty();
    let cv = V::Canvas(Canvas {
        w: *ch.dev_of(&[4i32, 128, 0, 3000]),
        h: *ch.dev_of(&[4i32, 200]),
        f1: *ch.dev_of(&[2i32, 1, 513, 517]),
        f2: *ch.dev_of(&[0i8, 1, 4]),
        pages: *ch.dev_of(&[0i32, 1, 128]),
        data: zlib(&[9; 64], 6),
        kids: if none { None } else { Some(ck) },
    });
    let cn = node("0", cv, ch);
    let snd = node(
        "bgm",
        V::Sound(Sound { header: vec![7; *ch.dev_of(&[0x52usize, 0x46, 0, 0x3c, 0x3d, 200])], data: vec![3; *ch.dev_of(&[10usize, 0, 127, 128, 300])], duration: *ch.dev_of(&[1000i32, 127, 128, 0, 100000]) }),
        ch,
    );
    let cx = node("foothold", V::Convex(vec![V::Vector(1, 2, Form::Auto), V::Vector(300, -300, Form::Auto), V::Vector(3, 4, ifm)]), ch);
    let deep = node("deep", V::Sub(vec![]), ch);
    let sub = node("sub", V::Sub(vec![inner1, cn, deep]), ch);
    let uol = node("link", V::Uol(uv), ch);
    let rk = node("k", int(4), ch);
    let rver = if ch.devf() { 0 } else { 1 };
    let raw = node("raw", V::Raw { ver: rver, kids: if rver == 1 { Some(vec![rk]) } else { None }, data: vec![8; *ch.dev_of(&[6usize, 0, 128])] }, ch);
    let vid = node("video", V::Video(vec![5; *ch.dev_of(&[9usize, 0, 200])]), ch);
    let nul = node("nul", V::Null, ch);
    let fl = node("f", if ch.devf() { V::FloatC(0) } else { V::Float(-1.25) }, ch);
    let lg = node("l", V::Long(*ch.dev_of(&[1i64 << 40, -1, -128, i64::MIN, i64::MAX]), ifm), ch);
    let mut l = vec![v0, v1, v2, v3, sub, snd, cx, uol, raw, vid, nul, fl, lg];
    if ch.devf() {
        l.push(n("strange", V::Unknown("Shape3D#Unknown".into(), vec![1, 2, 3, 4])));
        l.push(n("after", int(9)));
    }
    match ch.dev(3) {
        1 => l.reverse(),
        2 => l.rotate_left(5),
        _ => {}
    }
    l
}
/// interesting lengths for strings: every short length, the form boundary, keystream batches
pub fn lengths(dense: usize, big: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    v.extend(big.iter().filter(|x| **x > dense));
    v
}
/// text of exactly n units, distinct content per position
pub fn text_ascii(nn: usize) -> String {
    (0..nn).map(|i| (b'!' + ((i * 7 + i / 90) % 90) as u8) as char).collect::<String>().replace('/', "_")
}
pub fn text_wide(nn: usize) -> String {
    (0..nn).map(|i| char::from_u32(0x4E00 + ((i * 37) % 5000) as u32).unwrap()).collect()
}
