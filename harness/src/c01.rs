//! C01 image contents decode to exactly the stored tree; C02 lazy lookup agrees with it.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use std::sync::Arc;
use wz_reader::util::node_util;
use wz_reader::{WzImage, WzNode, WzNodeArc, WzObjectType, WzReader};

pub fn open_img(name: &str, bytes: &[u8], iv: [u8; 4]) -> Result<WzNodeArc, String> {
    let p = scratch_file(name, bytes);
    let node = WzNode::from_img_file_with_iv(&p, iv, None).map_err(|e| format!("open {name}: {e}"))?;
    Ok(node.into_lock())
}
/// image at an offset inside a larger buffer, as in an archive
pub fn embed_img(name: &str, bytes: &[u8], iv: [u8; 4], pre: usize, post: usize) -> WzNodeArc {
    let mut b = vec![0xEEu8; pre];
    b.extend(bytes);
    b.extend(vec![0xDDu8; post]);
    let r = Arc::new(WzReader::from_buff(&b).with_iv(iv));
    let img = WzImage::new(&name.into(), pre, bytes.len(), &r);
    WzNode::new(&name.into(), img, None).into_lock()
}
pub fn expect(name: &str, top: &[N]) -> T {
    T { name: name.into(), v: "Image".into(), kids: model(top) }
}
pub fn check_tree(node: &WzNodeArc, name: &str, top: &[N], st: &mut Stats) -> R {
    node_util::parse_node(node).map_err(|e| format!("parse: {e}"))?;
    let got = dump(node)?;
    same(&expect(name, top), &got)?;
    st.states += got.count() as u64;
    st.transitions += 2;
    st.observe(&got.show());
    Ok(())
}
fn check_order(node: &WzNodeArc, top: &[N]) -> R {
    let img = {
        let r = node.read().unwrap();
        match &r.object_type {
            WzObjectType::Image(i) => i.clone(),
            _ => return Err("not an image".into()),
        }
    };
    let (kids, _) = img.resolve_children(None).map_err(|e| format!("resolve_children: {e}"))?;
    let got: Vec<String> = kids.iter().map(|k| k.0.to_string()).collect();
    let want: Vec<String> = top.iter().map(|x| x.name.t.clone()).collect();
    ensure_eq!(got, want, "order of resolve_children");
    Ok(())
}

#[derive(Debug)]
struct C {
    iv: [u8; 4],
    top: Vec<N>,
    pre: Option<usize>,
}
fn run_c(c: &C, st: &mut Stats) -> R {
    let b = image(c.iv, &c.top);
    let node = match c.pre {
        None => open_img("x.img", &b, c.iv)?,
        Some(p) => embed_img("x.img", &b, c.iv, p, 3),
    };
    check_order(&node, &c.top)?;
    check_tree(&node, "x.img", &c.top, st)?;
    st.traces += 1;
    Ok(())
}
fn key(ch: &mut Ch) -> [u8; 4] {
    *ch.of(&STD)
}
/// roles a string can play in an image
fn role(r: usize, x: S) -> Vec<N> {
    match r {
        0 => vec![n("a", V::Str(x)), n("b", int(1))],
        1 => vec![n("p", int(2)), nn(x, st("v")), n("q", V::Sub(vec![n("w", int(3))]))],
        2 => vec![n("u", V::Uol(x)), n("b", int(1))],
        3 => vec![n("s", V::Sub(vec![nn(x.clone(), small_canvas(Some(vec![nn(x, int(5)), n("t", V::Null)])))])), n("e", int(1))],
        _ => unreachable!(),
    }
}
fn int_values() -> Vec<i64> {
    let mut v: Vec<i64> = (-300..=300).collect();
    for b in 0..63 {
        for d in [-1i64, 0, 1] {
            v.push((1i64 << b) + d);
            v.push(-(1i64 << b) + d);
        }
    }
    v.extend([i64::MIN, i64::MAX, 0x80, 0x7f, 0x8080_8080, 0x7f7f_7f7f]);
    v.sort();
    v.dedup();
    v
}

pub fn c01(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let nodes = t.q(4, 5);
    f.push(Family::new(
        "forests",
        format!("every ordered forest of up to {nodes} nodes over 17 property kinds (4 of them containers, nesting to depth {nodes}), under each of 3 keys"),
        0,
        move |ch| {
            let iv = key(ch);
            let mut left = nodes;
            let mut c = 0;
            let kinds: Vec<usize> = (0..KINDS).collect();
            let top = forest(ch, &mut left, 0, nodes, &kinds, &mut c);
            Some(C { iv, top, pre: None })
        },
        run_c,
    ));
    let big: &[usize] = &[4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537];
    let dense = t.q(300, 1100);
    f.push(Family::new(
        "string lengths",
        format!("strings of every length 0..={dense} and around 4096, 8192 and 65536, narrow and wide, in 4 roles, short and extended length form, 3 keys"),
        0,
        move |ch| {
            let ls = lengths(dense, big);
            let len = *ch.of(&ls);
            let wide = ch.flag();
            let r = ch.pick(4);
            let iv = key(ch);
            let form = if len < 127 && len % 9 == 0 && ch.flag() { Form::Long } else { Form::Auto };
            if r == 3 && len == 1 && !wide {
                return None;
            }
            let t = if wide { text_wide(len) } else { text_ascii(len) };
            if len > 9000 && r != 0 {
                return None;
            }
            if r == 1 && (t == "p" || t == "q") {
                return None;
            }
            let x = S { t, wide, form, place: Place::Inline };
            Some(C { iv, top: role(r, x), pre: None })
        },
        run_c,
    ));
    f.push(Family::new(
        "string storage",
        "every placement (inline, by reference forward or back, both tag bytes) x narrow/wide x short/long form x 10 texts x 4 roles x 3 keys x image at offset 0 or inside a buffer",
        0,
        |ch| {
            let iv = key(ch);
            let texts = ["", "x", "hello world", "with space and ~!@#$%^&*()", "楓之谷", "é", "🍁 leaf", "a\u{0}b", "MixedCase.IMG", "日本語テキスト混在abc"];
            let t = ch.of(&texts).to_string();
            let wide = ch.flag();
            let form = if ch.flag() { Form::Long } else { Form::Auto };
            let place = *ch.of(&PLACES);
            let r = ch.pick(4);
            let pre = *ch.of(&[None, Some(0), Some(37), Some(5000)]);
            if !wide && t.contains('🍁') && false {
                return None;
            }
            let x = S { t: t.clone(), wide, form, place };
            let mut top = role(r, x.clone());
            // a second, equal occurrence so that references have a target before them
            top.push(n("again", V::Str(S { place: Place::RefBack, ..x })));
            Some(C { iv, top, pre })
        },
        run_c,
    ));
    f.push(Family::new(
        "integers",
        "all integers -300..=300 and every power of two +-1 to 63 bits in every integer position (int 3/19, short 2/11, long, vector), compact and extended form",
        0,
        |ch| {
            let vs = int_values();
            let v = *ch.of(&vs);
            let k = ch.pick(7);
            let form = if ch.flag() { Form::Long } else { Form::Auto };
            let fits = i32::try_from(v).is_ok();
            let val = match k {
                0 if fits => V::Int(v as i32, 3, form),
                1 if fits => V::Int(v as i32, 19, form),
                2 if i16::try_from(v).is_ok() => V::Short(v as i16, 2),
                3 if i16::try_from(v).is_ok() => V::Short(v as i16, 11),
                4 => V::Long(v, form),
                5 if fits => V::Vector(v as i32, 17, form),
                6 if fits => V::Vector(17, v as i32, form),
                _ => return None,
            };
            Some(C { iv: GMS, top: vec![n("v", val), n("next", st("after"))], pre: None })
        },
        run_c,
    ));
    f.push(Family::new(
        "floats",
        "every non-negative compact float byte, and single/double bit patterns: each single bit, all-ones prefixes, NaN payloads, infinities, subnormals",
        0,
        |ch| {
            let val = match ch.pick(3) {
                0 => {
                    // stored compact byte other than the 0x80 marker: itself as a number
                    V::FloatC(ch.pick(128) as u8)
                }
                1 => {
                    let b = ch.pick(32 * 2 + 8);
                    V::Float(f32::from_bits(match b {
                        0..=31 => 1u32 << b,
                        32..=63 => !0u32 << (b - 32),
                        64 => 0,
                        65 => 0x7fc00001,
                        66 => 0xffc12345,
                        67 => 0x7f800000,
                        68 => 0xff800000,
                        69 => 0x80000000,
                        70 => 1.0f32.to_bits(),
                        _ => 0x7f7fffff,
                    }))
                }
                _ => {
                    let b = ch.pick(64 * 2 + 6);
                    V::Double(f64::from_bits(match b {
                        0..=63 => 1u64 << b,
                        64..=127 => !0u64 << (b - 64),
                        128 => 0,
                        129 => 0x7ff8000000000001,
                        130 => 0xfff8000000012345,
                        131 => 0x7ff0000000000000,
                        132 => 0x8000000000000000,
                        _ => 1.0f64.to_bits(),
                    }))
                }
            };
            Some(C { iv: BMS, top: vec![n("v", val), n("next", st("after"))], pre: None })
        },
        run_c,
    ));
    let wide_max = t.q(300, 2000);
    f.push(Family::new(
        "sizes",
        format!("lists of 0..={wide_max} children, nesting of 1..=80 levels, convex of 0..=200 points, up to 400 kinds of one sort side by side, blobs of 0..=300 and larger bytes"),
        0,
        move |ch| {
            let top = match ch.pick(6) {
                5 => {
                    // what is counted while reading must be counted down again
                    let which = ch.pick(KINDS);
                    let k = *ch.of(&[1usize, 2, 127, 128, 129, 130, 257, 400]);
                    let deep = ch.flag();
                    let kid = |c: u32| kind(which, c, if is_container(which) { vec![n("i", V::Vector(1, c as i32, Form::Auto))] } else { vec![] });
                    let l: Vec<N> = (0..k).map(|i| n(&format!("k{i}"), kid(i as u32))).collect();
                    if deep { vec![n("s", V::Sub(l)), n("e", kid(7))] } else { l }
                }
                0 => {
                    let k = ch.pick(wide_max + 1);
                    (0..k).map(|i| n(&format!("c{i}"), if i % 3 == 0 { V::Sub(vec![n("x", int(i as i32))]) } else { int(i as i32) })).collect()
                }
                1 => {
                    let d = ch.pick(80);
                    let k = ch.pick(3);
                    let mut v = vec![n("leaf", int(1))];
                    for i in 0..d {
                        v = vec![n("d", kind(if k == 0 { 0 } else { (i % k) + (k - 1) }, 1, v)), n(&format!("e{i}"), int(i as i32))];
                    }
                    v
                }
                2 => {
                    let k = ch.pick(201);
                    let inner = ch.pick(3);
                    let item = |i: usize| {
                        let v = V::Vector(i as i32, -(i as i32) * 3, Form::Auto);
                        match inner {
                            0 => v,
                            1 => V::Convex(vec![v]),
                            _ => V::Sub(vec![n("v", v)]),
                        }
                    };
                    vec![n("cx", V::Convex((0..k).map(item).collect())), n("e", int(1))]
                }
                3 => {
                    let k = ch.pick(310);
                    let k = if k > 300 { [4096, 65535, 65536, 65537, 100000, 200000, 70000, 33000, 131072][k - 301] } else { k };
                    let d: Vec<u8> = (0..k).map(|i| (i * 31 + i / 251) as u8).collect();
                    vec![n("r", V::Raw { ver: 0, kids: None, data: d.clone() }), n("v", V::Video(d.clone())), n("s", V::Sound(Sound { header: vec![1; 0x52], data: d, duration: 5 })), n("e", int(1))]
                }
                _ => {
                    let k = ch.pick(300);
                    vec![n("s", V::Sound(Sound { header: (0..k).map(|i| i as u8).collect(), data: vec![9; 11], duration: k as i32 })), n("e", int(1))]
                }
            };
            Some(C { iv: EMS, top, pre: Some(0) })
        },
        run_c,
    ));
    let dv = t.q(2, 3);
    f.push(Family::new(
        "deviations",
        format!("a rich image using every kind, with every combination of up to {dv} storage deviations (placement, form, width, tag, sizes, formats, order, key, offset in the buffer)"),
        dv,
        |ch| {
            let iv = *ch.dev_of(&[GMS, EMS, BMS]);
            let pre = *ch.dev_of(&[None, Some(0), Some(77), Some(4100)]);
            let top = rich(ch);
            Some(C { iv, top, pre })
        },
        run_c,
    ));
    f.push(Family::new(
        "text images",
        "images that are not property lists: plain text by name, scripts under each key, packed text, every length 0..=200 and larger; unknown headers are errors",
        0,
        |ch| {
            let k = ch.pick(4);
            let len = *ch.of(&lengths(200, &[1000, 5000, 70000]));
            let iv = key(ch);
            Some((k, len, iv))
        },
        |(k, len, iv), st| {
            let text: String = text_ascii(*len);
            let (name, bytes, child, val) = match k {
                0 => ("readme.txt", text.clone().into_bytes(), "text.txt", V::Raw { ver: 0, kids: None, data: text.clone().into_bytes() }),
                1 => {
                    let mut b = vec![0x01];
                    b.extend(wz_int(text.len() as i32, Form::Auto));
                    b.extend(xor_ks(*iv, text.as_bytes()));
                    ("Global.lua", b, "Script", V::Str(s(&text)))
                }
                2 => {
                    let mut b = b"#Property".to_vec();
                    b.extend(text.as_bytes());
                    ("packed.img", b, "text.txt", V::Raw { ver: 0, kids: None, data: text.clone().into_bytes() })
                }
                _ => {
                    // any other first byte is refused
                    let h = (*len % 256) as u8;
                    if [0x73u8, 0x01, 0x23].contains(&h) {
                        return Ok(());
                    }
                    let mut b = vec![h];
                    b.extend(text.as_bytes());
                    let node = embed_img("odd.img", &b, *iv, 5, 5);
                    ensure!(node_util::parse_node(&node).is_err(), "image with first byte {h:#x} parsed");
                    ensure!(node.read().unwrap().children.is_empty(), "children after failed parse");
                    return Ok(());
                }
            };
            if *k == 0 && bytes.is_empty() {
                return Ok(());
            }
            // scripts are decoded under the image's own key or, when long, under any standard key
            let node = embed_img(name, &bytes, *iv, 11, 7);
            node_util::parse_node(&node).map_err(|e| format!("parse: {e}"))?;
            let want_v = if *k == 1 { format!("Lua {text:?}") } else { vtext(&val) };
            let want = T { name: name.into(), v: "Image".into(), kids: vec![T { name: child.into(), v: want_v, kids: vec![] }] };
            let got = dump(&node)?;
            same(&want, &got)?;
            st.states += 2;
            st.transitions += 1;
            st.traces += 1;
            st.observe(&got.show());
            Ok(())
        },
    ));
    f
}

// ------------------------------------------------------------------ C02
/// all paths in a model, with whether a link lies strictly inside the path
fn paths(t: &[T], pre: &str, out: &mut Vec<String>) {
    for k in t {
        let p = if pre.is_empty() { k.name.clone() } else { format!("{pre}/{}", k.name) };
        out.push(p.clone());
        paths(&k.kids, &p, out);
    }
}
fn derived(p: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "/".into(), "nosuch".into(), "nosuch/x".into(), "..".into(), ".".into()];
    for x in p {
        v.push(x.clone());
        v.push(format!("{x}/nosuch"));
        v.push(format!("{x}/"));
        v.push(format!("/{x}"));
        v.push(format!("{x}x"));
        v.push(format!("nosuch/{x}"));
        v.push(format!("{x}/{x}"));
        v.push(format!("{x}/nosuch/deeper"));
        if let Some((a, b)) = x.rsplit_once('/') {
            v.push(format!("{a}/nosuch/{b}"));
            v.push(b.to_string());
            v.push(format!("{a}//{b}"));
            v.push(format!("{a}/../{b}"));
        }
        let mut y = x.clone();
        y.pop();
        v.push(y);
        v.push(x.to_uppercase());
        v.push(format!("{x}/0"));
        v.push(format!("{x}/n0"));
        v.push(format!("{x}/n1/n0"));
    }
    v.sort();
    v.dedup();
    v
}
/// model lookup: names may repeat a level only once, empty name segments are names too
fn model_at<'a>(t: &'a T, path: &str) -> Option<&'a T> {
    t.path(path)
}
fn lookup_case(name: &str, node: &WzNodeArc, want: &T, all: &[String], st: &mut Stats) -> R {
    let img = match &node.read().unwrap().object_type {
        WzObjectType::Image(i) => i.clone(),
        _ => return Err("not an image".into()),
    };
    let root = WzNode::from_str("root", 0, None).into_lock();
    node.write().unwrap().parent = Arc::downgrade(&root);
    root.write().unwrap().children.insert(name.into(), node.clone());
    let parsed = WzNode::new(&name.into(), (*img).clone(), None).into_lock();
    node_util::parse_node(&parsed).map_err(|e| format!("parse: {e}"))?;
    same(want, &dump(&parsed)?)?;
    for p in all {
        let m = model_at(want, p);
        let follow = parsed.read().unwrap().at_path(p);
        ensure_eq!(follow.is_some(), m.is_some(), "following {p:?} in the parsed tree");
        let lazy = img.at_path(p).ok();
        let lazy2 = node_util::get_node_without_parse(&root, &format!("{name}/{p}"));
        st.transitions += 2;
        for (what, l) in [("WzImage::at_path", &lazy), ("get_node_without_parse", &lazy2)] {
            match (l, m) {
                (None, None) => {}
                (Some(l), Some(m)) => {
                    let mut d = dump(l)?;
                    d.name = m.name.clone();
                    let got_name = l.read().unwrap().name.to_string();
                    ensure_eq!(got_name, m.name, "{what}({p:?}): name of the node found");
                    same(m, &d).map_err(|e| format!("{what}({p:?}) in the unparsed image: {e}"))?;
                    st.observe(&d.show());
                }
                (None, Some(m)) => return Err(format!("{what}({p:?}) in the unparsed image: absent, but the parsed tree has {}", m.v)),
                (Some(l), None) => return Err(format!("{what}({p:?}) in the unparsed image: found {}, but the parsed tree has no such node", obs(&l.read().unwrap()))),
            }
        }
        st.states += 1;
    }
    {
        let r = node.read().unwrap();
        ensure!(r.children.is_empty(), "lookups left children in the unparsed image");
        if let WzObjectType::Image(i) = &r.object_type {
            ensure!(!i.is_parsed, "lookups marked the image as parsed");
        }
    }
    // the same lookups after parsing, through the same entry point
    node_util::parse_node(node).map_err(|e| format!("parse after lookups: {e}"))?;
    for p in all {
        let m = model_at(want, p);
        let l = node_util::get_node_without_parse(&root, &format!("{name}/{p}"));
        ensure_eq!(l.as_ref().map(|l| obs(&l.read().unwrap())), m.map(|m| m.v.clone()), "get_node_without_parse({p:?}) in the parsed image");
    }
    same(want, &dump_root(node)?)?;
    st.traces += 1;
    Ok(())
}
fn dump_root(a: &WzNodeArc) -> Result<T, String> {
    dump(a)
}
fn run_l(c: &C, st: &mut Stats) -> R {
    let b = image(c.iv, &c.top);
    let node = match c.pre {
        None => open_img("x.img", &b, c.iv)?,
        Some(p) => embed_img("x.img", &b, c.iv, p, 3),
    };
    let want = expect("x.img", &c.top);
    let mut ps = vec![];
    paths(&want.kids, "", &mut ps);
    ps.truncate(400);
    lookup_case("x.img", &node, &want, &derived(&ps), st)
}
pub fn c02(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let nodes = t.q(3, 4);
    f.push(Family::new(
        "forests",
        format!("every ordered forest of up to {nodes} nodes over 13 kinds; every path of the tree and every derived path (absent, too long, through a value, empty segments, prefixes)"),
        0,
        move |ch| {
            let mut left = nodes;
            let mut c = 0;
            let kinds = [0usize, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13, 16];
            let top = forest(ch, &mut left, 0, nodes, &kinds, &mut c);
            Some(C { iv: GMS, top, pre: None })
        },
        run_l,
    ));
    let dv = t.q(1, 2);
    f.push(Family::new(
        "deviations",
        format!("the rich image with every combination of up to {dv} storage deviations; all paths and derived paths"),
        dv,
        |ch| {
            let iv = *ch.dev_of(&[EMS, GMS, BMS]);
            let pre = *ch.dev_of(&[Some(53), None, Some(4100)]);
            let top = rich(ch);
            Some(C { iv, top, pre })
        },
        run_l,
    ));
    f.push(Family::new(
        "depth and width",
        "chains of 1..=40 levels of each container kind and lists of up to 200 siblings with the target first, in the middle and last",
        0,
        |ch| {
            let top = if ch.flag() {
                let d = ch.pick(40);
                let k = *ch.of(&[0usize, 1, 2]);
                let mut v = vec![n("leaf", int(1)), n("n0", st("sibling"))];
                for i in 0..d {
                    v = vec![n("skip", kind(i % KINDS, i as u32, vec![n("leaf", int(99))])), n("n0", kind(k, i as u32, v)), n(&format!("e{i}"), int(i as i32))];
                }
                v
            } else {
                let w = *ch.of(&[1usize, 2, 127, 128, 129, 200]);
                let k = ch.pick(KINDS);
                let mut v: Vec<N> = (0..w).map(|i| n(&format!("c{i}"), kind(k, i as u32, vec![n("in", int(i as i32))]))).collect();
                let at = [0, w / 2, w][ch.pick(3)];
                v.insert(at, n("target", V::Sub(vec![n("in", st("here"))])));
                v
            };
            Some(C { iv: BMS, top, pre: Some(0) })
        },
        run_l,
    ));
    f.push(Family::new(
        "value boundaries",
        "siblings skipped on the way to the target hold every integer boundary value and every string length 0..=200, in each storage form",
        0,
        |ch| {
            let before = match ch.pick(3) {
                0 => {
                    let vs = int_values();
                    let v = *ch.of(&vs);
                    let form = if ch.flag() { Form::Long } else { Form::Auto };
                    if let Ok(i) = i32::try_from(v) {
                        vec![n("p", V::Int(i, if i % 2 == 0 { 3 } else { 19 }, form)), n("q", V::Long(v, form))]
                    } else {
                        vec![n("q", V::Long(v, form))]
                    }
                }
                1 => {
                    let len = *ch.of(&lengths(200, &[4096, 70000]));
                    let wide = ch.flag();
                    let place = *ch.of(&[Place::Inline, Place::Ref, Place::InlineAlt, Place::RefAlt]);
                    let x = S { t: if wide { text_wide(len) } else { text_ascii(len) }, wide, form: if len % 2 == 0 { Form::Auto } else { Form::Long }, place };
                    let mut v = vec![n("p", V::Str(x.clone()))];
                    if len < 300 && len > 1 {
                        v.push(nn(x, V::Sub(vec![n("i", int(2))])));
                    }
                    v
                }
                _ => vec![n("p", V::Float(f32::from_bits(1 << ch.pick(32)))), n("q", V::FloatC(*ch.of(&[0u8]))), n("r", V::Double(1.0)), n("s", V::Short(-1, 11)), n("t", V::Null)],
            };
            let mut top = before;
            top.push(n("target", V::Sub(vec![n("in", st("here"))])));
            top.push(n("last", int(5)));
            Some(C { iv: GMS, top, pre: None })
        },
        run_l,
    ));
    f.push(Family::new(
        "text images and links",
        "lookups in script, plain-text and packed-text images; a link found without parsing is returned as the link",
        0,
        |ch| {
            let k = ch.pick(4);
            let iv = key(ch);
            Some((k, iv))
        },
        |(k, iv), st| {
            let text = "return {}";
            let (name, bytes, child, v) = match k {
                0 => ("a.txt", text.as_bytes().to_vec(), "text.txt", format!("Raw [9]{}", hex(text.as_bytes()))),
                1 => {
                    let mut b = vec![0x01];
                    b.extend(wz_int(text.len() as i32, Form::Auto));
                    b.extend(xor_ks(*iv, text.as_bytes()));
                    ("a.lua", b, "Script", format!("Lua {text:?}"))
                }
                2 => {
                    let mut b = b"#Property".to_vec();
                    b.extend(text.as_bytes());
                    ("a.img", b, "text.txt", format!("Raw [9]{}", hex(text.as_bytes())))
                }
                _ => {
                    let top = vec![n("u", V::Uol(s("v/w"))), n("v", V::Sub(vec![n("w", int(3)), n("x", V::Uol(s("w")))]))];
                    let b = image(*iv, &top);
                    let node = embed_img("l.img", &b, *iv, 9, 0);
                    let img = match &node.read().unwrap().object_type {
                        WzObjectType::Image(i) => i.clone(),
                        _ => unreachable!(),
                    };
                    for (p, w) in [("u", Some("Uol \"v/w\"")), ("v/x", Some("Uol \"w\"")), ("v/w", Some("Int 3")), ("v/y", None)] {
                        let got = img.at_path(p).ok().map(|x| obs(&x.read().unwrap()));
                        ensure_eq!(got, w.map(|x| x.to_string()), "lazy lookup of {p}");
                        st.transitions += 1;
                    }
                    return Ok(());
                }
            };
            let node = embed_img(name, &bytes, *iv, 3, 2);
            let want = T { name: name.into(), v: "Image".into(), kids: vec![T { name: child.into(), v, kids: vec![] }] };
            let all = derived(&[child.to_string(), "x/y".into()]);
            // ".img" in a path names the image, so only the image's own lookup is asked for other names
            if name.ends_with(".img") {
                lookup_case(name, &node, &want, &all, st)
            } else {
                let img = match &node.read().unwrap().object_type {
                    WzObjectType::Image(i) => i.clone(),
                    _ => unreachable!(),
                };
                for p in &all {
                    let got = img.at_path(p).ok().map(|x| obs(&x.read().unwrap()));
                    ensure_eq!(got, model_at(&want, p).map(|m| m.v.clone()), "lazy lookup of {p:?} in {name}");
                    st.transitions += 1;
                }
                lookup_case(name, &node, &want, &all, st)
            }
        },
    ));
    f
}
