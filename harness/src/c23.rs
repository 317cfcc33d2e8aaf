//! C23 typed access; C18 json export.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Map, Value};
use std::sync::Arc;
use wz_reader::property::*;
use wz_reader::util::node_util;
use wz_reader::*;

// ------------------------------------------------------------------ C23
/// a node of a known kind with a value known as text
#[derive(Debug, Clone)]
struct K {
    kind: &'static str,
    val: String,
}
const ACCESSORS: [&str; 21] = [
    "file", "directory", "image", "sub_property", "value", "png", "sound", "string", "is_sub_property", "is_convex", "lua", "raw_data", "video", "is_null", "vector2d", "short", "int", "long", "float", "double", "uol",
];
/// the accessors that answer for a kind (written from the documentation of the kinds)
fn answers(kind: &str) -> &'static [&'static str] {
    match kind {
        "File" => &["file"],
        "Directory" => &["directory"],
        "Image" => &["image"],
        "MsFile" | "MsImage" => &[],
        "Sub" => &["sub_property", "is_sub_property"],
        "Convex" => &["sub_property", "is_convex"],
        "PNG" => &["sub_property", "png"],
        "Sound" => &["sub_property", "sound"],
        "Null" => &["value", "is_null"],
        "Short" => &["value", "short"],
        "Int" => &["value", "int"],
        "Long" => &["value", "long"],
        "Float" => &["value", "float"],
        "Double" => &["value", "double"],
        "Vector" => &["value", "vector2d"],
        "String" => &["value", "string"],
        // a link is stored as text, and the text accessor gives it too
        "UOL" => &["value", "string", "uol"],
        "Parsed" => &["value"],
        "Raw" => &["value", "raw_data"],
        "Video" => &["value", "video"],
        "Lua" => &["value", "lua"],
        _ => unreachable!(),
    }
}
fn png_text(p: &WzPng) -> String {
    format!("{}x{} {:?} {} {}", p.width, p.height, p.format(), p.pages, p.header)
}
fn sound_text(s: &WzSound) -> String {
    format!("{} {:?} {}", s.duration, s.sound_type, hex(&s.get_buffer()))
}
fn value_text(v: &WzValue) -> (&'static str, String) {
    match v {
        WzValue::Null => ("Null", String::new()),
        WzValue::Short(x) => ("Short", x.to_string()),
        WzValue::Int(x) => ("Int", x.to_string()),
        WzValue::Long(x) => ("Long", x.to_string()),
        WzValue::Float(x) => ("Float", x.to_bits().to_string()),
        WzValue::Double(x) => ("Double", x.to_bits().to_string()),
        WzValue::Vector(x) => ("Vector", format!("{},{}", x.0, x.1)),
        WzValue::String(x) => ("String", x.get_string().unwrap_or("!".into())),
        WzValue::UOL(x) => ("UOL", x.get_string().unwrap_or("!".into())),
        WzValue::ParsedString(x) => ("Parsed", x.clone()),
        WzValue::RawData(x) => ("Raw", hex(x.get_buffer())),
        WzValue::Video(x) => ("Video", hex(x.get_buffer())),
        WzValue::Lua(x) => ("Lua", x.extract_lua().unwrap_or("!".into())),
    }
}
fn ask(n: &WzNode, a: &str) -> Option<String> {
    let b = |x: bool| x.then(String::new);
    match a {
        "file" => n.try_as_file().map(|x| format!("{} {} {}", x.wz_file_meta.path, x.offset, x.block_size)),
        "directory" => n.try_as_directory().map(|x| format!("{} {}", x.offset, x.block_size)),
        "image" => n.try_as_image().map(|x| format!("{} {} {}", x.name, x.offset, x.block_size)),
        "sub_property" => n.try_as_sub_property().map(|x| match x {
            WzSubProperty::Property => "Sub".into(),
            WzSubProperty::Convex => "Convex".into(),
            WzSubProperty::PNG(p) => format!("PNG {}", png_text(p)),
            WzSubProperty::Sound(p) => format!("Sound {}", sound_text(p)),
        }),
        "value" => n.try_as_value().map(|x| {
            let (k, v) = value_text(x);
            format!("{k} {v}")
        }),
        "png" => n.try_as_png().map(png_text),
        "sound" => n.try_as_sound().map(sound_text),
        "string" => n.try_as_string().map(|x| x.get_string().unwrap_or("!".into())),
        "is_sub_property" => b(n.is_sub_property()),
        "is_convex" => b(n.is_convex()),
        "lua" => n.try_as_lua().map(|x| x.extract_lua().unwrap_or("!".into())),
        "raw_data" => n.try_as_raw_data().map(|x| hex(x.get_buffer())),
        "video" => n.try_as_video().map(|x| hex(x.get_buffer())),
        "is_null" => b(n.is_null()),
        "vector2d" => n.try_as_vector2d().map(|x| format!("{},{}", x.0, x.1)),
        "short" => n.try_as_short().map(|x| x.to_string()),
        "int" => n.try_as_int().map(|x| x.to_string()),
        "long" => n.try_as_long().map(|x| x.to_string()),
        "float" => n.try_as_float().map(|x| x.to_bits().to_string()),
        "double" => n.try_as_double().map(|x| x.to_bits().to_string()),
        "uol" => n.try_as_uol().map(|x| x.get_string().unwrap_or("!".into())),
        _ => unreachable!(),
    }
}
fn check_access(n: &WzNode, k: &K, st: &mut Stats) -> R {
    let yes = answers(k.kind);
    for a in ACCESSORS {
        let got = ask(n, a);
        st.transitions += 1;
        let want = yes.contains(&a).then(|| match a {
            "is_sub_property" | "is_convex" | "is_null" => String::new(),
            "sub_property" if k.val.is_empty() => k.kind.to_string(),
            "sub_property" | "value" => format!("{} {}", k.kind, k.val),
            _ => k.val.clone(),
        });
        ensure_eq!(got, want, "accessor {a} on a {} node", k.kind);
    }
    // the free functions that take a node answer for the same kinds
    let arc = WzNode::new(&"again".into(), n.object_type.clone(), None).into_lock();
    let s = resolve_string_from_node(&arc);
    ensure_eq!(s.is_ok(), yes.contains(&"string"), "resolve_string_from_node on a {} node", k.kind);
    if let Ok(s) = s {
        ensure_eq!(s, k.val, "resolve_string_from_node on a {} node", k.kind);
    }
    if !yes.contains(&"png") {
        ensure!(get_image(&arc).is_err(), "get_image on a {} node gave an image", k.kind);
    }
    st.states += 1;
    st.observe(&format!("{k:?}"));
    Ok(())
}
fn ints(bits: u32) -> Vec<i64> {
    let mut v: Vec<i64> = (-130..=130).collect();
    for b in 7..bits - 1 {
        for d in [-1i64, 0, 1] {
            v.push((1i64 << b) + d);
            v.push(-(1i64 << b) + d);
        }
    }
    let (lo, hi) = if bits == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1) };
    v.extend([lo, lo + 1, hi, hi - 1]);
    v.retain(|x| *x >= lo && *x <= hi);
    v.sort();
    v.dedup();
    v
}
fn f32s() -> Vec<u32> {
    let mut v: Vec<u32> = (0..32).map(|b| 1u32 << b).collect();
    v.extend((0..32).map(|b| !0u32 << b));
    v.extend([0, 0x7fc00001, 0x7f800000, 0xff800000, 0x7f7fffff, 0x00800000, 0x3f800000, 0x3f8ccccd]);
    v.sort();
    v.dedup();
    v
}
fn f64s() -> Vec<u64> {
    let mut v: Vec<u64> = (0..64).map(|b| 1u64 << b).collect();
    v.extend((0..64).map(|b| !0u64 << b));
    v.extend([0, 0x7ff8000000000001, 0x7ff0000000000000, 0xfff0000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 1.1f64.to_bits(), 0.1f64.to_bits()]);
    v.sort();
    v.dedup();
    v
}
const TEXTS: [&str; 14] = ["", "a", "1/1", "../x", "hello world", "MixedCase.IMG", "楓之谷", "é", "🍁", "a🍁b", "quote\" back\\ slash/ \n\t\u{1}", "x\u{0}y", "\u{7f}\u{80}\u{ff}", "日本語テキスト混在abc"];
/// objects built from values: (object, kind, value text)
fn built() -> Vec<(WzObjectType, K)> {
    let mut v: Vec<(WzObjectType, K)> = vec![];
    let k = |kind: &'static str, val: String| K { kind, val };
    for x in ints(16) {
        v.push(((x as i16).into(), k("Short", x.to_string())));
    }
    for x in ints(32) {
        v.push(((x as i32).into(), k("Int", x.to_string())));
    }
    for x in ints(64) {
        v.push((x.into(), k("Long", x.to_string())));
    }
    for x in f32s() {
        v.push((f32::from_bits(x).into(), k("Float", x.to_string())));
    }
    for x in f64s() {
        v.push((f64::from_bits(x).into(), k("Double", x.to_string())));
    }
    for x in [0, 1, -1, 127, 128, -128, -129, i32::MAX, i32::MIN] {
        for y in [0, 1, -1, 300, i32::MAX, i32::MIN] {
            v.push((Vector2D::new(x, y).into(), k("Vector", format!("{x},{y}"))));
        }
    }
    for t in TEXTS.iter().map(|t| t.to_string()).chain([126, 127, 128, 129, 500].iter().map(|n| text_ascii(*n))).chain([63, 64, 126, 127, 128].iter().map(|n| text_wide(*n))) {
        for iv in STD {
            v.push((WzString::from_str(&t, iv).into(), k("String", t.clone())));
            v.push((WzObjectType::Value(WzValue::UOL(WzString::from_str(&t, iv))), k("UOL", t.clone())));
        }
        v.push((WzObjectType::Value(WzValue::ParsedString(t.clone())), k("Parsed", t.clone())));
    }
    v.push((WzObjectType::Value(WzValue::Null), k("Null", String::new())));
    v.push((WzObjectType::Value(WzValue::default()), k("Null", String::new())));
    v.push((WzObjectType::Property(WzSubProperty::Property), k("Sub", String::new())));
    v.push((WzObjectType::Property(WzSubProperty::Convex), k("Convex", String::new())));
    let buf: Vec<u8> = (0..=255u8).collect();
    let r = Arc::new(WzReader::from_buff(&buf));
    for (o, l) in [(0usize, 0usize), (0, 1), (5, 7), (250, 6), (256, 0)] {
        v.push((WzRawData::new(&r, o, l).into(), k("Raw", hex(&buf[o..o + l]))));
        v.push((WzVideo::new(&r, o, l).into(), k("Video", hex(&buf[o..o + l]))));
        for (d, ty) in [(0u32, WzSoundType::Mp3), (1000, WzSoundType::Binary), (u32::MAX, WzSoundType::Mp3)] {
            let val = format!("{d} {ty:?} {}", hex(&buf[o..o + l]));
            v.push((WzSound::new(&r, o, l as u32, 0, 0, d, ty).into(), k("Sound", val)));
        }
        v.push((WzDirectory::new(o, l, &r, false).into(), k("Directory", format!("{o} {l}"))));
        v.push((WzImage::new(&"i.img".into(), o, l, &r).into(), k("Image", format!("i.img {o} {l}"))));
        let mut f = WzFile::default();
        f.reader = r.clone();
        f.offset = o;
        f.block_size = l;
        f.wz_file_meta.path = format!("/p{o}.wz");
        v.push((f.into(), k("File", format!("/p{o}.wz {o} {l}"))));
    }
    for (w, h, f1, f2, hd, pg) in [(0u32, 0u32, 1u32, 0u32, 0, 0), (1, 2, 2, 0, 0x9C78, 3), (4096, 1, 513, 0, 7, 1), (u32::MAX, 5, 1000, 26, -1, -1), (3, 4, 1, 1, 1, 1)] {
        v.push((WzPng::new(&r, (w, h), (f1, f2), (0, 1), hd, pg).into(), k("PNG", format!("{w}x{h} {} {pg} {hd}", fmt_name(f1 as u64 + f2 as u64)))));
    }
    let text = b"print('x')";
    let lr = Arc::new(WzReader::from_buff(text).with_iv(BMS));
    v.push((WzLua::new(&lr, 0, text.len()).into(), k("Lua", "print('x')".into())));
    v.push((MsFile::default().into(), k("MsFile", String::new())));
    v.push((MsImage::default().into(), k("MsImage", String::new())));
    v
}
fn model_k(v: &V) -> K {
    let (kind, val): (&'static str, String) = match v {
        V::Null | V::Unknown(..) => ("Null", String::new()),
        V::Short(x, _) => ("Short", x.to_string()),
        V::Int(x, ..) => ("Int", x.to_string()),
        V::Long(x, _) => ("Long", x.to_string()),
        V::FloatC(x) => ("Float", (*x as f32).to_bits().to_string()),
        V::Float(x) => ("Float", x.to_bits().to_string()),
        V::Double(x) => ("Double", x.to_bits().to_string()),
        V::Str(x) => ("String", x.t.clone()),
        V::Uol(x) => ("UOL", x.t.clone()),
        V::Sub(_) => ("Sub", String::new()),
        V::Convex(_) => ("Convex", String::new()),
        V::Vector(x, y, _) => ("Vector", format!("{x},{y}")),
        V::Canvas(c) => ("PNG", format!("{}x{} {} {} {}", c.w, c.h, fmt_name(c.f1 as u32 as u64 + c.f2 as u32 as u64), c.pages, u16::from_le_bytes([c.data[0], c.data[1]]))),
        V::Sound(x) => ("Sound", format!("{} {} {}", x.duration as u32, sound_kind(x), hex(&sound_bytes(x)))),
        V::Raw { data, .. } => ("Raw", hex(data)),
        V::Video(d) => ("Video", hex(d)),
    };
    K { kind, val }
}
fn access_tree(node: &WzNodeArc, l: &[N], st: &mut Stats) -> R {
    for x in l {
        let c = node.read().unwrap().at(&x.name.t).ok_or(format!("no child {:?}", x.name.t))?;
        check_access(&c.read().unwrap(), &model_k(&x.v), st)?;
        match &x.v {
            V::Sub(k) | V::Canvas(Canvas { kids: Some(k), .. }) | V::Raw { ver: 1, kids: Some(k), .. } => access_tree(&c, k, st)?,
            V::Convex(k) => {
                let k: Vec<N> = k.iter().enumerate().map(|(i, v)| n(&i.to_string(), v.clone())).collect();
                access_tree(&c, &k, st)?;
            }
            _ => {}
        }
    }
    Ok(())
}
pub fn c23(t: Tier) -> Vec<Family> {
    let nodes = t.q(4, 5);
    vec![
        Family::new(
            "built",
            "objects built from every value of the boundary classes of every kind (all 16/32/64-bit powers of two +-1 and -130..=130, float patterns, vectors, texts x keys, payload ranges, archive objects), asked through all 21 accessors, as root, as a child, with children of their own, and after cloning",
            0,
            |ch| {
                let i = ch.pick(built_len());
                Some((i, ch.pick(4)))
            },
            |(i, how), st| {
                let (o, k) = built_at(*i);
                match how {
                    0 => check_access(&WzNode::from_str("n", o, None), &k, st)?,
                    1 => {
                        let p = WzNode::from_str("p", 1, None).into_lock();
                        let c = WzNode::from_str("c", o, Some(&p)).into_lock();
                        p.write().unwrap().add(&c);
                        check_access(&p.read().unwrap().at("c").unwrap().read().unwrap(), &k, st)?;
                    }
                    2 => {
                        let p = WzNode::from_str("p", o, None).into_lock();
                        for (x, v) in [("a", 1i32), ("value", 2)] {
                            let c = WzNode::from_str(x, v, Some(&p)).into_lock();
                            p.write().unwrap().add(&c);
                        }
                        check_access(&p.read().unwrap(), &k, st)?;
                    }
                    _ => check_access(&WzNode::from_str("n", o.clone(), None), &k, st)?,
                }
                st.traces += 1;
                Ok(())
            },
        ),
        Family::new(
            "parsed",
            format!("every node of every ordered forest of up to {nodes} nodes over 17 kinds, as parsed from an encoded image"),
            0,
            move |ch| {
                let mut left = nodes;
                let mut c = 0;
                let kinds: Vec<usize> = (0..KINDS).collect();
                Some(forest(ch, &mut left, 0, nodes, &kinds, &mut c))
            },
            |top, st| {
                let node = crate::c01::embed_img("x.img", &image(GMS, top), GMS, 3, 3);
                node_util::parse_node(&node).map_err(|e| e.to_string())?;
                access_tree(&node, top, st)?;
                st.traces += 1;
                Ok(())
            },
        ),
    ]
}
thread_local! { static BUILT: Vec<(WzObjectType, K)> = built(); }
fn built_len() -> usize {
    BUILT.with(|b| b.len())
}
fn built_at(i: usize) -> (WzObjectType, K) {
    BUILT.with(|b| b[i].clone())
}

// ------------------------------------------------------------------ C18
fn num(x: f64) -> Value {
    serde_json::Number::from_f64(x).map_or(Value::Null, Value::Number)
}
fn fields(v: &V) -> Map<String, Value> {
    let mut m = Map::new();
    match v {
        V::Canvas(c) => {
            m.insert("width".into(), json!(c.w as u32));
            m.insert("height".into(), json!(c.h as u32));
        }
        V::Sound(x) => {
            m.insert("duration".into(), json!(x.duration as u32));
            m.insert("sound_type".into(), json!(sound_kind(x)));
        }
        _ => {}
    }
    m
}
fn kids_of(v: &V) -> Vec<N> {
    match v {
        V::Sub(k) | V::Canvas(Canvas { kids: Some(k), .. }) | V::Raw { ver: 1, kids: Some(k), .. } => k.clone(),
        V::Convex(k) => k.iter().enumerate().map(|(i, v)| n(&i.to_string(), v.clone())).collect(),
        _ => vec![],
    }
}
/// the plain json of a value: containers become objects, leaves their value; a child named like a
/// field of its bitmap or sound stands for itself
fn plain(v: &V) -> Value {
    let kids = kids_of(v);
    if kids.is_empty() {
        match v {
            V::Null | V::Unknown(..) | V::Raw { .. } | V::Video(_) | V::Sub(_) | V::Convex(_) => return Value::Null,
            V::Short(x, _) => return json!(x),
            V::Int(x, ..) => return json!(x),
            V::Long(x, _) => return json!(x),
            V::FloatC(x) => return num(*x as f64),
            V::Float(x) => return num(*x as f64),
            V::Double(x) => return num(*x),
            V::Str(x) | V::Uol(x) => return json!(x.t),
            V::Vector(x, y, _) => return json!({"x": x, "y": y}),
            V::Canvas(_) | V::Sound(_) => {}
        }
    }
    let mut m = fields(v);
    for x in kids {
        m.insert(x.name.t.clone(), plain(&x.v));
    }
    Value::Object(m)
}
fn plain_list(l: &[N]) -> Value {
    if l.is_empty() {
        return Value::Null;
    }
    Value::Object(l.iter().map(|x| (x.name.t.clone(), plain(&x.v))).collect())
}
fn same_json(got: &Value, want: &Value, at: &str) -> R {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            for (k, v) in w {
                let x = g.get(k).ok_or(format!("at {at:?}: no entry {k:?}"))?;
                same_json(x, v, &format!("{at}/{k}"))?;
            }
            for k in g.keys() {
                ensure!(w.contains_key(k), "at {at:?}: extra entry {k:?}");
            }
            Ok(())
        }
        _ => {
            ensure!(got == want && got.to_string() == want.to_string(), "at {at:?}: json {got}, expected {want}");
            Ok(())
        }
    }
}
fn json_ok(v: &V) -> bool {
    !matches!(v, V::Raw { .. } | V::Video(_)) && finite(v) && kids_of(v).iter().all(|x| json_ok(&x.v))
}
fn finite(v: &V) -> bool {
    match v {
        V::Float(x) => x.is_finite(),
        V::Double(x) => x.is_finite(),
        _ => true,
    }
}
/// tree as it must read back from the full json: payloads of bitmaps and sounds stay in the file
fn obs_obj(o: &WzObjectType) -> String {
    match o {
        WzObjectType::File(f) => format!(
            "File {:?} {} {} {} {}",
            f.wz_file_meta.path, f.wz_file_meta.patch_version, f.wz_file_meta.wz_version_header, f.wz_file_meta.wz_with_encrypt_version_header, f.wz_file_meta.hash
        ),
        WzObjectType::MsFile(f) => format!("MsFile {:?}", serde_json::to_value(&f.header).map(|v| v.to_string()).unwrap_or_default()),
        WzObjectType::Image(_) => "Image".into(),
        WzObjectType::MsImage(_) => "MsImage".into(),
        WzObjectType::Directory(_) => "Directory".into(),
        WzObjectType::Property(WzSubProperty::PNG(p)) => format!("PNG {}x{}", p.width, p.height),
        WzObjectType::Property(WzSubProperty::Sound(p)) => format!("Sound {} {:?}", p.duration, p.sound_type),
        WzObjectType::Property(WzSubProperty::Property) => "Sub".into(),
        WzObjectType::Property(WzSubProperty::Convex) => "Convex".into(),
        WzObjectType::Value(v) => {
            let (k, v) = value_text(v);
            format!("{k} {v}")
        }
    }
}
fn same_nodes(a: &WzNodeArc, b: &WzNodeArc, at: &str, st: &mut Stats) -> R {
    let a = a.read().unwrap();
    let b = b.read().unwrap();
    ensure_eq!(b.name.as_str(), a.name.as_str(), "at {at:?}: name read back");
    ensure_eq!(obs_obj(&b.object_type), obs_obj(&a.object_type), "at {at:?}: object read back");
    ensure_eq!(b.children.len(), a.children.len(), "at {at:?}: number of children read back");
    st.states += 1;
    for (k, c) in a.children.iter() {
        let o = b.at(k.as_str()).ok_or(format!("at {at:?}: child {k} lost"))?;
        same_nodes(c, &o, &format!("{at}/{k}"), st)?;
    }
    Ok(())
}
fn check_json(node: &WzNodeArc, top: &[N], st: &mut Stats) -> R {
    let got = node.read().unwrap().to_simple_json().map_err(|e| format!("to_simple_json: {e}"))?;
    same_json(&got, &plain_list(top), "")?;
    st.transitions += 1;
    for x in top {
        let c = node.read().unwrap().at(&x.name.t).ok_or("child")?;
        let r = c.read().unwrap();
        let g = r.to_simple_json().map_err(|e| format!("to_simple_json of {}: {e}", x.name.t))?;
        same_json(&g, &plain(&x.v), &x.name.t)?;
        st.transitions += 1;
        if json_ok(&x.v) {
            let j = r.to_json().map_err(|e| format!("to_json of {}: {e}", x.name.t))?;
            let back: WzNode = serde_json::from_value(j.clone()).map_err(|e| format!("reading {j} back: {e}"))?;
            let back = back.into_lock();
            node_util::resolve_childs_parent(&back);
            drop(r);
            same_nodes(&c, &back, &x.name.t, st)?;
            let j2 = back.read().unwrap().to_json().map_err(|e| e.to_string())?;
            same_json(&j2, &j, &x.name.t)?;
            st.transitions += 2;
        }
    }
    st.observe(&got.to_string());
    Ok(())
}
fn parsed(top: &[N], iv: [u8; 4]) -> Result<WzNodeArc, String> {
    let node = crate::c01::embed_img("x.img", &image(iv, top), iv, 3, 3);
    node_util::parse_node(&node).map_err(|e| e.to_string())?;
    Ok(node)
}
fn json_values() -> Vec<V> {
    let mut v = vec![V::Null, V::Sub(vec![]), V::Convex(vec![]), V::FloatC(0)];
    v.extend(ints(16).into_iter().map(|x| V::Short(x as i16, 2)));
    v.extend(ints(32).into_iter().map(|x| V::Int(x as i32, 3, Form::Auto)));
    v.extend(ints(64).into_iter().map(|x| V::Long(x, Form::Auto)));
    v.extend(f32s().into_iter().map(|x| V::Float(f32::from_bits(x))));
    v.extend(f64s().into_iter().map(|x| V::Double(f64::from_bits(x))));
    for t in TEXTS {
        v.push(V::Str(s(t)));
        v.push(V::Uol(s(&format!("../none/{t}"))));
    }
    for x in [0, -1, 128, i32::MAX, i32::MIN] {
        for y in [0, 7, i32::MIN] {
            v.push(V::Vector(x, y, Form::Auto));
        }
    }
    for c in 0..5 {
        v.push(kind(1, c, vec![]));
        v.push(kind(1, c, vec![n("k", int(c as i32))]));
        v.push(kind(2, c, vec![n("k", int(c as i32))]));
        v.push(kind(2, c, vec![]));
        v.push(kind(13, c, vec![]));
        v.push(kind(16, c, vec![]));
    }
    v.push(V::Sound(Sound { header: vec![0; 0x46], data: vec![1; 9], duration: 5 }));
    v
}
pub fn c18(t: Tier) -> Vec<Family> {
    let nodes = t.q(4, 5);
    let mut f = vec![];
    f.push(Family::new(
        "forests",
        format!("every ordered forest of up to {nodes} nodes over 17 kinds, parsed from an encoded image: plain export against the model, full export read back"),
        0,
        move |ch| {
            let mut left = nodes;
            let mut c = 0;
            let kinds: Vec<usize> = (0..KINDS).collect();
            Some(forest(ch, &mut left, 0, nodes, &kinds, &mut c))
        },
        |top, st| {
            check_json(&parsed(top, EMS)?, top, st)?;
            st.traces += 1;
            Ok(())
        },
    ));
    f.push(Family::new(
        "values",
        "every value of the boundary classes of every kind (numbers to 64 bits, all float patterns with NaN and infinity, texts with control characters, surrogates, quotes), at the top, in a folder, under a bitmap, under raw data and next to a sibling",
        0,
        |ch| {
            let vs = json_values();
            let v = ch.of(&vs).clone();
            let top = match ch.pick(5) {
                0 => vec![n("v", v)],
                1 => vec![n("d", V::Sub(vec![n("v", v), n("w", st("x"))]))],
                2 => vec![n("p", small_canvas(Some(vec![n("v", v)])))],
                3 => vec![n("r", V::Raw { ver: 1, kids: Some(vec![n("v", v)]), data: vec![1] })],
                _ => vec![n("a", int(1)), n("v", v.clone()), n("z", v)],
            };
            Some(top)
        },
        |top, st| {
            check_json(&parsed(top, GMS)?, top, st)?;
            st.traces += 1;
            Ok(())
        },
    ));
    f.push(Family::new(
        "names",
        "every pair of distinct names out of 22 awkward ones (empty, quotes, control, surrogate, names of json fields, numbers) in 5 containers",
        0,
        |ch| {
            let names = ["", " ", "a", "A", "0", "00", "-1", "width", "height", "duration", "sound_type", "type", "data", "name", "children", "x", "y", "quo\"te", "back\\slash", "\u{1}\n", "🍁", "楓之谷"];
            let a = ch.pick(names.len());
            let b = ch.pick(names.len());
            if a == b {
                return None;
            }
            let kids = vec![n(names[a], int(41)), n(names[b], V::Sub(vec![n(names[a], st("deep"))]))];
            Some(match ch.pick(5) {
                0 => kids,
                1 => vec![n("d", V::Sub(kids))],
                2 => vec![n("p", small_canvas(Some(kids)))],
                3 => vec![n("r", V::Raw { ver: 1, kids: Some(kids), data: vec![1] })],
                _ => vec![n(names[b], V::Sub(vec![n(names[a], small_canvas(Some(kids)))]))],
            })
        },
        |top, st| {
            check_json(&parsed(top, BMS)?, top, st)?;
            st.traces += 1;
            Ok(())
        },
    ));
    f.push(Family::new(
        "objects",
        "every object of the boundary classes of every kind serialised alone and read back (binary payload kinds, and numbers json cannot express, are refused or come back as nothing)",
        0,
        |ch| Some(ch.pick(built_len())),
        |i, st| {
            let (o, k) = built_at(*i);
            let w = serde_json::to_value(&o);
            if matches!(k.kind, "Raw" | "Video" | "Lua") {
                ensure!(w.is_err(), "{k:?} serialised to {w:?}");
                return Ok(());
            }
            let w = w.map_err(|e| format!("{k:?}: {e}"))?;
            st.transitions += 1;
            let nan = match k.kind {
                "Float" => !f32::from_bits(k.val.parse().unwrap()).is_finite(),
                "Double" => !f64::from_bits(k.val.parse().unwrap()).is_finite(),
                _ => false,
            };
            if nan {
                return Ok(());
            }
            let back: WzObjectType = serde_json::from_value(w.clone()).map_err(|e| format!("reading {w} back: {e}"))?;
            ensure_eq!(obs_obj(&back), obs_obj(&o), "object read back from {w}");
            let text = w.to_string();
            if !matches!(k.kind, "Float" | "Double") {
                let back: WzObjectType = serde_json::from_str(&text).map_err(|e| format!("reading {text} back: {e}"))?;
                ensure_eq!(obs_obj(&back), obs_obj(&o), "object read back from text {text}");
            }
            st.states += 1;
            st.transitions += 2;
            st.traces += 1;
            st.observe(&text);
            Ok(())
        },
    ));
    f.push(Family::new(
        "archive nodes",
        "trees of archive, folder and image nodes of every shape up to 4 levels by 3 children (built by hand, images parsed or not)",
        0,
        |ch| {
            let d = 1 + ch.pick(4);
            let w = ch.pick(4);
            Some((d, w, ch.flag()))
        },
        |(d, w, p), st| {
            fn fill(node: &WzNodeArc, d: usize, w: usize, p: bool) -> Value {
                let mut m = Map::new();
                for i in 0..w {
                    let name = format!("c{i}.img");
                    let (c, v) = if d <= 1 || i % 2 == 1 {
                        let top = vec![n("a", int(i as i32)), n("s", V::Sub(vec![n("t", crate::img::st("x"))]))];
                        let b = image(GMS, &top);
                        let r = Arc::new(WzReader::from_buff(&b).with_iv(GMS));
                        let c = WzNode::new(&name.as_str().into(), WzImage::new(&name.as_str().into(), 0, b.len(), &r), Some(node)).into_lock();
                        if p {
                            node_util::parse_node(&c).unwrap();
                        }
                        (c, if p { plain_list(&top) } else { Value::Null })
                    } else {
                        let c = WzNode::from_str(&name, WzDirectory::default(), Some(node)).into_lock();
                        let v = fill(&c, d - 1, w, p);
                        (c, v)
                    };
                    node.write().unwrap().add(&c);
                    m.insert(name, v);
                }
                if m.is_empty() {
                    Value::Null
                } else {
                    Value::Object(m)
                }
            }
            let root = WzNode::from_str("Base", WzFile::default(), None).into_lock();
            let want = fill(&root, *d, *w, *p);
            let got = root.read().unwrap().to_simple_json().map_err(|e| e.to_string())?;
            same_json(&got, &want, "")?;
            let j = root.read().unwrap().to_json().map_err(|e| e.to_string())?;
            let back: WzNode = serde_json::from_value(j).map_err(|e| format!("read back: {e}"))?;
            same_nodes(&root, &back.into_lock(), "", st)?;
            st.transitions += 3;
            st.traces += 1;
            st.observe(&got.to_string());
            Ok(())
        },
    ));
    f
}
