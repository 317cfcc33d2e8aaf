//! Image model and encoder (the reference side), and the reader of observed trees.
use crate::crypt::*;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
    Inline,    // 0
    InlineAlt, // 0x73
    Ref,       // 1, pool after the body
    RefAlt,    // 0x1B, pool after the body
    RefBack,   // 1, the earlier inline occurrence when there is one
}
pub const PLACES: [Place; 5] = [Place::Inline, Place::Ref, Place::InlineAlt, Place::RefAlt, Place::RefBack];

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct S {
    pub t: String,
    pub wide: bool,
    pub form: Form,
    pub place: Place,
}
/// default storage: narrow when ascii, short form, inline
pub fn s(t: &str) -> S {
    S { t: t.to_string(), wide: !t.is_ascii(), form: Form::Auto, place: Place::Inline }
}
impl S {
    pub fn at(mut self, p: Place) -> S {
        self.place = p;
        self
    }
    pub fn wide(mut self) -> S {
        self.wide = true;
        self
    }
    pub fn long(mut self) -> S {
        self.form = Form::Long;
        self
    }
}

#[derive(Clone, PartialEq)]
pub enum V {
    Null,
    Short(i16, u8),
    Int(i32, u8, Form),
    Long(i64, Form),
    FloatC(u8),
    Float(f32),
    Double(f64),
    Str(S),
    Sub(Vec<N>),
    Canvas(Canvas),
    Convex(Vec<V>),
    Vector(i32, i32, Form),
    Sound(Sound),
    Uol(S),
    Raw { ver: u8, kids: Option<Vec<N>>, data: Vec<u8> },
    Video(Vec<u8>),
    /// unknown extended kind
    Unknown(String, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Canvas {
    pub kids: Option<Vec<N>>,
    pub w: i32,
    pub h: i32,
    pub f1: i32,
    pub f2: i8,
    pub pages: i32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sound {
    pub header: Vec<u8>,
    pub data: Vec<u8>,
    pub duration: i32,
}
#[derive(Clone, PartialEq)]
pub struct N {
    pub name: S,
    pub v: V,
    /// how the type string of an extended property is stored
    pub tp: Place,
}
impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.t.len() > 40 {
            write!(f, "<{} chars {:?}…>", self.t.chars().count(), self.t.chars().take(8).collect::<String>())?;
        } else {
            write!(f, "{:?}", self.t)?;
        }
        if self.wide != !self.t.is_ascii() {
            write!(f, "w")?;
        }
        if self.form == Form::Long {
            write!(f, "l")?;
        }
        if self.place != Place::Inline {
            write!(f, "@{:?}", self.place)?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            V::Sub(k) => write!(f, "Sub{k:?}"),
            V::Canvas(c) => write!(f, "Canvas({}x{} f{}+{} p{} data[{}]){:?}", c.w, c.h, c.f1, c.f2, c.pages, c.data.len(), c.kids),
            V::Convex(k) => write!(f, "Convex{k:?}"),
            V::Vector(a, b, c) => write!(f, "Vector({a},{b},{c:?})"),
            V::Sound(x) => write!(f, "Sound(header[{}] data[{}] {})", x.header.len(), x.data.len(), x.duration),
            V::Uol(x) => write!(f, "Uol({x:?})"),
            V::Str(x) => write!(f, "Str({x:?})"),
            V::Raw { ver, kids, data } => write!(f, "Raw(v{ver} data[{}]){kids:?}", data.len()),
            V::Video(d) => write!(f, "Video[{}]", d.len()),
            V::Int(x, c, fm) => write!(f, "Int({x},{c},{fm:?})"),
            V::Unknown(t, d) => write!(f, "Unknown({t},{d:?})"),
            V::Null | V::FloatC(_) | V::Short(..) | V::Long(..) | V::Float(_) | V::Double(_) => f.write_str(&vtext(self)),
        }
    }
}
impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}={:?}", self.name, self.v)?;
        if self.tp != Place::InlineAlt {
            write!(f, "@{:?}", self.tp)?;
        }
        Ok(())
    }
}
pub fn n(name: &str, v: V) -> N {
    N { name: s(name), v, tp: Place::InlineAlt }
}
pub fn nn(name: S, v: V) -> N {
    N { name, v, tp: Place::InlineAlt }
}
pub fn int(v: i32) -> V {
    V::Int(v, 3, Form::Auto)
}
pub fn st(t: &str) -> V {
    V::Str(s(t))
}
pub fn small_canvas(kids: Option<Vec<N>>) -> V {
    V::Canvas(Canvas { kids, w: 2, h: 1, f1: 2, f2: 0, pages: 0, data: zlib(&[1, 2, 3, 4, 5, 6, 7, 8], 6) })
}
pub fn is_ext(v: &V) -> bool {
    matches!(v, V::Sub(_) | V::Canvas(_) | V::Convex(_) | V::Vector(..) | V::Sound(_) | V::Uol(_) | V::Raw { .. } | V::Video(_) | V::Unknown(..))
}

pub struct Enc {
    pub iv: [u8; 4],
    pub b: Vec<u8>,
    fix: Vec<(usize, S)>,
    inl: Vec<((String, bool, Form), usize)>,
}
impl Enc {
    pub fn new(iv: [u8; 4]) -> Enc {
        Enc { iv, b: vec![], fix: vec![], inl: vec![] }
    }
    fn block(&mut self, s: &S) {
        match s.place {
            Place::Inline | Place::InlineAlt => {
                self.b.push(if s.place == Place::Inline { 0 } else { 0x73 });
                let at = self.b.len();
                self.inl.push(((s.t.clone(), s.wide, s.form), at));
                self.b.extend(wz_string(self.iv, &s.t, s.wide, s.form));
            }
            Place::Ref | Place::RefAlt => {
                self.b.push(if s.place == Place::Ref { 1 } else { 0x1B });
                self.fix.push((self.b.len(), s.clone()));
                self.b.extend([0; 4]);
            }
            Place::RefBack => {
                self.b.push(1);
                if let Some(x) = self.inl.iter().find(|x| x.0 == (s.t.clone(), s.wide, s.form)) {
                    let at = x.1 as i32;
                    self.b.extend(at.to_le_bytes());
                } else {
                    self.fix.push((self.b.len(), s.clone()));
                    self.b.extend([0; 4]);
                }
            }
        }
    }
    fn list(&mut self, l: &[N]) {
        self.b.extend(wz_int(l.len() as i32, Form::Auto));
        for x in l {
            self.block(&x.name);
            self.value(&x.v, x.tp);
        }
    }
    fn tp(&mut self, t: &str, p: Place) {
        self.block(&S { t: t.into(), wide: false, form: Form::Auto, place: p });
    }
    fn ext(&mut self, v: &V, p: Place) {
        match v {
            V::Sub(l) => {
                self.tp("Property", p);
                self.b.extend([0, 0]);
                self.list(l);
            }
            V::Canvas(c) => {
                self.tp("Canvas", p);
                self.b.push(0);
                match &c.kids {
                    Some(k) => {
                        self.b.extend([1, 0, 0]);
                        self.list(k);
                    }
                    None => self.b.push(0),
                }
                self.b.extend(wz_int(c.w, Form::Auto));
                self.b.extend(wz_int(c.h, Form::Auto));
                self.b.extend(wz_int(c.f1, Form::Auto));
                self.b.push(c.f2 as u8);
                self.b.extend(wz_int(c.pages, Form::Auto));
                self.b.extend(wz_int(0, Form::Auto));
                self.b.extend([0, 0]);
                self.b.extend((c.data.len() as i32 + 1).to_le_bytes());
                self.b.push(0);
                self.b.extend(&c.data);
            }
            V::Convex(l) => {
                self.tp("Shape2D#Convex2D", p);
                self.b.extend(wz_int(l.len() as i32, Form::Auto));
                for x in l {
                    self.ext(x, p);
                }
            }
            V::Vector(x, y, f) => {
                self.tp("Shape2D#Vector2D", p);
                self.b.extend(wz_int(*x, *f));
                self.b.extend(wz_int(*y, *f));
            }
            V::Sound(x) => {
                self.tp("Sound_DX8", p);
                self.b.push(0);
                self.b.extend(wz_int(x.data.len() as i32, Form::Auto));
                self.b.extend(wz_int(x.duration, Form::Auto));
                self.b.extend(&x.header);
                self.b.extend(&x.data);
            }
            V::Uol(x) => {
                self.tp("UOL", p);
                self.b.push(0);
                self.block(x);
            }
            V::Raw { ver, kids, data } => {
                self.tp("RawData", p);
                self.b.push(*ver);
                if *ver == 1 {
                    match kids {
                        Some(k) => {
                            self.b.extend([1, 0, 0]);
                            self.list(k);
                        }
                        None => self.b.push(0),
                    }
                }
                self.b.extend(wz_int(data.len() as i32, Form::Auto));
                self.b.extend(data);
            }
            V::Video(d) => {
                self.tp("Canvas#Video", p);
                self.b.extend([0, 0, 1]);
                self.b.extend(wz_int(d.len() as i32, Form::Auto));
                self.b.extend(d);
            }
            V::Unknown(t, d) => {
                self.tp(t, p);
                self.b.extend(d);
            }
            _ => unreachable!(),
        }
    }
    fn value(&mut self, v: &V, p: Place) {
        match v {
            V::Null => self.b.push(0),
            V::Short(x, c) => {
                self.b.push(*c);
                self.b.extend(x.to_le_bytes());
            }
            V::Int(x, c, f) => {
                self.b.push(*c);
                self.b.extend(wz_int(*x, *f));
            }
            V::Long(x, f) => {
                self.b.push(20);
                self.b.extend(wz_int64(*x, *f));
            }
            V::FloatC(x) => {
                assert!(*x != 0x80);
                self.b.extend([4, *x]);
            }
            V::Float(x) => {
                self.b.extend([4, 0x80]);
                self.b.extend(x.to_bits().to_le_bytes());
            }
            V::Double(x) => {
                self.b.push(5);
                self.b.extend(x.to_bits().to_le_bytes());
            }
            V::Str(x) => {
                self.b.push(8);
                self.block(x);
            }
            _ => {
                self.b.push(9);
                let at = self.b.len();
                self.b.extend([0; 4]);
                self.ext(v, p);
                let len = (self.b.len() - at - 4) as u32;
                self.b[at..at + 4].copy_from_slice(&len.to_le_bytes());
            }
        }
    }
    fn finish(mut self) -> Vec<u8> {
        let fix = std::mem::take(&mut self.fix);
        let mut pool: Vec<((String, bool, Form), i32)> = vec![];
        for (at, x) in fix {
            let key = (x.t.clone(), x.wide, x.form);
            let off = match pool.iter().find(|p| p.0 == key) {
                Some(p) => p.1,
                None => {
                    let o = self.b.len() as i32;
                    self.b.extend(wz_string(self.iv, &x.t, x.wide, x.form));
                    pool.push((key, o));
                    o
                }
            };
            self.b[at..at + 4].copy_from_slice(&off.to_le_bytes());
        }
        self.b
    }
}
/// a complete image block
pub fn image(iv: [u8; 4], top: &[N]) -> Vec<u8> {
    let mut e = Enc::new(iv);
    e.b.push(0x73);
    e.b.extend(wz_string(iv, "Property", false, Form::Auto));
    e.b.extend([0, 0]);
    e.list(top);
    e.finish()
}

// ------------------------------------------------------------------ trees (expected and observed)
/// A tree in comparable form; values are bit-exact text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T {
    pub name: String,
    pub v: String,
    pub kids: Vec<T>,
}
impl T {
    pub fn sort(&mut self) {
        for k in &mut self.kids {
            k.sort();
        }
        self.kids.sort_by(|a, b| a.name.cmp(&b.name));
    }
    pub fn sorted(mut self) -> T {
        self.sort();
        self
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o
    }
    fn w(&self, o: &mut String, d: usize) {
        let _ = write!(o, "{}{}={};", "·".repeat(d), self.name, self.v);
        for k in &self.kids {
            k.w(o, d + 1);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn at(&self, name: &str) -> Option<&T> {
        self.kids.iter().find(|k| k.name == name)
    }
    pub fn path(&self, path: &str) -> Option<&T> {
        let mut t = self;
        for p in path.split('/') {
            t = t.at(p)?;
        }
        Some(t)
    }
}
fn bytes_text(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("[{}]{}", b.len(), hex(b))
    } else {
        format!("[{}]#{:016x}", b.len(), crate::core::fnv(b))
    }
}
/// expected value text of a model value
pub fn vtext(v: &V) -> String {
    match v {
        V::Null | V::Unknown(..) => "Null".into(),
        V::Short(x, _) => format!("Short {x}"),
        V::Int(x, ..) => format!("Int {x}"),
        V::Long(x, _) => format!("Long {x}"),
        V::FloatC(x) => format!("Float {:08x}", (*x as f32).to_bits()),
        V::Float(x) => format!("Float {:08x}", x.to_bits()),
        V::Double(x) => format!("Double {:016x}", x.to_bits()),
        V::Str(x) => format!("Str {:?}", x.t),
        V::Sub(_) => "Sub".into(),
        V::Canvas(c) => format!("Canvas {}x{} fmt={} pages={} hdr={}", c.w, c.h, fmt_name(c.f1 as u32 as u64 + c.f2 as u32 as u64), c.pages, u16::from_le_bytes([c.data[0], c.data[1]])),
        V::Convex(_) => "Convex".into(),
        V::Vector(x, y, _) => format!("Vector {x},{y}"),
        V::Sound(x) => format!("Sound dur={} kind={} data={}", x.duration, sound_kind(x), bytes_text(&sound_bytes(x))),
        V::Uol(x) => format!("Uol {:?}", x.t),
        V::Raw { data, .. } => format!("Raw {}", bytes_text(data)),
        V::Video(d) => format!("Video {}", bytes_text(d)),
    }
}
pub fn fmt_name(f: u64) -> &'static str {
    match f {
        1 => "BGRA4444",
        2 => "BGRA8888",
        257 => "ARGB1555",
        513 => "RGB565",
        517 => "RGB565_517",
        4097 => "DXT1",
        1026 => "DXT3",
        3 => "DXT3SM",
        2050 => "DXT5",
        4098 => "BC7",
        769 => "R16",
        2304 => "A8",
        2562 => "RGBA1010102",
        4100 => "RGBA32Float",
        _ => "Unknown",
    }
}
pub fn sound_kind(x: &Sound) -> &'static str {
    if x.header.len() == 0x46 {
        let f = u32::from_le_bytes(x.header[0x38..0x3c].try_into().unwrap());
        if f == x.data.len() as u32 && x.duration == 1000 {
            "Binary"
        } else {
            "Wav"
        }
    } else {
        "Mp3"
    }
}
/// bytes a sound extracts to
pub fn sound_bytes(x: &Sound) -> Vec<u8> {
    if sound_kind(x) != "Wav" {
        return x.data.clone();
    }
    let n = x.data.len() as u32;
    let mut o = vec![];
    o.extend(b"RIFF");
    o.extend((n + 36).to_le_bytes());
    o.extend(b"WAVEfmt ");
    o.extend(16u32.to_le_bytes());
    o.extend(&x.header[0x34..0x44]);
    o.extend(b"data");
    o.extend(n.to_le_bytes());
    o.extend(&x.data);
    o
}
pub fn model_kids(v: &V) -> Vec<T> {
    match v {
        V::Sub(l) => model(l),
        V::Canvas(Canvas { kids: Some(k), .. }) => model(k),
        V::Raw { ver: 1, kids: Some(k), .. } => model(k),
        V::Convex(l) => l.iter().enumerate().map(|(i, x)| T { name: i.to_string(), v: vtext(x), kids: model_kids(x) }).collect(),
        _ => vec![],
    }
}
pub fn model(l: &[N]) -> Vec<T> {
    l.iter().map(|x| T { name: x.name.t.clone(), v: vtext(&x.v), kids: model_kids(&x.v) }).collect()
}

// ------------------------------------------------------------------ observed trees
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

/// value text of a real node
pub fn obs(n: &WzNode) -> String {
    match &n.object_type {
        WzObjectType::Value(v) => match v {
            WzValue::Null => "Null".into(),
            WzValue::Short(x) => format!("Short {x}"),
            WzValue::Int(x) => format!("Int {x}"),
            WzValue::Long(x) => format!("Long {x}"),
            WzValue::Float(x) => format!("Float {:08x}", x.to_bits()),
            WzValue::Double(x) => format!("Double {:016x}", x.to_bits()),
            WzValue::String(x) => match x.get_string() {
                Ok(t) => format!("Str {t:?}"),
                Err(e) => format!("Str error {e}"),
            },
            WzValue::UOL(x) => match x.get_string() {
                Ok(t) => format!("Uol {t:?}"),
                Err(e) => format!("Uol error {e}"),
            },
            WzValue::ParsedString(t) => format!("Parsed {t:?}"),
            WzValue::Vector(v) => format!("Vector {},{}", v.0, v.1),
            WzValue::RawData(x) => format!("Raw {}", bytes_text(x.get_buffer())),
            WzValue::Video(x) => format!("Video {}", bytes_text(x.get_buffer())),
            WzValue::Lua(x) => match x.extract_lua() {
                Ok(t) => format!("Lua {t:?}"),
                Err(e) => format!("Lua error {e}"),
            },
        },
        WzObjectType::Property(p) => match p {
            WzSubProperty::Property => "Sub".into(),
            WzSubProperty::Convex => "Convex".into(),
            WzSubProperty::PNG(x) => format!("Canvas {}x{} fmt={:?} pages={} hdr={}", x.width, x.height, x.format(), x.pages, x.header),
            WzSubProperty::Sound(x) => format!("Sound dur={} kind={:?} data={}", x.duration as i32, x.sound_type, bytes_text(&x.get_buffer())),
        },
        WzObjectType::File(_) => "File".into(),
        WzObjectType::MsFile(_) => "MsFile".into(),
        WzObjectType::Image(_) => "Image".into(),
        WzObjectType::MsImage(_) => "MsImage".into(),
        WzObjectType::Directory(_) => "Dir".into(),
    }
}
/// observed tree below a node; checks names and parent links on the way. Children that are links
/// resolved to another place (their parent is not this node) are shown as "->path".
pub fn dump(a: &WzNodeArc) -> Result<T, String> {
    dump_d(a, 0)
}
fn dump_d(a: &WzNodeArc, d: usize) -> Result<T, String> {
    if d > 300 {
        return Err("tree deeper than 300".into());
    }
    let r = a.read().map_err(|_| "poisoned node")?;
    let mut kids = vec![];
    for (name, k) in r.children.iter() {
        let (par, kname) = {
            let kr = k.read().map_err(|_| "poisoned node")?;
            (kr.parent.upgrade(), kr.name.to_string())
        };
        let own = match &par {
            Some(p) => std::sync::Arc::ptr_eq(p, a),
            None => false,
        };
        if own && kname == name.as_str() {
            kids.push(dump_d(k, d + 1)?);
        } else {
            kids.push(T { name: name.to_string(), v: format!("->{}", path_up(k)), kids: vec![] });
        }
    }
    let mut t = T { name: r.name.to_string(), v: obs(&r), kids };
    t.kids.sort_by(|a, b| a.name.cmp(&b.name));
    Ok(t)
}
/// path by following parents, one lock at a time
pub fn path_up(a: &WzNodeArc) -> String {
    let mut parts = vec![];
    let mut cur = Some(a.clone());
    while let Some(c) = cur {
        let r = c.read().unwrap();
        parts.push(r.name.to_string());
        let p = r.parent.upgrade();
        drop(r);
        cur = p;
    }
    parts.reverse();
    parts.join("/")
}
/// first difference between two sorted trees
pub fn diff(exp: &T, got: &T, at: &str) -> Option<String> {
    let here = if at.is_empty() { exp.name.clone() } else { format!("{at}/{}", exp.name) };
    if exp.name != got.name {
        return Some(format!("at {here:?}: name is {:?}", got.name));
    }
    if exp.v != got.v {
        return Some(format!("at {here:?}: value is <{}>, stored <{}>", got.v, exp.v));
    }
    let en: Vec<&str> = exp.kids.iter().map(|k| k.name.as_str()).collect();
    let gn: Vec<&str> = got.kids.iter().map(|k| k.name.as_str()).collect();
    if en != gn {
        let miss: Vec<&&str> = en.iter().filter(|x| !gn.contains(x)).take(5).collect();
        let extra: Vec<&&str> = gn.iter().filter(|x| !en.contains(x)).take(5).collect();
        return Some(format!("at {here:?}: {} children instead of {}; missing {miss:?}, extra {extra:?}", gn.len(), en.len()));
    }
    for (e, g) in exp.kids.iter().zip(&got.kids) {
        if let Some(d) = diff(e, g, &here) {
            return Some(d);
        }
    }
    None
}
pub fn same(exp: &T, got: &T) -> Result<(), String> {
    match diff(&exp.clone().sorted(), &got.clone().sorted(), "") {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
