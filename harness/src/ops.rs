//! C10 parse, unparse and re-parse in any order.
//!
//! The model is a graph of node objects. Parsing an object that is not parsed makes new child
//! objects (directories below come parsed with it); unparsing drops them. Objects that were
//! dropped from the tree but are still held by the caller stay usable and are operated on too.
use crate::core::*;
use crate::crypt::*;
use crate::img::*;
use crate::ms::{pe, Pack};
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::collections::HashMap;
use std::path::PathBuf;
use wz_reader::util::{node_util, walk_node};
use wz_reader::*;

/// what a stored node is, and what parsing it gives
#[derive(Clone, Debug)]
pub enum Sk {
    File,
    Dir,
    /// content, or None when parsing it fails
    Img(Option<Vec<N>>),
    MsFile,
    MsImg(Option<Vec<N>>),
}
#[derive(Clone, Debug)]
pub struct Sn {
    pub name: String,
    pub k: Sk,
    pub kids: Vec<Sn>,
    /// parsing fails
    pub bad: bool,
}
fn sn(name: &str, k: Sk, kids: Vec<Sn>) -> Sn {
    Sn { name: name.into(), k, kids, bad: false }
}
#[derive(Clone)]
struct Ob {
    at: Vec<usize>,
    parsed: bool,
    kids: Vec<usize>,
    /// a pack image that was parsed once is an ordinary image from then on
    plain: bool,
    parent: Option<usize>,
}
struct Model<'a> {
    root: &'a Sn,
    o: Vec<Ob>,
}
impl<'a> Model<'a> {
    fn new(root: &'a Sn) -> Self {
        Model { root, o: vec![Ob { at: vec![], parsed: false, kids: vec![], plain: false, parent: None }] }
    }
    fn s(&self, i: usize) -> &'a Sn {
        self.o[i].at.iter().fold(self.root, |x, k| &x.kids[*k])
    }
    fn parse(&mut self, i: usize) -> bool {
        if self.o[i].parsed {
            return true;
        }
        let s = self.s(i);
        if s.bad || matches!(&s.k, Sk::Img(None) | Sk::MsImg(None)) {
            return false;
        }
        // a directory whose own nested directory is damaged fails as a whole
        fn bad_dir(s: &Sn) -> bool {
            s.kids.iter().any(|k| matches!(k.k, Sk::Dir) && (k.bad || bad_dir(k)))
        }
        if bad_dir(s) {
            return false;
        }
        self.o[i].parsed = true;
        if matches!(s.k, Sk::MsImg(_)) {
            self.o[i].plain = true;
        }
        for (k, c) in s.kids.iter().enumerate() {
            let mut at = self.o[i].at.clone();
            at.push(k);
            self.o.push(Ob { at, parsed: false, kids: vec![], plain: false, parent: Some(i) });
            let id = self.o.len() - 1;
            self.o[i].kids.push(id);
            if matches!(c.k, Sk::Dir) {
                self.parse(id);
            }
        }
        true
    }
    fn unparse(&mut self, i: usize) {
        let s = self.s(i);
        if matches!(s.k, Sk::MsImg(_)) && !self.o[i].plain {
            return;
        }
        self.o[i].parsed = false;
        self.o[i].kids.clear();
    }
    fn child(&self, i: usize, name: &str) -> Option<usize> {
        self.o[i].kids.iter().copied().find(|k| self.s(*k).name == name)
    }
    fn content(&self, i: usize) -> Option<&'a Vec<N>> {
        match &self.s(i).k {
            Sk::Img(Some(t)) | Sk::MsImg(Some(t)) => Some(t),
            _ => None,
        }
    }
    fn walk(&mut self, i: usize) {
        self.parse(i);
        for k in self.o[i].kids.clone() {
            self.walk(k);
        }
        let img = match &self.s(i).k {
            Sk::Img(_) => true,
            Sk::MsImg(_) => self.o[i].plain,
            _ => false,
        };
        if img {
            self.unparse(i);
        }
    }
    fn t(&self, i: usize) -> T {
        let s = self.s(i);
        let o = &self.o[i];
        let v = match &s.k {
            Sk::File => "File",
            Sk::Dir => "Dir",
            Sk::Img(_) => "Image",
            Sk::MsFile => "MsFile",
            Sk::MsImg(_) if o.plain => "Image",
            Sk::MsImg(_) => "MsImage",
        };
        let mut kids: Vec<T> = o.kids.iter().map(|k| self.t(*k)).collect();
        if o.parsed {
            if let Some(c) = self.content(i) {
                kids = model(c);
                // the link of every sample image leads to its sibling
                let mut path = self.root.name.clone();
                let mut x = self.root;
                for k in &o.at {
                    x = &x.kids[*k];
                    path = format!("{path}/{}", x.name);
                }
                for k in kids.iter_mut().flat_map(|k| &mut k.kids).filter(|k| k.name == "u") {
                    *k = T { name: "u".into(), v: format!("->{path}/s"), kids: vec![] };
                }
            }
        }
        T { name: s.name.clone(), v: v.into(), kids }
    }
    /// a path below object i: the content of images included
    fn at(&self, i: usize, path: &str) -> Option<String> {
        self.t(i).path(path).map(|t| t.v.clone())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Parse(usize),
    Unparse(usize),
    At(usize, String),
    AtParsed(usize, String),
    Lazy(usize, String),
    Walk(usize, bool),
    /// operations on nodes inside a parsed image change nothing
    Inner(usize),
}
fn apply(m: &mut Model, op: &Op) {
    match op {
        Op::Parse(i) => {
            m.parse(*i);
        }
        Op::Unparse(i) => m.unparse(*i),
        Op::Walk(i, true) => m.walk(*i),
        Op::AtParsed(i, p) => {
            at_parsed(m, *i, p);
        }
        _ => {}
    }
}
/// value at the path, parsing on the way
fn at_parsed(m: &mut Model, i: usize, path: &str) -> Option<String> {
    let parts: Vec<&str> = path.split('/').collect();
    let mut cur = i;
    for (k, p) in parts.iter().enumerate() {
        let find = |m: &Model, cur: usize| -> Option<Result<usize, ()>> {
            match m.child(cur, p) {
                Some(c) => Some(Ok(c)),
                None if m.o[cur].parsed && m.content(cur).is_some() => Some(Err(())),
                None => None,
            }
        };
        let mut f = find(m, cur);
        if f.is_none() && k > 0 {
            if !m.parse(cur) {
                return None;
            }
            f = find(m, cur);
        }
        match f {
            Some(Ok(c)) => cur = c,
            Some(Err(())) => return m.at(cur, &parts[k..].join("/")),
            None => return None,
        }
    }
    Some(m.t(cur).v)
}
fn kind_text(n: &WzNodeArc) -> String {
    obs(&n.read().unwrap())
}
fn flag(n: &WzNodeArc) -> bool {
    match &n.read().unwrap().object_type {
        WzObjectType::File(f) => f.is_parsed,
        WzObjectType::Directory(f) => f.is_parsed,
        WzObjectType::Image(f) => f.is_parsed,
        WzObjectType::MsFile(f) => f.is_parsed,
        _ => false,
    }
}
struct Real {
    o: Vec<WzNodeArc>,
}
fn sync(m: &Model, r: &mut Real) -> R {
    while r.o.len() < m.o.len() {
        let i = r.o.len();
        let p = m.o[i].parent.unwrap();
        // an object made and dropped within one step is never seen
        let n = if m.o[p].kids.contains(&i) { r.o[p].read().unwrap().children.get(m.s(i).name.as_str()).cloned() } else { Some(WzNode::empty().into_lock()) };
        r.o.push(n.ok_or_else(|| format!("{:?} is missing below {:?}", m.s(i).name, m.s(p).name))?);
    }
    Ok(())
}
fn gone(m: &Model, i: usize, born: &[bool]) -> bool {
    let _ = m;
    !born[i]
}
fn check_state(m: &Model, r: &Real, born: &[bool], st: &mut Stats) -> R {
    // every object still held that is not inside the tree of another one
    for i in 0..m.o.len() {
        if gone(m, i, born) {
            continue;
        }
        let top = m.o[i].parent.is_none_or(|p| !m.o[p].kids.contains(&i));
        if top {
            let got = dump(&r.o[i])?;
            same(&m.t(i), &got)?;
            st.states += got.count() as u64;
        }
        let ms_raw = matches!(m.s(i).k, Sk::MsImg(_)) && !m.o[i].plain;
        if !ms_raw {
            ensure_eq!(flag(&r.o[i]), m.o[i].parsed, "parsed flag of {:?} (object {i})", m.s(i).name);
        }
    }
    Ok(())
}
#[derive(Clone)]
pub struct World {
    pub root: Sn,
    pub open: fn(&World) -> Result<WzNodeArc, String>,
    pub file: &'static str,
    pub bytes: std::sync::Arc<Vec<u8>>,
    pub ver: Option<i32>,
    pub iv: [u8; 4],
}
#[derive(Clone)]
struct Case10 {
    w: World,
    wname: &'static str,
    ops: Vec<Op>,
}
impl std::fmt::Debug for Case10 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} ops {:?}", self.wname, self.ops)
    }
}
/// the file is written once per process
fn cached_path(name: &str, b: &[u8]) -> PathBuf {
    thread_local!(static S: std::cell::RefCell<HashMap<(String, u64), PathBuf>> = Default::default());
    let key = (name.to_string(), fnv(b));
    S.with(|s| {
        s.borrow_mut()
            .entry(key.clone())
            .or_insert_with(|| {
                let d = scratch().join(format!("{:x}", key.1));
                std::fs::create_dir_all(&d).unwrap();
                let p = d.join(name);
                std::fs::write(&p, b).unwrap();
                p
            })
            .clone()
    })
}
fn open_wz(w: &World) -> Result<WzNodeArc, String> {
    let p = cached_path(w.file, &w.bytes);
    WzNode::from_wz_file_full(&p, None, w.ver, None, None).map(|n| n.into_lock()).map_err(|e| e.to_string())
}
fn open_ms(w: &World) -> Result<WzNodeArc, String> {
    let p = cached_path(w.file, &w.bytes);
    WzNode::from_ms_file(&p, None).map(|n| n.into_lock()).map_err(|e| e.to_string())
}
fn open_im(w: &World) -> Result<WzNodeArc, String> {
    let p = cached_path(w.file, &w.bytes);
    WzNode::from_img_file_with_iv(&p, w.iv, None).map(|n| n.into_lock()).map_err(|e| e.to_string())
}
fn run10(c: &Case10, st: &mut Stats) -> R {
    let mut m = Model::new(&c.w.root);
    let root = (c.w.open)(&c.w)?;
    let mut r = Real { o: vec![root] };
    let mut born = vec![true];
    for (step, op) in c.ops.iter().enumerate() {
        let e = |x: String| format!("step {step} {op:?}: {x}");
        match op {
            Op::Parse(i) => {
                let want = m.parse(*i);
                let got = node_util::parse_node(&r.o[*i]);
                ensure_eq!(got.is_ok(), want, "step {step} {op:?}: success ({:?})", got.err().map(|x| x.to_string()));
            }
            Op::Unparse(i) => {
                m.unparse(*i);
                r.o[*i].write().map_err(|_| "poisoned")?.unparse();
            }
            Op::At(i, p) => {
                let want = m.at(*i, p);
                let got = r.o[*i].read().unwrap().at_path(p).map(|x| kind_text(&x));
                ensure_eq!(got, want, "step {step} {op:?}");
            }
            Op::AtParsed(i, p) => {
                let want = at_parsed(&mut m, *i, p);
                let got = r.o[*i].read().unwrap().at_path_parsed(p).ok().map(|x| kind_text(&x));
                ensure_eq!(got, want, "step {step} {op:?}");
            }
            Op::Lazy(i, p) => {
                // only images on the way may be unparsed
                let mut parts = p.split('/');
                let mut cur = Some(*i);
                let mut rest = p.as_str();
                while let Some(c) = cur {
                    if m.content(c).is_some() || matches!(m.s(c).k, Sk::Img(None)) {
                        break;
                    }
                    let Some(x) = parts.next() else {
                        cur = None;
                        break;
                    };
                    rest = rest.strip_prefix(x).unwrap().trim_start_matches('/');
                    cur = m.child(c, x);
                }
                let want = cur.and_then(|c| {
                    let ob = &m.o[c];
                    // a pack image has to be parsed first
                    if matches!(m.s(c).k, Sk::MsImg(_)) && !ob.plain {
                        return None;
                    }
                    let mut t = T { name: "".into(), v: "".into(), kids: vec![] };
                    t.kids = model(m.content(c)?);
                    t.path(rest).map(|t| t.v.clone())
                });
                let got = if matches!(m.s(*i).k, Sk::Img(_)) {
                    r.o[*i].read().unwrap().try_as_image().and_then(|x| x.at_path(p).ok())
                } else {
                    node_util::get_node_without_parse(&r.o[*i], p)
                };
                let got = got.map(|x| kind_text(&x));
                // a damaged image may still show what lies before the damage
                let damaged = cur.is_some_and(|c| matches!(m.s(c).k, Sk::Img(None) | Sk::MsImg(None)));
                ensure!(!damaged || matches!(got.as_deref(), None | Some("Int 9" | "Sub")), "step {step} {op:?}: {got:?} in a damaged image");
                let got = if damaged { None } else { got };
                ensure_eq!(got, want, "step {step} {op:?}");
            }
            Op::Walk(i, force) => {
                if *force {
                    m.walk(*i);
                }
                let seen = std::cell::Cell::new(0usize);
                walk_node(&r.o[*i], *force, &|_| seen.set(seen.get() + 1));
                if !force {
                    ensure_eq!(seen.get(), m.t(*i).count(), "step {step} {op:?}: visited nodes");
                }
            }
            Op::Inner(i) => {
                let kids: Vec<WzNodeArc> = r.o[*i].read().unwrap().children.values().cloned().collect();
                for k in kids {
                    node_util::parse_node(&k).map_err(|x| e(x.to_string()))?;
                    k.write().unwrap().unparse();
                }
            }
        }
        while born.len() < m.o.len() {
            let i = born.len();
            born.push(m.o[i].parent.is_some_and(|p| m.o[p].kids.contains(&i) && born[p]));
        }
        sync(&m, &mut r).map_err(e)?;
        check_state(&m, &r, &born, st).map_err(|x| format!("after step {step} {op:?}: {x}"))?;
        st.transitions += 1;
    }
    st.observe(&m.t(0).show());
    st.traces += 1;
    Ok(())
}
/// every operation that makes sense in a state
fn ops(m: &Model, few: bool, stale: bool) -> Vec<Op> {
    let mut v = vec![];
    let mut reach = vec![0usize];
    let mut q = 0;
    while q < reach.len() {
        reach.extend(m.o[reach[q]].kids.clone());
        q += 1;
    }
    let objs: Vec<usize> = if stale { (0..m.o.len()).collect() } else { reach.clone() };
    for i in &objs {
        v.push(Op::Parse(*i));
        v.push(Op::Unparse(*i));
    }
    if few {
        return v;
    }
    for i in &objs {
        v.push(Op::Walk(*i, true));
        if m.content(*i).is_some() && m.o[*i].parsed {
            v.push(Op::Inner(*i));
        }
    }
    v.push(Op::Walk(0, false));
    fn paths(s: &Sn, pre: &str, out: &mut Vec<String>) {
        for k in &s.kids {
            let p = if pre.is_empty() { k.name.clone() } else { format!("{pre}/{}", k.name) };
            match &k.k {
                Sk::Img(_) => {
                    out.push(format!("{p}/info/x"));
                    out.push(format!("{p}/absent"));
                }
                Sk::MsImg(_) => out.push(format!("{p}/info/x")),
                _ => paths(k, &p, out),
            }
        }
    }
    let mut ps = vec![];
    paths(m.root, "", &mut ps);
    if matches!(m.root.k, Sk::Img(_)) {
        ps = vec!["info/x".into(), "info".into(), "absent/x".into()];
    }
    for p in ps {
        v.push(Op::AtParsed(0, p.clone()));
        v.push(Op::Lazy(0, p.clone()));
        v.push(Op::At(0, p));
    }
    v
}
fn body(i: i32) -> Vec<N> {
    vec![n("info", V::Sub(vec![n("x", int(i)), n("u", V::Uol(s("../s")))])), n("c", small_canvas(Some(vec![n("origin", V::Vector(1, i, Form::Auto))]))), n("s", st("text"))]
}
/// an image whose last child has a value type that does not exist
fn cut(iv: [u8; 4]) -> Vec<u8> {
    let mut b = image(iv, &[body(9), vec![n("z", V::Null)]].concat());
    *b.last_mut().unwrap() = 99;
    b
}
/// an image of another type
fn odd(iv: [u8; 4]) -> Vec<u8> {
    let mut b = vec![0x73];
    b.extend(wz_string(iv, "Pr0perty", false, Form::Auto));
    b.extend([1, 0, 0]);
    b
}
fn from_ents(l: &[Ent]) -> Vec<Sn> {
    l.iter()
        .map(|e| match &e.k {
            crate::pkg::K::Dir(k, _) => sn(&e.name.t, Sk::Dir, from_ents(k)),
            crate::pkg::K::Img(_, top) => sn(&e.name.t, Sk::Img(top.clone()), vec![]),
        })
        .collect()
}
fn raw_img(name: &str, b: Vec<u8>) -> Ent {
    Ent::new(name, crate::pkg::K::Img(b, None))
}
pub fn world(k: usize) -> (&'static str, World) {
    let iv = GMS;
    let wz = |a: Arch, ver: Option<i32>| -> World {
        let root = sn("W", Sk::File, from_ents(&a.ents));
        World { root, open: open_wz, file: "W.wz", bytes: std::sync::Arc::new(a.build()), ver, iv }
    };
    let ms = |gen: u8, bad: bool| -> World {
        let mut e1 = pe("Mob/1.img", body(1));
        if bad {
            e1.bytes = cut(BMS);
        }
        let ents = vec![e1, pe("Mob/2.img", body(2))];
        let p = Pack::new(gen, "P.ms", b"some salt", ents);
        let kids = p.ents.iter().map(|e| sn(&e.name, Sk::MsImg(if e.bytes == cut(BMS) { None } else { Some(e.top.clone()) }), vec![])).collect();
        World { root: sn("P", Sk::MsFile, kids), open: open_ms, file: "P.ms", bytes: std::sync::Arc::new(p.build()), ver: None, iv: BMS }
    };
    match k {
        0 => ("archive", wz(Arch::p1(83, iv, vec![dir("d", vec![dir("e", vec![img("1.img", iv, body(1))]), img("2.img", iv, body(2))]), img("3.img", iv, body(3))]), Some(83))),
        1 => ("archive with damaged images", wz(Arch::p1(83, iv, vec![dir("d", vec![raw_img("1.img", cut(iv)), img("2.img", iv, body(2))]), raw_img("3.img", odd(iv))]), Some(83))),
        2 => (
            "second-generation archive",
            wz(
                Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: 0x1234567890ABCDEF, t: 0x0FEDCBA987654321, count: 0x1234 }, head: Head::Rand150, iv: BMS, ents: vec![dir("d", vec![img("1.img", BMS, body(1))]), img("3.img", BMS, body(3))], layout: Layout::Plain },
                None,
            ),
        ),
        3 => ("pack v1", ms(1, false)),
        4 => ("pack v2", ms(2, true)),
        5 => ("image", World { root: sn("I.img", Sk::Img(Some(body(4))), vec![]), open: open_im, file: "I.img", bytes: std::sync::Arc::new(image(iv, &body(4))), ver: None, iv }),
        6 => ("damaged image", World { root: sn("I.img", Sk::Img(None), vec![]), open: open_im, file: "I.img", bytes: std::sync::Arc::new(cut(iv)), ver: None, iv }),
        7 => {
            // the block of the inner directory is damaged: its entry count is negative
            let a = Arch::p1(83, iv, vec![img("3.img", iv, body(3)), dir("d", vec![img("2.img", iv, body(2))])]);
            let (mut b, m) = a.build_map();
            let at = m.iter().find(|x| x.0 == "d").map(|x| x.1).expect("directory block");
            b[at] = 0xFE;
            let mut root = sn("W", Sk::File, from_ents(&a.ents));
            root.kids[1].bad = true;
            ("archive with a damaged directory", World { root, open: open_wz, file: "W.wz", bytes: std::sync::Arc::new(b), ver: Some(83), iv })
        }
        _ => {
            // a directory inside a directory is damaged: the upper one cannot be parsed either
            let a = Arch::p1(83, iv, vec![dir("d", vec![dir("e", vec![img("1.img", iv, body(1))]), img("2.img", iv, body(2))])]);
            let (mut b, m) = a.build_map();
            let at = m.iter().find(|x| x.0 == "e").map(|x| x.1).expect("directory block");
            b[at] = 2;
            b[at + 1] = 77;
            let mut root = sn("W", Sk::File, from_ents(&a.ents));
            root.kids[0].kids[0].bad = true;
            ("archive with a damaged inner directory", World { root, open: open_wz, file: "W.wz", bytes: std::sync::Arc::new(b), ver: Some(83), iv })
        }
    }
}
pub const WORLDS: usize = 9;
fn worlds() -> &'static Vec<(&'static str, World)> {
    static S: std::sync::OnceLock<Vec<(&'static str, World)>> = std::sync::OnceLock::new();
    S.get_or_init(|| (0..WORLDS).map(world).collect())
}
fn history(name: &'static str, rule: String, which: &'static [usize], depth: usize, pre: usize, few: bool, stale: bool) -> Family {
    Family::new(
        name,
        rule,
        0,
        move |ch| {
            let k = *ch.of(which);
            let (wname, w) = &worlds()[k];
            let mut m = Model::new(&w.root);
            let mut l = vec![];
            // start from a parsed root when asked to
            if pre > 0 {
                l.push(Op::Parse(0));
                apply(&mut m, &Op::Parse(0));
            }
            for _ in 0..depth {
                let o = ops(&m, few, stale);
                let op = ch.of(&o).clone();
                apply(&mut m, &op);
                l.push(op);
            }
            Some(Case10 { w: w.clone(), wname, ops: l })
        },
        run10,
    )
}
pub fn c10(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let d = t.q(4, 5);
    f.push(history("all operations, archives", format!("a classic archive with nested directories, one with damaged images, one with a damaged directory, one with a damaged inner directory, a second-generation archive: every sequence of {d} operations (parse, unparse, walk with and without parsing, lookups with, without and by parsing) on the nodes of the tree"), &[0, 1, 2, 7, 8], d - 1, 1, false, false));
    f.push(history("from the start", format!("the same from the unparsed file, {d} operations"), &[0, 1, 2, 7, 8], d, 0, false, false));
    f.push(history("all operations, packs and images", format!("packs of both generations (one with a damaged image) and standalone images (one damaged): every sequence of {} operations", d + 1), &[3, 4, 5, 6], d, 1, false, false));
    let e = t.q(6, 7);
    f.push(history("parse and unparse", format!("packs and images: every sequence of {e} parse and unparse operations"), &[3, 4, 5, 6], e, 0, true, false));
    f.push(history("parse and unparse, archives", format!("archives: every sequence of {} parse and unparse operations after parsing the archive", t.q(5, 6)), &[0, 1, 2], t.q(5, 6), 1, true, false));
    f.push(history("held nodes", format!("the same operations also on nodes the caller holds after they left the tree: every sequence of {} operations", t.q(3, 4)), &[0, 1, 2, 3, 4], t.q(3, 4), 1, false, true));
    f.push(history("held nodes, parse and unparse", format!("every sequence of {} parse and unparse operations on held nodes", t.q(4, 5)), &[0, 1, 3, 4], t.q(4, 5), 1, true, true));
    f
}
