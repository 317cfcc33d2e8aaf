//! C09 concurrent use of one tree.
//!
//! Every execution builds the tree anew, with keys of its own, and lets the threads work on it.
//! What the threads saw and the tree they leave is compared with what the same operations give in
//! every serial order.
use crate::core::*;
use crate::crypt::*;
use crate::explore::*;
use crate::img::*;
use crate::ms::{pe, Pack};
use crate::pkg::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Arc;
use wz_reader::property::{get_image, resolve_string_from_node, WzValue};
use wz_reader::util::{node_util, string_decryptor::{Decryptor, GLOBAL_STRING_DECRYPTOR}, walk_node};
use wz_reader::*;
use wzshim::ctl;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum World {
    /// an image of its own
    Image,
    /// a classic archive named Base with a directory of two images
    Archive,
    /// a pack
    Pack,
    /// nodes made by hand
    Plain,
}
/// one operation; the places are the nodes the threads hold before they start
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Parse(&'static str),
    /// parse and take the children under the same guard
    ParseGet(&'static str),
    Unparse(&'static str),
    At(&'static str, &'static str),
    AtParsed(&'static str, &'static str),
    NoParse(&'static str, &'static str),
    Relative(&'static str, &'static str),
    /// look up in the stored image
    Lazy(&'static str, &'static str),
    FullPath(&'static str),
    FromRoot(&'static str),
    FromImage(&'static str),
    ParentImage(&'static str),
    BaseFile(&'static str),
    Inlink(&'static str),
    Outlink(&'static str, bool),
    Picture(&'static str),
    Text(&'static str),
    Uol(&'static str),
    Walk(&'static str, bool),
    Json(&'static str),
    FullJson(&'static str),
    /// state and children under one guard
    Look(&'static str),
    /// the nodes under it get their parents again
    Parents(&'static str),
}
impl Op {
    /// it looks at several nodes that others may change in between
    fn compound(&self) -> bool {
        matches!(self, Op::Walk(..) | Op::Json(..) | Op::FullJson(..) | Op::Picture(..))
    }
}
/// what one operation gave: parts, and nodes by what they were asked for
#[derive(Default)]
pub struct Res {
    parts: BTreeMap<String, String>,
    nodes: Vec<(String, WzNodeArc)>,
}
pub struct Tree {
    root: WzNodeArc,
    held: Vec<(String, WzNodeArc)>,
}
/// the part of a path that ends with the first image
fn part_of(path: &str) -> String {
    let mut o = vec![];
    for p in path.split('/') {
        o.push(p);
        if p.ends_with(".img") {
            break;
        }
    }
    o.join("/")
}
fn err<E: std::fmt::Debug>(e: E) -> String {
    let s = format!("{e:?}");
    format!("error {}", s.split(['(', ' ', '{']).next().unwrap_or(""))
}
fn act(o: Op, held: &[(String, WzNodeArc)]) -> Res {
    let mut r = Res::default();
    let get = |p: &str| held.iter().find(|h| h.0 == p).map(|h| Arc::clone(&h.1)).expect("a node that is held");
    let mut one = |v: String| {
        r.parts.insert(String::new(), v);
    };
    match o {
        Op::Parse(p) => one(node_util::parse_node(&get(p)).map_or_else(err, |_| "ok".into())),
        Op::ParseGet(p) => {
            let n = get(p);
            let mut w = n.write().unwrap();
            one(w.parse(&n).map_or_else(err, |_| "ok".into()));
            r.nodes.extend(w.children.iter().map(|(k, v)| (k.to_string(), Arc::clone(v))));
        }
        Op::Unparse(p) => get(p).write().unwrap().unparse(),
        Op::At(p, q) => {
            let n = get(p).read().unwrap().at_path(q);
            r.nodes.extend(n.map(|n| (q.to_string(), n)));
        }
        Op::AtParsed(p, q) => {
            let n = get(p);
            let x = n.read().unwrap().at_path_parsed(q);
            match x {
                Ok(x) => r.nodes.push((q.into(), x)),
                Err(e) => one(err(e)),
            }
        }
        Op::NoParse(p, q) => {
            let n = node_util::get_node_without_parse(&get(p), q);
            r.nodes.extend(n.map(|n| (q.to_string(), n)));
        }
        Op::Relative(p, q) => {
            let n = get(p);
            let x = n.read().unwrap().at_path_relative(q);
            r.nodes.extend(x.map(|n| (q.to_string(), n)));
        }
        Op::Lazy(p, q) => {
            let n = get(p);
            let g = n.read().unwrap();
            let x = g.try_as_image().expect("an image").at_path(q);
            match x {
                Ok(x) => r.nodes.push((q.into(), x)),
                Err(e) => one(err(e)),
            }
        }
        Op::FullPath(p) => one(get(p).read().unwrap().get_full_path()),
        Op::FromRoot(p) => one(get(p).read().unwrap().get_path_from_root()),
        Op::FromImage(p) => one(get(p).read().unwrap().get_path_from_image()),
        Op::ParentImage(p) => {
            let n = get(p);
            let x = n.read().unwrap().get_parent_wz_image();
            r.nodes.extend(x.map(|n| (String::new(), n)));
        }
        Op::BaseFile(p) => {
            let n = get(p);
            let x = n.read().unwrap().get_base_wz_file();
            r.nodes.extend(x.map(|n| (String::new(), n)));
        }
        Op::Inlink(p) => {
            let n = get(p);
            let x = n.read().unwrap().at("_inlink");
            let t = x.and_then(|x| resolve_string_from_node(&x).ok()).unwrap_or_default();
            r.nodes.extend(node_util::resolve_inlink(&t, &n).map(|n| (t, n)));
        }
        Op::Outlink(p, f) => {
            let n = get(p);
            let x = n.read().unwrap().at("_outlink");
            let t = x.and_then(|x| resolve_string_from_node(&x).ok()).unwrap_or_default();
            r.nodes.extend(node_util::resolve_outlink(&t, &n, f).map(|n| (t, n)));
        }
        Op::Picture(p) => one(match get_image(&get(p)) {
            Ok(x) => format!("{:?}", x.to_rgba8().into_raw()),
            Err(e) => err(e),
        }),
        Op::Text(p) => one(resolve_string_from_node(&get(p)).unwrap_or_else(err)),
        Op::Uol(p) => node_util::resolve_uol(&get(p), None),
        Op::Walk(p, f) => {
            // the nodes visited, and under which label; the walk holds no other locks
            let seen: std::cell::RefCell<(Vec<(WzNodeArc, String)>, Parts)> = Default::default();
            walk_node(&get(p), f, &|n| {
                let (name, up, kind) = {
                    let g = n.read().unwrap();
                    (g.name.to_string(), g.parent.upgrade(), kind(&g))
                };
                let mut s = seen.borrow_mut();
                let of = up.and_then(|u| s.0.iter().find(|x| Arc::ptr_eq(&x.0, &u)).map(|x| x.1.clone()));
                let label = match &of {
                    Some(l) => format!("{l}/{name}"),
                    None => name.clone(),
                };
                s.1.insert(format!("{label} itself"), kind);
                s.1.entry(format!("below {label}")).or_default();
                *s.1.entry(format!("below {}", of.unwrap_or_default())).or_default() += &format!("{name},");
                s.0.push((Arc::clone(n), label));
            });
            r.parts = seen.into_inner().1;
        }
        Op::Json(p) => split_json(p, &get(p).read().unwrap().to_simple_json().map_or_else(|e| err(e).into(), |v| v), &mut r.parts),
        Op::FullJson(p) => {
            let v = get(p).read().unwrap().to_json().map_or_else(|e| serde_json::Value::from(err(e)), |v| v);
            split_json(p, &v, &mut r.parts)
        }
        Op::Look(p) => {
            let n = get(p);
            let g = n.read().unwrap();
            let flag = flag(&g);
            one(format!("{flag} {:?}", g.children.keys().map(|k| k.to_string()).collect::<Vec<_>>()));
        }
        Op::Parents(p) => node_util::resolve_childs_parent(&get(p)),
    }
    r
}
/// what a node is, without touching the keys
fn kind(n: &WzNode) -> String {
    match &n.object_type {
        WzObjectType::Value(WzValue::Int(x)) => format!("Int {x}"),
        WzObjectType::Value(WzValue::String(_)) => "Str".into(),
        WzObjectType::Value(WzValue::UOL(_)) => "Uol".into(),
        _ => obs(n),
    }
}
fn flag(n: &WzNode) -> &'static str {
    let p = match &n.object_type {
        WzObjectType::File(x) => x.is_parsed,
        WzObjectType::Directory(x) => x.is_parsed,
        WzObjectType::Image(x) => x.is_parsed,
        WzObjectType::MsFile(x) => x.is_parsed,
        WzObjectType::MsImage(_) => return "stored",
        _ => return "",
    };
    if p {
        "parsed"
    } else {
        "unparsed"
    }
}
/// one part for each image of an export
fn split_json(at: &str, v: &serde_json::Value, out: &mut BTreeMap<String, String>) {
    if !at.ends_with(".img") {
        if let serde_json::Value::Object(m) = v {
            let mut rest = vec![];
            for (k, x) in m {
                let sub = format!("{at}/{k}");
                if x.is_object() || k.ends_with(".img") {
                    split_json(&sub, x, out);
                    rest.push(format!("{k}: ..."));
                } else {
                    rest.push(format!("{k}: {x}"));
                }
            }
            out.insert(at.into(), rest.join(", "));
            return;
        }
    }
    out.insert(at.into(), v.to_string());
}
struct Fx {
    path: PathBuf,
    bytes: Vec<u8>,
}
fn canvas(kids: Option<Vec<N>>, c: u8) -> V {
    V::Canvas(Canvas { kids, w: 1, h: 1, f1: 2, f2: 0, pages: 0, data: zlib(&[c, c + 1, c + 2, 255], 6) })
}
fn content() -> Vec<N> {
    vec![
        n("x", V::Sub(vec![n("v", int(1)), n("t", st("text")), n("w", V::Sub(vec![n("z", int(2))]))])),
        n("p", canvas(None, 10)),
        n("c", canvas(Some(vec![n("_inlink", st("p"))]), 20)),
        n("o", canvas(Some(vec![n("_outlink", st("d/j.img/p"))]), 30)),
        n("u", V::Uol(s("x/v"))),
    ]
}
fn other() -> Vec<N> {
    vec![n("p", canvas(None, 40)), n("y", int(5))]
}
fn fixture(w: World) -> Fx {
    match w {
        World::Image => Fx { path: PathBuf::new(), bytes: image(GMS, &content()) },
        World::Archive => {
            let a = Arch::p1(83, GMS, vec![dir("d", vec![img("i.img", GMS, content()), img("j.img", GMS, other())])]);
            let b = a.build();
            Fx { path: scratch_file("Base.wz", &b), bytes: b }
        }
        World::Pack => {
            let p = Pack::new(2, "Mob_00000.ms", b"abc", vec![pe("Mob/i.img", content()), pe("Mob/j.img", other())]);
            let b = p.build();
            Fx { path: scratch_file("Mob_00000.ms", &b), bytes: b }
        }
        World::Plain => Fx { path: PathBuf::new(), bytes: vec![] },
    }
}
thread_local! { static FX: std::cell::RefCell<Vec<(World, Arc<Fx>)>> = const { std::cell::RefCell::new(vec![]) }; }
fn fx(w: World) -> Arc<Fx> {
    FX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.iter().find(|x| x.0 == w) {
            return x.1.clone();
        }
        let f = Arc::new(fixture(w));
        c.push((w, f.clone()));
        f
    })
}
/// how keys grow is another matter (C08): here they have
fn grown() -> SharedWzStringDecryptor {
    let k = keys(GMS);
    k.write().unwrap().ensure_key_size(4096).unwrap();
    k
}
/// the tree before the threads start; `parsed` names what is parsed, in order
fn build(w: World, parsed: &[&str]) -> Result<Tree, String> {
    let f = fx(w);
    let mut keys_of: Option<SharedWzStringDecryptor> = None;
    let root = match w {
        World::Image => {
            let k = grown();
            let r = Arc::new(WzReader::from_buff(&f.bytes).with_existing_keys(Arc::clone(&k)));
            keys_of = Some(k);
            WzNode::new(&"i.img".into(), WzImage::new(&"i.img".into(), 0, f.bytes.len(), &r), None).into_lock()
        }
        World::Archive => {
            let k = grown();
            let n = WzNode::from_wz_file_full(&f.path, None, Some(83), None, Some(&k)).map_err(|e| format!("open: {e}"))?;
            keys_of = Some(k);
            n.into_lock()
        }
        World::Pack => WzNode::from_ms_file(&f.path, None).map_err(|e| format!("open: {e}"))?.into_lock(),
        World::Plain => {
            let root = WzNode::from_str("r", WzObjectType::Property(property::WzSubProperty::Property), None).into_lock();
            let add = |p: &WzNodeArc, name: &str, v: WzObjectType| {
                let c = WzNode::from_str(name, v, Some(p)).into_lock();
                p.write().unwrap().add(&c);
                c
            };
            let a = add(&root, "a", WzObjectType::Property(property::WzSubProperty::Property));
            let b = add(&a, "b", WzObjectType::Property(property::WzSubProperty::Property));
            add(&b, "v", 1.into());
            let u = property::WzString::from_str("../b/v", [0; 4]);
            add(&a, "u", WzObjectType::Value(WzValue::UOL(u)));
            let u = property::WzString::from_str("../a/b", [0; 4]);
            add(&root, "e", WzObjectType::Property(property::WzSubProperty::Property));
            let e = root.read().unwrap().at("e").unwrap();
            add(&e, "w", WzObjectType::Value(WzValue::UOL(u)));
            root
        }
    };
    for p in parsed {
        let n = if p.is_empty() { Some(root.clone()) } else { find(&root, p) };
        node_util::parse_node(&n.ok_or_else(|| format!("no {p:?} to parse"))?).map_err(|e| format!("parse {p:?}: {e}"))?;
    }
    if w == World::Pack {
        // grows the keys of its images
        let _ = root.read().unwrap().to_simple_json();
    }
    let mut held = vec![];
    fn go(n: &WzNodeArc, at: String, held: &mut Vec<(String, WzNodeArc)>) {
        let kids: Vec<(String, WzNodeArc)> = n.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), Arc::clone(v))).collect();
        held.push((at.clone(), n.clone()));
        for (k, c) in kids {
            // what a link was resolved to is held under its own place only
            if held.iter().all(|h| !Arc::ptr_eq(&h.1, &c)) && c.read().unwrap().name.as_str() == k {
                go(&c, if at.is_empty() { k } else { format!("{at}/{k}") }, held);
            }
        }
    }
    go(&root, String::new(), &mut held);
    for (i, h) in held.iter().enumerate() {
        ctl::number(i as u64 + 1, &*h.1);
    }
    if let Some(k) = keys_of {
        ctl::leave_out(&*k);
    }
    // what packs and nodes made by hand use
    for iv in [[0; 4], GMS] {
        ctl::leave_out(&*GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv));
    }
    for h in &held {
        if let WzObjectType::Image(i) = &h.1.read().unwrap().object_type {
            ctl::leave_out(&*i.reader.keys);
        }
    }
    Ok(Tree { root, held })
}
/// by names, where a pack has names with slashes
fn find(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
    if path.is_empty() {
        return Some(root.clone());
    }
    let kids: Vec<(String, WzNodeArc)> = root.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), Arc::clone(v))).collect();
    for (k, c) in kids {
        if path == k {
            return Some(c);
        }
        if let Some(rest) = path.strip_prefix(&format!("{k}/")) {
            return find(&c, rest);
        }
    }
    None
}
/// what is left: one part per image, and where the nodes are
fn leftover(t: &Tree) -> Result<Parts, String> {
    let mut parts = parts_of(t)?;
    for (p, n) in &t.held {
        if !in_tree(&t.root, n) {
            *parts.entry(part_of(&format!("/{p}"))).or_default() += &format!("{p} is another node now;");
        }
    }
    Ok(parts)
}
fn parts_of(t: &Tree) -> Result<Parts, String> {
    let mut parts = BTreeMap::new();
    fn go(n: &WzNodeArc, at: String, d: usize, parts: &mut BTreeMap<String, String>) -> Result<(), String> {
        if d > 50 {
            return Err("the tree left behind is endless".into());
        }
        let g = n.read().map_err(|_| format!("{at:?} is poisoned"))?;
        let f = flag(&g);
        if f == "unparsed" && !g.children.is_empty() {
            return Err(format!("{at:?} is not parsed and has children"));
        }
        let line = format!("{at} {f} {} up to {};", obs(&g), g.parent.upgrade().is_some());
        *parts.entry(part_of(&at)).or_default() += &line;
        let kids: Vec<(String, WzNodeArc)> = g.children.iter().map(|(k, v)| (k.to_string(), Arc::clone(v))).collect();
        drop(g);
        for (k, c) in kids {
            let own = {
                let g = c.read().map_err(|_| "poisoned")?;
                g.parent.upgrade().is_some_and(|p| Arc::ptr_eq(&p, n)) && g.name.as_str() == k
            };
            let sub = format!("{at}/{k}");
            if own {
                go(&c, sub, d + 1, parts)?;
            } else {
                *parts.entry(part_of(&sub)).or_default() += &format!("{sub} -> {};", path_up(&c));
            }
        }
        Ok(())
    }
    go(&t.root, String::new(), 0, &mut parts)?;
    Ok(parts)
}
fn in_tree(root: &WzNodeArc, n: &WzNodeArc) -> bool {
    let mut cur = n.clone();
    for _ in 0..100 {
        if Arc::ptr_eq(&cur, root) {
            return true;
        }
        let (name, p) = {
            let g = cur.read().unwrap();
            (g.name.clone(), g.parent.upgrade())
        };
        let Some(p) = p else { return false };
        if !p.read().unwrap().at(&name).is_some_and(|c| Arc::ptr_eq(&c, &cur)) {
            return false;
        }
        cur = p;
    }
    false
}
type Parts = BTreeMap<String, String>;
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Seen {
    /// per thread and operation
    ops: Vec<Vec<Parts>>,
    left: Parts,
}
fn see(t: &Tree, rs: Vec<Vec<Res>>) -> Result<Seen, String> {
    let ops = rs
        .into_iter()
        .map(|v| {
            v.into_iter()
                .map(|r| {
                    let mut p = r.parts;
                    for (q, n) in r.nodes {
                        let v = {
                            let g = n.read().unwrap();
                            obs(&g)
                        };
                        p.insert(format!("place of {q}"), if in_tree(&t.root, &n) { path_up(&n) } else { "apart".into() });
                        let name = n.read().unwrap().name.clone();
                        p.insert(format!("node {q}"), format!("{name} {v}"));
                    }
                    p
                })
                .collect()
        })
        .collect();
    Ok(Seen { ops, left: leftover(t)? })
}
pub struct Case {
    world: World,
    parsed: Vec<&'static str>,
    threads: Vec<Vec<Op>>,
    bound: Bound,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?} with {:?} parsed: {:?}; {:?}", self.world, self.parsed, self.threads, self.bound)
    }
}
fn serial(c: &Case) -> Result<BTreeSet<Seen>, String> {
    let lens: Vec<usize> = c.threads.iter().map(|t| t.len()).collect();
    let mut out = BTreeSet::new();
    // a link is resolved, or left as it was when somebody else is using the nodes around it
    let links: Vec<(usize, usize)> = c.threads.iter().enumerate().flat_map(|(t, v)| v.iter().enumerate().filter(|o| matches!(o.1, Op::Uol(_))).map(move |(i, _)| (t, i))).collect();
    for (order, skip) in serial_orders(&lens).into_iter().flat_map(|o| (0..1u32 << links.len()).map(move |s| (o.clone(), s))) {
        let t = build(c.world, &c.parsed)?;
        let mut rs: Vec<Vec<Res>> = lens.iter().map(|_| vec![]).collect();
        for th in order {
            let o = c.threads[th][rs[th].len()];
            let at = (th, rs[th].len());
            let given_up = links.iter().position(|l| *l == at).is_some_and(|l| skip >> l & 1 == 1);
            rs[th].push(if given_up { Res::default() } else { act(o, &t.held) });
        }
        out.insert(see(&t, rs)?);
    }
    Ok(out)
}
/// a look along a path is one step per node on it
enum Step {
    Whole,
    At(&'static str),
    ParsedAt(&'static str),
    InImage(&'static str),
}
fn steps(o: Op) -> Vec<Step> {
    match o {
        Op::AtParsed(_, q) => q.split('/').enumerate().map(|(i, n)| if i == 0 { Step::At(n) } else { Step::ParsedAt(n) }).collect(),
        Op::At(_, q) => q.split('/').map(Step::At).collect(),
        Op::NoParse(_, q) => {
            let mut v = vec![];
            let mut rest = q;
            while let Some((n, r)) = rest.split_once('/') {
                v.push(Step::At(n));
                rest = r;
                if n.ends_with(".img") {
                    break;
                }
            }
            v.push(Step::InImage(rest));
            v
        }
        _ => vec![Step::Whole],
    }
}
/// what every order gives when looks along paths are taken step by step
fn stepwise(c: &Case) -> Result<BTreeSet<Seen>, String> {
    let all: Vec<Vec<Vec<Step>>> = c.threads.iter().map(|t| t.iter().map(|o| steps(*o)).collect()).collect();
    let lens: Vec<usize> = all.iter().map(|t| t.iter().map(|o| o.len()).sum()).collect();
    let mut out = BTreeSet::new();
    for order in serial_orders(&lens) {
        let t = build(c.world, &c.parsed)?;
        let mut rs: Vec<Vec<Res>> = lens.iter().map(|_| vec![]).collect();
        // per thread: how many steps of the operation it is at are done, and where it has come to
        let mut at: Vec<(usize, Result<WzNodeArc, String>)> = lens.iter().map(|_| (0, Err(String::new()))).collect();
        for th in order {
            let o = c.threads[th][rs[th].len()];
            let st = &all[th][rs[th].len()];
            if let Step::Whole = st[0] {
                rs[th].push(act(o, &t.held));
                continue;
            }
            let (Op::AtParsed(p, q) | Op::At(p, q) | Op::NoParse(p, q)) = o else { unreachable!() };
            if at[th].0 == 0 {
                at[th].1 = Ok(t.held.iter().find(|h| h.0 == p).expect("a node that is held").1.clone());
            }
            let none = || err(node::Error::NodeNotFound);
            let cur = at[th].1.clone();
            at[th].1 = cur.and_then(|n| match st[at[th].0] {
                Step::At(x) => n.read().unwrap().at(x).ok_or_else(none),
                Step::ParsedAt(x) => {
                    let mut w = n.write().unwrap();
                    if let Some(k) = w.at(x) {
                        return Ok(k);
                    }
                    w.parse(&n).map_err(err)?;
                    w.at(x).ok_or_else(none)
                }
                Step::InImage(x) => {
                    let g = n.read().unwrap();
                    match g.try_as_image() {
                        Some(i) if !i.is_parsed => i.at_path(x).map_err(err),
                        Some(_) => g.at_path(x).ok_or_else(none),
                        None => Err(none()),
                    }
                }
                Step::Whole => unreachable!(),
            });
            at[th].0 += 1;
            if at[th].0 == st.len() {
                let mut r = Res::default();
                match (at[th].1.clone(), o) {
                    (Ok(n), _) => r.nodes.push((q.into(), n)),
                    (Err(e), Op::AtParsed(..)) => drop(r.parts.insert(String::new(), e)),
                    _ => {}
                }
                rs[th].push(r);
                at[th] = (0, Err(String::new()));
            }
        }
        out.insert(see(&t, rs)?);
    }
    Ok(out)
}
type Universe = (BTreeMap<String, BTreeSet<String>>, BTreeMap<String, BTreeSet<String>>);
/// what the operation gives alone, part by part, in every state that parsing and unparsing lead
/// to, and the parts of those states
fn universe(c: &Case, o: Op) -> Result<Arc<Universe>, String> {
    thread_local! { static KNOWN: std::cell::RefCell<BTreeMap<String, Arc<Universe>>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
    let key = format!("{:?} {:?} {o:?}", c.world, c.parsed);
    if let Some(u) = KNOWN.with(|k| k.borrow().get(&key).cloned()) {
        return Ok(u);
    }
    let mut u = Universe::default();
    let mut known = BTreeSet::new();
    let mut todo: Vec<Vec<(bool, String)>> = vec![vec![]];
    while let Some(h) = todo.pop() {
        let t = build(c.world, &c.parsed)?;
        for (parse, at) in &h {
            let n = find(&t.root, at).ok_or("a state cannot be made again")?;
            if *parse {
                node_util::parse_node(&n).map_err(|e| format!("parse {at:?}: {e}"))?;
            } else {
                n.write().unwrap().unparse();
            }
        }
        let before = parts_of(&t)?;
        if !known.insert(before.clone()) {
            continue;
        }
        for (k, v) in before {
            u.1.entry(k).or_default().insert(v);
        }
        let mut places = vec![];
        fn go(n: &WzNodeArc, at: String, out: &mut Vec<String>) {
            out.push(at.clone());
            let g = n.read().unwrap();
            if matches!(g.object_type, WzObjectType::Image(_) | WzObjectType::MsImage(_)) {
                return;
            }
            let kids: Vec<(String, WzNodeArc)> = g.children.iter().map(|(k, v)| (k.to_string(), Arc::clone(v))).collect();
            drop(g);
            for (k, c) in kids {
                go(&c, if at.is_empty() { k } else { format!("{at}/{k}") }, out);
            }
        }
        if c.world != World::Plain {
            go(&t.root, String::new(), &mut places);
        }
        for p in places {
            for parse in [true, false] {
                let mut h = h.clone();
                h.push((parse, p.clone()));
                todo.push(h);
            }
        }
        let mut all = vec![];
        if let Op::Walk(p, true) = o {
            // what it has parsed may be unparsed again before it goes on
            all.push(act(Op::Walk(p, false), &t.held));
        }
        all.push(act(o, &t.held));
        for (k, v) in all.into_iter().flat_map(nodes_and_parts) {
            u.0.entry(k).or_default().insert(v);
        }
        for (k, v) in parts_of(&t)? {
            u.1.entry(k).or_default().insert(v);
        }
    }
    let u = Arc::new(u);
    KNOWN.with(|k| k.borrow_mut().insert(key, u.clone()));
    Ok(u)
}
fn nodes_and_parts(r: Res) -> Parts {
    let mut p = r.parts;
    for (q, n) in r.nodes {
        let v = {
            let g = n.read().unwrap();
            obs(&g)
        };
        let name = n.read().unwrap().name.clone();
        p.insert(format!("node {q}"), format!("{name} {v}"));
    }
    p
}
fn judge(c: &Case, ok: &BTreeSet<Seen>, more: &std::cell::OnceCell<Result<BTreeSet<Seen>, String>>, got: &Seen) -> R {
    if ok.contains(got) {
        return Ok(());
    }
    let looks = |o: &Op| steps(*o).len() > 1;
    if c.threads.iter().any(|t| t.len() > 1) && c.threads.iter().flatten().any(looks) && !c.threads.iter().flatten().any(|o| o.compound()) {
        let more = more.get_or_init(|| stepwise(c)).as_ref()?;
        if more.contains(got) {
            return Ok(());
        }
    }
    if !c.threads.iter().flatten().any(|o| o.compound()) {
        let near = ok.iter().min_by_key(|s| diffs(s, got).len()).unwrap();
        return Err(format!("no serial order gives this; nearest differs in: {}", diffs(near, got).join(" | ")));
    }
    // operations that visit several nodes one after the other: every node is seen as in some state
    // of the tree, and left in one
    for (t, ops) in got.ops.iter().enumerate() {
        for (i, parts) in ops.iter().enumerate() {
            let o = c.threads[t][i];
            let u = universe(c, o)?;
            for (k, v) in parts {
                if !k.starts_with("place of ") && !u.0.get(k).is_some_and(|s| s.contains(v)) {
                    return Err(format!("thread {t}, {o:?}: {k:?} is {}, which it is in no state of the tree, only {:?}", short(v), u.0.get(k)));
                }
            }
        }
    }
    let u = universe(c, c.threads[0][0])?;
    for (k, v) in &got.left {
        let v: String = v.split_inclusive(';').filter(|l| !l.ends_with("is another node now;")).collect();
        if !v.is_empty() && !u.1.get(k).is_some_and(|s| s.contains(&v)) {
            return Err(format!("{k:?} is left as {}, which it is in no state of the tree, only {:?}", short(&v), u.1.get(k)));
        }
    }
    Ok(())
}
fn diffs(a: &Seen, b: &Seen) -> Vec<String> {
    let mut o = vec![];
    for (t, (x, y)) in a.ops.iter().zip(&b.ops).enumerate() {
        for (i, (x, y)) in x.iter().zip(y).enumerate() {
            if x != y {
                o.push(format!("thread {t} operation {i}: {:?} serially, here {:?}", x, y));
            }
        }
    }
    if a.left != b.left {
        for k in a.left.keys().chain(b.left.keys()).collect::<BTreeSet<_>>() {
            if a.left.get(k) != b.left.get(k) {
                o.push(format!("left at {k:?}: {:?} serially, here {:?}", a.left.get(k), b.left.get(k)));
            }
        }
    }
    o
}
/// A look upwards has locked a node and waits for the one above it, which at_path_parsed's caller
/// has locked (it borrows the node) while it waits to parse the node below; and a writer waits for
/// the upper one, which keeps new readers out.
fn caught_between(c: &Case, d: &str) -> Option<String> {
    let mut parts = BTreeSet::new();
    for l in d.split("; ").filter(|l| !l.is_empty() && !l.ends_with(" is done")) {
        let t: usize = l.strip_prefix("thread ")?.split(' ').next()?.parse().ok()?;
        let writes = l.contains(" waits to Write ");
        if !l.contains(": read by threads ") && !l.contains(" read by threads ") {
            return None;
        }
        parts.insert(match c.threads[t][..] {
            [Op::AtParsed(..)] if writes => "parses",
            [Op::Parse(_) | Op::ParseGet(_) | Op::Unparse(_)] if writes => "writes",
            [Op::FullPath(_) | Op::FromRoot(_) | Op::FromImage(_) | Op::ParentImage(_) | Op::BaseFile(_) | Op::Relative(..) | Op::Inlink(_) | Op::Outlink(..) | Op::Picture(_)] if !writes => "looks up",
            _ => return None,
        });
    }
    (parts.len() == 3).then(|| "deadlock of at_path_parsed, a look upwards and a writer".into())
}
fn run(c: &Case, st: &mut Stats) -> R {
    let ok = serial(c)?;
    let more = std::cell::OnceCell::new();
    let seen: std::cell::RefCell<BTreeSet<u64>> = Default::default();
    let base = st.traces;
    explore_all(
        c.bound,
        st,
        || {
            let t = build(c.world, &c.parsed).expect("the tree");
            let held = Arc::new(t.held.clone());
            let bodies = c
                .threads
                .iter()
                .map(|ops| {
                    let (ops, held) = (ops.clone(), held.clone());
                    let b: Body<Vec<Res>> = Box::new(move || ops.iter().map(|o| act(*o, &held)).collect());
                    b
                })
                .collect();
            (t, bodies)
        },
        |t, rs| {
            let got = see(t, rs)?;
            seen.borrow_mut().insert(fnv(format!("{got:?}").as_bytes()));
            judge(c, &ok, &more, &got)
        },
        |d| caught_between(c, d),
    )?;
    count(|| format!("{} schedules {} ops {} outcomes ({} serial): {:?}", st.traces - base, st.transitions, seen.borrow().len(), ok.len(), c));
    for s in seen.borrow().iter() {
        st.observe(&format!("{s:x}"));
    }
    Ok(())
}

/// a world, what is parsed in it, and the operations on it
struct Scene {
    world: World,
    parsed: &'static [&'static str],
    ops: Vec<Op>,
}
fn scenes() -> Vec<Scene> {
    use Op::*;
    let mut v = vec![];
    let img_u = vec![Parse(""), ParseGet(""), Unparse(""), At("", "x/v"), Lazy("", "x/v"), Walk("", true), Walk("", false), Json(""), FullJson(""), Look("")];
    let mut img_p = img_u.clone();
    img_p.extend([
        Relative("x/v", "../w/z"),
        Relative("x", "../x/w/z"),
        FullPath("x/w/z"),
        FromRoot("x/w/z"),
        FromImage("x/w/z"),
        ParentImage("x/v"),
        BaseFile("x/v"),
        Inlink("c"),
        Picture("c"),
        Picture("p"),
        Text("x/t"),
        Parse("x"),
        Unparse("x"),
        Look("x"),
        Json("x"),
        Walk("x", false),
    ]);
    v.push(Scene { world: World::Image, parsed: &[], ops: img_u });
    v.push(Scene { world: World::Image, parsed: &[""], ops: img_p });
    let arch_0 = vec![Parse(""), ParseGet(""), Unparse(""), At("", "d/i.img"), At("", "d/i.img/x/v"), AtParsed("", "d/i.img/x/v"), NoParse("", "d/i.img/x/v"), Walk("", true), Walk("", false), Json(""), Look("")];
    let mut arch_1 = arch_0.clone();
    arch_1.extend([
        Parse("d"),
        ParseGet("d"),
        Parse("d/i.img"),
        ParseGet("d/i.img"),
        Unparse("d"),
        Unparse("d/i.img"),
        AtParsed("d", "i.img/x/v"),
        At("d", "i.img/x/v"),
        Lazy("d/i.img", "x/v"),
        Walk("d", true),
        Walk("d/i.img", true),
        Json("d"),
        Look("d"),
        Look("d/i.img"),
        FullPath("d/i.img"),
        FromRoot("d/i.img"),
        FromImage("d/i.img"),
        ParentImage("d/i.img"),
        BaseFile("d/i.img"),
        Relative("d/i.img", "../j.img"),
    ]);
    let mut arch_2 = arch_1.clone();
    arch_2.extend([
        FullPath("d/i.img/x/v"),
        FromImage("d/i.img/x/v"),
        ParentImage("d/i.img/x/v"),
        BaseFile("d/i.img/x/v"),
        Relative("d/i.img/x/v", "../../../j.img/y"),
        Inlink("d/i.img/c"),
        Outlink("d/i.img/o", false),
        Outlink("d/i.img/o", true),
        Picture("d/i.img/o"),
        Picture("d/i.img/c"),
        Parse("d/j.img"),
        Unparse("d/j.img"),
    ]);
    v.push(Scene { world: World::Archive, parsed: &[], ops: arch_0 });
    v.push(Scene { world: World::Archive, parsed: &[""], ops: arch_1 });
    v.push(Scene { world: World::Archive, parsed: &["", "d/i.img"], ops: arch_2 });
    let pack_0 = vec![Parse(""), ParseGet(""), Unparse(""), Walk("", true), Walk("", false), Json(""), Look("")];
    let mut pack_1 = pack_0.clone();
    pack_1.extend([Parse("Mob/i.img"), ParseGet("Mob/i.img"), Unparse("Mob/i.img"), Walk("Mob/i.img", true), Json("Mob/i.img"), Look("Mob/i.img"), FullPath("Mob/i.img"), At("", "Mob/i.img/x"), Parse("Mob/j.img")]);
    let mut pack_2 = pack_1.clone();
    pack_2.extend([FullPath("Mob/i.img/x/v"), FromImage("Mob/i.img/x/v"), ParentImage("Mob/i.img/x/v"), Relative("Mob/i.img/x/v", "../w/z"), Picture("Mob/i.img/c"), Lazy("Mob/i.img", "x/v")]);
    v.push(Scene { world: World::Pack, parsed: &[], ops: pack_0 });
    v.push(Scene { world: World::Pack, parsed: &[""], ops: pack_1 });
    v.push(Scene { world: World::Pack, parsed: &["", "Mob/i.img"], ops: pack_2 });
    v.push(Scene {
        world: World::Plain,
        parsed: &[],
        ops: vec![
            Uol("a/u"),
            Uol("e/w"),
            FullPath("a/b/v"),
            FromRoot("a/b/v"),
            At("", "a/b/v"),
            At("", "a/u"),
            At("", "e/w/v"),
            Relative("a/b", "../b/v"),
            Relative("a/b/v", "../../u"),
            Relative("e", "../a/b"),
            Walk("", false),
            Walk("a", false),
            Json(""),
            Json("a"),
            Parse(""),
            Parse("a"),
            Parse("a/b"),
            Look("a"),
            Look("e"),
            Text("a/u"),
        ],
    });
    v
}
/// operations that wait for several nodes, one after the other, take long to interleave
fn walks(ops: &[Op]) -> usize {
    ops.iter().filter(|o| matches!(o, Op::Walk(_, true))).count()
}
const ALL: u32 = 1000;
pub fn c09(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let bound = |p: u32| Bound { preemptions: p, at_release: false, reduce: true, max: 5_000_000 };
    {
        let one = t.q(4, 6);
        let two = t.q(1, 2);
        f.push(
            Family::new(
                "one operation each",
                format!("every pair of operations on 10 trees (an image, an archive, a pack, nodes made by hand; nothing, the root or an image parsed before); all schedules, where one thread walks, exports or draws up to {one} preemptions, where both do up to {two}, or one more when only one of them parses"),
                0,
                move |ch| {
                    let sc = scenes();
                    let s = &sc[ch.pick(sc.len())];
                    let a = ch.pick(s.ops.len());
                    let b = a + ch.pick(s.ops.len() - a);
                    let l = [s.ops[a], s.ops[b]];
                    let p = match (walks(&l), l.iter().filter(|o| o.compound()).count()) {
                        (2, _) => two,
                        (1, 2) => two + 1,
                        (_, 0) => ALL,
                        _ => one,
                    };
                    Some(Case { world: s.world, parsed: s.parsed.to_vec(), threads: vec![vec![s.ops[a]], vec![s.ops[b]]], bound: bound(p) })
                },
                run,
            )
            .limit(300),
        );
    }
    {
        let p = t.q(2, 3);
        f.push(
            Family::new(
                "three threads",
                format!("every three operations on those trees, one per thread, without the walks that parse; all schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let sc = scenes();
                    let s = &sc[ch.pick(sc.len())];
                    let ops: Vec<Op> = s.ops.iter().copied().filter(|o| walks(&[*o]) == 0).collect();
                    let a = ch.pick(ops.len());
                    let b = a + ch.pick(ops.len() - a);
                    let c = b + ch.pick(ops.len() - b);
                    Some(Case { world: s.world, parsed: s.parsed.to_vec(), threads: vec![vec![ops[a]], vec![ops[b]], vec![ops[c]]], bound: bound(p) })
                },
                run,
            )
            .limit(300),
        );
    }
    {
        let p = t.q(2, 4);
        f.push(
            Family::new(
                "two operations each",
                format!("two threads with two operations each that parse, unparse, look up and look at the state, on those trees; all schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let sc = scenes();
                    let s = &sc[ch.pick(sc.len())];
                    let ops: Vec<Op> = s.ops.iter().copied().filter(|o| matches!(o, Op::Parse(_) | Op::ParseGet(_) | Op::Unparse(_) | Op::AtParsed(..) | Op::Look(_) | Op::NoParse(..) | Op::Uol(_))).collect();
                    let v: Vec<usize> = (0..4).map(|_| ch.pick(ops.len())).collect();
                    if (v[0], v[1]) > (v[2], v[3]) {
                        return None;
                    }
                    Some(Case { world: s.world, parsed: s.parsed.to_vec(), threads: vec![vec![ops[v[0]], ops[v[1]]], vec![ops[v[2]], ops[v[3]]]], bound: bound(p) })
                },
                run,
            )
            .limit(300),
        );
    }
    f
}
