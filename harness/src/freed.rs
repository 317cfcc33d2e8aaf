//! C25: what is released or dropped is given back.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::nav;
use crate::ops;
use crate::pkg;
use crate::{ensure, ensure_eq};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, RwLock, Weak};
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::util::{node_util, walk_node};
use wz_reader::version::WzMapleVersion;
use wz_reader::*;

type Lock = RwLock<WzNode>;
/// every node and every reader that was ever seen
#[derive(Default)]
struct Census {
    nodes: Vec<(String, Weak<Lock>)>,
    readers: Vec<Weak<WzReader>>,
}
fn reader_of(n: &WzNode) -> Option<Arc<WzReader>> {
    match &n.object_type {
        WzObjectType::File(f) => Some(f.reader.clone()),
        WzObjectType::Image(i) => Some(i.reader.clone()),
        WzObjectType::MsFile(f) => Some(f.reader.clone()),
        _ => None,
    }
}
/// values that have no part in the file
fn plain(n: &WzNode) -> bool {
    matches!(
        &n.object_type,
        WzObjectType::Value(WzValue::Null | WzValue::Short(_) | WzValue::Int(_) | WzValue::Long(_) | WzValue::Float(_) | WzValue::Double(_) | WzValue::Vector(_) | WzValue::ParsedString(_)) | WzObjectType::Property(WzSubProperty::Property | WzSubProperty::Convex)
    )
}
fn reach(from: &[WzNodeArc]) -> Vec<WzNodeArc> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut todo: Vec<WzNodeArc> = from.to_vec();
    while let Some(x) = todo.pop() {
        if seen.insert(Arc::as_ptr(&x)) {
            todo.extend(x.read().unwrap().children.values().cloned());
            out.push(x);
        }
    }
    out
}
impl Census {
    /// takes down what can be reached and says what else is still alive
    fn take(&mut self, from: &[WzNodeArc], when: &str, st: &mut Stats) -> R {
        let now = reach(from);
        let here: HashSet<*const Lock> = now.iter().map(Arc::as_ptr).collect();
        let mut known: HashSet<*const Lock> = HashSet::new();
        let mut left = None;
        self.nodes.retain(|(name, w)| match w.upgrade() {
            None => false,
            Some(x) => {
                if !here.contains(&Arc::as_ptr(&x)) && left.is_none() {
                    left = Some(name.clone());
                }
                known.insert(Arc::as_ptr(&x));
                true
            }
        });
        if let Some(n) = left {
            return Err(format!("{when}: {n} is kept alive by nothing the caller holds"));
        }
        for x in &now {
            if known.insert(Arc::as_ptr(x)) {
                self.nodes.push((path_up(x), Arc::downgrade(x)));
                if let Some(r) = reader_of(&x.read().unwrap()) {
                    if !self.readers.iter().any(|w| w.upgrade().is_some_and(|o| Arc::ptr_eq(&o, &r))) {
                        self.readers.push(Arc::downgrade(&r));
                    }
                }
            }
        }
        if now.iter().all(|x| plain(&x.read().unwrap())) {
            ensure!(self.readers.iter().all(|r| r.upgrade().is_none()), "{when}: the file is still open though nothing held reads from it");
        }
        st.states += 1;
        st.transitions += now.len() as u64;
        Ok(())
    }
}
/// looking upwards from a node that outlived others
fn look_up(x: &WzNodeArc) -> R {
    let r = x.read().unwrap();
    let full = r.get_full_path();
    let _ = r.get_parent_wz_image();
    let _ = r.get_base_wz_file();
    let _ = r.at_relative("..");
    let top = r.parent.upgrade().is_none();
    let name = r.name.to_string();
    drop(r);
    ensure_eq!(full, path_up(x), "full path of a held node");
    ensure!(!top || full == name, "a node whose parent is gone has the path {full}");
    Ok(())
}

// ------------------------------------------------------------------ histories
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Parse(String),
    Unparse(String),
    Walk(String, bool),
    Hold(String),
    Lazy(String),
    AtParsed(String),
    Export(String),
    DropHeld,
    DropRoot,
}
#[derive(Clone)]
struct Case {
    wname: &'static str,
    k: usize,
    ops: Vec<Op>,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} ops {:?}", self.wname, self.ops)
    }
}
thread_local!(static WORLDS: Vec<(&'static str, ops::World)> = (0..ops::WORLDS).map(ops::world).collect());
fn world(k: usize) -> (&'static str, ops::World) {
    WORLDS.with(|w| w[k].clone())
}
fn sn_paths(s: &ops::Sn, at: &str, upper: &mut Vec<String>, inner: &mut Vec<String>) {
    upper.push(at.to_string());
    let j = |n: &str| if at.is_empty() { n.to_string() } else { format!("{at}/{n}") };
    // pack images have a slash in their name, which no path reaches
    for k in &s.kids {
        if !k.name.contains('/') {
            sn_paths(k, &j(&k.name), upper, inner);
        }
    }
    if let ops::Sk::Img(Some(_)) | ops::Sk::MsImg(Some(_)) = &s.k {
        inner.push(j("info"));
        inner.push(j("info/x"));
        inner.push(j("info/u"));
    }
}
fn at(root: &WzNodeArc, p: &str) -> Option<WzNodeArc> {
    if p.is_empty() {
        Some(root.clone())
    } else {
        root.read().unwrap().at_path(p)
    }
}
fn play(open: &dyn Fn() -> Result<WzNodeArc, String>, l: &[Op], st: &mut Stats) -> R {
    let mut c = Census::default();
    let mut root = Some(open()?);
    let mut held: Vec<WzNodeArc> = vec![];
    let all = |root: &Option<WzNodeArc>, held: &[WzNodeArc]| root.iter().chain(held).cloned().collect::<Vec<_>>();
    c.take(&all(&root, &held), "opened", st)?;
    for (i, op) in l.iter().enumerate() {
        let r = root.clone();
        let on = |p: &str| r.as_ref().and_then(|r| at(r, p));
        match op {
            Op::Parse(p) => {
                if let Some(x) = on(p) {
                    let _ = node_util::parse_node(&x);
                }
            }
            Op::Unparse(p) => {
                if let Some(x) = on(p) {
                    x.write().unwrap().unparse();
                }
            }
            Op::Walk(p, f) => {
                if let Some(x) = on(p) {
                    walk_node(&x, *f, &|_| {});
                }
            }
            Op::Hold(p) => held.extend(on(p)),
            Op::Lazy(p) => {
                if let Some(r) = &r {
                    held.extend(node_util::get_node_without_parse(r, p));
                }
            }
            Op::AtParsed(p) => {
                if let Some(r) = &r {
                    let x = r.read().unwrap().at_path_parsed(p).ok();
                    held.extend(x);
                }
            }
            Op::Export(p) => {
                if let Some(x) = on(p) {
                    let _ = x.read().unwrap().to_simple_json();
                    let _ = x.read().unwrap().to_json();
                }
            }
            Op::DropHeld => {
                if !held.is_empty() {
                    held.remove(0);
                }
            }
            Op::DropRoot => root = None,
        }
        drop(r);
        c.take(&all(&root, &held), &format!("after step {i} {op:?}"), st)?;
        for h in &held {
            look_up(h)?;
        }
    }
    st.observe(&c.nodes.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","));
    if l.len() % 2 == 0 {
        held.clear();
        c.take(&all(&root, &held), "held nodes dropped", st)?;
    }
    drop(root);
    c.take(&held, "root dropped", st)?;
    for h in &held {
        look_up(h)?;
    }
    while let Some(x) = held.pop() {
        drop(x);
        c.take(&held, "one more held node dropped", st)?;
    }
    Ok(())
}
/// the second of two equal histories leaves no more memory than the first
fn twice(what: &str, st: &mut Stats, f: impl Fn(&mut Stats) -> R) -> R {
    f(st)?;
    let a = quiet(&f)?;
    let b = quiet(&f)?;
    ensure!(b <= a, "{what}: {} bytes are not given back each time", b - a);
    st.traces += 1;
    Ok(())
}
fn quiet(f: &impl Fn(&mut Stats) -> R) -> Result<u64, String> {
    {
        let mut s = Stats::default();
        f(&mut s)?;
    }
    Ok(mem_live())
}
fn ops_of(k: usize, few: bool) -> Vec<Op> {
    let (_, w) = world(k);
    let (mut up, mut inn) = (vec![], vec![]);
    sn_paths(&w.root, "", &mut up, &mut inn);
    let mut v = vec![];
    for p in &up {
        v.push(Op::Parse(p.clone()));
        v.push(Op::Unparse(p.clone()));
        if !few {
            v.push(Op::Walk(p.clone(), true));
            v.push(Op::Hold(p.clone()));
        }
    }
    for p in &inn {
        if !few || p.ends_with('x') {
            v.push(Op::Hold(p.clone()));
            v.push(Op::Lazy(p.clone()));
            v.push(Op::AtParsed(p.clone()));
        }
    }
    v.push(Op::Walk(String::new(), false));
    if few {
        v.push(Op::Walk(String::new(), true));
    }
    v.push(Op::Export(String::new()));
    v.push(Op::DropHeld);
    v.push(Op::DropRoot);
    v
}
fn run_world(c: &Case, st: &mut Stats) -> R {
    let (_, w) = world(c.k);
    twice("the history", st, |st| play(&|| (w.open)(&w), &c.ops, st))
}

// ------------------------------------------------------------------ hand-made trees
#[derive(Clone, Debug)]
struct Hand {
    m: nav::Arena,
    acts: Vec<(usize, usize, usize)>,
}
fn run_hand(h: &Hand, st: &mut Stats) -> R {
    let mut c = Census::default();
    let mut arcs = h.m.build();
    c.take(&arcs, "built", st)?;
    for (step, (what, i, j)) in h.acts.iter().enumerate() {
        match what {
            0 => arcs[*i].write().unwrap().transfer_childs(&arcs[*j]),
            1 => node_util::resolve_uol(&arcs[*i], None),
            2 => node_util::resolve_childs_parent(&arcs[*i]),
            3 => arcs[*i].write().unwrap().unparse(),
            _ => walk_node(&arcs[*i], true, &|_| {}),
        }
        c.take(&arcs, &format!("after step {step}"), st)?;
    }
    // a node made as a child of another knows it but is not kept by it
    let lone = WzNode::from_str("lone", 1, Some(&arcs[0])).into_lock();
    let w = Arc::downgrade(&lone);
    drop(lone);
    ensure!(w.upgrade().is_none(), "a node is kept by the node it was given as a parent");
    let weak: Vec<Weak<Lock>> = arcs.iter().map(Arc::downgrade).collect();
    // dropped from the lowest on, then from the root on
    let keep = h.acts.iter().map(|a| a.1).sum::<usize>() % arcs.len();
    let k = arcs[keep].clone();
    let order: Vec<WzNodeArc> = std::mem::take(&mut arcs);
    drop(order);
    c.take(&[k.clone()], "all but one dropped", st)?;
    look_up(&k)?;
    drop(k);
    c.take(&[], "all dropped", st)?;
    ensure!(weak.iter().all(|w| w.upgrade().is_none()), "nodes outlive every handle");
    Ok(())
}
/// would moving put a node below itself?
fn below(m: &nav::Arena, i: usize, of: usize) -> bool {
    let mut c = Some(i);
    while let Some(x) = c {
        if x == of {
            return true;
        }
        c = m.v[x].parent;
    }
    false
}

pub fn c25(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let d = t.q(3usize, 4);
    for (name, ks, few, depth) in [("archives", &[0usize, 1, 2, 7, 8][..], false, d), ("packs", &[3, 4][..], false, d + 1), ("images", &[5, 6][..], false, d + 1), ("long histories", &[0, 3, 5][..], true, d + 1)] {
        let (ks, lim): (Vec<usize>, _) = (ks.to_vec(), depth);
        fams.push(Family::new(
            name,
            format!("every sequence of {depth} operations (parse, unparse, walk, hold a node, look up with and without parsing, export, drop a held node, drop the tree) on the worlds of C10: after every step only what can be reached from what is held is alive, and the history leaves no memory behind"),
            0,
            move |ch| {
                let k = *ch.of(&ks);
                let o = ops_of(k, few);
                let mut ops = vec![];
                if k != 5 && k != 6 {
                    ops.push(Op::Parse(String::new()));
                }
                for _ in 0..lim {
                    ops.push(ch.of(&o).clone());
                }
                Some(Case { wname: world(k).0, k, ops })
            },
            run_world,
        ));
    }
    let n0 = t.q(4usize, 5);
    fams.push(Family::new(
        "links",
        "every image of up to n nodes with up to three links in every kind of holder, parsed, released and parsed again; one node held, the rest dropped",
        0,
        move |ch| {
            let texts = nav::paths(&["a", "b", "..", "0"], 2);
            let k = 2 + ch.pick(n0 - 1);
            let l = 1 + ch.pick(3);
            let hows = if k < 4 { 4 } else { 1 };
            nav::link_tree_in(ch, k, l, &texts, hows)
        },
        |c, st| {
            let bytes = image([0; 4], &c.nodes(c.img));
            let p = scratch_file("m.img", &bytes);
            twice("the image with links", st, |st| {
                let open = || WzNode::from_img_file(&p, Some(WzMapleVersion::BMS), None).map(|x| x.into_lock()).map_err(|e| e.to_string());
                let mut cs = Census::default();
                let root = open()?;
                for _ in 0..2 {
                    node_util::parse_node(&root).map_err(|e| e.to_string())?;
                    cs.take(&[root.clone()], "parsed", st)?;
                    root.write().unwrap().unparse();
                    cs.take(&[root.clone()], "released", st)?;
                }
                node_util::parse_node(&root).map_err(|e| e.to_string())?;
                let all = reach(&[root.clone()]);
                cs.take(&[root.clone()], "parsed", st)?;
                drop(root);
                st.observe(&format!("{}", all.len()));
                // hold each node in turn, the earlier ones are dropped
                let mut rest = all;
                while !rest.is_empty() {
                    cs.take(&rest, "some nodes held", st)?;
                    rest.remove(0);
                }
                cs.take(&[], "all dropped", st)
            })
        },
    ));
    let kinds = KINDS;
    fams.push(Family::new(
        "kinds",
        "an image with each pair of property kinds: each node held alone after the image was dropped",
        0,
        move |ch| {
            let a = ch.pick(kinds);
            let b = ch.pick(kinds);
            let inner = ch.flag();
            let iv = *ch.of(&[BMS, GMS, [1, 2, 3, 4]]);
            let kid = |k: usize, c: u32| kind(k, c, if is_container(k) { vec![n("i", V::Vector(1, 2, Form::Auto))] } else { vec![] });
            let l = vec![n("a", kid(a, 1)), n("b", kid(b, 2))];
            Some((iv, if inner { vec![n("s", V::Sub(l))] } else { l }))
        },
        |(iv, top), st| {
            let p = scratch_file("k.img", &image(*iv, top));
            twice("the image", st, |st| {
                let mut cs = Census::default();
                let root = WzNode::from_img_file_with_iv(&p, *iv, None).map_err(|e| e.to_string())?.into_lock();
                node_util::parse_node(&root).map_err(|e| e.to_string())?;
                cs.take(&[root.clone()], "parsed", st)?;
                let mut all = reach(&[root.clone()]);
                drop(root);
                // the values still read from the file
                let before: Vec<String> = all.iter().map(|x| obs(&x.read().unwrap())).collect();
                all.remove(0);
                for (x, b) in all.iter().zip(&before[1..]) {
                    ensure_eq!(&obs(&x.read().unwrap()), b, "value of a node held after the image is gone");
                }
                while !all.is_empty() {
                    cs.take(&all, "held", st)?;
                    for x in &all {
                        look_up(x)?;
                    }
                    all.remove(0);
                }
                cs.take(&[], "all dropped", st)?;
                Ok(())
            })
        },
    ));
    let hn = t.q(4usize, 6);
    fams.push(Family::new(
        "moves",
        "every small hand-made tree with links and up to two of: moving children, resolving a link, setting parents, releasing, walking; then everything is dropped but one node",
        0,
        move |ch| {
            let mut m = nav::Arena::default();
            m.add("r", nav::K::Dir, None);
            let size = 2 + ch.pick(hn - 1);
            let mut names: HashMap<usize, usize> = HashMap::new();
            let mut last = 0;
            for _ in 1..size {
                let p = ch.pick(m.v.len());
                if p < last || m.v[p].link.is_some() {
                    return None;
                }
                last = p;
                let c = names.entry(p).or_insert(0);
                let nm = ["a", "b", "c", "d", "e"][*c];
                *c += 1;
                let kind = *ch.of(&[nav::K::Sub, nav::K::Img]);
                let i = m.add(nm, kind, Some(p));
                if kind == nav::K::Sub {
                    let l = ch.pick(4);
                    if l > 0 {
                        m.v[i].link = Some(["", "../a", "b", "../b/a"][l].to_string());
                    }
                }
            }
            let n0 = m.v.len();
            let mut acts = vec![];
            for _ in 0..1 + ch.pick(2) {
                let what = ch.pick(5);
                let i = ch.pick(n0);
                let j = if what == 0 { ch.pick(n0) } else { 0 };
                // children are moved between separate branches: the caller locks the node they leave
                if what == 0 && (below(&m, j, i) || below(&m, i, j) || !acts.is_empty()) {
                    return None;
                }
                acts.push((what, i, j));
            }
            Some(Hand { m, acts })
        },
        |h, st| twice("the tree", st, |st| run_hand(h, st)),
    ));
    fams.push(Family::new(
        "damaged files",
        "every truncation of a classic archive, an archive of the 64-bit release, packs of both generations and a rich image, opened, parsed as far as possible and dropped",
        0,
        |ch| {
            let w = ch.pick(5);
            let (_, x) = world([0, 2, 3, 4, 5][w]);
            let len = ch.pick(x.bytes.len() + 1);
            Some(([0, 2, 3, 4, 5][w], len))
        },
        |(k, len), st| {
            let (_, w) = world(*k);
            let p = scratch_file(w.file, &w.bytes[..*len]);
            twice("the damaged file", st, |st| {
                let mut cs = Census::default();
                let r = match w.file {
                    "W.wz" => WzNode::from_wz_file_full(&p, None, w.ver, None, None).ok(),
                    "P.ms" => WzNode::from_ms_file(&p, None).ok(),
                    _ => WzNode::from_img_file_with_iv(&p, w.iv, None).ok(),
                };
                let Some(root) = r.map(|x| x.into_lock()) else { return Ok(()) };
                cs.take(&[root.clone()], "opened", st)?;
                let _ = node_util::parse_node(&root);
                cs.take(&[root.clone()], "parsed", st)?;
                let _ = pkg::parse_images(&root);
                cs.take(&[root.clone()], "images parsed", st)?;
                walk_node(&root, true, &|_| {});
                cs.take(&[root.clone()], "walked", st)?;
                drop(root);
                cs.take(&[], "dropped", st)
            })
        },
    ));
    fams
}
