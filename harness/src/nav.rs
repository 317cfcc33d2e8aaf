//! C11 (navigation), C12 (links), C13 (walks): every small tree against an arena model.
use crate::core::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use wz_reader::property::{WzString, WzSubProperty, WzValue};
use wz_reader::util::node_util::*;
use wz_reader::util::walk_node;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzObjectType};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Sub,
    Img,
    Dir,
    File,
    Int,
}
#[derive(Clone, Debug)]
pub struct An {
    pub name: String,
    pub k: K,
    pub parent: Option<usize>,
    pub kids: BTreeMap<String, usize>,
    pub link: Option<String>,
}
/// arena model of a tree
#[derive(Clone, Debug, Default)]
pub struct Arena {
    pub v: Vec<An>,
}
impl Arena {
    pub fn add(&mut self, name: &str, k: K, parent: Option<usize>) -> usize {
        let i = self.v.len();
        self.v.push(An { name: name.into(), k, parent, kids: BTreeMap::new(), link: None });
        if let Some(p) = parent {
            self.v[p].kids.insert(name.into(), i);
        }
        i
    }
    fn obj(&self, i: usize) -> WzObjectType {
        if let Some(t) = &self.v[i].link {
            return WzObjectType::Value(WzValue::UOL(WzString::from_str(t, [0; 4])));
        }
        match self.v[i].k {
            K::Sub => WzObjectType::Property(WzSubProperty::Property),
            K::Int => WzObjectType::Value(WzValue::Int(i as i32)),
            K::Img => {
                let mut x = WzImage::default();
                x.is_parsed = true;
                x.into()
            }
            K::Dir => {
                let mut x = WzDirectory::default();
                x.is_parsed = true;
                x.into()
            }
            K::File => {
                let mut x = WzFile::default();
                x.is_parsed = true;
                x.into()
            }
        }
    }
    pub fn build(&self) -> Vec<WzNodeArc> {
        let mut arcs: Vec<WzNodeArc> = vec![];
        for (i, a) in self.v.iter().enumerate() {
            let x = WzNode::from_str(&a.name, self.obj(i), a.parent.map(|p| &arcs[p])).into_lock();
            if let Some(p) = a.parent {
                arcs[p].write().unwrap().add(&x);
            }
            arcs.push(x);
        }
        arcs
    }
    fn at(&self, i: usize, n: &str) -> Option<usize> {
        self.v[i].kids.get(n).copied()
    }
    fn at_rel(&self, i: usize, n: &str) -> Option<usize> {
        if n == ".." {
            self.v[i].parent
        } else {
            self.at(i, n)
        }
    }
    fn path(&self, i: usize, p: &str) -> Option<usize> {
        p.split('/').try_fold(i, |x, n| self.at(x, n))
    }
    fn path_rel(&self, i: usize, p: &str) -> Option<usize> {
        p.split('/').try_fold(i, |x, n| self.at_rel(x, n))
    }
    fn up(&self, i: usize, f: impl Fn(&An) -> bool) -> Option<usize> {
        let mut p = self.v[i].parent;
        while let Some(x) = p {
            if f(&self.v[x]) {
                return Some(x);
            }
            p = self.v[x].parent;
        }
        None
    }
    fn chain(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.v[*v.last().unwrap()].parent {
            v.push(p);
        }
        v.reverse();
        v
    }
    fn names(&self, c: &[usize]) -> String {
        c.iter().map(|x| self.v[*x].name.as_str()).collect::<Vec<_>>().join("/")
    }
    /// is t below or equal to i, following the children as they are now
    fn contains(&self, i: usize, t: usize) -> bool {
        let mut seen = vec![false; self.v.len()];
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            if x == t {
                return true;
            }
            if !std::mem::replace(&mut seen[x], true) {
                st.extend(self.v[x].kids.values());
            }
        }
        false
    }
    /// resolve one relative link the way the format defines
    fn resolve(&mut self, i: usize) {
        let (Some(p), Some(t)) = (self.v[i].parent, self.v[i].link.clone()) else { return };
        let Some(x) = self.path_rel(p, &t) else { return };
        if self.contains(x, p) {
            return;
        }
        let name = self.v[i].name.clone();
        if let Some(e) = self.v[p].kids.get_mut(&name) {
            *e = x;
        }
    }
    fn show(&self) -> String {
        self.v.iter().enumerate().map(|(i, a)| format!("{i}:{}{:?}<{:?}{}", a.name, a.k, a.parent, a.link.as_ref().map(|l| format!(" ->{l}")).unwrap_or_default())).collect::<Vec<_>>().join(" ")
    }
}
fn who(arcs: &[WzNodeArc], a: &WzNodeArc) -> String {
    match arcs.iter().position(|x| Arc::ptr_eq(x, a)) {
        Some(i) => format!("node {i}"),
        None => format!("a foreign node {}", path_up(a)),
    }
}
fn same_node(arcs: &[WzNodeArc], got: Option<WzNodeArc>, exp: Option<usize>, what: impl Fn() -> String) -> R {
    match (&got, exp) {
        (None, None) => Ok(()),
        (Some(g), Some(e)) if Arc::ptr_eq(g, &arcs[e]) => Ok(()),
        _ => Err(format!("{}: got {}, expected {:?}", what(), got.map(|g| who(arcs, &g)).unwrap_or("nothing".into()), exp)),
    }
}
/// real tree (identities known) equals the arena: children maps, parents, names
pub fn same_tree(m: &Arena, arcs: &[WzNodeArc], what: &str) -> R {
    for (i, a) in m.v.iter().enumerate() {
        let r = arcs[i].read().map_err(|_| "poisoned")?;
        ensure!(r.name.as_str() == a.name, "{what}: node {i} is now named {:?}", r.name.as_str());
        let mut names: Vec<&str> = r.children.keys().map(|k| k.as_str()).collect();
        names.sort();
        let en: Vec<&str> = a.kids.keys().map(|k| k.as_str()).collect();
        ensure!(names == en, "{what}: node {i} has children {names:?}, expected {en:?}");
        for (n, k) in &a.kids {
            let g = r.children.get(n.as_str()).unwrap();
            ensure!(Arc::ptr_eq(g, &arcs[*k]), "{what}: child {n} of node {i} is {}, expected node {k}", who(arcs, g));
        }
        let p = r.parent.upgrade();
        match (p, a.parent) {
            (None, None) => {}
            (Some(g), Some(e)) if Arc::ptr_eq(&g, &arcs[e]) => {}
            (g, e) => return Err(format!("{what}: parent of node {i} is {}, expected {e:?}", g.map(|g| who(arcs, &g)).unwrap_or("nothing".into()))),
        }
    }
    Ok(())
}
/// real tree found from a root by the arena's child names; identities are learnt on the way
pub fn same_found(m: &Arena, root: usize, real: &WzNodeArc, what: &str) -> Result<Vec<Option<WzNodeArc>>, String> {
    let mut map: Vec<Option<WzNodeArc>> = vec![None; m.v.len()];
    map[root] = Some(real.clone());
    let mut st = vec![root];
    while let Some(i) = st.pop() {
        let a = map[i].clone().unwrap();
        let r = a.read().map_err(|_| "poisoned")?;
        ensure!(r.name.as_str() == m.v[i].name, "{what}: node {i} is named {:?}, expected {:?}", r.name.as_str(), m.v[i].name);
        let mut names: Vec<&str> = r.children.keys().map(|k| k.as_str()).collect();
        names.sort();
        let en: Vec<&str> = m.v[i].kids.keys().map(|k| k.as_str()).collect();
        ensure!(names == en, "{what}: node {i} has children {names:?}, expected {en:?}");
        if let Some(t) = &m.v[i].link {
            ensure_eq!(obs(&r), format!("Uol {t:?}"), "{what}: unresolved link {i}");
        } else {
            ensure!(!matches!(r.object_type, WzObjectType::Value(WzValue::UOL(_))), "{what}: node {i} is a link, expected {:?}", m.v[i].k);
        }
        for (n, k) in &m.v[i].kids {
            let g = r.children.get(n.as_str()).unwrap();
            match &map[*k] {
                Some(x) => ensure!(Arc::ptr_eq(x, g), "{what}: child {n} of node {i} is {}, expected the same node as {}", path_up(g), path_up(x)),
                None => {
                    map[*k] = Some(g.clone());
                    st.push(*k);
                }
            }
        }
    }
    for i in 0..m.v.len() {
        if let (Some(x), Some(p)) = (&map[i], m.v[i].parent) {
            if i == root {
                continue;
            }
            if let Some(px) = &map[p] {
                let g = x.read().unwrap().parent.upgrade();
                ensure!(g.as_ref().is_some_and(|g| Arc::ptr_eq(g, px)), "{what}: parent of node {i} is {:?}, expected {}", g.map(|g| path_up(&g)), path_up(px));
            }
        }
    }
    Ok(map)
}
pub fn paths(comps: &[&str], depth: usize) -> Vec<String> {
    let mut all: Vec<String> = vec![];
    let mut last: Vec<String> = comps.iter().map(|c| c.to_string()).collect();
    all.extend(last.clone());
    for _ in 1..depth {
        last = last.iter().flat_map(|p| comps.iter().map(move |c| format!("{p}/{c}"))).collect();
        all.extend(last.clone());
    }
    all
}
const NAMES: [&str; 3] = ["a", "b", "a.img"];
fn tree(ch: &mut Ch, max: usize, kinds: &[K]) -> Option<Arena> {
    let mut m = Arena::default();
    match ch.pick(4) {
        0 => m.add("Base", K::File, None),
        1 => m.add("x", K::File, None),
        2 => m.add("a", K::Sub, None),
        _ => m.add("Base", K::Dir, None),
    };
    grow(ch, &mut m, 0, max, kinds)?;
    Some(m)
}
/// add 0..=max nodes below root r in document order of creation
fn grow(ch: &mut Ch, m: &mut Arena, r: usize, max: usize, kinds: &[K]) -> Option<()> {
    let n = ch.pick(max + 1);
    let base = m.v.len();
    let mut last = (r, 0usize);
    for j in 0..n {
        let c = ch.pick(j + 1);
        let p = if c == 0 { r } else { base + c - 1 };
        let ni = ch.pick(NAMES.len());
        // canonical: (parent, name) strictly increasing, so each tree comes once per kind labelling
        if j > 0 && (p, ni) <= last {
            return None;
        }
        last = (p, ni);
        let k = *ch.of(kinds);
        m.add(NAMES[ni], k, Some(p));
    }
    Some(())
}
fn check_paths(m: &Arena, ps: &[String], st: &mut Stats) -> R {
    let arcs = m.build();
    st.states += m.v.len() as u64;
    st.traces += 1;
    for i in 0..m.v.len() {
        let node = &arcs[i];
        let r = node.read().unwrap();
        let ch = m.chain(i);
        ensure_eq!(r.get_full_path(), m.names(&ch), "full path of node {i}");
        let pr = m.names(&ch[1..]);
        ensure_eq!(r.get_path_from_root(), pr, "path from root of node {i}");
        if i > 0 {
            let root = arcs[ch[0]].read().unwrap().at_path(&pr);
            same_node(&arcs, root, Some(i), || format!("at_path({pr:?}) from the root"))?;
        }
        let im = m.up(i, |a| a.k == K::Img);
        let exp = match im {
            Some(x) => m.names(&m.chain(i)[m.chain(x).len()..]),
            None => String::new(),
        };
        ensure_eq!(r.get_path_from_image(), exp, "path from image of node {i}");
        same_node(&arcs, r.get_parent_wz_image(), im, || format!("enclosing image of node {i}"))?;
        same_node(&arcs, r.get_base_wz_file(), m.up(i, |a| a.k == K::File && a.name == "Base"), || format!("base file of node {i}"))?;
        for n in NAMES {
            same_node(&arcs, r.filter_parent(|x| x.name.as_str() == n), m.up(i, |a| a.name == n), || format!("filter_parent({n}) of node {i}"))?;
        }
        st.transitions += 8;
        for p in ps {
            let w = |f: &str| format!("{f}({p:?}) from node {i}");
            if !p.contains('/') {
                same_node(&arcs, r.at(p), m.at(i, p), || w("at"))?;
                same_node(&arcs, r.at_relative(p), m.at_rel(i, p), || w("at_relative"))?;
            }
            let e = m.path(i, p);
            same_node(&arcs, r.at_path(p), e, || w("at_path"))?;
            same_node(&arcs, r.at_path_relative(p), m.path_rel(i, p), || w("at_path_relative"))?;
        }
        drop(r);
        for p in ps {
            let w = |f: &str| format!("{f}({p:?}) from node {i}");
            let e = m.path(i, p);
            let r = node.read().unwrap();
            same_node(&arcs, r.at_path_parsed(p).ok(), e, || w("at_path_parsed"))?;
            drop(r);
            // first image strictly below node i with something left of the path
            let comps: Vec<&str> = p.split('/').collect();
            let mut cur = Some(i);
            let mut img = None;
            for (d, c) in comps[..comps.len() - 1].iter().enumerate() {
                cur = cur.and_then(|x| m.at(x, c));
                match cur {
                    Some(x) if m.v[x].k == K::Img => {
                        img = Some((x, comps[d + 1..].join("/")));
                        break;
                    }
                    Some(_) => {}
                    None => break,
                }
            }
            let g = get_image_node_from_path(node, p);
            match (&g, &img) {
                (None, None) => {}
                (Some((a, rest)), Some((x, er))) if Arc::ptr_eq(a, &arcs[*x]) && rest == er => {}
                _ => return Err(format!("{}: got {:?}, expected {img:?}", w("get_image_node_from_path"), g.map(|g| (who(&arcs, &g.0), g.1.to_string())))),
            }
            let e = img.and_then(|(x, rest)| m.path(x, &rest));
            same_node(&arcs, get_node_without_parse(node, p), e, || w("get_node_without_parse"))?;
            st.transitions += 5;
        }
    }
    same_tree(m, &arcs, "after the lookups")?;
    st.observe(&m.show());
    Ok(())
}

/// move children: model of transfer_childs
fn transfer(m: &mut Arena, from: usize, to: usize) {
    let kids = std::mem::take(&mut m.v[from].kids);
    for (n, k) in kids {
        match m.v[to].kids.get(&n).copied() {
            Some(old) => transfer(m, k, old),
            None => {
                m.v[k].parent = Some(to);
                m.v[to].kids.insert(n, k);
            }
        }
    }
}
pub fn c11(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let kinds = [K::Sub, K::Img];
    let d = t.q(3, 4);
    let n3 = t.q(4usize, 5);
    fams.push(Family::new(
        "paths",
        "every tree of up to n nodes below a root (named Base or not, archive, directory or plain), kinds plain and image, names a, b, a.img; from every node every path over those names, '..', '.', '', a missing name",
        0,
        move |ch| tree(ch, n3, &kinds),
        move |m: &Arena, st| check_paths(m, &PATHS.with(|p| p.borrow_mut().entry(d).or_insert_with(|| paths(&COMPS, d)).clone()), st),
    ));
    let n5 = t.q(5usize, 6);
    fams.push(Family::new(
        "larger-trees",
        "every tree of one more node with paths of up to two components",
        0,
        move |ch| tree(ch, n5, &kinds).filter(|m| m.v.len() == n5 + 1),
        move |m: &Arena, st| check_paths(m, &PATHS.with(|p| p.borrow_mut().entry(2).or_insert_with(|| paths(&COMPS, 2)).clone()), st),
    ));
    fams.push(Family::new(
        "deep-chain",
        "chains of 1..n nodes with the image or archive at every level: full path, path from root, path from image, enclosing image and archive",
        0,
        move |ch| {
            let n = 1 + ch.pick(t.q(9, 14));
            let img = ch.pick(n + 1);
            let base = ch.pick(n + 1);
            let img2 = ch.pick(n + 1);
            let mut m = Arena::default();
            for i in 0..n {
                let k = if i == img || i == img2 { K::Img } else if i == base { K::File } else { K::Sub };
                m.add(if i == base { "Base" } else { ["a", "b"][i % 2] }, k, i.checked_sub(1));
            }
            Some(m)
        },
        |m: &Arena, st| check_paths(m, &["a".into(), "..".into(), "../..".into(), "../../..".into(), "b/a".into(), "Base".into()], st),
    ));
    fams.push(Family::new(
        "names",
        "every pair of sibling names out of a set with spaces, case, non-ASCII, dots, prefixes of each other, digits and a long name, looked up with every name of the set",
        0,
        |ch| Some((*ch.of(&ODD), *ch.of(&ODD), ch.pick(2))),
        |&(a, b, deep): &(&str, &str, usize), st| {
            if a == b {
                return Ok(());
            }
            let mut m = Arena::default();
            m.add("root", K::Sub, None);
            let p = if deep == 1 { m.add("in", K::Img, Some(0)) } else { 0 };
            m.add(a, K::Sub, Some(p));
            m.add(b, K::Sub, Some(p));
            let mut ps: Vec<String> = ODD.iter().map(|x| x.to_string()).collect();
            ps.extend(ODD.iter().map(|x| format!("in/{x}")));
            ps.extend(ODD.iter().map(|x| format!("{a}/../{x}")));
            check_paths(&m, &ps, st)
        },
    ));
    let nr = t.q(5usize, 6);
    fams.push(Family::new(
        "set-parents",
        "every tree built without or with wrong parents, then given its parents from every node: the subtree of that node has right parents, nothing else changes",
        0,
        move |ch| {
            let m = tree(ch, nr, &[K::Sub])?;
            let from = ch.pick(m.v.len());
            Some((m, from, ch.flag()))
        },
        |(m, from, wrong): &(Arena, usize, bool), st| {
            let stray = WzNode::from_str("stray", 1, None).into_lock();
            let mut arcs: Vec<WzNodeArc> = vec![];
            for (i, a) in m.v.iter().enumerate() {
                let x = WzNode::from_str(&a.name, m.obj(i), if *wrong { Some(&stray) } else { None }).into_lock();
                if let Some(p) = a.parent {
                    arcs[p].write().unwrap().add(&x);
                }
                arcs.push(x);
            }
            resolve_childs_parent(&arcs[*from]);
            st.transitions += 1;
            st.states += 1;
            st.traces += 1;
            for i in 0..m.v.len() {
                let g = arcs[i].read().unwrap().parent.upgrade();
                let below = i != *from && m.chain(i).contains(from);
                let ok = match &g {
                    Some(x) if below => Arc::ptr_eq(x, &arcs[m.v[i].parent.unwrap()]),
                    Some(x) => *wrong && Arc::ptr_eq(x, &stray),
                    None => !below && !*wrong,
                };
                ensure!(ok, "parent of node {i} after resolve_childs_parent({from}) is {:?}", g.map(|x| path_up(&x)));
                ensure_eq!(arcs[i].read().unwrap().children.len(), m.v[i].kids.len(), "children of node {i}");
            }
            st.observe(&m.show());
            Ok(())
        },
    ));
    let nt = t.q(3usize, 4);
    fams.push(Family::new(
        "move-children",
        "every pair of trees of up to n nodes: all children of every node of one moved to every node of the other",
        0,
        move |ch| {
            let mut m = Arena::default();
            m.add("s", K::Sub, None);
            grow(ch, &mut m, 0, nt, &[K::Sub])?;
            let cut = m.v.len();
            let r = m.add("d", K::Sub, None);
            grow(ch, &mut m, r, nt, &[K::Sub])?;
            let from = ch.pick(cut);
            let to = cut + ch.pick(m.v.len() - cut);
            Some((m, from, to))
        },
        |(m, from, to): &(Arena, usize, usize), st| {
            let mut m = m.clone();
            let arcs = m.build();
            arcs[*from].write().unwrap().transfer_childs(&arcs[*to]);
            transfer(&mut m, *from, *to);
            st.transitions += 1;
            st.states += 2;
            st.traces += 1;
            st.observe(&m.show());
            same_tree(&m, &arcs, "after transfer_childs")
        },
    ));
    let depth = t.q(3usize, 4);
    fams.push(Family::new(
        "move-histories",
        "three small trees with overlapping names: every sequence of moves between any two nodes of different trees and of lookups, checked after every step",
        0,
        move |ch| {
            let n = 1 + ch.pick(depth);
            Some((0..n).map(|_| (ch.pick(9), ch.pick(9))).collect::<Vec<_>>())
        },
        |ops: &Vec<(usize, usize)>, st| {
            let mut m = Arena::default();
            for (r, kids) in [("x", ["a", "b"]), ("y", ["b", "c"]), ("z", ["a", "a"])] {
                let i = m.add(r, K::Sub, None);
                let j = m.add(kids[0], K::Sub, Some(i));
                m.add(kids[1], K::Sub, Some(j));
            }
            let arcs = m.build();
            st.traces += 1;
            for (a, b) in ops {
                // only between different branches: neither below the other
                if a == b || m.chain(*a).contains(b) || m.chain(*b).contains(a) {
                    return Ok(());
                }
                arcs[*a].write().unwrap().transfer_childs(&arcs[*b]);
                transfer(&mut m, *a, *b);
                st.transitions += 1;
                st.states += 1;
                same_tree(&m, &arcs, &format!("after moving {a} to {b}"))?;
                for i in 0..m.v.len() {
                    let c = m.chain(i);
                    // merged-away nodes keep their old parent but are no longer listed
                    if m.path(c[0], &m.names(&c[1..])) == Some(i) {
                        same_node(&arcs, arcs[c[0]].read().unwrap().at_path(&arcs[i].read().unwrap().get_path_from_root()), Some(i), || format!("path of node {i}"))?;
                    }
                }
            }
            st.observe(&m.show());
            Ok(())
        },
    ));
    fams
}
thread_local! {
    static PATHS: RefCell<BTreeMap<usize, Vec<String>>> = RefCell::new(BTreeMap::new());
}
const COMPS: [&str; 7] = ["a", "b", "a.img", "..", ".", "", "zz"];
const ODD: [&str; 15] = ["a", "A", "a b", "ab", "a.img", "a.im", ".img", "..a", "...", "名", "名前", "é", "0", "00", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];

// ------------------------------------------------------------------------------ C12
/// shape of an image: parent index (0 = image) and what it is
#[derive(Clone, Debug)]
pub struct Links {
    pub m: Arena,
    pub img: usize,
    /// how the nodes with children are stored: plain list, bitmap, raw data, convex
    how: Vec<u8>,
}
const LCOMPS: [&str; 5] = ["a", "b", "..", "z", "c"];
/// Base/dir/{m.img (tested), a (plain, with child a), b.img}; the tested image gets `n` nodes of
/// which `l` are links; children are named a, b, c in order
fn link_tree(ch: &mut Ch, n: usize, l: usize, texts: &[String]) -> Option<Links> {
    link_tree_in(ch, n, l, texts, 1)
}
/// the same with every way of storing a node with children out of the first `hows`
pub fn link_tree_in(ch: &mut Ch, n: usize, l: usize, texts: &[String], hows: usize) -> Option<Links> {
    let mut m = Arena::default();
    let base = m.add("Base", K::File, None);
    let dir = m.add("dir", K::Dir, Some(base));
    let a = m.add("a", K::Sub, Some(dir));
    m.add("a", K::Sub, Some(a));
    let img = m.add("m.img", K::Img, Some(dir));
    let first = m.v.len();
    let mut links = 0;
    let mut lastp = img;
    let mut how = vec![0u8; first];
    for j in 0..n {
        let c = ch.pick(j + 1);
        let p = if c == 0 { img } else { first + c - 1 };
        if m.v[p].link.is_some() || p < lastp || m.v[p].kids.len() >= 3 {
            return None;
        }
        lastp = p;
        if p != img && hows > 1 && m.v[p].kids.is_empty() {
            how[p] = ch.pick(hows) as u8;
        }
        let name = if how[p] == 3 { ["0", "1", "2"] } else { ["a", "b", "c"] }[m.v[p].kids.len()];
        let link = links < l && ch.flag();
        let i = m.add(name, K::Sub, Some(p));
        how.push(0);
        if link {
            links += 1;
            m.v[i].link = Some(ch.of(texts).clone());
        }
    }
    if links != l {
        return None;
    }
    Some(Links { m, img, how })
}
impl Links {
    pub fn nodes(&self, i: usize) -> Vec<N> {
        // kids are named in creation order, BTreeMap order equals document order
        self.m.v[i]
            .kids
            .iter()
            .map(|(name, k)| match &self.m.v[*k].link {
                Some(t) => n(name, V::Uol(s(t))),
                None => {
                    let kids = self.nodes(*k);
                    n(
                        name,
                        match self.how[*k] {
                            1 => V::Canvas(Canvas { w: 1, h: 1, f1: 2, f2: 0, pages: 0, data: crate::crypt::zlib(&[1, 2, 3, 4], 6), kids: Some(kids) }),
                            2 => V::Raw { ver: 1, kids: Some(kids), data: vec![7, 8, 9] },
                            3 => V::Convex(kids.into_iter().map(|k| k.v).collect()),
                            _ => V::Sub(kids),
                        },
                    )
                }
            })
            .collect()
    }
    /// link nodes in document order
    fn order(&self, i: usize, o: &mut Vec<usize>) {
        for k in self.m.v[i].kids.values() {
            if self.m.v[*k].link.is_some() {
                o.push(*k);
            }
            self.order(*k, o);
        }
    }
}
fn run_links(c: &Links, st: &mut Stats) -> R {
    let mut order = vec![];
    c.order(c.img, &mut order);
    // stand-ins for the surroundings, then the real image
    let around = {
        let mut a = Arena::default();
        for x in &c.m.v[..c.img] {
            a.add(&x.name, x.k, x.parent);
        }
        a
    };
    let arcs = around.build();
    let bytes = image([0; 4], &c.nodes(c.img));
    let path = scratch_file("m.img", &bytes);
    let img = WzNode::from_img_file(&path, Some(wz_reader::version::WzMapleVersion::BMS), Some(&arcs[1])).map_err(|e| e.to_string())?.into_lock();
    arcs[1].write().unwrap().add(&img);
    let mut m = c.m.clone();
    st.traces += 1;
    for round in 0..2 {
        let mut m2 = m.clone();
        img.write().unwrap().parse(&img).map_err(|e| e.to_string())?;
        for l in &order {
            m2.resolve(*l);
            st.transitions += 1;
            st.states += 1;
        }
        same_found(&m2, 0, &arcs[0], if round == 0 { "after parsing" } else { "after parsing again" })?;
        // the paths the links stand for
        for l in &order {
            let chain = c.m.chain(*l);
            let own = c.m.names(&chain[1..]);
            let text = c.m.v[*l].link.clone().unwrap();
            let e = norm(&own, &text);
            ensure_eq!(get_resolved_uol_path(&own, &text), e, "get_resolved_uol_path({own:?}, {text:?})");
        }
        if round == 1 {
            m = m2;
            break;
        }
        img.write().unwrap().unparse();
    }
    st.observe(&m.show());
    Ok(())
}
/// textual meaning of a relative link
fn norm(own: &str, text: &str) -> String {
    let mut v: Vec<&str> = own.split('/').collect();
    v.pop();
    for p in text.split('/') {
        match p {
            ".." if !v.is_empty() => {
                v.pop();
            }
            "." => {}
            _ => v.push(p),
        }
    }
    v.join("/")
}
pub fn c12(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let t3: Vec<String> = paths(&LCOMPS, 3);
    let t2: Vec<String> = paths(&LCOMPS, 2);
    let t1d: Vec<String> = ["a", "b", "c", "../a", "../b", "a/b", "../..", "..", "../../a/a"].iter().map(|x| x.to_string()).collect();
    let (a3, b3) = (t3.clone(), t3.clone());
    let n1 = t.q(5usize, 6);
    let t4 = paths(&LCOMPS, t.q(4, 5));
    fams.push(Family::new(
        "one-link",
        "an image in a directory of an archive: every tree of up to n nodes with one link, every link text of up to 4 components over child names, '..' and a missing name; parsed, released and parsed again",
        0,
        move |ch| {
            let n = 1 + ch.pick(n1);
            link_tree(ch, n, 1, if n <= 3 { &t4 } else { &a3 })
        },
        run_links,
    ));
    let n2 = t.q(4usize, 5);
    let t2b = t2.clone();
    fams.push(Family::new(
        "two-links",
        "the same with two links (which may name each other, themselves, ancestors of each other) of up to 3 components in trees of up to n nodes",
        0,
        move |ch| {
            let n = 2 + ch.pick(n2 - 1);
            link_tree(ch, n, 2, if n <= n2.min(3) - 1 || n2 > 3 { &b3 } else { &t2b })
        },
        run_links,
    ));
    let n4 = t.q(5usize, 6);
    fams.push(Family::new(
        "two-links-wider",
        "two links of up to 2 components in trees of exactly n nodes",
        0,
        move |ch| link_tree(ch, n4, 2, &t2),
        run_links,
    ));
    let n3 = t.q(4usize, 5);
    fams.push(Family::new(
        "three-links",
        "three links with texts out of nine, in trees of up to n nodes",
        0,
        move |ch| {
            let n = 3 + ch.pick(n3 - 2);
            link_tree(ch, n, 3, &t1d)
        },
        run_links,
    ));
    let (nc, nd) = (t.q(4usize, 5), t.q(4usize, 5));
    let tc: Vec<String> = ["a", "b", "0", "1", "../a", "../b", "../0", "a/b", "..", "../..", "../../a", "../../a/a", "../a/0", "zz"].iter().map(|x| x.to_string()).collect();
    let tc2 = tc.clone();
    fams.push(Family::new(
        "link-containers",
        "one link below plain lists, bitmaps with children, raw data with children and convex lists, in every mix, in trees of up to n nodes; every text out of fourteen",
        0,
        move |ch| {
            let n = 2 + ch.pick(nc);
            link_tree_in(ch, n, 1, &tc, 4)
        },
        run_links,
    ));
    fams.push(Family::new(
        "two-links-containers",
        "two links below such containers in trees of up to n nodes",
        0,
        move |ch| {
            let n = 3 + ch.pick(nd - 2);
            link_tree_in(ch, n, 2, &tc2, 4)
        },
        run_links,
    ));
    // standalone resolution on hand-built trees, any order, repeated
    let ts: Vec<String> = ["a", "b", "..", "../a", "../b", "a/b", "../..", "../../a/a", "b/.."].iter().map(|x| x.to_string()).collect();
    let no = t.q(4usize, 5);
    fams.push(Family::new(
        "resolve-in-any-order",
        "hand-built trees with two links resolved one by one with resolve_uol in every order, each up to twice",
        0,
        move |ch| {
            let n = 2 + ch.pick(no - 1);
            let c = link_tree(ch, n, 2, &ts)?;
            let k = 1 + ch.pick(3);
            Some((c, (0..k).map(|_| ch.pick(2)).collect::<Vec<_>>()))
        },
        |(c, seq): &(Links, Vec<usize>), st| {
            let mut order = vec![];
            c.order(c.img, &mut order);
            let mut m = c.m.clone();
            let arcs = m.build();
            st.traces += 1;
            for x in seq {
                resolve_uol(&arcs[order[*x]], None);
                m.resolve(order[*x]);
                st.transitions += 1;
                st.states += 1;
                same_tree(&m, &arcs, &format!("after resolving link {}", order[*x]))?;
            }
            st.observe(&m.show());
            Ok(())
        },
    ));
    fams.push(Family::new(
        "uol-path-text",
        "get_resolved_uol_path over every own path of up to 3 components and every link text of up to 4 components",
        0,
        |ch| {
            let n = 1 + ch.pick(3);
            Some((0..n).map(|_| *ch.of(&["a", "b.img", "0"])).collect::<Vec<_>>().join("/"))
        },
        |own: &String, st| {
            for p in paths(&["a", "..", ".", "x.img"], 4) {
                ensure_eq!(get_resolved_uol_path(own, &p), norm(own, &p), "get_resolved_uol_path({own:?}, {p:?})");
                st.transitions += 1;
            }
            st.states += 1;
            st.traces += 1;
            st.observe(own);
            Ok(())
        },
    ));
    let ni = t.q(4usize, 5);
    let ip = paths(&["a", "b", "a.img", "..", "zz", ""], 3);
    fams.push(Family::new(
        "inlink-outlink",
        "every tree of up to n nodes (images anywhere, base archive or not), every node, every path: resolve_inlink and resolve_outlink, forced or not",
        0,
        move |ch| tree(ch, ni, &[K::Sub, K::Img]),
        move |m: &Arena, st| {
            let arcs = m.build();
            st.traces += 1;
            for i in 0..m.v.len() {
                let im = m.up(i, |a| a.k == K::Img);
                let ba = m.up(i, |a| a.k == K::File && a.name == "Base");
                for p in &ip {
                    same_node(&arcs, resolve_inlink(p, &arcs[i]), im.and_then(|x| m.path(x, p)), || format!("resolve_inlink({p:?}) from node {i}"))?;
                    for f in [false, true] {
                        same_node(&arcs, resolve_outlink(p, &arcs[i], f), ba.and_then(|x| m.path(x, p)), || format!("resolve_outlink({p:?}, {f}) from node {i}"))?;
                    }
                    st.transitions += 3;
                }
                st.states += 1;
            }
            same_tree(m, &arcs, "after resolving")?;
            st.observe(&m.show());
            Ok(())
        },
    ));
    fams.push(Family::new(
        "outlink-unparsed",
        "Base with two directories of unparsed image files, one of them damaged: every outlink path, forced or not, from every image, in every order of two: the result is the stored node, only images on the path of a forced link get parsed",
        0,
        |ch| {
            let n = 1 + ch.pick(2);
            Some((ch.pick(2), (0..n).map(|_| (ch.pick(OUT.len()), ch.flag())).collect::<Vec<_>>()))
        },
        |(from, ops): &(usize, Vec<(usize, bool)>), st| {
            let mut m = Arena::default();
            m.add("Base", K::File, None);
            m.add("d", K::Dir, Some(0));
            m.add("e", K::Dir, Some(0));
            let arcs = m.build();
            let mut imgs = vec![];
            for (name, p) in [("x.img", 1), ("y.img", 1), ("x.img", 2), ("bad.img", 2)] {
                let mut b = image([0; 4], &[n("k", V::Sub(vec![n("v", int(imgs.len() as i32)), n("u", V::Uol(s("v")))])), n("w", int(9))]);
                if name == "bad.img" {
                    let l = b.len();
                    b.truncate(l - 20);
                }
                let f = scratch_file(&format!("{p}{name}"), &b);
                let mut node = WzNode::from_img_file(&f, Some(wz_reader::version::WzMapleVersion::BMS), Some(&arcs[p])).map_err(|e| e.to_string())?;
                node.name = name.into();
                let node = node.into_lock();
                arcs[p].write().unwrap().add(&node);
                imgs.push(node);
            }
            let start = imgs[*from].clone();
            let mut parsed = [false; 4];
            st.traces += 1;
            for (o, force) in ops {
                let p = OUT[*o];
                let got = resolve_outlink(p, &start, *force);
                st.transitions += 1;
                st.states += 1;
                // model
                let comps: Vec<&str> = p.split('/').collect();
                let mut exp = None;
                let im = match (comps[0], comps.get(1)) {
                    ("d", Some(&"x.img")) => Some(0),
                    ("d", Some(&"y.img")) => Some(1),
                    ("e", Some(&"x.img")) => Some(2),
                    ("e", Some(&"bad.img")) => Some(3),
                    _ => None,
                };
                if let Some(i) = im {
                    if comps.len() == 2 {
                        exp = Some(i.to_string());
                    } else {
                        if *force && i != 3 {
                            parsed[i] = true;
                        }
                        if parsed[i] {
                            exp = match &comps[2..] {
                                ["k"] => Some("k".into()),
                                ["k", "v"] | ["k", "u"] => Some(format!("v{i}")),
                                ["w"] => Some("w".into()),
                                _ => None,
                            };
                        }
                    }
                } else if comps.len() == 1 && (comps[0] == "d" || comps[0] == "e") {
                    exp = Some(p.into());
                }
                let shown = got.as_ref().map(|g| {
                    if let Some(i) = imgs.iter().position(|x| Arc::ptr_eq(x, g)) {
                        return i.to_string();
                    }
                    let r = g.read().unwrap();
                    match &r.object_type {
                        WzObjectType::Value(WzValue::Int(x)) if r.name.as_str() == "v" => format!("v{x}"),
                        _ => r.name.to_string(),
                    }
                });
                ensure_eq!(shown, exp, "resolve_outlink({p:?}, {force})");
                for i in 0..4 {
                    let r = imgs[i].read().unwrap();
                    let WzObjectType::Image(x) = &r.object_type else { return Err("not an image".into()) };
                    ensure!(x.is_parsed == parsed[i] && (r.children.len() == if parsed[i] { 2 } else { 0 }), "after resolve_outlink({p:?}, {force}): image {i} parsed={} children={}, expected parsed={}", x.is_parsed, r.children.len(), parsed[i]);
                }
            }
            st.observe(&format!("{from}{ops:?}"));
            Ok(())
        },
    ));
    fams.push(Family::new(
        "linked-bitmaps",
        "three bitmaps of different size in two images under Base, each with an inlink, an outlink or both out of a set (to each other, to itself, to a plain node, to nothing): get_image gives the bitmap at the end of the links or an error, never loops",
        0,
        |ch| Some((0..3).map(|_| (ch.pick(6), ch.pick(7))).collect::<Vec<_>>()),
        |c: &Vec<(usize, usize)>, st| {
            let canvas = |i: usize| -> V {
                let mut kids = vec![];
                if let Some(t) = INL[c[i].0] {
                    kids.push(n("_inlink", V::Str(s(t))));
                }
                if let Some(t) = OUTL[c[i].1] {
                    kids.push(n("_outlink", V::Str(s(t))));
                }
                let (w, h) = (1 + i as i32, 4);
                V::Canvas(Canvas { w, h, f1: 2, f2: 0, pages: 0, data: crate::crypt::zlib(&vec![10 * i as u8 + 1; (w * h * 4) as usize], 6), kids: if kids.is_empty() { None } else { Some(kids) } })
            };
            let mut m = Arena::default();
            m.add("Base", K::File, None);
            m.add("d", K::Dir, Some(0));
            let arcs = m.build();
            let mut imgs = vec![];
            for (name, kids) in [("x.img", vec![n("p", canvas(0)), n("q", canvas(1)), n("t", int(1))]), ("y.img", vec![n("p", canvas(2)), n("t", int(2))])] {
                let f = scratch_file(&format!("lb{name}"), &image([0; 4], &kids));
                let mut node = WzNode::from_img_file(&f, Some(wz_reader::version::WzMapleVersion::BMS), Some(&arcs[1])).map_err(|e| e.to_string())?;
                node.name = name.into();
                let node = node.into_lock();
                arcs[1].write().unwrap().add(&node);
                imgs.push(node);
            }
            parse_node(&imgs[0]).map_err(|e| e.to_string())?;
            st.traces += 1;
            // model: canvas index -> next
            #[derive(Clone, Copy, PartialEq, Debug)]
            enum Nx {
                Own,
                To(usize),
                NotCanvas,
            }
            let look = |img: usize, p: &str| -> Option<Nx> {
                match (img, p) {
                    (0, "p") => Some(Nx::To(0)),
                    (0, "q") => Some(Nx::To(1)),
                    (1, "p") => Some(Nx::To(2)),
                    (_, "t") => Some(Nx::NotCanvas),
                    _ => None,
                }
            };
            let next = |i: usize| -> Nx {
                let im = if i == 2 { 1 } else { 0 };
                if let Some(x) = INL[c[i].0].and_then(|p| look(im, p)) {
                    return x;
                }
                if let Some(x) = OUTL[c[i].1].and_then(|p| p.strip_prefix("d/x.img/").and_then(|r| look(0, r)).or_else(|| p.strip_prefix("d/y.img/").and_then(|r| look(1, r)))) {
                    return x;
                }
                Nx::Own
            };
            for i in [0usize, 1, 2] {
                if i == 2 {
                    parse_node(&imgs[1]).map_err(|e| e.to_string())?;
                }
                let node = imgs[if i == 2 { 1 } else { 0 }].read().unwrap().at(if i == 1 { "q" } else { "p" }).ok_or("bitmap missing")?;
                let mut cur = Nx::To(i);
                let mut seen = vec![];
                let exp = loop {
                    let Nx::To(k) = cur else { break None };
                    if seen.contains(&k) {
                        break None;
                    }
                    seen.push(k);
                    match next(k) {
                        Nx::Own => break Some(k),
                        x => cur = x,
                    }
                };
                let got = wz_reader::property::png::get_image(&node);
                st.transitions += 1;
                st.states += seen.len() as u64;
                match (got, exp) {
                    (Ok(g), Some(k)) => {
                        let g = g.to_rgba8();
                        ensure!(g.width() == 1 + k as u32 && g.height() == 4 && g.as_raw().iter().all(|b| *b == 10 * k as u8 + 1), "bitmap {i}: got one of {}x{} {:?}, expected that of bitmap {k}", g.width(), g.height(), g.as_raw().first());
                    }
                    (Err(_), None) => {}
                    (g, e) => return Err(format!("bitmap {i}: got {:?}, expected {e:?}", g.map(|g| (g.width(), g.height())).map_err(|e| e.to_string()))),
                }
            }
            st.observe(&format!("{c:?}"));
            Ok(())
        },
    ));
    fams
}
const OUT: [&str; 13] = ["d/x.img", "d/x.img/k", "d/x.img/k/v", "d/x.img/k/u", "d/x.img/zz", "d/y.img/k/v", "e/x.img/k/v", "e/x.img/w", "e/bad.img", "e/bad.img/w", "e/zz.img/w", "d", "zz/x.img"];
const INL: [Option<&str>; 6] = [None, Some("p"), Some("q"), Some("t"), Some("zz"), Some("p/_inlink/x")];
const OUTL: [Option<&str>; 7] = [None, Some("d/x.img/p"), Some("d/x.img/q"), Some("d/y.img/p"), Some("d/y.img/t"), Some("d/zz.img/p"), Some("d/y.img/p/_outlink/x")];

// ------------------------------------------------------------------------------ C13
/// places of a model tree in the order rules: (path, index), parents first
fn places(m: &Arena, i: usize, path: String, o: &mut Vec<(String, usize)>) {
    o.push((path.clone(), i));
    for (n, k) in &m.v[i].kids {
        places(m, *k, format!("{path}/{n}"), o);
    }
}
/// what a visitor sees and does at each node: the node and its navigation
fn visit(node: &WzNodeArc, log: &RefCell<Vec<WzNodeArc>>) {
    log.borrow_mut().push(node.clone());
    let r = node.read().unwrap();
    let full = r.get_full_path();
    let p = r.parent.upgrade();
    drop(r);
    if let Some(p) = p {
        // look around: siblings, ancestors, the node through its parent
        let pr = p.read().unwrap();
        let _ = pr.children.len();
        let _ = pr.get_full_path();
        drop(pr);
    }
    let r = node.read().unwrap();
    let _ = r.at_path_relative("..");
    let _ = r.at_path_relative("../..");
    let _ = r.get_parent_wz_image();
    let _ = r.get_base_wz_file();
    assert!(full.ends_with(r.name.as_str()));
    let kids: Vec<WzNodeArc> = r.children.values().cloned().collect();
    for k in kids {
        let _ = k.read().unwrap().get_full_path();
    }
    drop(r);
    // a visitor may also take the node for itself
    let w = node.write().unwrap();
    let _ = w.children.len();
}
/// every place once, parents before children
fn check_walk(m: &Arena, root: usize, ids: &[Option<WzNodeArc>], log: &[WzNodeArc]) -> R {
    let mut pl = vec![];
    places(m, root, m.v[root].name.clone(), &mut pl);
    let mut want: BTreeMap<usize, usize> = BTreeMap::new();
    for (_, i) in &pl {
        *want.entry(*i).or_default() += 1;
    }
    let mut got: BTreeMap<usize, usize> = BTreeMap::new();
    let mut seq = vec![];
    for a in log {
        let i = ids.iter().position(|x| x.as_ref().is_some_and(|x| Arc::ptr_eq(x, a))).ok_or_else(|| format!("visited a node that is not in the tree: {}", path_up(a)))?;
        *got.entry(i).or_default() += 1;
        seq.push(i);
    }
    ensure!(got == want, "visits per node {got:?}, expected {want:?}");
    // parent before child: the k-th visit of a child needs a place above it visited before
    let mut seen: Vec<usize> = vec![0; m.v.len()];
    for i in seq {
        seen[i] += 1;
        if i != root {
            let above: usize = (0..m.v.len()).map(|p| m.v[p].kids.values().filter(|k| **k == i).count() * seen[p]).sum();
            ensure!(seen[i] <= above, "node {i} visited before the node above it");
        }
    }
    Ok(())
}
pub fn c13(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let np = t.q(4usize, 5);
    fams.push(Family::new(
        "plain",
        "every tree of up to n nodes of plain nodes, images and directories already parsed, walked without parsing from every node; the visitor reads, writes and navigates",
        0,
        move |ch| {
            let m = tree(ch, np, &[K::Sub, K::Img, K::Int])?;
            let from = ch.pick(m.v.len());
            Some((m, from))
        },
        |(m, from): &(Arena, usize), st| {
            let arcs = m.build();
            let log = RefCell::new(vec![]);
            walk_node(&arcs[*from], false, &|n| visit(n, &log));
            st.transitions += log.borrow().len() as u64;
            st.states += 1;
            st.traces += 1;
            let ids: Vec<_> = arcs.iter().cloned().map(Some).collect();
            check_walk(m, *from, &ids, &log.borrow())?;
            st.observe(&m.show());
            same_tree(m, &arcs, "after the walk")
        },
    ));
    let ts: Vec<String> = ["a", "b", "..", "../a", "../b", "a/b", "../c", "../../a"].iter().map(|x| x.to_string()).collect();
    let nl = t.q(5usize, 6);
    fams.push(Family::new(
        "links",
        "images with up to two links, parsed and walked without parsing, and walked with parsing: links that point up, down, at each other and out of the image",
        0,
        move |ch| {
            let n = 1 + ch.pick(nl);
            let l = ch.pick(n.min(2) + 1);
            link_tree(ch, n, l, &ts)
        },
        |c: &Links, st| {
            let mut order = vec![];
            c.order(c.img, &mut order);
            let around = {
                let mut a = Arena::default();
                for x in &c.m.v[..c.img] {
                    a.add(&x.name, x.k, x.parent);
                }
                a
            };
            let arcs = around.build();
            let path = scratch_file("w.img", &image([0; 4], &c.nodes(c.img)));
            let mut img = WzNode::from_img_file(&path, Some(wz_reader::version::WzMapleVersion::BMS), Some(&arcs[1])).map_err(|e| e.to_string())?;
            img.name = "m.img".into();
            let img = img.into_lock();
            arcs[1].write().unwrap().add(&img);
            let mut m = c.m.clone();
            for l in &order {
                m.resolve(*l);
            }
            st.traces += 1;
            // forced: the visitor must see the whole image, afterwards it is released
            let seen = RefCell::new(vec![]);
            let paths_seen = RefCell::new(vec![]);
            walk_node(&arcs[0], true, &|n| {
                paths_seen.borrow_mut().push(n.read().unwrap().get_full_path());
                visit(n, &seen)
            });
            let mut pl = vec![];
            places(&m, 0, "Base".into(), &mut pl);
            let mut want: Vec<String> = pl.iter().map(|(_, i)| m.names(&m.chain(*i))).collect();
            let mut got = paths_seen.into_inner();
            st.transitions += got.len() as u64;
            st.states += 2;
            want.sort();
            got.sort();
            ensure_eq!(got, want, "paths visited by a walk that parses");
            {
                let r = img.read().unwrap();
                ensure!(r.children.is_empty() && matches!(&r.object_type, WzObjectType::Image(x) if !x.is_parsed), "the image is not released after the walk");
            }
            img.write().unwrap().parse(&img).map_err(|e| e.to_string())?;
            let ids = same_found(&m, 0, &arcs[0], "after parsing")?;
            let log = RefCell::new(vec![]);
            walk_node(&arcs[0], false, &|n| visit(n, &log));
            check_walk(&m, 0, &ids, &log.borrow())?;
            same_found(&m, 0, &arcs[0], "after the walk")?;
            st.observe(&m.show());
            Ok(())
        },
    ));
    fams.extend(crate::walks::families(t));
    fams
}
