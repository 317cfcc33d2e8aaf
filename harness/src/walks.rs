//! C13 on real files: walks of archives and packs in every state of being parsed.
use crate::core::*;
use crate::crypt::*;
use crate::img::*;
use crate::ms;
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::cell::RefCell;
use std::collections::BTreeMap;
use wz_reader::util::{node_util, walk_node};
use wz_reader::*;

/// every place below a model tree as (path, value), sorted
fn flat(t: &T, at: &str, o: &mut Vec<(String, String)>) {
    let p = if at.is_empty() { t.name.clone() } else { format!("{at}/{}", t.name) };
    o.push((p.clone(), t.v.clone()));
    for k in &t.kids {
        flat(k, &p, o);
    }
}
/// the node at a path of the model, from the root's path on
fn sub<'a>(t: &'a T, rel: &[&str]) -> Option<&'a T> {
    match rel.split_first() {
        None => Some(t),
        Some((a, r)) => t.kids.iter().find(|k| k.name == *a).and_then(|k| sub(k, r)),
    }
}
fn node_at(n: &WzNodeArc, rel: &[&str]) -> Option<WzNodeArc> {
    let mut c = n.clone();
    for a in rel {
        let k = c.read().unwrap().children.get(*a).cloned();
        c = k?;
    }
    Some(c)
}
/// walk and compare what was visited with the model
fn walked(start: &WzNodeArc, force: bool, want: &T, up: &str, busy: bool, st: &mut Stats) -> R {
    let log: RefCell<Vec<(String, String)>> = RefCell::new(vec![]);
    let err: RefCell<Option<String>> = RefCell::new(None);
    walk_node(start, force, &|x| {
        let r = x.read().unwrap();
        log.borrow_mut().push((r.get_full_path(), obs(&r)));
        let kids: Vec<(String, WzNodeArc)> = r.children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let up = r.parent.upgrade();
        drop(r);
        if busy {
            for (name, k) in &kids {
                let kr = k.read().unwrap();
                if kr.name.as_str() != name {
                    *err.borrow_mut() = Some(format!("child {name} is called {}", kr.name));
                }
                let p = kr.parent.upgrade();
                drop(kr);
                if !p.is_some_and(|p| std::sync::Arc::ptr_eq(&p, x)) {
                    *err.borrow_mut() = Some(format!("child {name} does not know its parent while visited"));
                }
            }
            if let Some(p) = up {
                let name = x.read().unwrap().name.to_string();
                if !p.read().unwrap().children.get(name.as_str()).is_some_and(|k| std::sync::Arc::ptr_eq(k, x)) {
                    *err.borrow_mut() = Some(format!("{name} is not among the children of the node above while visited"));
                }
            }
            let w = x.write().unwrap();
            let _ = w.children.len();
        }
    });
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    let log = log.into_inner();
    let mut exp = vec![];
    flat(want, up, &mut exp);
    let mut got = log.clone();
    exp.sort();
    got.sort();
    if got != exp {
        let miss: Vec<_> = exp.iter().filter(|x| !got.contains(x)).take(4).collect();
        let extra: Vec<_> = got.iter().filter(|x| !exp.contains(x)).take(4).collect();
        return Err(format!("visited {} places instead of {}; not visited {miss:?}, not expected {extra:?}", got.len(), exp.len()));
    }
    let at: BTreeMap<&String, usize> = log.iter().enumerate().map(|(i, x)| (&x.0, i)).collect();
    for (p, _) in &log {
        if let Some((a, _)) = p.rsplit_once('/') {
            if let Some(i) = at.get(&a.to_string()) {
                ensure!(*i < at[p], "{p} visited before the node above it");
            }
        }
    }
    st.transitions += log.len() as u64;
    st.states += 1;
    Ok(())
}

// ------------------------------------------------------------------ archives
#[derive(Clone, Debug)]
struct Walk {
    a: Arch,
    opened: bool,
    /// images parsed before, by number in the order of their paths
    parsed: u32,
    /// place the walk starts at
    from: usize,
    force: bool,
    busy: bool,
}
/// an image of another kind: none, damaged, script
fn odd(k: usize, iv: [u8; 4]) -> Option<(Ent, Vec<T>)> {
    match k {
        1 => {
            let mut b = image(iv, &[n("k", V::Sub(vec![n("v", int(1))])), n("w", int(9))]);
            let l = b.len();
            b.truncate(l - 3);
            Some((Ent::new("Bad.img", K::Img(b, None)), vec![]))
        }
        2 => {
            let text = "local x = 1";
            let mut b = vec![1u8];
            b.extend(wz_int(text.len() as i32, Form::Auto));
            b.extend(xor_ks(iv, text.as_bytes()));
            Some((Ent::new("Sc.lua", K::Img(b, None)), vec![T { name: "Script".into(), v: format!("Lua {text:?}"), kids: vec![] }]))
        }
        _ => None,
    }
}
fn imgs_of(l: &[Ent], at: &[String], o: &mut Vec<Vec<String>>) {
    for e in l {
        let mut p = at.to_vec();
        p.push(e.name.t.clone());
        match &e.k {
            K::Dir(d, _) => imgs_of(d, &p, o),
            K::Img(..) => o.push(p),
        }
    }
}
fn open_t(t: &T, at: &mut Vec<String>, extra: &BTreeMap<String, Vec<T>>, full: &T, is_open: &dyn Fn(&[String]) -> bool) -> T {
    let kids = if t.v == "Image" {
        if is_open(at) {
            let rel: Vec<&str> = at.iter().map(|x| x.as_str()).collect();
            extra.get(&t.name).cloned().unwrap_or_else(|| sub(full, &rel).map(|x| x.kids.clone()).unwrap_or_default())
        } else {
            vec![]
        }
    } else {
        t.kids
            .iter()
            .map(|k| {
                at.push(k.name.clone());
                let r = open_t(k, at, extra, full, is_open);
                at.pop();
                r
            })
            .collect()
    };
    T { name: t.name.clone(), v: t.v.clone(), kids }
}
fn run_arch(c: &(Walk, usize), st: &mut Stats) -> R {
    let (w, odd_k) = c;
    let mut a = w.a.clone();
    let mut extra = BTreeMap::new();
    if let Some((e, k)) = odd(*odd_k, a.iv) {
        extra.insert(e.name.t.clone(), k);
        a.ents.push(e);
    }
    let p = scratch_file("Walk.wz", &a.build());
    let root = WzNode::from_wz_file_full(&p, None, Some(83), None, None).map_err(|e| e.to_string())?.into_lock();
    let (listing, full) = (a.listing("Walk"), a.full("Walk"));
    let mut paths = vec![];
    imgs_of(&a.ents, &[], &mut paths);
    let mut parsed: Vec<bool> = vec![false; paths.len()];
    if w.opened {
        root.write().unwrap().parse(&root).map_err(|e| e.to_string())?;
        for (i, p) in paths.iter().enumerate() {
            if w.parsed >> i & 1 == 1 {
                let rel: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
                let x = node_at(&root, &rel).ok_or("image missing")?;
                let bad = p[0] == "Bad.img";
                let r = node_util::parse_node(&x);
                ensure!(r.is_err() == bad, "parsing {p:?}: {r:?}");
                parsed[i] = !bad;
            }
        }
    }
    st.traces += 1;
    // what is open now
    let now = |parsed: &[bool]| open_t(&listing, &mut vec![], &extra, &full, &|at| paths.iter().zip(parsed).any(|(p, o)| *o && p == at));
    let before = if w.opened { now(&parsed) } else { T { name: "Walk".into(), v: "File".into(), kids: vec![] } };
    // the places a walk may start at: the root, directories and images
    let mut starts: Vec<Vec<String>> = vec![vec![]];
    fn dirs(t: &T, at: &[String], o: &mut Vec<Vec<String>>) {
        for k in &t.kids {
            let mut p = at.to_vec();
            p.push(k.name.clone());
            o.push(p.clone());
            dirs(k, &p, o);
        }
    }
    dirs(&listing, &[], &mut starts);
    let s = &starts[w.from];
    let rel: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    let start = node_at(&root, &rel).ok_or("start missing")?;
    let up = if s.is_empty() { String::new() } else { std::iter::once("Walk".to_string()).chain(s[..s.len() - 1].iter().cloned()).collect::<Vec<_>>().join("/") };
    let under = |p: &[String]| p.len() >= s.len() && p[..s.len()] == s[..];
    let all_open = open_t(&listing, &mut vec![], &extra, &full, &|at| at[0] != "Bad.img");
    let want_walk = if w.force { &all_open } else { &before };
    let want = sub(want_walk, &rel).ok_or("model start missing")?;
    walked(&start, w.force, want, &up, w.busy, st)?;
    // afterwards
    if w.force {
        for (i, p) in paths.iter().enumerate() {
            if under(p) {
                parsed[i] = false;
            }
        }
    }
    let after = if w.force || w.opened { now(&parsed) } else { before.clone() };
    same(&after, &dump(&root)?).map_err(|e| format!("after the walk: {e}"))?;
    for (i, p) in paths.iter().enumerate() {
        let rel: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        if let Some(x) = node_at(&root, &rel) {
            let r = x.read().unwrap();
            let im = r.try_as_image().ok_or("not an image")?;
            ensure!(im.is_parsed == parsed[i], "after the walk: parsed flag of {p:?} is {}, expected {}", im.is_parsed, parsed[i]);
        }
    }
    // and everything is still there
    if w.force {
        walked(&start, true, want, &up, false, st)?;
        for (i, p) in paths.iter().enumerate() {
            if p[0] == "Bad.img" {
                continue;
            }
            let rel: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
            node_util::parse_node(&node_at(&root, &rel).ok_or("image gone")?).map_err(|e| format!("{p:?} after the walk: {e}"))?;
            parsed[i] = true;
        }
        same(&now(&parsed), &dump(&root)?).map_err(|e| format!("parsed after the walk: {e}"))?;
    }
    st.observe(&format!("{}{}", all_open.show(), w.from));
    Ok(())
}

// ------------------------------------------------------------------ packs
#[derive(Clone, Debug)]
struct PWalk {
    gen: u8,
    imgs: usize,
    opened: bool,
    parsed: u32,
    from: usize,
    force: bool,
    busy: bool,
    damaged: bool,
}
fn run_pack(w: &PWalk, st: &mut Stats) -> R {
    let tops = [vec![n("v", int(7))], vec![n("s", V::Sub(vec![n("t", crate::img::st("x")), n("u", V::Null)]))], vec![]];
    let names = ["Mob/1.img", "a.img", "b.img"];
    let mut ents: Vec<_> = (0..w.imgs).map(|i| ms::pe(names[i], tops[i].clone())).collect();
    if w.damaged {
        ents[0].bytes[0] = 0x72;
    }
    let p = ms::Pack::new(w.gen, "mob_00000.ms", b"salty", ents);
    let root = ms::open_pack(&p.file, &p.build())?;
    let img_t = |i: usize, open: bool| T { name: names[i].into(), v: if open { "Image" } else { "MsImage" }.into(), kids: if open { model(&tops[i]) } else { vec![] } };
    let bad = |i: usize| w.damaged && i == 0;
    let rootname = p.node_name().to_string();
    // what each image is now: never parsed, open, released
    let mut now: Vec<u8> = vec![0; w.imgs];
    if w.opened {
        node_util::parse_node(&root).map_err(|e| e.to_string())?;
        for i in 0..w.imgs {
            if w.parsed >> i & 1 == 1 {
                let x = node_at(&root, &[names[i]]).ok_or("image missing")?;
                let r = node_util::parse_node(&x);
                ensure!(r.is_err() == bad(i), "parsing {}: {r:?}", names[i]);
                if !bad(i) {
                    now[i] = 1;
                }
            }
        }
    }
    st.traces += 1;
    let show = |now: &[u8]| T { name: rootname.clone(), v: "MsFile".into(), kids: (0..w.imgs).map(|i| match now[i] { 0 => img_t(i, false), 1 => img_t(i, true), _ => T { kids: vec![], ..img_t(i, true) } }).collect() };
    let before = if w.opened { show(&now) } else { T { name: rootname.clone(), v: "MsFile".into(), kids: vec![] } };
    let start = if w.from == 0 { root.clone() } else { node_at(&root, &[names[w.from - 1]]).ok_or("start missing")? };
    let all: Vec<u8> = (0..w.imgs).map(|i| if bad(i) { 0 } else { 1 }).collect();
    let all = show(&all);
    let src = if w.force { &all } else { &before };
    let want = if w.from == 0 { src } else { sub(src, &[names[w.from - 1]]).ok_or("model start missing")? };
    let up = if w.from == 0 { String::new() } else { rootname.clone() };
    if w.force && w.damaged {
        // a damaged image may be shown as either kind of image
        let log = RefCell::new(0);
        walk_node(&start, true, &|_| *log.borrow_mut() += 1);
        st.transitions += *log.borrow() as u64;
        ensure_eq!(*log.borrow(), want.count(), "places visited in a pack with a damaged image");
    } else {
        walked(&start, w.force, want, &up, w.busy, st)?;
    }
    if w.force {
        for i in 0..w.imgs {
            if (w.from == 0 || w.from == i + 1) && !bad(i) {
                now[i] = 2;
            }
        }
    }
    let open = w.opened || w.force;
    if open && !w.damaged {
        same(&show(&now), &dump(&root)?).map_err(|e| format!("after the walk: {e}"))?;
    }
    for i in 0..w.imgs {
        if let Some(x) = node_at(&root, &[names[i]]) {
            let r = x.read().unwrap();
            if let Some(im) = r.try_as_image() {
                ensure!(im.is_parsed == (now[i] == 1), "after the walk: parsed flag of {} is {}", names[i], im.is_parsed);
            } else {
                ensure!(now[i] == 0, "after the walk: {} is no image", names[i]);
            }
            ensure!(now[i] == 1 || r.children.is_empty(), "after the walk: {} holds children", names[i]);
        }
    }
    if open && !w.damaged {
        for i in 0..w.imgs {
            node_util::parse_node(&node_at(&root, &[names[i]]).ok_or("image gone")?).map_err(|e| format!("{} after the walk: {e}", names[i]))?;
            now[i] = 1;
        }
        same(&show(&now), &dump(&root)?).map_err(|e| format!("parsed after the walk: {e}"))?;
    }
    st.observe(&format!("{w:?}"));
    Ok(())
}
fn ndirs(l: &[Ent]) -> usize {
    l.iter().map(|e| 1 + if let K::Dir(d, _) = &e.k { ndirs(d) } else { 0 }).sum()
}
pub fn families(t: Tier) -> Vec<Family> {
    let max = t.q(6u32, 7);
    vec![
        Family::new(
            "archives",
            "every archive of up to n directories and images (with no, a damaged or a script image besides), every set of images parsed before, or the archive not even opened, walked from every entry, with and without parsing, by a visitor that looks at everything around the node and locks it: what is visited, what is left, and a second walk",
            0,
            move |ch| {
                let force = ch.flag();
                let odd_k = ch.pick(3);
                let mut left = if odd_k == 0 { max } else { max - 1 };
                let mut c = 0;
                let ents = ent_forest(ch, &mut left, 0, GMS, &mut c);
                let mut ni = vec![];
                imgs_of(&ents, &[], &mut ni);
                let k = (odd_k > 0) as usize;
                let opened = ch.flag();
                let parsed = if opened { ch.pick(1 << (ni.len() + k)) as u32 } else { 0 };
                let from = if opened { ch.pick(1 + ndirs(&ents) + k) } else { 0 };
                let busy = ch.flag();
                Some((Walk { a: Arch::p1(83, GMS, ents), opened, parsed, from, force, busy }, odd_k))
            },
            run_arch,
        ),
        Family::new(
            "packs",
            "packs of both generations with up to three images, in every state of being opened and parsed before, one image damaged or not, walked from the pack and from every image",
            0,
            move |ch| {
                let gen = 1 + ch.pick(2) as u8;
                let imgs = ch.pick(4);
                let opened = ch.flag();
                let parsed = if opened { ch.pick(1 << imgs) as u32 } else { 0 };
                let from = if opened { ch.pick(imgs + 1) } else { 0 };
                let force = ch.flag();
                let damaged = imgs > 0 && ch.flag();
                let busy = ch.flag();
                Some(PWalk { gen, imgs, opened, parsed, from, force, busy, damaged })
            },
            run_pack,
        ),
    ]
}
