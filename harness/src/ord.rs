//! C24 in the build that keeps order (cargo feature indexmap): children are listed and walked in
//! stored order.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::ms;
use crate::nav;
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;
use wz_reader::util::{node_util, walk_node};
use wz_reader::version::WzMapleVersion;
use wz_reader::*;

/// the tree below a node with children in the order the map lists them
fn dump_ord(a: &WzNodeArc, d: usize) -> Result<T, String> {
    ensure!(d < 200, "tree too deep");
    let r = a.read().map_err(|_| "poisoned")?;
    let mut kids = vec![];
    for (name, k) in r.children.iter() {
        let own = {
            let kr = k.read().unwrap();
            kr.name.as_str() == name.as_str() && kr.parent.upgrade().is_some_and(|p| Arc::ptr_eq(&p, a))
        };
        let mut t = if own { dump_ord(k, d + 1)? } else { T { name: String::new(), v: format!("->{}", path_up(k)), kids: vec![] } };
        t.name = name.to_string();
        kids.push(t);
    }
    let keys: Vec<String> = r.children.keys().map(|x| x.to_string()).collect();
    let vals: Vec<String> = r.children.values().map(|k| k.read().unwrap().name.to_string()).collect();
    ensure_eq!(keys, kids.iter().map(|k| k.name.clone()).collect::<Vec<_>>(), "keys of {}", r.name);
    for (i, k) in kids.iter().enumerate() {
        ensure!(k.v.starts_with("->") || vals[i] == k.name, "the {i}th value of {} is {}, its key is {}", r.name, vals[i], k.name);
    }
    Ok(T { name: r.name.to_string(), v: obs(&r), kids })
}
/// names and order only
fn shape(t: &T) -> String {
    format!("{}({})", t.name, t.kids.iter().map(shape).collect::<Vec<_>>().join(" "))
}
fn first_out(exp: &T, got: &T, at: &str) -> Option<String> {
    let e: Vec<&str> = exp.kids.iter().map(|k| k.name.as_str()).collect();
    let g: Vec<&str> = got.kids.iter().map(|k| k.name.as_str()).collect();
    if e != g {
        return Some(format!("children of {at}{} are listed as {}, stored as {}", exp.name, short(&format!("{g:?}")), short(&format!("{e:?}"))));
    }
    exp.kids.iter().zip(&got.kids).find_map(|(a, b)| first_out(a, b, &format!("{at}{}/", exp.name)))
}
fn in_order(exp: &T, n: &WzNodeArc, what: &str, st: &mut Stats) -> R {
    let got = dump_ord(n, 0)?;
    match first_out(exp, &got, "") {
        Some(d) => return Err(format!("{what}: {d}")),
        None => {}
    }
    if let Some(d) = diff(exp, &got, "") {
        return Err(format!("{what}: {d}"));
    }
    st.states += exp.count() as u64;
    st.observe(&shape(&got));
    Ok(())
}
/// a walk meets the children of every node one after another in stored order, below their parent
fn walk_order(exp: &T, n: &WzNodeArc, force: bool, what: &str, st: &mut Stats) -> R {
    let log: RefCell<Vec<String>> = RefCell::new(vec![]);
    walk_node(n, force, &|x| {
        let p = x.read().unwrap().get_full_path();
        log.borrow_mut().push(p);
    });
    let log = log.into_inner();
    let at: HashMap<&str, usize> = log.iter().enumerate().map(|(i, p)| (p.as_str(), i)).collect();
    ensure_eq!(log.len(), exp.count(), "{what}: places visited by the walk");
    fn go(t: &T, path: &str, at: &HashMap<&str, usize>, what: &str) -> R {
        let me = *at.get(path).ok_or_else(|| format!("{what}: {path} is not visited"))?;
        let mut last = me;
        for k in &t.kids {
            let p = format!("{path}/{}", k.name);
            let i = *at.get(p.as_str()).ok_or_else(|| format!("{what}: {p} is not visited"))?;
            ensure!(i > last, "{what}: {p} is visited out of order");
            last = i;
            go(k, &p, at, what)?;
        }
        Ok(())
    }
    st.transitions += log.len() as u64;
    go(exp, &exp.name, &at, what)
}

// ------------------------------------------------------------------ names
/// the names of one list of n under a naming scheme
fn scheme(k: usize, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| match k {
            0 => format!("n{i}"),
            1 => format!("{}", 9000 - i),
            2 => ["mob", "a", "10", "9", "zz", "名", "Z", "b"][i % 8].to_string() + &"_".repeat(i / 8),
            3 => format!("{}x{}", "y".repeat((i * 7) % 5), (i * 5) % 17 + i / 17 * 100),
            _ => (i as u64).wrapping_mul(0x9E3779B97F4A7C15).to_string(),
        })
        .collect()
}
fn rename(l: &mut [N], k: usize) {
    let names = scheme(k, l.len());
    for (x, nm) in l.iter_mut().zip(names) {
        x.name = s(&nm);
        match &mut x.v {
            V::Sub(c) | V::Canvas(Canvas { kids: Some(c), .. }) | V::Raw { kids: Some(c), .. } => rename(c, k),
            V::Convex(v) => {
                for y in v {
                    if let V::Sub(c) | V::Canvas(Canvas { kids: Some(c), .. }) = y {
                        rename(c, k)
                    }
                }
            }
            _ => {}
        }
    }
}
fn rename_ents(l: &mut [Ent], k: usize) {
    let names = scheme(k, l.len());
    for (x, nm) in l.iter_mut().zip(names) {
        match &mut x.k {
            K::Dir(d, _) => {
                x.name = s(&nm);
                rename_ents(d, k)
            }
            K::Img(_, top) => {
                x.name = s(&format!("{nm}.img"));
                if let Some(t) = top {
                    rename(t, k)
                }
            }
        }
    }
}
/// the bytes of images are made again after renaming
fn remake(l: &mut [Ent], iv: [u8; 4]) {
    for x in l {
        match &mut x.k {
            K::Dir(d, _) => remake(d, iv),
            K::Img(b, Some(t)) => *b = image(iv, t),
            _ => {}
        }
    }
}
/// ith permutation of 0..n
fn perm(n: usize, mut i: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut f: usize = (1..=n).product();
    (0..n)
        .map(|k| {
            f /= n - k;
            let j = i / f;
            i %= f;
            left.remove(j)
        })
        .collect()
}
fn fact(n: usize) -> usize {
    (1..=n).product()
}

// ------------------------------------------------------------------ images
fn check_image(top: &[N], iv: [u8; 4], st: &mut Stats) -> R {
    let p = scratch_file("Order.img", &image(iv, top));
    let ver = if iv == GMS { WzMapleVersion::GMS } else { WzMapleVersion::BMS };
    let n = WzNode::from_img_file(&p, Some(ver), None).map_err(|e| e.to_string())?.into_lock();
    let exp = T { name: "Order.img".into(), v: "Image".into(), kids: model(top) };
    for round in 0..2 {
        node_util::parse_node(&n).map_err(|e| e.to_string())?;
        in_order(&exp, &n, if round == 0 { "parsed" } else { "parsed again" }, st)?;
        walk_order(&exp, &n, false, "walk", st)?;
        n.write().unwrap().unparse();
    }
    walk_order(&exp, &n, true, "walk with parsing", st)?;
    // the direct way
    let (kids, _) = {
        let r = n.read().unwrap();
        let i = r.try_as_image().ok_or("not an image")?;
        i.resolve_children(Some(&n)).map_err(|e| e.to_string())?
    };
    let got: Vec<String> = kids.iter().map(|k| k.0.to_string()).collect();
    ensure_eq!(got, top.iter().map(|x| x.name.t.clone()).collect::<Vec<_>>(), "WzImage::resolve_children");
    st.traces += 1;
    Ok(())
}
const IKINDS: [usize; 5] = [0, 1, 2, 3, 6];

#[derive(Debug)]
struct Moves {
    from: Vec<usize>,
    to: Vec<usize>,
    below: Vec<usize>,
}
const MN: [&str; 5] = ["m", "b", "z", "a", "k"];

pub fn c24(t: Tier) -> Vec<Family> {
    let max = t.q(5u32, 6);
    let perms = t.q(6usize, 7);
    let amax = t.q(6u32, 7);
    let lmax = t.q(4usize, 5);
    vec![
        Family::new(
            "images",
            "every image of up to n nodes (lists, bitmaps, raw data, convex lists and values) under every naming scheme (ascending, descending, scrambled, long), parsed, released and parsed again, and walked",
            0,
            move |ch| {
                let k = 1 + ch.pick(3);
                let mut left = max;
                let mut c = 0;
                let mut top = forest(ch, &mut left, 0, 3, &IKINDS, &mut c);
                rename(&mut top, k);
                Some(top)
            },
            |top, st| check_image(top, GMS, st),
        ),
        Family::new(
            "siblings",
            "every permutation of up to n sibling names, each of another kind, in an image, in a list, in a bitmap and in an archive's directory",
            0,
            move |ch| {
                let n0 = 1 + ch.pick(perms);
                let p = perm(n0, ch.pick(fact(n0)));
                Some((p, ch.pick(4)))
            },
            |(p, place), st| {
                let names = ["a", "10", "mob", "9", "Z", "z", "名"];
                let kinds = [6, 0, 1, 13, 11, 3, 12];
                let list: Vec<N> = p.iter().map(|i| n(names[*i], kind(kinds[*i], *i as u32 + 1, if kinds[*i] < 4 && *i < 5 { vec![n("v", V::Vector(1, 2, Form::Auto))] } else { vec![] }))).collect();
                match place {
                    0 => check_image(&list, BMS, st),
                    1 => check_image(&[n("s", V::Sub(list)), n("after", int(1))], BMS, st),
                    2 => check_image(&[n("first", int(1)), n("c", small_canvas(Some(list)))], BMS, st),
                    _ => {
                        let ents: Vec<Ent> = p.iter().map(|i| if i % 2 == 0 { dir(names[*i], vec![img("x.img", GMS, vec![])]) } else { img(&format!("{}.img", names[*i]), GMS, vec![n("v", int(*i as i32))]) }).collect();
                        check_archive(&Arch::p1(83, GMS, vec![dir("Top", ents)]), st)
                    }
                }
            },
        ),
        Family::new(
            "wide",
            "lists of every length up to a bound and of some large lengths, under every naming scheme, in images, directories and packs",
            0,
            move |ch| {
                let mut v: Vec<usize> = (0..=70).collect();
                v.extend([127, 128, 200, 448, 449, 896, 897, 1000, 1793, 3585, 7169]);
                Some((*ch.of(&v), ch.pick(5), ch.pick(3)))
            },
            |(len, k, place), st| {
                let names = scheme(*k, *len);
                match place {
                    0 => check_image(&names.iter().enumerate().map(|(i, x)| n(x, if i % 3 == 0 { V::Sub(vec![]) } else { int(i as i32) })).collect::<Vec<_>>(), GMS, st),
                    1 => {
                        let mut ents: Vec<Ent> = names.iter().enumerate().map(|(i, x)| if i % 3 == 1 && i < 40 { dir(x, vec![img("x.img", GMS, vec![])]) } else { img(&format!("{x}.img"), GMS, vec![]) }).collect();
                        ents.truncate(1000);
                        check_archive(&Arch::p1(83, GMS, vec![dir("Top", ents)]), st)
                    }
                    _ => {
                        let ents: Vec<ms::Pe> = names.iter().take(200).map(|x| ms::pe(&format!("{x}.img"), vec![])).collect();
                        check_pack_order(&ms::Pack::new(1 + (*len % 2) as u8, "order_00000.ms", b"sal", ents), st)
                    }
                }
            },
        ),
        Family::new(
            "archives",
            "every classic archive of up to n directories and images under every naming scheme and layout of its blocks, and some of them in the 64-bit release",
            0,
            move |ch| {
                let k = ch.pick(5);
                let layout = *ch.of(&LAYOUTS);
                let new = ch.flag();
                let mut left = if new { 4 } else { amax };
                let mut c = 0;
                let iv = if new { BMS } else { GMS };
                let mut ents = ent_forest(ch, &mut left, 0, iv, &mut c);
                rename_ents(&mut ents, k);
                remake(&mut ents, iv);
                // the first name is what the key is detected by
                if new && (layout != Layout::Plain || ents.is_empty()) {
                    return None;
                }
                let mut a = if new {
                    Arch { gen: Gen::P2 { rel: Rel::R1202, hash1: 0x1234567890ABCDEF, t: 0x0FEDCBA987654321, count: 1000 }, head: Head::Rand150, ..Arch::p1(1, BMS, ents) }
                } else {
                    Arch::p1(83, GMS, ents)
                };
                a.layout = layout;
                Some(a)
            },
            check_archive,
        ),
        Family::new(
            "packs",
            "packs of both generations with up to four images in every order of their names and of their data",
            0,
            move |ch| {
                let n0 = 1 + ch.pick(4);
                let p = perm(n0, ch.pick(fact(n0)));
                let names = ["a.img", "Mob/10.img", "Mob/9.img", "Z.img"];
                let mut k = ms::Pack::new(1 + ch.pick(2) as u8, "order_00000.ms", b"salt", p.iter().map(|i| ms::pe(names[*i], vec![n("z", int(*i as i32)), n("a", V::Sub(vec![n("9", V::Null), n("10", V::Null)]))])).collect());
                k.order = *ch.of(&[ms::Order::Fwd, ms::Order::Rev, ms::Order::Gaps]);
                Some(k)
            },
            check_pack_order,
        ),
        Family::new(
            "links",
            "every image of up to n nodes with one or two links in every kind of holder: a resolved link keeps its place",
            0,
            move |ch| {
                let texts: Vec<String> = nav::paths(&["a", "b", "..", "0"], 2);
                let n0 = 2 + ch.pick(lmax - 1);
                let l = 1 + ch.pick(2);
                nav::link_tree_in(ch, n0, l, &texts, 4)
            },
            |c, st| {
                let bytes = image([0; 4], &c.nodes(c.img));
                let p = scratch_file("m.img", &bytes);
                let n = WzNode::from_img_file(&p, Some(WzMapleVersion::BMS), None).map_err(|e| e.to_string())?.into_lock();
                fn keys(m: &[N]) -> T {
                    fn k(v: &V) -> Vec<T> {
                        match v {
                            V::Sub(l) | V::Canvas(Canvas { kids: Some(l), .. }) | V::Raw { kids: Some(l), .. } => l.iter().map(|x| T { name: x.name.t.clone(), v: String::new(), kids: k(&x.v) }).collect(),
                            V::Convex(l) => l.iter().enumerate().map(|(i, x)| T { name: i.to_string(), v: String::new(), kids: k(x) }).collect(),
                            _ => vec![],
                        }
                    }
                    T { name: "m.img".into(), v: String::new(), kids: k(&V::Sub(m.to_vec())) }
                }
                let want = keys(&c.nodes(c.img));
                for round in ["parsed", "parsed again"] {
                    node_util::parse_node(&n).map_err(|e| e.to_string())?;
                    let got = dump_ord(&n, 0)?;
                    // below links and what they lead to the order is that of another place
                    fn cmp(e: &T, g: &T, at: &str) -> Option<String> {
                        let a: Vec<&str> = e.kids.iter().map(|k| k.name.as_str()).collect();
                        let b: Vec<&str> = g.kids.iter().map(|k| k.name.as_str()).collect();
                        if a != b {
                            return Some(format!("children of {at}{} are listed as {b:?}, stored as {a:?}", e.name));
                        }
                        e.kids.iter().zip(&g.kids).filter(|(_, y)| !y.v.starts_with("->")).find_map(|(x, y)| cmp(x, y, &format!("{at}{}/", e.name)))
                    }
                    if let Some(d) = cmp(&want, &got, "") {
                        return Err(format!("{round}: {d}"));
                    }
                    st.states += want.count() as u64;
                    st.observe(&got.show());
                    n.write().unwrap().unparse();
                }
                st.traces += 1;
                Ok(())
            },
        ),
        Family::new(
            "moves",
            "children added by hand in every order, moved to a node that already has some of the names, in every order, with children below: kept first, then the new ones in the order they had",
            0,
            move |ch| {
                let n0 = ch.pick(5);
                let from = perm(n0, ch.pick(fact(n0)));
                let n1 = ch.pick(4);
                let to: Vec<usize> = perm(n1, ch.pick(fact(n1))).into_iter().map(|x| x + ch_shift(n1)).collect();
                let n2 = ch.pick(4);
                let below = perm(n2, ch.pick(fact(n2)));
                Some(Moves { from, to, below })
            },
            |m, st| {
                let mk = |name: &str, v: i32, p: &WzNodeArc| {
                    let x = WzNode::from_str(name, v, Some(p)).into_lock();
                    p.write().unwrap().add(&x);
                    x
                };
                let (a, b) = (WzNode::empty().into_lock(), WzNode::empty().into_lock());
                for (h, l, rev) in [(&a, &m.from, false), (&b, &m.to, true)] {
                    for i in l {
                        let x = mk(MN[*i], *i as i32, h);
                        let mut bl = m.below.clone();
                        if rev {
                            bl.reverse();
                            bl.pop();
                        }
                        for j in bl {
                            mk(MN[j], 10 + j as i32, &x);
                        }
                    }
                }
                let names = |n: &WzNodeArc| n.read().unwrap().children.keys().map(|k| k.to_string()).collect::<Vec<_>>();
                let e = |l: &[usize]| l.iter().map(|i| MN[*i].to_string()).collect::<Vec<_>>();
                ensure_eq!(names(&a), e(&m.from), "children added by hand");
                a.write().unwrap().transfer_childs(&b);
                let mut want = m.to.clone();
                want.extend(m.from.iter().filter(|x| !m.to.contains(x)));
                ensure_eq!(names(&b), e(&want), "children moved to {:?}", m.to);
                for i in &want {
                    let mut w = m.below.clone();
                    if m.to.contains(i) {
                        w.reverse();
                        w.pop();
                        if m.from.contains(i) {
                            for j in &m.below {
                                if !w.contains(j) {
                                    w.push(*j);
                                }
                            }
                        }
                    }
                    let k = b.read().unwrap().at(MN[*i]).ok_or("child lost")?;
                    ensure_eq!(names(&k), e(&w), "children below {}", MN[*i]);
                }
                ensure_eq!(names(&a).len(), 0, "children left behind");
                st.traces += 1;
                st.transitions += want.len() as u64;
                st.states += 1;
                st.observe(&format!("{:?}", names(&b)));
                Ok(())
            },
        ),
    ]
}
/// the second list holds later names, so that the two lists share some
fn ch_shift(n: usize) -> usize {
    if n >= 3 {
        2
    } else {
        1
    }
}
fn check_archive(a: &Arch, st: &mut Stats) -> R {
    let p = scratch_file("Order.wz", &a.build());
    let n = WzNode::from_wz_file_full(&p, None, if matches!(a.gen, Gen::P1 { .. }) { Some(83) } else { None }, None, None).map_err(|e| e.to_string())?.into_lock();
    node_util::parse_node(&n).map_err(|e| e.to_string())?;
    in_order(&a.listing("Order"), &n, "listing", st)?;
    walk_order(&a.full("Order"), &n, true, "walk with parsing", st)?;
    in_order(&a.listing("Order"), &n, "listing after a walk", st)?;
    parse_images(&n)?;
    in_order(&a.full("Order"), &n, "contents", st)?;
    walk_order(&a.full("Order"), &n, false, "walk", st)?;
    n.write().unwrap().unparse();
    node_util::parse_node(&n).map_err(|e| e.to_string())?;
    in_order(&a.listing("Order"), &n, "listing after parsing again", st)?;
    st.traces += 1;
    Ok(())
}
fn check_pack_order(p: &ms::Pack, st: &mut Stats) -> R {
    let n = ms::open_pack(&p.file, &p.build())?;
    node_util::parse_node(&n).map_err(|e| e.to_string())?;
    let list = |v: &str, open: bool| T { name: p.node_name().into(), v: "MsFile".into(), kids: p.ents.iter().map(|e| T { name: e.name.clone(), v: v.into(), kids: if open { model(&e.top) } else { vec![] } }).collect() };
    in_order(&list("MsImage", false), &n, "listing", st)?;
    let mut kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
    kids.reverse();
    for k in kids {
        node_util::parse_node(&k).map_err(|e| e.to_string())?;
    }
    in_order(&list("Image", true), &n, "contents", st)?;
    walk_order(&list("Image", true), &n, false, "walk", st)?;
    st.traces += 1;
    Ok(())
}
