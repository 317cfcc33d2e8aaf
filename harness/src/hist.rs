//! C21: histories of openings in one process.
use crate::core::*;
use crate::crypt::*;
use crate::img::*;
use crate::pkg::*;
use crate::{ensure, ensure_eq};
use std::cell::Cell;
use wz_reader::version::WzMapleVersion;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc};

#[derive(Clone, Debug)]
enum What {
    /// an archive, the version and the key it is opened with
    Arch(Arch, Option<i32>, Option<[u8; 4]>),
    /// an archive opened with the key of another generation
    Keyed(Arch, WzMapleVersion),
    /// refused
    Bad(Vec<u8>),
    /// a standalone image, and the version it is opened with
    Img(Vec<u8>, Vec<N>, Option<WzMapleVersion>),
    BadImg(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Thing {
    what: &'static str,
    w: What,
}
fn ents(iv: [u8; 4], k: i32) -> Vec<Ent> {
    vec![
        img(&format!("First{k}.img"), iv, vec![n("a", int(k)), n("b", st(&format!("text {k} and more")))]),
        dir(&format!("Mob{k}"), vec![img(&format!("{k}00.img"), iv, vec![n("x", small_canvas(None))]), dir("Deep", vec![img("1.img", iv, vec![n("q", int(-70000 - k))])])]),
        img(&format!("Zz{k}.img"), iv, vec![n("z", V::Sub(vec![n("y", V::Vector(k, -400, Form::Auto))]))]),
    ]
}
fn p2(rel: Rel, hash1: u64, t: u64, k: i32) -> Arch {
    let head = if rel == Rel::R1202 { Head::Rand150 } else { Head::Plain(60) };
    Arch { gen: Gen::P2 { rel, hash1, t, count: 1000 + k as i64 }, head, iv: BMS, ents: ents(BMS, k), layout: Layout::Plain }
}
const A: (u64, u64) = (0x1234567890ABCDEF, 0x0FEDCBA987654321);
/// everything that opens without a search of the 32-bit hash space
fn light() -> Vec<Thing> {
    let a = |what, w| Thing { what, w };
    let p1 = |v, iv, k| Arch::p1(v, iv, ents(iv, k));
    let mut noenc = p1(777, GMS, 4);
    noenc.gen = Gen::P1 { ver: 777, enc: Enc1::None };
    let mut wrong = p1(95, GMS, 5).build();
    // the checksum of no version the images agree with
    wrong[60] ^= 0x40;
    let mut hash = p2(Rel::R1202, A.0, A.1, 6).build();
    hash[0x8E] ^= 4;
    let mut cut = p2(Rel::R1202, A.0, A.1, 7).build();
    cut.truncate(cut.len() - 40);
    let mut list = p2(Rel::R1199, 5, 6, 8).build();
    list.truncate(90);
    vec![
        a("classic, no key", What::Arch(p1(83, BMS, 1), None, None)),
        a("classic, GMS key", What::Arch(p1(95, GMS, 2), None, None)),
        a("classic, EMS key", What::Arch(p1(176, EMS, 3), None, None)),
        a("classic without version field, GMS key", What::Arch(noenc, None, None)),
        a("classic, own key", What::Arch(p1(12, [1, 2, 3, 4], 9), None, Some([1, 2, 3, 4]))),
        a("classic GMS opened with the EMS key", What::Arch(p1(62, GMS, 10), None, Some(EMS))),
        a("classic, version given", What::Arch(p1(1999, EMS, 11), Some(1999), None)),
        a("classic opened with the 1198 key", What::Keyed(p1(83, EMS, 12), WzMapleVersion::KMST1198)),
        a("64-bit", What::Arch(p2(Rel::R1202, A.0, A.1, 13), None, None)),
        a("64-bit, same hashes, other content", What::Arch(p2(Rel::R1202, A.0, A.1, 14), None, None)),
        a("64-bit, same version hash, other first hash", What::Arch(p2(Rel::R1202, A.0 ^ 0x5555, A.1, 15), None, None)),
        a("64-bit, same first hash, other version hash", What::Arch(p2(Rel::R1202, A.0, 77, 16), None, None)),
        a("64-bit, same second hash", What::Arch(p2(Rel::R1202, A.0 ^ 0xFF00FF, A.1 ^ 0xFF00FF, 17), None, None)),
        a("classic with a damaged version field", What::Bad(wrong)),
        a("64-bit with a damaged hash", What::Bad(hash)),
        a("64-bit, truncated", What::Bad(cut)),
        a("32-bit, truncated in the entries", What::Bad(list)),
        a("no archive", What::Bad(b"This is just some text that is no archive at all, only text.".to_vec())),
        a("image, GMS key", What::Img(image(GMS, &[n("i", st("GMS"))]), vec![n("i", st("GMS"))], None)),
        a("image, EMS key given", What::Img(image(EMS, &[n("i", st("EMS"))]), vec![n("i", st("EMS"))], Some(WzMapleVersion::EMS))),
        a("image, damaged", What::BadImg(image(GMS, &[n("i", st("cut short"))])[..14].to_vec())),
    ]
}
struct Open {
    i: usize,
    name: String,
    node: Option<WzNodeArc>,
    parsed: bool,
}
fn construct(t: &Thing, i: usize, slot: usize) -> Result<Open, String> {
    let name = format!("slot{slot}");
    let arch = |b: &[u8], ver, key: Option<&SharedWzStringDecryptor>| WzNode::from_wz_file_full(scratch_file(&format!("{name}.wz"), b), None, ver, None, key);
    let node = match &t.w {
        What::Arch(a, ver, iv) => {
            let k = iv.map(keys);
            Some(arch(&a.build(), *ver, k.as_ref()).map_err(|e| format!("{}: open: {e}", t.what))?)
        }
        What::Keyed(a, v) => {
            let k = wz_reader::util::string_decryptor::GLOBAL_STRING_DECRYPTOR.get_decryptor_by_version(*v);
            Some(arch(&a.build(), None, Some(&k)).map_err(|e| format!("{}: open: {e}", t.what))?)
        }
        What::Bad(b) => arch(b, None, None).ok(),
        What::Img(b, _, v) => Some(WzNode::from_img_file(scratch_file(&format!("{name}.img"), b), *v, None).map_err(|e| format!("{}: open: {e}", t.what))?),
        What::BadImg(b) => WzNode::from_img_file(scratch_file(&format!("{name}.img"), b), Some(WzMapleVersion::GMS), None).ok(),
    };
    Ok(Open { i, name, node: node.map(|x| x.into_lock()), parsed: false })
}
fn parse(t: &Thing, o: &mut Open) -> R {
    o.parsed = true;
    let Some(node) = &o.node else { return Ok(()) };
    let r = node.write().unwrap().parse(node);
    match &t.w {
        What::Bad(_) | What::BadImg(_) => {
            ensure!(r.is_err(), "{}: opens with children {:?}", t.what, node.read().unwrap().children.keys().map(|k| k.to_string()).collect::<Vec<_>>());
            ensure!(node.read().unwrap().children.is_empty(), "{}: children after a failed open", t.what);
        }
        _ => r.map_err(|e| format!("{}: parse: {e}", t.what))?,
    }
    Ok(())
}
fn inspect(t: &Thing, o: &Open, st: &mut Stats) -> R {
    let Some(node) = &o.node else { return Ok(()) };
    match &t.w {
        What::Arch(a, ..) | What::Keyed(a, _) => check_arch(a, node, &o.name, st).map_err(|e| format!("{}: {e}", t.what)),
        What::Img(_, top, _) => same(&crate::c01::expect(&format!("{}.img", o.name), top), &dump(node)?).map_err(|e| format!("{}: {e}", t.what)),
        _ => Ok(()),
    }
}
/// release it and open the same object again
fn again(t: &Thing, o: &mut Open, st: &mut Stats) -> R {
    if let Some(n) = &o.node {
        n.write().unwrap().unparse();
    }
    parse(t, o)?;
    inspect(t, o, st)
}
#[derive(Debug, Clone, Copy)]
enum Step {
    /// make the object for a thing
    New(usize),
    /// parse the object made k-th
    Parse(usize),
}
fn history(ts: &[Thing], steps: &[Step], st: &mut Stats) -> R {
    let mut v: Vec<Open> = vec![];
    for s in steps {
        st.transitions += 1;
        match *s {
            Step::New(i) => v.push(construct(&ts[i], i, v.len())?),
            Step::Parse(k) => parse(&ts[v[k].i], &mut v[k])?,
        }
    }
    // whatever came later, each shows what it would show alone; also when it is parsed again
    for o in v.iter_mut() {
        inspect(&ts[o.i], o, st)?;
    }
    for o in v.iter_mut().rev() {
        again(&ts[o.i], o, st)?;
    }
    Ok(())
}
/// run in a process of its own, which has opened nothing before
fn forked(st: &mut Stats, f: impl FnOnce(&mut Stats) -> R) -> R {
    unsafe {
        let mut p = [0i32; 2];
        ensure_eq!(libc::pipe(p.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        ensure!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            let mut s = Stats::default();
            let r = match no_panic(|| f(&mut s)) {
                Ok(x) => x,
                Err(p) => Err(p),
            };
            let mut d: Vec<u64> = s.digests.iter().copied().collect();
            d.sort();
            let m = match r {
                Ok(()) => format!("ok {} {} {}", s.states, s.transitions, fnv(format!("{d:?}").as_bytes())),
                Err(e) => format!("no {}", short(&e)),
            };
            libc::write(p[1], m.as_ptr().cast(), m.len());
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut m = vec![];
        let mut b = [0u8; 2048];
        loop {
            let k = libc::read(p[0], b.as_mut_ptr().cast(), b.len());
            if k <= 0 {
                break;
            }
            m.extend_from_slice(&b[..k as usize]);
        }
        libc::close(p[0]);
        let mut code = 0;
        libc::waitpid(pid, &mut code, 0);
        let m = String::from_utf8_lossy(&m).to_string();
        if let Some(x) = m.strip_prefix("ok ") {
            let w: Vec<u64> = x.split(' ').map(|y| y.parse().unwrap()).collect();
            st.states += w[0];
            st.transitions += w[1];
            st.observe(&w[2].to_string());
            st.traces += 1;
            return Ok(());
        }
        Err(if m.is_empty() { format!("the process ended with status {code:#x} (a signal, or no end within 60 s)") } else { m[3.min(m.len())..].to_string() })
    }
}
/// a pair of header hashes that version hashes of every 32-bit release explain
const H1: u64 = 0x66666633;
fn heavy() -> Vec<Thing> {
    let v = [
        ("1199", Rel::R1199, 0x00c3a878u64),
        ("1199, second version hash", Rel::R1199, 0x7b274b95),
        ("1200", Rel::R1200, 0xb7777a82),
        ("1198", Rel::R1198, 0x675df5d0),
        ("1197", Rel::R1197, 0x607162fc),
        ("1197, second version hash", Rel::R1197, 0x729060b4),
        ("1196", Rel::R1196, 0xf28dd4d8),
    ];
    v.iter()
        .enumerate()
        .map(|(i, (what, rel, t))| {
            assert_eq!(hash2(*rel, H1, *t) as u32, 0xc1becd6b);
            Thing { what, w: What::Arch(p2(*rel, H1, *t, 20 + i as i32), None, None) }
        })
        .collect()
}
thread_local!(static WARM: Cell<usize> = const { Cell::new(usize::MAX) });
/// order in which the releases are met for the first time
fn orders(t: Tier) -> Vec<Vec<usize>> {
    let q = vec![vec![0, 1, 2, 4, 6], vec![6, 3, 0]];
    let more = vec![vec![0, 1, 2, 3, 4, 5, 6], vec![6, 5, 4, 3, 2, 1, 0], vec![2, 0, 6, 4, 1, 3, 5], vec![3, 6, 2, 5, 0, 4, 1], vec![4, 3, 1, 2, 5, 6, 0], vec![1, 5, 3, 0, 6, 2, 4]];
    if t == Tier::Quick {
        q
    } else {
        q.into_iter().chain(more).collect()
    }
}
pub fn c21(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let nl = light().len();
    f.push(Family::new(
        "interleaved pairs",
        format!("every ordered pair of {nl} things to open (classic archives of each key and header form, with a key that fits or not; 64-bit archives sharing all, either or neither of their hashes; damaged archives; images) in every interleaving of making and parsing the two objects, each history in a fresh process; at the end both show what they show alone, also after being released and parsed again"),
        0,
        move |ch| Some((ch.pick(nl), ch.pick(nl), ch.pick(6))),
        |&(a, b, o), st| {
            use Step::*;
            let s = match o {
                0 => [New(a), Parse(0), New(b), Parse(1)],
                1 => [New(a), New(b), Parse(0), Parse(1)],
                2 => [New(a), New(b), Parse(1), Parse(0)],
                // parsed twice by different objects of the same thing
                3 => return forked(st, |st| history(&light(), &[New(a), Parse(0), New(b), Parse(1), New(a), Parse(2)], st)),
                4 => return forked(st, |st| history(&light(), &[New(a), New(a), New(b), Parse(2), Parse(1), Parse(0)], st)),
                _ => return forked(st, |st| history(&light(), &[New(a), New(b), New(b), Parse(0), Parse(2), Parse(1)], st)),
            };
            forked(st, |st| history(&light(), &s, st))
        },
    ));
    let d = t.q(3usize, 4);
    f.push(Family::new(
        "sequences",
        format!("every sequence of {d} openings of the {nl} things, each in a fresh process"),
        0,
        move |ch| Some((0..d).map(|_| ch.pick(nl)).collect::<Vec<_>>()),
        |v, st| {
            let steps: Vec<Step> = v.iter().enumerate().flat_map(|(k, i)| [Step::New(*i), Step::Parse(k)]).collect();
            forked(st, |st| history(&light(), &steps, st))
        },
    ));
    // last: these leave something behind in the process
    let len = t.q(2usize, 3);
    for (k, order) in orders(t).into_iter().enumerate() {
        let name: &'static str = ["32-bit, order 1", "32-bit, order 2", "32-bit, order 3", "32-bit, order 4", "32-bit, order 5", "32-bit, order 6", "32-bit, order 7", "32-bit, order 8"][k];
        let shown = order.iter().map(|i| heavy()[*i].what).collect::<Vec<_>>().join("; ");
        f.push(
            Family::new(
                name,
                format!("archives of releases 1196 to 1201 that carry the same two header hashes, first opened in the order [{shown}]; afterwards every sequence of up to {len} openings out of them and the {nl} other things"),
                0,
                {
                    let all: Vec<usize> = order.iter().copied().chain(7..7 + nl).collect();
                    move |ch: &mut Ch| {
                        let m = 1 + ch.pick(len);
                        Some((0..m).map(|_| *ch.of(&all)).collect::<Vec<_>>())
                    }
                },
                move |v, st| {
                    let mut ts = heavy();
                    ts.extend(light());
                    if WARM.get() != k {
                        let steps: Vec<Step> = order.iter().enumerate().flat_map(|(k, i)| [Step::New(*i), Step::Parse(k)]).collect();
                        history(&ts, &steps, st)?;
                        WARM.set(k);
                    }
                    let steps: Vec<Step> = v.iter().enumerate().flat_map(|(k, i)| [Step::New(*i), Step::Parse(k)]).collect();
                    history(&ts, &steps, st)?;
                    st.traces += 1;
                    Ok(())
                },
            )
            .solo()
            .limit(300),
        );
    }
    f
}
