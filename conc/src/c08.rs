//! C08 concurrent decoding with a shared key.
use crate::core::*;
use crate::crypt::*;
use crate::explore::*;
use crate::img::*;
use std::sync::{Arc, RwLock};
use wz_reader::util::node_util;
use wz_reader::util::string_decryptor::{Decryptor, EcbDecryptor};
use wz_reader::*;
use wzshim::ctl;

/// one decoding operation on things that share one key
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// a string of that many characters, through a meta
    Text(usize, bool),
    /// read at a position through the slice reader
    Slice(usize, bool),
    /// a bitmap stored in chunks of that many bytes
    Bitmap(usize),
    /// parse an image and read its strings
    Image(usize),
    /// look up in an unparsed image
    Lookup(usize),
    /// encrypt a string with the reader's key
    Encrypt(usize),
    /// open an archive with the key
    Archive,
}
const BATCH: usize = 4096;

fn big_image(iv: [u8; 4], n: usize) -> Vec<u8> {
    image(iv, &[n_str("s", n, false), n_str("w", n / 2, true), img_n("sub", vec![n_str("t", 3, false)])])
}
fn n_str(name: &str, len: usize, wide: bool) -> N {
    let mut x = s(&text(len, wide));
    x.wide = wide;
    n(name, V::Str(x))
}
fn img_n(name: &str, kids: Vec<N>) -> N {
    n(name, V::Sub(kids))
}
fn text(len: usize, wide: bool) -> String {
    if wide {
        (0..len).map(|i| char::from_u32(0x4E00 + (i as u32 * 7) % 500).unwrap()).collect()
    } else {
        (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect()
    }
}
fn bitmap(iv: [u8; 4], side: usize, chunk: usize) -> (Vec<u8>, Vec<u8>) {
    let mut px = vec![];
    let mut x = 1u32;
    for _ in 0..side * side * 4 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        px.push((x >> 24) as u8);
    }
    let z = zlib(&px, 1);
    let mut o = vec![];
    for c in z.chunks(chunk) {
        o.extend((c.len() as i32).to_le_bytes());
        o.extend(xor_ks(iv, c));
    }
    (px, o)
}
pub struct Fx {
    iv: [u8; 4],
    op: Op,
    bytes: Vec<u8>,
    want: String,
    arch: Option<std::path::PathBuf>,
}
fn fixture(iv: [u8; 4], op: Op, i: usize) -> Fx {
    let mut arch = None;
    let (bytes, want) = match op {
        Op::Text(l, w) | Op::Slice(l, w) => (wz_string(iv, &text(l, w), w, Form::Auto), text(l, w)),
        Op::Bitmap(c) => {
            let (px, z) = bitmap(iv, 36, c);
            (z, format!("{:016x}", fnv(&px)))
        }
        Op::Image(l) => (big_image(iv, l), format!("{}|{}|{}", text(l, false), text(l / 2, true), text(3, false))),
        Op::Lookup(l) => (big_image(iv, l), text(3, false)),
        Op::Encrypt(l) => (vec![], hex(&enc_narrow(iv, text(l, false).as_bytes()))),
        Op::Archive => {
            let a = crate::pkg::Arch::p1(83, iv, crate::pkg::sample_ents(iv));
            arch = Some(scratch_file(&format!("c08-{}-{i}.wz", iv_name(iv)), &a.build()));
            (vec![], "Aa.img Mob Zz.img 100.img Deep".into())
        }
    };
    Fx { iv, op, bytes, want, arch }
}
/// the operation as a user does it; the key is shared with the others
fn act(f: &Fx, keys: &SharedWzStringDecryptor) -> Result<String, String> {
    let e = |x: String| x;
    let reader = || Arc::new(WzReader::from_buff(&f.bytes).with_existing_keys(Arc::clone(keys)));
    Ok(match f.op {
        Op::Text(..) => {
            let r = reader();
            let sr = r.create_slice_reader();
            let m = sr.read_wz_string_meta().map_err(|x| e(format!("meta: {x}")))?;
            r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize).map_err(|x| e(format!("text: {x}")))?
        }
        Op::Slice(..) => reader().create_slice_reader().read_wz_string().map_err(|x| e(format!("slice: {x}")))?.to_string(),
        Op::Bitmap(_) => {
            let r = reader();
            let p = property::WzPng::new(&r, (36, 36), (2, 0), (0, f.bytes.len()), 0, 0);
            let im = p.extract_png().map_err(|x| format!("bitmap: {x}"))?;
            let px: Vec<u8> = im.to_rgba8().pixels().flat_map(|p| [p.0[2], p.0[1], p.0[0], p.0[3]]).collect();
            format!("{:016x}", fnv(&px))
        }
        Op::Image(_) => {
            let r = reader();
            let n = WzNode::new(&"i.img".into(), WzImage::new(&"i.img".into(), 0, f.bytes.len(), &r), None).into_lock();
            node_util::parse_node(&n).map_err(|x| format!("parse: {x}"))?;
            let t = |p: &str| -> Result<String, String> {
                let n = n.read().unwrap().at_path(p).ok_or(format!("no {p}"))?;
                property::resolve_string_from_node(&n).map_err(|x| format!("{p}: {x}"))
            };
            format!("{}|{}|{}", t("s")?, t("w")?, t("sub/t")?)
        }
        Op::Lookup(_) => {
            let r = reader();
            let im = WzImage::new(&"i.img".into(), 0, f.bytes.len(), &r);
            let n = im.at_path("sub/t").map_err(|x| format!("lookup: {x}"))?;
            property::resolve_string_from_node(&n).map_err(|x| format!("lookup: {x}"))?
        }
        Op::Encrypt(l) => {
            let r = WzReader::from_buff(&[]).with_existing_keys(Arc::clone(keys));
            let m = property::WzStringMeta::new_ascii(0, l as u32);
            let b = r.encrypt_str(&text(l, false), &m.string_type);
            hex(&b)
        }
        Op::Archive => {
            let n = WzNode::from_wz_file_full(f.arch.as_ref().unwrap(), None, Some(83), None, Some(keys)).map_err(|x| format!("archive: {x}"))?.into_lock();
            node_util::parse_node(&n).map_err(|x| format!("archive: {x}"))?;
            let r = n.read().unwrap();
            let mut v: Vec<String> = r.children.keys().map(|k| k.to_string()).collect();
            let mob = r.at("Mob").ok_or("no Mob")?;
            v.extend(mob.read().unwrap().children.keys().map(|k| k.to_string()));
            v.join(" ")
        }
    })
}
#[derive(Debug)]
pub struct Case {
    iv: [u8; 4],
    /// how much of the keystream is there before
    grown: usize,
    threads: Vec<Vec<Op>>,
    bound: Bound,
}
thread_local! { static CACHE: std::cell::RefCell<Vec<([u8;4], Op, Arc<Fx>)>> = const { std::cell::RefCell::new(vec![]) }; }
fn fx(iv: [u8; 4], op: Op) -> Arc<Fx> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.iter().find(|x| x.0 == iv && x.1 == op) {
            return x.2.clone();
        }
        let f = Arc::new(fixture(iv, op, c.len()));
        c.push((iv, op, f.clone()));
        f
    })
}
fn run(c: &Case, st: &mut Stats) -> R {
    let fxs: Vec<Vec<Arc<Fx>>> = c.threads.iter().map(|t| t.iter().map(|o| fx(c.iv, *o)).collect()).collect();
    let want: Vec<Vec<String>> = fxs.iter().map(|t| t.iter().map(|f| f.want.clone()).collect()).collect();
    let base = st.traces;
    explore(
        c.bound,
        st,
        || {
            let mut d = EcbDecryptor::from_iv(c.iv);
            if c.grown > 0 {
                d.ensure_key_size(c.grown).unwrap();
            }
            let k = Arc::new(RwLock::new(d));
            ctl::number(1, &*k);
            let keys: SharedWzStringDecryptor = k;
            let bodies = fxs
                .iter()
                .map(|t| {
                    let (t, keys) = (t.clone(), keys.clone());
                    let b: Body<Vec<String>> = Box::new(move || t.iter().map(|f| act(f, &keys).unwrap_or_else(|e| format!("error: {e}"))).collect());
                    b
                })
                .collect();
            (keys, bodies)
        },
        |keys, got| {
            for (t, (g, w)) in got.iter().zip(&want).enumerate() {
                for (i, (g, w)) in g.iter().zip(w).enumerate() {
                    if g != w {
                        return Err(format!("thread {t}, {:?}: got {}, alone it is {}", c.threads[t][i], short(g), short(w)));
                    }
                }
            }
            // the keystream everybody leaves behind is the right one
            let k = keys.read().map_err(|_| "the key is poisoned")?;
            let n = [BATCH * 2, BATCH, 64, 16].into_iter().find(|n| k.is_enough(*n)).unwrap_or(0);
            let mut b = vec![0u8; n];
            k.decrypt_slice(&mut b);
            if b != crate::crypt::ks(c.iv)[..n] && c.iv != BMS {
                return Err("the keystream left behind is wrong".into());
            }
            Ok(())
        },
    )?;
    count(|| format!("{} schedules {} ops: {:?}", st.traces - base, st.transitions, c));
    st.observe(&format!("{:?}", (c.threads.iter().map(|t| t.len()).collect::<Vec<_>>(), &want)));
    Ok(())
}
pub fn c08(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let ops = [
        Op::Text(5, false),
        Op::Text(100, true),
        Op::Text(5000, false),
        Op::Slice(300, false),
        Op::Slice(2100, true),
        Op::Encrypt(4200),
        Op::Bitmap(4097),
        Op::Bitmap(600),
        Op::Lookup(40),
        Op::Image(130),
        Op::Image(4500),
        Op::Archive,
    ];
    // the first ones use the key once or twice
    let small: Vec<Op> = ops[..6].to_vec();
    let grown = [0usize, 16, BATCH];
    const ALL: u32 = 1000;
    {
        let small = small.clone();
        let ivs = t.q(vec![GMS, BMS], vec![GMS, EMS, BMS]);
        let at_release = t.q(false, true);
        f.push(
            Family::new(
                "two threads, every schedule",
                format!("every pair of 6 operations (strings of several lengths, narrow and wide, through a meta and through the slice reader, encryption), one per thread, key not used, begun or grown before, {}; all schedules, with switches before every lock operation{}", t.q("2 keys", "3 keys"), t.q("", " and after every release")),
                0,
                move |ch| {
                    let a = *ch.of(&small);
                    let b = *ch.of(&small);
                    let iv = *ch.of(&ivs);
                    let g = *ch.of(&grown);
                    Some(Case { iv, grown: g, threads: vec![vec![a], vec![b]], bound: Bound { preemptions: ALL, at_release, reduce: false, max: 5_000_000 } })
                },
                run,
            )
            .limit(300),
        );
    }
    {
        let small = small.clone();
        let p = t.q(3, 5);
        f.push(
            Family::new(
                "two operations each",
                format!("two threads with two of those operations each, one key, not used before; all schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let v: Vec<Op> = (0..4).map(|_| *ch.of(&small)).collect();
                    Some(Case { iv: GMS, grown: 0, threads: vec![vec![v[0], v[1]], vec![v[2], v[3]]], bound: Bound { preemptions: p, at_release: false, reduce: true, max: 5_000_000 } })
                },
                run,
            )
            .limit(300),
        );
    }
    {
        let small = small.clone();
        let p = t.q(3, ALL);
        f.push(
            Family::new(
                "three threads",
                format!("three threads with one of those operations each; key not used, begun or grown before; schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let a = ch.pick(small.len());
                    let b = a + ch.pick(small.len() - a);
                    let c = b + ch.pick(small.len() - b);
                    let g = *ch.of(&grown);
                    Some(Case { iv: GMS, grown: g, threads: vec![vec![small[a]], vec![small[b]], vec![small[c]]], bound: Bound { preemptions: p, at_release: false, reduce: true, max: 5_000_000 } })
                },
                run,
            )
            .limit(600),
        );
    }
    {
        let p = t.q(2, 3);
        f.push(
            Family::new(
                "bitmaps, images and archives",
                format!("every pair of 12 operations (also bitmaps stored in chunks, lookups in unparsed images, parsing whole images and reading their strings, opening archives), key not used, begun or grown before, 2 keys; all schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let a = *ch.of(&ops);
                    let b = *ch.of(&ops);
                    let iv = *ch.of(&[GMS, BMS]);
                    let g = *ch.of(&grown);
                    Some(Case { iv, grown: g, threads: vec![vec![a], vec![b]], bound: Bound { preemptions: p, at_release: false, reduce: true, max: 5_000_000 } })
                },
                run,
            )
            .limit(600),
        );
    }
    {
        let p = t.q(1, 2);
        f.push(
            Family::new(
                "three at work",
                format!("three threads of the 12 operations, key not used before; all schedules of up to {p} preemptions"),
                0,
                move |ch| {
                    let a = ch.pick(ops.len());
                    let b = a + ch.pick(ops.len() - a);
                    let c = b + ch.pick(ops.len() - b);
                    Some(Case { iv: GMS, grown: 0, threads: vec![vec![ops[a]], vec![ops[b]], vec![ops[c]]], bound: Bound { preemptions: p, at_release: false, reduce: true, max: 5_000_000 } })
                },
                run,
            )
            .limit(600),
        );
    }
    f
}
