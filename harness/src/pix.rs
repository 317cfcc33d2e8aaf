//! C14 bitmap pixels; C15 bitmap containers.
use crate::core::*;
use crate::crypt::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::sync::Arc;
use wz_reader::property::WzPng;
use wz_reader::util::node_util;
use wz_reader::*;

// ------------------------------------------------------------------ reference decoder
#[derive(Clone, PartialEq)]
pub struct Pix {
    /// 1 = Rgb8, 2 = Rgba8, 3 = Rgba16
    pub kind: u8,
    pub w: u32,
    pub h: u32,
    pub b: Vec<u8>,
}
impl std::fmt::Debug for Pix {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}x{} {} {} bytes", self.w, self.h, ["?", "Rgb8", "Rgba8", "Rgba16"][self.kind as usize], self.b.len())
    }
}
pub const F4444: i32 = 1;
pub const F8888: i32 = 2;
pub const F1555: i32 = 257;
pub const F565: i32 = 513;
pub const F517: i32 = 517;
pub const FDXT3: i32 = 1026;
pub const FDXT3SM: i32 = 3;
pub const FDXT5: i32 = 2050;
pub const FBC7: i32 = 4098;
pub const FR16: i32 = 769;
pub const F1010102: i32 = 2562;
pub const FORMATS: [i32; 11] = [F4444, F8888, F1555, F565, F517, FDXT3, FDXT3SM, FDXT5, FBC7, FR16, F1010102];
/// formats the crate knows by name or not at all but does not decode
pub const UNDECODED: [i32; 9] = [0, 2304, 4097, 4100, 4, 512, 518, -1, 1 << 30];

pub fn need(f: i32, w: u32, h: u32) -> usize {
    let (w, h) = (w as usize, h as usize);
    match f {
        F4444 | F1555 | F565 | FR16 => w * h * 2,
        F8888 | F1010102 => w * h * 4,
        F517 => (w / 16) * (h / 16) * 2,
        _ => w.div_ceil(4) * h.div_ceil(4) * 16,
    }
}
fn c565(v: u16) -> [u8; 3] {
    let e5 = |x: u16| ((x << 3) | (x >> 2)) as u8;
    let e6 = |x: u16| ((x << 2) | (x >> 4)) as u8;
    [e5(v >> 11), e6(v >> 5 & 63), e5(v & 31)]
}
fn dxt_colours(b: &[u8]) -> [[u8; 3]; 4] {
    let c0 = u16::from_le_bytes([b[0], b[1]]);
    let c1 = u16::from_le_bytes([b[2], b[3]]);
    let (p, q) = (c565(c0), c565(c1));
    let m = |f: &dyn Fn(u32, u32) -> u32| -> [u8; 3] { core::array::from_fn(|i| f(p[i] as u32, q[i] as u32) as u8) };
    if c0 > c1 {
        [p, q, m(&|a, b| (2 * a + b + 1) / 3), m(&|a, b| (a + 2 * b + 1) / 3)]
    } else {
        [p, q, m(&|a, b| (a + b) / 2), [0; 3]]
    }
}
fn dxt_block(b: &[u8], five: bool) -> [[u8; 4]; 16] {
    let col = dxt_colours(&b[8..12]);
    let ci = u32::from_le_bytes(b[12..16].try_into().unwrap());
    let a64 = u64::from_le_bytes(b[..8].try_into().unwrap());
    core::array::from_fn(|i| {
        let c = col[(ci >> (2 * i) & 3) as usize];
        let a = if five {
            let (a0, a1) = (b[0] as u32, b[1] as u32);
            let k = (a64 >> (16 + 3 * i) & 7) as u32;
            match k {
                0 => a0,
                1 => a1,
                _ if a0 > a1 => ((8 - k) * a0 + (k - 1) * a1 + 3) / 7,
                6 => 0,
                7 => 255,
                _ => ((6 - k) * a0 + (k - 1) * a1 + 2) / 5,
            }
        } else {
            (a64 >> (4 * i) & 15) as u32 * 17
        };
        [c[0], c[1], c[2], a as u8]
    })
}
/// BC7 mode 6, the only mode without partitions and with one index set, decoded by the specification;
/// other modes by the block decoder the crate links (one block at a time)
fn bc7_block(b: &[u8]) -> [[u8; 4]; 16] {
    let v = u128::from_le_bytes(b.try_into().unwrap());
    if b[0] & 0x7F == 0x40 {
        let mut at = 7;
        let mut bits = |n: u32| {
            let x = (v >> at & ((1 << n) - 1)) as u32;
            at += n;
            x
        };
        let mut e = [[0u32; 4]; 2];
        for c in 0..4 {
            for p in &mut e {
                p[c] = bits(7) << 1;
            }
        }
        for p in &mut e {
            let pb = bits(1);
            for c in p {
                *c |= pb;
            }
        }
        const W: [u32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
        return core::array::from_fn(|i| {
            let k = W[bits(if i == 0 { 3 } else { 4 }) as usize];
            core::array::from_fn(|c| (((64 - k) * e[0][c] + k * e[1][c] + 32) >> 6) as u8)
        });
    }
    let mut o = [0u32; 16];
    texture2ddecoder::decode_bc7_block(b, &mut o);
    // bgra words
    core::array::from_fn(|i| {
        let x = o[i].to_le_bytes();
        [x[2], x[1], x[0], x[3]]
    })
}
/// None: cannot be decoded
pub fn reference(f: i32, w: u32, h: u32, d: &[u8]) -> Option<Pix> {
    if !FORMATS.contains(&f) || d.len() < need(f, w, h) {
        return None;
    }
    if f == F517 && need(f, w, h) == 0 && w > 0 && h > 0 {
        return None;
    }
    let kind = match f {
        F565 | F517 => 1,
        FR16 => 3,
        _ => 2,
    };
    let mut b = Vec::with_capacity((w * h) as usize * 4);
    let mut cache: Vec<Option<[[u8; 4]; 16]>> = vec![];
    let (bw, bh) = (w.div_ceil(4) as usize, h.div_ceil(4) as usize);
    if matches!(f, FDXT3 | FDXT3SM | FDXT5 | FBC7) {
        cache.resize(bw * bh, None);
    }
    for y in 0..h as usize {
        for x in 0..w as usize {
            let i = y * w as usize + x;
            let h16 = || u16::from_le_bytes([d[2 * i], d[2 * i + 1]]);
            let h32 = || u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap());
            match f {
                F4444 => {
                    let v = h16();
                    let n = |s: u16| (v >> s & 15) as u8 * 17;
                    b.extend([n(8), n(4), n(0), n(12)]);
                }
                F8888 => {
                    let v = h32();
                    b.extend([(v >> 16) as u8, (v >> 8) as u8, v as u8, (v >> 24) as u8]);
                }
                F1555 => {
                    let v = h16();
                    let e = |s: u16| {
                        let x = v >> s & 31;
                        ((x << 3) | (x >> 2)) as u8
                    };
                    b.extend([e(10), e(5), e(0), if v >> 15 == 1 { 255 } else { 0 }]);
                }
                F565 => b.extend(c565(h16())),
                F517 => {
                    let (gw, gh) = (w as usize / 16, h as usize / 16);
                    let (gx, gy) = (x / 16, y / 16);
                    if gx < gw && gy < gh {
                        let k = (gy * gw + gx) * 2;
                        b.extend(c565(u16::from_le_bytes([d[k], d[k + 1]])));
                    } else {
                        b.extend([0; 3]);
                    }
                }
                FR16 => {
                    for c in [h16(), 0, 0, 0xFFFF] {
                        b.extend(c.to_ne_bytes());
                    }
                }
                F1010102 => {
                    let v = h32();
                    b.extend([(v >> 2) as u8, (v >> 12) as u8, (v >> 22) as u8, (v >> 30) as u8 * 85]);
                }
                _ => {
                    let k = y / 4 * bw + x / 4;
                    let blk = cache[k].get_or_insert_with(|| {
                        let c = &d[16 * k..16 * k + 16];
                        if f == FBC7 {
                            bc7_block(c)
                        } else {
                            dxt_block(c, f == FDXT5)
                        }
                    });
                    b.extend(blk[y % 4 * 4 + x % 4]);
                }
            }
        }
    }
    Some(Pix { kind, w, h, b })
}

// ------------------------------------------------------------------ the crate
pub fn take(i: &image::DynamicImage) -> Pix {
    let kind = match i.color() {
        image::ColorType::Rgb8 => 1,
        image::ColorType::Rgba8 => 2,
        image::ColorType::Rgba16 => 3,
        _ => 0,
    };
    Pix { kind, w: i.width(), h: i.height(), b: i.as_bytes().to_vec() }
}
pub fn canvas_top(c: Canvas) -> Vec<N> {
    vec![n("c", V::Canvas(c)), n("z", int(77))]
}
/// decode with the parallel build; also through the node
fn here(iv: [u8; 4], img: &[u8]) -> Result<Pix, String> {
    let node = crate::c01::embed_img("c.img", img, iv, 0, 0);
    node_util::parse_node(&node).map_err(|e| format!("parse: {e}"))?;
    let c = node.read().unwrap().at("c").ok_or("no bitmap")?;
    let a = {
        let r = c.read().unwrap();
        let p = r.try_as_png().ok_or("not a bitmap")?;
        no_panic(|| p.extract_png()).map_err(|e| format!("PANIC {e}"))?.map(|i| take(&i)).map_err(|e| e.to_string())
    };
    let b = no_panic(|| property::get_image(&c)).map_err(|e| format!("PANIC {e}"))?.map(|i| take(&i)).map_err(|e| e.to_string());
    if a != b {
        return Err(format!("PANIC extract_png gives {a:?}, get_image {b:?}"));
    }
    a
}
struct Helper {
    c: std::process::Child,
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}
thread_local! { static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) }; }
/// decode with the build that has no parallel decoders
fn there(iv: [u8; 4], img: &[u8]) -> Result<Pix, String> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            let p = std::env::var("WZMC_SEQ").map_err(|_| "PANIC WZMC_SEQ is not set")?;
            let c = std::process::Command::new(&p)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .map_err(|e| format!("PANIC {p}: {e}"))?;
            *h = Some(Helper { c });
        }
        let r = (|| -> std::io::Result<Result<Pix, String>> {
            let c = &mut h.as_mut().unwrap().c;
            let w = c.stdin.as_mut().unwrap();
            w.write_all(&(img.len() as u32).to_le_bytes())?;
            w.write_all(&iv)?;
            w.write_all(img)?;
            w.flush()?;
            let r = c.stdout.as_mut().unwrap();
            let mut head = [0u8; 14];
            r.read_exact(&mut head)?;
            let u = |i: usize| u32::from_le_bytes(head[i..i + 4].try_into().unwrap());
            let mut b = vec![0; u(10) as usize];
            r.read_exact(&mut b)?;
            Ok(match head[0] {
                0 => Ok(Pix { kind: head[1], w: u(2), h: u(6), b }),
                1 => Err(String::from_utf8_lossy(&b).into_owned()),
                _ => Err("PANIC in the build without rayon".into()),
            })
        })();
        match r {
            Ok(x) => x,
            Err(e) => {
                *h = None;
                Err(format!("PANIC the build without rayon died: {e}"))
            }
        }
    })
}
fn compare(want: &Option<Pix>, got: Result<Pix, String>, which: &str) -> R {
    match (want, got) {
        (_, Err(e)) if e.starts_with("PANIC") => Err(format!("{which}: {e}")),
        (None, Err(_)) => Ok(()),
        (None, Ok(p)) => Err(format!("{which}: decodes to {p:?}, must be an error")),
        (Some(_), Err(e)) => Err(format!("{which}: error {e}")),
        (Some(w), Ok(g)) => {
            ensure!(w.w == g.w && w.h == g.h && w.kind == g.kind, "{which}: {g:?}, expected {w:?}");
            if w.b != g.b {
                let i = (0..w.b.len()).find(|i| g.b.get(*i) != Some(&w.b[*i])).unwrap_or(w.b.len());
                let per = [0, 3, 4, 8][w.kind as usize];
                let px = i / per;
                return Err(format!(
                    "{which}: pixel {},{} is {:?}, expected {:?}",
                    px % w.w as usize,
                    px / w.w as usize,
                    &g.b.get(px * per..(px + 1) * per).unwrap_or(&[]),
                    &w.b[px * per..(px + 1) * per]
                ));
            }
            Ok(())
        }
    }
}
/// payload `d` of format f against the reference, in both builds
fn check(f: i32, w: u32, h: u32, d: &[u8], st: &mut Stats) -> R {
    let want = reference(f, w, h, d);
    let img = image(BMS, &canvas_top(Canvas { kids: None, w: w as i32, h: h as i32, f1: f, f2: 0, pages: 0, data: zlib(d, 1) }));
    if let Some(p) = &want {
        st.observe_bytes(&p.b);
    }
    compare(&want, here(BMS, &img), "parallel build")?;
    compare(&want, there(BMS, &img), "sequential build")?;
    st.states += (w * h).max(1) as u64;
    st.transitions += 3;
    st.traces += 2;
    Ok(())
}
/// content in which every byte depends on its place
fn fill(n: usize, salt: u32) -> Vec<u8> {
    let mut s = salt.wrapping_mul(2654435761) ^ 0x1234567;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 17;
            s ^= s << 5;
            (s >> 11) as u8
        })
        .collect()
}

pub fn c14(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let m = t.q(20usize, 48);
    f.push(
        Family::new(
            "sizes",
            format!("every format x every width and height 0..={m}, and long thin and block-aligned larger sizes; content different in every pixel; builds with and without rayon, extract_png and get_image"),
            0,
            move |ch| {
                let f = *ch.of(&FORMATS);
                let (w, h) = match ch.pick(2) {
                    0 => (ch.pick(m + 1), ch.pick(m + 1)),
                    _ => *ch.of(&[(1usize, 300usize), (300, 1), (64, 64), (65, 63), (3, 257), (257, 3), (32, 160), (160, 32), (47, 49), (48, 48), (100, 100), (2000, 2), (2, 2000), (33, 16), (16, 33)]),
                };
                Some((f, w as u32, h as u32))
            },
            |(f, w, h), st| {
                let d = fill(need(*f, *w, *h), f.wrapping_mul(31) as u32 + w * 64 + h);
                check(*f, *w, *h, &d, st)
            },
        ),
    );
    f.push(Family::new(
        "every 16-bit pixel",
        "all 65536 stored values of each 16-bit format, in rows of 256 and in rows of 2048, ascending and descending",
        0,
        |ch| Some((*ch.of(&[F4444, F1555, F565, FR16, F517]), ch.flag(), ch.flag())),
        |(f, wide, rev), st| {
            let mut v: Vec<u16> = (0..=65535).collect();
            if *rev {
                v.reverse();
            }
            let d: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
            if *f == F517 {
                // one colour for 256 pixels
                for c in d.chunks(2048) {
                    check(*f, if *wide { 16 * 64 } else { 16 * 8 }, if *wide { 16 * 16 } else { 16 * 128 }, c, st)?;
                }
                return Ok(());
            }
            check(*f, if *wide { 2048 } else { 256 }, if *wide { 32 } else { 256 }, &d, st)
        },
    ));
    f.push(Family::new(
        "32-bit pixels",
        "BGRA8888: every value of each channel with the other channels at every combination of 0, 55, AA, FF; RGBA1010102: every 10-bit value of each channel with the others at 4 values, and all 4 alphas",
        0,
        |ch| {
            let ten = ch.flag();
            let c = ch.pick(4);
            let o = ch.pick(64);
            Some((ten, c, o))
        },
        |(ten, c, o), st| {
            let pat8 = [0u32, 0x55, 0xAA, 0xFF];
            let pat10 = [0u32, 0x155, 0x2AA, 0x3FF];
            let mut d = vec![];
            let n = match (ten, c) {
                (false, _) => 256u32,
                (true, 3) => 4,
                _ => 1024,
            };
            for v in 0..n {
                let mut k = *o;
                let mut x = 0u32;
                for i in 0..4 {
                    let val = if i == *c {
                        v
                    } else {
                        let p = k % 4;
                        k /= 4;
                        if !*ten {
                            pat8[p]
                        } else if i == 3 {
                            p as u32
                        } else {
                            pat10[p]
                        }
                    };
                    x |= val << if *ten { 10 * i } else { 8 * i };
                }
                d.extend(x.to_le_bytes());
            }
            check(if *ten { F1010102 } else { F8888 }, n.min(64), n / n.min(64), &d, st)
        },
    ));
    // DXT: 1024 blocks per image
    f.push(Family::new(
        "block colours",
        "DXT3, its alias and DXT5: every pair of values of one colour channel (32 x 32 or 64 x 64) with the other channels equal or ordered either way, all four indices; every pair of equal and neighbouring 16-bit colours",
        0,
        |ch| {
            let f = *ch.of(&[FDXT3, FDXT3SM, FDXT5]);
            let what = ch.pick(4);
            let other = ch.pick(5);
            let part = if what == 3 { ch.pick(64) } else { ch.pick(if what == 1 { 4 } else { 1 }) };
            if what == 3 && other > 2 {
                return None;
            }
            Some((f, what, other, part))
        },
        |(f, what, other, part), st| {
            let mut d = vec![];
            for i in 0..1024u32 {
                let (c0, c1) = match what {
                    0 | 2 => {
                        let s = if *what == 0 { 11 } else { 0 };
                        let rest: [u16; 2] = [[0, 0], [0xFFFF, 0xFFFF], [0x8410, 0x8410], [0xFFFF, 0], [0, 0xFFFF]][*other];
                        let m = !(31u16 << s);
                        ((rest[0] & m) | ((i as u16 / 32) << s), (rest[1] & m) | ((i as u16 % 32) << s))
                    }
                    1 => {
                        let k = *part as u32 * 1024 + i;
                        let rest: [u16; 2] = [[0, 0], [0xFFFF, 0xFFFF], [0x8410, 0x8410], [0xFFFF, 0], [0, 0xFFFF]][*other];
                        let m = !(63u16 << 5);
                        ((rest[0] & m) | ((k as u16 / 64) << 5), (rest[1] & m) | ((k as u16 % 64) << 5))
                    }
                    _ => {
                        let c = (*part as u32 * 1024 + i) as u16;
                        [(c, c), (c, c.wrapping_add(1)), (c, c.wrapping_sub(1))][*other]
                    }
                };
                d.extend(if *f == FDXT5 { [200, 100, 0x88, 0xC6, 0xFA, 0x88, 0xC6, 0xFA] } else { [0x10, 0x32, 0x54, 0x76, 0x98, 0xBA, 0xDC, 0xFE] });
                d.extend(c0.to_le_bytes());
                d.extend(c1.to_le_bytes());
                d.extend([0xE4, 0x1B, 0xB1, 0x4E]);
            }
            check(*f, 128, 128, &d, st)
        },
    ));
    f.push(Family::new(
        "block alphas and indices",
        "DXT5: every pair of end alphas with every index; DXT3: every alpha byte at each of 8 places; both: every index byte at each place, every 3-bit alpha index at each of 16 places next to every neighbour",
        0,
        |ch| {
            let what = ch.pick(4);
            let part = match what {
                0 => ch.pick(64),
                1 => ch.pick(8),
                2 => ch.pick(12),
                _ => ch.pick(16),
            };
            Some((what, part))
        },
        |(what, part), st| {
            let mut d = vec![];
            let mut f = FDXT5;
            let n;
            match what {
                0 => {
                    n = 1024u32;
                    for i in 0..n {
                        let k = *part as u32 * 1024 + i;
                        d.extend([(k / 256) as u8, k as u8]);
                        // indices 0..8 twice
                        let idx: u64 = (0..16).map(|j| (j % 8) << (3 * j)).sum();
                        d.extend(&idx.to_le_bytes()[..6]);
                        d.extend([0xFF, 0xFF, 0, 0, 0xE4, 0xE4, 0xE4, 0xE4]);
                    }
                }
                1 => {
                    f = FDXT3;
                    n = 256;
                    for i in 0..n {
                        let mut a = [0x5Au8; 8];
                        a[*part] = i as u8;
                        d.extend(a);
                        d.extend([0xFF, 0xFF, 0, 0, 0xE4, 0xE4, 0xE4, 0xE4]);
                    }
                }
                2 => {
                    f = [FDXT3, FDXT3SM, FDXT5][*part / 4];
                    n = 256;
                    for i in 0..n {
                        let mut a = [0x1B; 4];
                        a[*part % 4] = i as u8;
                        d.extend([200, 100, 1, 2, 3, 4, 5, 6, 0xF0, 0xF1, 0x0F, 0x1E]);
                        d.extend(a);
                    }
                }
                _ => {
                    n = 64;
                    for i in 0..n as u64 {
                        let mut idx = 0x6D_B6DB_6DB6u64 & ((1 << 48) - 1);
                        let nb = (*part + 1) % 16;
                        for (p, v) in [(*part, i / 8), (nb, i % 8)] {
                            idx = idx & !(7 << (3 * p)) | v << (3 * p);
                        }
                        d.extend([240, 16]);
                        d.extend(&idx.to_le_bytes()[..6]);
                        d.extend([0xFF, 0xFF, 0, 0, 0xE4, 0xE4, 0xE4, 0xE4]);
                    }
                }
            }
            check(f, n.min(64) * 4, n / n.min(64) * 4, &d, st)
        },
    ));
    let reps = t.q(16usize, 256);
    f.push(Family::new(
        "BC7 blocks",
        format!("every first byte (every mode and partition prefix) x {reps} contents of the rest; every single bit of a block of each mode set or cleared; every index nibble in mode 6"),
        0,
        move |ch| match ch.pick(3) {
            0 => Some((0, ch.pick(256))),
            1 => Some((1, ch.pick(9))),
            _ => Some((2, ch.pick(16))),
        },
        move |(what, k), st| {
            let mut d: Vec<u8> = vec![];
            match what {
                0 => {
                    for r in 0..reps {
                        let mut b = fill(16, (*k * 1000 + r) as u32);
                        b[0] = *k as u8;
                        d.extend(b);
                    }
                }
                1 => {
                    for base in [0x00u8, 0xFF, 0x5A] {
                        for bit in 0..128 {
                            let mut b = [base; 16];
                            b[bit / 8] ^= 1 << (bit % 8);
                            b[0] = if *k == 8 { 0 } else { (b[0] & !((2u16 << *k) - 1) as u8) | 1 << *k };
                            d.extend(b);
                        }
                    }
                }
                _ => {
                    for v in 0..16u128 {
                        for e in [0u128, 0x5555_5555_5555_5555, u128::MAX] {
                            let mut x = 0x40u128 | (e & ((1 << 58) - 1)) << 7 | (0xFEDC_BA98_7654_3210u128) << 65;
                            let at = if *k == 0 { 65 } else { 64 + 4 * *k as u32 };
                            let m = if *k == 0 { 7 } else { 15 };
                            x = x & !(m << at) | (v & m) << at;
                            x = x & !0x7F | 0x40;
                            d.extend(x.to_le_bytes());
                        }
                    }
                }
            }
            let blocks = (d.len() / 16) as u32;
            let w = if blocks % 16 == 0 { 16 } else { 1 };
            check(FBC7, w * 4, blocks / w * 4, &d, st)
        },
    ));
    f.push(Family::new(
        "what cannot be decoded",
        "formats without a decoder x sizes; every format x sizes x payloads shorter by every amount up to a block, empty, or not a compressed stream: an error, in both builds; longer payloads decode as if cut",
        0,
        |ch| {
            if ch.flag() {
                return Some((*ch.of(&UNDECODED), *ch.of(&[(0u32, 0u32), (1, 1), (4, 4), (17, 16)]), 0));
            }
            Some((*ch.of(&FORMATS), *ch.of(&[(1u32, 1u32), (4, 4), (5, 3), (16, 16), (33, 40), (8, 100)]), 1 + ch.pick(3)))
        },
        |(f, (w, h), k), st| {
            let full = fill(need(*f, *w, *h), 5);
            match k {
                0 => check(*f, *w, *h, &fill(4096, 1), st),
                1 => {
                    for cut in (1..=20usize).chain([full.len() / 2, full.len()]) {
                        if cut <= full.len() {
                            check(*f, *w, *h, &full[..full.len() - cut], st).map_err(|e| format!("{cut} bytes missing: {e}"))?;
                        }
                    }
                    Ok(())
                }
                2 => {
                    for more in [1usize, 2, 15, 16, 17, 1000] {
                        check(*f, *w, *h, &[full.clone(), fill(more, 9)].concat(), st).map_err(|e| format!("{more} bytes more: {e}"))?;
                    }
                    Ok(())
                }
                _ => {
                    for raw in [vec![], vec![0x78], vec![0x78, 0x9C], vec![0x78, 0x9C, 0xFF, 0xFF, 0xFF], fill(50, 3), zlib(&full, 6)[..3].to_vec()] {
                        if need(*f, *w, *h) == 0 {
                            continue;
                        }
                        let img = image(BMS, &canvas_top(Canvas { kids: None, w: *w as i32, h: *h as i32, f1: *f, f2: 0, pages: 0, data: raw }));
                        compare(&None, here(BMS, &img), "parallel build")?;
                        compare(&None, there(BMS, &img), "sequential build")?;
                        st.states += 1;
                    }
                    Ok(())
                }
            }
        },
    ));
    f
}

// ------------------------------------------------------------------ C15
/// encrypted chunks of the given lengths over the data
fn chunks(iv: [u8; 4], d: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut o = vec![];
    let mut at = 0;
    for c in cuts {
        o.extend((*c as i32).to_le_bytes());
        o.extend(xor_ks(iv, &d[at..at + c]));
        at += c;
    }
    assert_eq!(at, d.len());
    o
}
/// zlib stream without compression, so that its length can be chosen
fn stored(d: &[u8], head: [u8; 2], block: usize) -> Vec<u8> {
    let mut o = head.to_vec();
    let n = d.chunks(block).count();
    for (i, c) in d.chunks(block).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    o.extend((b << 16 | a).to_be_bytes());
    o
}
fn expect_pix(iv: [u8; 4], c: Canvas, plain: &[u8], st: &mut Stats) -> R {
    let (w, h, f) = (c.w as u32, c.h as u32, c.f1.wrapping_add(c.f2 as i32));
    let want = reference(f, w, h, plain);
    let (f1, f2, pages) = (c.f1, c.f2, c.pages);
    let img = image(iv, &canvas_top(c));
    let node = crate::c01::embed_img("c.img", &img, iv, 3, 5);
    node_util::parse_node(&node).map_err(|e| format!("parse: {e}"))?;
    let p = node.read().unwrap().at("c").ok_or("no bitmap")?;
    {
        let r = p.read().unwrap();
        let p = r.try_as_png().ok_or("not a bitmap")?;
        ensure_eq!((p.width, p.height, p.pages), (w, h, pages), "size and pages");
        ensure_eq!(format!("{:?}", p.format()), fmt_name((f1 as u32 as u64 + f2 as u32 as u64) as u32 as u64), "format {f1} scale {f2}");
    }
    ensure_eq!(node.read().unwrap().at("z").ok_or("no node after the bitmap")?.read().unwrap().try_as_int().copied(), Some(77), "node after the bitmap");
    compare(&want, here(iv, &img), "decoding")?;
    if let Some(p) = &want {
        st.observe_bytes(&p.b);
    }
    st.states += 1;
    st.transitions += 3;
    Ok(())
}
#[derive(Debug, Clone)]
struct Cut {
    iv: [u8; 4],
    level: u32,
    cuts: Vec<usize>,
    len: usize,
}
const ZHEAD: [[u8; 2]; 4] = [[0x78, 0x01], [0x78, 0x5E], [0x78, 0x9C], [0x78, 0xDA]];

pub fn c15(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let tiny: Vec<u8> = vec![0x11, 0x22, 0x33, 0x44];
    let z = zlib(&tiny, 9);
    let zl = z.len();
    f.push(Family::new(
        "every division",
        format!("a payload of {zl} bytes cut into encrypted chunks in every possible way ({} ways) x 3 keys", 1usize << (zl - 1)),
        0,
        {
            move |ch| {
                let iv = *ch.of(&STD);
                let m = ch.pick(1 << (zl - 1));
                Some((iv, m))
            }
        },
        {
            let z = z.clone();
            let tiny = tiny.clone();
            move |(iv, m), st| {
                let mut cuts = vec![];
                let mut l = 1;
                for i in 0..zl - 1 {
                    if m >> i & 1 == 1 {
                        cuts.push(l);
                        l = 0;
                    }
                    l += 1;
                }
                cuts.push(l);
                expect_pix(*iv, Canvas { kids: None, w: 1, h: 1, f1: F8888, f2: 0, pages: 0, data: chunks(*iv, &z, &cuts) }, &tiny, st)
            }
        },
    ));
    let k = t.q(3usize, 4);
    f.push(Family::new(
        "divisions of larger payloads",
        format!("payloads of 30 to 70000 bytes x 4 compression levels x up to {k} chunks with cut points from: 0, 1, 2, 3, 16, 4095..=4097, 8192, the low halves of every plain stream header, the middle, the end (chunks of no bytes included) x 3 keys"),
        0,
        move |ch| {
            let iv = *ch.of(&STD);
            let len = *ch.of(&[32usize, 400, 4096, 30_000, 70_000]);
            let level = *ch.of(&[0u32, 1, 6, 9]);
            let total = zlen(len, level);
            let cand: Vec<usize> = {
                let mut v: Vec<usize> = [0, 1, 2, 3, 16, 0x178, 4095, 4096, 4097, 8192, 0x5E78, 0x9C78, 0xDA78, total / 2, total - 1, total].into_iter().filter(|x| *x <= total).collect();
                v.sort();
                v.dedup();
                v
            };
            let n = ch.pick(k);
            let mut cuts = vec![];
            let mut at = 0;
            let mut lo = 0;
            for _ in 0..n {
                let i = lo + ch.pick(cand.len() - lo);
                lo = i;
                cuts.push(cand[i] - at);
                at = cand[i];
            }
            cuts.push(total - at);
            Some(Cut { iv, level, cuts, len })
        },
        |c, st| {
            let d = fill(c.len, c.len as u32);
            let z = zlib(&d, c.level);
            let (w, h) = (c.len as i32 / 8, 2);
            expect_pix(c.iv, Canvas { kids: None, w, h, f1: F8888, f2: 0, pages: 0, data: chunks(c.iv, &z, &c.cuts) }, &d, st)
        },
    ));
    f.push(Family::new(
        "plain streams",
        "every plain stream header x every format x scales that name a format x sizes; stored and compressed streams; first encrypted chunk as long as a plain header would read; plain streams whose second and third byte vary",
        0,
        |ch| {
            let iv = *ch.of(&STD);
            let f = *ch.of(&FORMATS);
            let f2 = *ch.of(&[0i8, 1, 2, 4, 5]);
            let head = *ch.of(&ZHEAD);
            let (w, h) = *ch.of(&[(1u32, 1u32), (4, 4), (16, 16), (7, 5), (20, 33)]);
            let how = ch.pick(4);
            Some((iv, f, f2, head, w, h, how))
        },
        |(iv, f, f2, head, w, h, how), st| {
            let plain = fill(need(*f, *w, *h), w * 7 + h);
            let z = match how {
                0 => stored(&plain, *head, 5000),
                1 => stored(&plain, *head, 7),
                2 => {
                    let mut z = zlib(&plain, 9);
                    z[0] = head[0];
                    z[1] = head[1];
                    z
                }
                _ => {
                    // chunked; how the stream begins must not matter then
                    let s = stored(&plain, *head, 5000);
                    let mut v = vec![2, s.len() - 2];
                    if s.len() > 0x178 {
                        v = vec![0x178, s.len() - 0x178];
                    }
                    chunks(*iv, &s, &v)
                }
            };
            expect_pix(*iv, Canvas { kids: None, w: *w as i32, h: *h as i32, f1: *f - *f2 as i32, f2: *f2, pages: 0, data: z }, &plain, st)
        },
    ));
    f.push(Family::new(
        "chunk lengths",
        format!("first chunk of every length 1..={} and around 16, 4096, the lengths whose low half is a plain header (376, 24184, 40056, 55928 and 65536 more) x second chunk of 0, 1, rest x 3 keys", t.q(700, 4200)),
        0,
        {
            let m = t.q(700usize, 4200);
            move |ch| {
                let iv = *ch.of(&STD);
                let mut l: Vec<usize> = (1..=m).collect();
                for x in [4095usize, 4096, 4097, 8191, 8192, 8193, 0x5E78, 0x9C78, 0xDA78, 0x10178, 0x15E78, 0x19C78, 0x1DA78] {
                    l.extend([x - 1, x, x + 1]);
                }
                Some((iv, *ch.of(&l), ch.pick(3)))
            }
        },
        |(iv, l, second), st| {
            let n = (l + 40 + 3) / 4 * 4;
            let d = fill(n, *l as u32);
            let z = stored(&d, [0x78, 0x9C], 65535);
            let cuts = match second {
                0 => vec![*l, 0, z.len() - l],
                1 => vec![*l, 1, z.len() - l - 1],
                _ => vec![*l, z.len() - l],
            };
            expect_pix(*iv, Canvas { kids: None, w: n as i32 / 4, h: 1, f1: F8888, f2: 0, pages: 0, data: chunks(*iv, &z, &cuts) }, &d, st)
        },
    ));
    f.push(Family::new(
        "header fields",
        "widths and heights around the forms of a number, format codes and scales that sum to each format, extreme codes and scales, page numbers: every combination; payload good or missing",
        0,
        |ch| {
            let w = *ch.of(&[0i32, 1, 4, 127, 128, 129, 300]);
            let h = *ch.of(&[0i32, 1, 4, 127, 128, 129, 300]);
            let f = *ch.of(&[F4444, F8888, F517, FDXT3, FBC7, 0, 4097, -1, i32::MIN, i32::MAX]);
            let f2 = *ch.of(&[0i8, 1, 4, 127, -1, -128]);
            let pages = *ch.of(&[0i32, 1, 127, 128, -1, i32::MAX]);
            Some((w, h, f, f2, pages))
        },
        |(w, h, f, f2, pages), st| {
            let plain = if FORMATS.contains(f) { fill(need(*f, *w as u32, *h as u32), 1) } else { vec![1, 2, 3] };
            expect_pix(GMS, Canvas { kids: None, w: *w, h: *h, f1: f.wrapping_sub(*f2 as i32), f2: *f2, pages: *pages, data: zlib(&plain, 1) }, &plain, st)
        },
    ));
    let depth = t.q(4usize, 6);
    f.push(Family::new(
        "a shared key",
        format!("every sequence of {depth} reads through one key: short and long strings, plain bitmaps, chunked bitmaps that do and do not make the key grow, a damaged chunked bitmap: each read gives what it gives alone x 3 keys"),
        0,
        move |ch| {
            let iv = *ch.of(&STD);
            Some((iv, (0..depth).map(|_| ch.pick(7)).collect::<Vec<usize>>()))
        },
        |(iv, ops), st| {
            let small = fill(64, 1);
            let large = fill(9000, 2);
            let mk = |d: &[u8], data: Vec<u8>| n("c", V::Canvas(Canvas { kids: None, w: d.len() as i32 / 4, h: 1, f1: F8888, f2: 0, pages: 0, data }));
            let key = Arc::new(std::sync::RwLock::new(wz_reader::util::string_decryptor::EcbDecryptor::from_iv(*iv)));
            let key: wz_reader::util::string_decryptor::SharedWzStringDecryptor = key;
            for (i, op) in ops.iter().enumerate() {
                let long: String = "long text ".repeat(60);
                let (top, want): (Vec<N>, Result<Option<&[u8]>, &str>) = match op {
                    0 => (vec![n("c", st_("short"))], Err("short")),
                    1 => (vec![n("c", V::Str(S { wide: true, ..s(&long) }))], Err(&long)),
                    2 => (vec![mk(&small, zlib(&small, 6))], Ok(Some(&small))),
                    3 => {
                        let z = zlib(&small, 6);
                        (vec![mk(&small, chunks(*iv, &z, &[10, z.len() - 10]))], Ok(Some(&small)))
                    }
                    4 => {
                        let z = zlib(&large, 0);
                        (vec![mk(&large, chunks(*iv, &z, &[z.len()]))], Ok(Some(&large)))
                    }
                    5 => {
                        let z = zlib(&large, 0);
                        (vec![mk(&large, chunks(*iv, &z, &[100, 5000, z.len() - 5100]))], Ok(Some(&large)))
                    }
                    _ => {
                        let z = zlib(&small, 6);
                        let mut c = chunks(*iv, &z, &[z.len()]);
                        c[..4].copy_from_slice(&i32::MAX.to_le_bytes());
                        (vec![mk(&small, c)], Ok(None))
                    }
                };
                let img = image(*iv, &top);
                let mut r = reader::WzReader::from_buff(&img);
                r.keys = key.clone();
                let node = WzNode::new(&"c.img".into(), WzImage::new(&"c.img".into(), 0, img.len(), &Arc::new(r)), None).into_lock();
                node_util::parse_node(&node).map_err(|e| format!("read {i}: parse: {e}"))?;
                let c = node.read().unwrap().at("c").ok_or(format!("read {i}: no node"))?;
                match want {
                    Err(t) => {
                        let got = property::resolve_string_from_node(&c).map_err(|e| format!("read {i}: {e}"))?;
                        ensure!(got == t, "read {i}: text {got:?}");
                    }
                    Ok(d) => {
                        let got = {
                            let r = c.read().unwrap();
                            let p: &WzPng = r.try_as_png().ok_or("not a bitmap")?;
                            no_panic(|| p.extract_png()).map_err(|e| format!("read {i}: PANIC {e}"))?.map(|i| take(&i)).map_err(|e| e.to_string())
                        };
                        let want = d.and_then(|d| reference(F8888, d.len() as u32 / 4, 1, d));
                        compare(&want, got, &format!("read {i}"))?;
                    }
                }
                st.transitions += 1;
            }
            st.states += 1;
            Ok(())
        },
    ));
    f
}
fn st_(t: &str) -> V {
    st(t)
}
thread_local! { static ZLEN: RefCell<std::collections::HashMap<(usize, u32), usize>> = RefCell::new(Default::default()); }
fn zlen(len: usize, level: u32) -> usize {
    ZLEN.with(|z| *z.borrow_mut().entry((len, level)).or_insert_with(|| zlib(&fill(len, len as u32), level).len()))
}
