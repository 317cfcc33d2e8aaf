//! C06 string and integer codec; C07 keystream history independence.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::{ensure, ensure_eq};
use std::sync::{Arc, RwLock};
use wz_reader::property::{WzString, WzStringMeta, WzStringType};
use wz_reader::reader::{self, WzBaseReader};
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, EcbDecryptor, Pkg2Decryptor};
use wz_reader::{Reader, SharedWzStringDecryptor, WzReader, WzSliceReader};

pub const PRIVATE: [u8; 4] = [1, 2, 3, 4];
const IVS: [[u8; 4]; 4] = [BMS, GMS, EMS, PRIVATE];

#[derive(Debug)]
struct Str {
    iv: [u8; 4],
    t: String,
    wide: bool,
    form: Form,
    at: usize,
    /// a key of its own that starts empty, instead of the shared one
    fresh: bool,
}
/// every reading path of the reader on one stored string
fn run_str(c: &Str, st: &mut Stats) -> R {
    let stored = wz_string(c.iv, &c.t, c.wide, c.form);
    let body: Vec<u8> = if c.wide { enc_wide(c.iv, &c.t.encode_utf16().collect::<Vec<_>>()) } else { enc_narrow(c.iv, c.t.as_bytes()) };
    let tail = [0x5Au8, 0xC3, 0x11, 0x80];
    let mut buf = vec![0x3Cu8; c.at];
    buf.extend(&stored);
    buf.extend(tail);
    let end = c.at + stored.len();
    let ty = if c.t.is_empty() {
        // the stored form keeps the type, the text is empty either way
        None
    } else if c.wide {
        Some(WzStringType::Unicode)
    } else {
        Some(WzStringType::Ascii)
    };
    let mk = || -> WzReader {
        let r = WzReader::from_buff(&buf);
        if c.fresh {
            let k: SharedWzStringDecryptor = Arc::new(RwLock::new(EcbDecryptor::from_iv(c.iv)));
            r.with_existing_keys(k)
        } else {
            r.with_iv(c.iv)
        }
    };
    let e = |x: reader::Error| format!("{x}");
    let mut ops = 0;
    macro_rules! text {
        ($what:expr, $got:expr) => {{
            let g: String = $got.map_err(|x| format!("{}: {}", $what, x))?;
            ops += 1;
            ensure_eq!(g, c.t, "{}", $what);
        }};
    }
    // slice reader
    {
        let r = mk();
        let s = r.create_slice_reader();
        s.seek(c.at);
        text!("read_wz_string", s.read_wz_string());
        ensure_eq!(s.pos.get(), end, "cursor after read_wz_string");
        s.seek(c.at);
        let sl = s.read_i8().map_err(e)?;
        if c.t.is_empty() && stored.len() == 1 {
        } else if c.wide {
            text!("read_unicode_string", s.read_unicode_string(sl));
            ensure_eq!(s.pos.get(), end, "cursor after read_unicode_string");
        } else {
            text!("read_ascii_string", s.read_ascii_string(sl));
            ensure_eq!(s.pos.get(), end, "cursor after read_ascii_string");
        }
        s.seek(1);
        text!("read_wz_string_at_offset", s.read_wz_string_at_offset(c.at));
        ensure_eq!(s.pos.get(), 1usize, "cursor after read_wz_string_at_offset");
    }
    // meta, resolved through every resolver and a fresh reader each
    {
        let r = mk();
        let s = r.create_slice_reader_without_hash();
        s.seek(c.at);
        let m = s.read_wz_string_meta().map_err(e)?;
        ensure_eq!(s.pos.get(), end, "cursor after read_wz_string_meta");
        if let Some(ty) = &ty {
            ensure!(m.string_type == *ty, "type of the meta is {:?}", m.string_type);
            ensure_eq!(m.offset + m.length as usize, end, "extent of the meta");
            ensure_eq!(m.length as usize, body.len(), "length of the meta");
        }
        s.seek(2);
        let m2 = s.read_wz_string_meta_at(c.at).map_err(e)?;
        ensure_eq!(s.pos.get(), 2usize, "cursor after read_wz_string_meta_at");
        ensure!(m2.offset == m.offset && m2.length == m.length && m2.string_type == m.string_type, "read_wz_string_meta_at differs");
        let l = m.length as usize;
        text!("resolve_wz_string_meta (slice)", s.resolve_wz_string_meta(&m.string_type, m.offset, l));
        text!("try_resolve_wz_string_meta (slice)", s.try_resolve_wz_string_meta(&m.string_type, m.offset, l));
        text!("resolve_wz_string_meta (base)", mk().resolve_wz_string_meta(&m.string_type, m.offset, l));
        text!("try_resolve_wz_string_meta (base)", mk().try_resolve_wz_string_meta(&m.string_type, m.offset, l));
        let w = WzString::from_meta(WzStringMeta::new(m.offset, m.length, m.string_type.clone()), &Arc::new(mk()));
        text!("WzString::get_string", w.get_string());
        // and back
        let again = mk().encrypt_str(&c.t, &m.string_type);
        if ty.is_some() {
            ensure!(again == body, "re-encrypting gives other bytes: {} instead of {}", short(&hex(&again)), short(&hex(&body)));
        } else {
            ensure!(again.is_empty(), "re-encrypting the empty string gives bytes");
        }
        ops += 1;
    }
    // blocks: inline with both tags, by reference with both tags
    for tag in [0u8, 0x73, 1, 0x1B] {
        for base in [0usize, 9] {
            let mut b = vec![0x77u8; base];
            let at = b.len();
            b.push(tag);
            let fin;
            if tag == 0 || tag == 0x73 {
                b.extend(&stored);
                fin = b.len();
                b.extend(tail);
            } else {
                let off = 5 + 3;
                b.extend((off as i32).to_le_bytes());
                fin = b.len();
                b.extend([9, 9, 9]);
                b.extend(&stored);
                b.extend(tail);
            }
            let r = WzReader::from_buff(&b);
            let r = Arc::new(if c.fresh { r.with_existing_keys(Arc::new(RwLock::new(EcbDecryptor::from_iv(c.iv)))) } else { r.with_iv(c.iv) });
            let s = r.create_slice_reader();
            s.seek(at);
            text!(format!("read_wz_string_block tag {tag:#x}"), s.read_wz_string_block(base));
            ensure_eq!(s.pos.get(), fin, "cursor after read_wz_string_block tag {tag:#x}");
            s.seek(at);
            let m = s.read_wz_string_block_meta(base).map_err(e)?;
            ensure_eq!(s.pos.get(), fin, "cursor after read_wz_string_block_meta tag {tag:#x}");
            text!(format!("read_wz_string_block_meta tag {tag:#x}"), WzString::from_meta(m, &r).get_string());
            if c.iv == BMS {
                // the free function takes the buffer from the block on; references count from its start
                if tag == 0 || tag == 0x73 || base == 0 {
                    text!(format!("free read_wz_string_block tag {tag:#x}"), reader::read_wz_string_block(&b[at..], 0));
                }
            }
        }
    }
    if c.iv == BMS {
        text!("free read_wz_string", reader::read_wz_string(&buf[c.at..]));
        if stored.len() > 1 {
            if c.wide {
                text!("free read_unicode_string", reader::read_unicode_string(&buf[c.at + 1..], buf[c.at] as i8));
            } else {
                text!("free read_ascii_string", reader::read_ascii_string(&buf[c.at + 1..], buf[c.at] as i8));
            }
        }
    }
    // made from text, in its natural width
    let w = WzString::from_str(&c.t, c.iv);
    text!("WzString::from_str", w.get_string());
    let w = WzString::from_str_pkg2_dir(&c.t);
    text!("WzString::from_str_pkg2_dir", w.get_string());
    st.states += 1;
    st.transitions += ops;
    st.traces += 1;
    st.observe_bytes(&stored);
    Ok(())
}

#[derive(Debug)]
struct P2 {
    t: String,
    key: u64,
    ty: DecrypterType,
    u64_form: bool,
}
fn run_p2(c: &P2, st: &mut Stats) -> R {
    let u: Vec<u16> = c.t.encode_utf16().collect();
    let k = c.key.to_le_bytes();
    let ks = [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]];
    let body: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).enumerate().map(|(i, b)| b ^ ks[i % 8]).collect();
    let mut buf = vec![1, 2, 3];
    if c.u64_form {
        buf.extend((-(u.len() as i64) as i16).to_le_bytes());
    } else {
        buf.push((-(u.len() as i64)) as i8 as u8);
    }
    let off = buf.len();
    buf.extend(&body);
    let end = buf.len();
    buf.extend([7, 7]);
    let keys: SharedWzStringDecryptor = Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(c.key, c.ty)));
    let r = Arc::new(WzReader::from_buff(&buf).with_existing_keys(keys));
    let s = r.create_slice_reader();
    let e = |x: reader::Error| format!("{x}");
    s.seek(3);
    let m = if c.u64_form { s.read_wz_string_pkg2_u64_dir_meta() } else { s.read_wz_string_pkg2_dir_meta() }.map_err(e)?;
    ensure_eq!(s.pos.get(), end, "cursor after the pkg2 name");
    if !u.is_empty() {
        ensure_eq!((m.offset, m.length as usize), (off, body.len()), "extent of the pkg2 name");
    }
    ensure_eq!(s.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize).map_err(e)?, c.t, "pkg2 name (slice)");
    ensure_eq!(r.try_resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize).map_err(e)?, c.t, "pkg2 name (base)");
    if !c.u64_form {
        s.seek(3);
        ensure_eq!(s.read_wz_string_pkg2_dir().map_err(e)?, c.t, "read_wz_string_pkg2_dir");
        ensure_eq!(s.pos.get(), end, "cursor after read_wz_string_pkg2_dir");
        st.transitions += 1;
    }
    st.transitions += 3;
    st.states += 1;
    st.traces += 1;
    st.observe_bytes(&body);
    Ok(())
}

#[derive(Debug)]
struct I(i64, usize);
fn run_int(c: &I, st: &mut Stats) -> R {
    let (v, at) = (c.0, c.1);
    let e = |x: reader::Error| format!("{x}");
    let check = |enc: &[u8], want: i64, st: &mut Stats| -> R {
        let mut b = vec![0x80u8; at];
        b.extend(enc);
        let end = b.len();
        b.extend([0x80, 0x7f, 1]);
        let r = WzReader::from_buff(&b);
        let s = r.create_slice_reader();
        let fits = i32::try_from(want).is_ok() && enc.len() != 9;
        if fits {
            s.seek(at);
            ensure_eq!(s.read_wz_int().map_err(e)? as i64, want, "read_wz_int of {}", hex(enc));
            ensure_eq!(s.pos.get(), end, "cursor after read_wz_int");
            ensure_eq!(reader::read_wz_int(&b, Some(at)).map_err(e)? as i64, want, "free read_wz_int");
            ensure_eq!(reader::read_wz_int(&b[at..], None).map_err(e)? as i64, want, "free read_wz_int without offset");
        }
        if enc.len() != 5 {
            s.seek(at);
            ensure_eq!(s.read_wz_int64().map_err(e)?, want, "read_wz_int64 of {}", hex(enc));
            ensure_eq!(s.pos.get(), end, "cursor after read_wz_int64");
            s.seek(at);
            ensure_eq!(s.read_wz_long().map_err(e)?, want, "read_wz_long of {}", hex(enc));
            ensure_eq!(s.pos.get(), end, "cursor after read_wz_long");
            ensure_eq!(reader::read_wz_int64(&b, Some(at)).map_err(e)?, want, "free read_wz_int64");
            ensure_eq!(reader::read_wz_int64(&b[at..], None).map_err(e)?, want, "free read_wz_int64 without offset");
            ensure_eq!(reader::read_wz_long(&b, Some(at)).map_err(e)?, want, "free read_wz_long");
        }
        st.transitions += 8;
        st.states += 1;
        st.observe_bytes(enc);
        Ok(())
    };
    if (-127..=127).contains(&v) {
        check(&[v as i8 as u8], v, st)?;
    }
    if let Ok(i) = i32::try_from(v) {
        check(&wz_int(i, Form::Long), v, st)?;
    }
    check(&wz_int64(v, Form::Long), v, st)?;
    // fixed width
    let raw = v.to_le_bytes();
    let mut b = vec![0xEEu8; at];
    b.extend(raw);
    let r = WzBaseReader::new(b.clone());
    let s = WzSliceReader::new(&b, &r.keys);
    macro_rules! fix {
        ($at:ident, $seq:ident, $t:ty, $n:expr) => {{
            let want = <$t>::from_le_bytes(raw[..$n].try_into().unwrap());
            let g = r.$at(at).map_err(e)?;
            ensure!(g.to_le_bytes() == want.to_le_bytes(), "{} gave {g:?}", stringify!($at));
            let g = s.$at(at).map_err(e)?;
            ensure!(g.to_le_bytes() == want.to_le_bytes(), "slice {} gave {g:?}", stringify!($at));
            s.seek(at);
            let g = s.$seq().map_err(e)?;
            ensure!(g.to_le_bytes() == want.to_le_bytes(), "{} gave {g:?}", stringify!($seq));
            ensure_eq!(s.pos.get(), at + $n, "cursor after {}", stringify!($seq));
            ensure!(r.$at(at + 9 - $n).is_err(), "{} past the end succeeded", stringify!($at));
            ensure!(s.$at(at + 9 - $n).is_err(), "slice {} past the end succeeded", stringify!($at));
            st.transitions += 3;
        }};
    }
    fix!(read_u8_at, read_u8, u8, 1);
    fix!(read_i8_at, read_i8, i8, 1);
    fix!(read_u16_at, read_u16, u16, 2);
    fix!(read_i16_at, read_i16, i16, 2);
    fix!(read_u32_at, read_u32, u32, 4);
    fix!(read_i32_at, read_i32, i32, 4);
    fix!(read_u64_at, read_u64, u64, 8);
    fix!(read_i64_at, read_i64, i64, 8);
    fix!(read_float_at, read_float, f32, 4);
    fix!(read_double_at, read_double, f64, 8);
    st.traces += 1;
    Ok(())
}

pub fn c06(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let maxlen = t.q(3, 4);
    f.push(Family::new(
        "texts",
        format!("all texts of up to {maxlen} characters over an 11-letter alphabet (narrow, control, wide, surrogate pairs, characters that collide with the masks), each storable width, short and extended form, 4 keys, shared or fresh key"),
        0,
        move |ch| {
            let al = ["a", "\u{0}", "\u{7f}", "/", "Z", "é", "\u{AAAA}", "\u{FFFF}", "楓", "🍁", "\u{8000}"];
            let l = ch.pick(maxlen + 1);
            let mut x = String::new();
            for _ in 0..l {
                x.push_str(ch.of(&al));
            }
            let wide = if x.is_ascii() { ch.flag() } else { !(l < 3 && ch.flag()) };
            let form = if ch.flag() { Form::Long } else { Form::Auto };
            let iv = *ch.of(&IVS);
            let fresh = if iv == PRIVATE { false } else { ch.flag() };
            let at = if l < 3 { *ch.of(&[0usize, 1, 13]) } else { 4 };
            Some(Str { iv, t: x, wide, form, at, fresh })
        },
        run_str,
    ));
    let dense = t.q(400, 4200);
    let big: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000];
    f.push(Family::new(
        "lengths",
        format!("every length 0..={dense} and around the key-batch and 16-bit boundaries up to 100000, narrow and wide, 4 keys, shared or fresh key"),
        0,
        move |ch| {
            let len = *ch.of(&lengths(dense, big));
            let wide = ch.flag();
            let iv = *ch.of(&IVS);
            let fresh = if iv == PRIVATE { false } else { ch.flag() };
            let form = if len < 128 && ch.flag() { Form::Long } else { Form::Auto };
            let t = if wide { text_wide(len) } else { text_ascii(len) };
            Some(Str { iv, t, wide, form, at: 2, fresh })
        },
        run_str,
    ));
    f.push(Family::new(
        "pkg2 names",
        "first-entry names of pkg2 directories: every length 0..=128 in the short form, 0..=700 and large in the wide form, 9 keys, ascii and wide text",
        0,
        |ch| {
            let u64_form = ch.flag();
            let len = if u64_form { *ch.of(&lengths(700, &[4096, 32767, 32768])) } else { ch.pick(129) };
            let wide = ch.flag();
            let key = *ch.of(&[0u64, 0xDEADBEEF, 0x1A2B3C4D, 0x0102_0304_0506_0708, u64::MAX, 0xFF00_0000_00, 0x80, 0xAABB_CCDD_EE, 1 << 39]);
            let ty = *ch.of(&[DecrypterType::KMST1198, DecrypterType::KMST1199, DecrypterType::KMST1202]);
            Some(P2 { t: if wide { text_wide(len) } else { text_ascii(len) }, key, ty, u64_form })
        },
        run_p2,
    ));
    let span = t.q(33_000i64, 1 << 20);
    f.push(Family::new(
        "integers",
        format!("every integer of magnitude up to {span} and every power of two +-1 (and its negation) up to 63 bits, every reading entry point, compact and extended form, fixed-width reads of the same bytes"),
        0,
        move |ch| {
            let n = ch.pick(2 * span as usize + 1 + 63 * 6 + 4);
            let v = if (n as i64) <= 2 * span {
                n as i64 - span
            } else {
                let m = n - 2 * span as usize - 1;
                if m < 63 * 6 {
                    let b = 1i64 << (m / 6);
                    [b - 1, b, b.wrapping_add(1), -b - 1, -b, 1 - b][m % 6]
                } else {
                    [i64::MIN, i64::MAX, 0x7f7f_7f7f_7f7f_7f7f, -0x7f7f_7f7f_7f7f_7f80][m - 63 * 6]
                }
            };
            Some(I(v, (n % 3) * 2))
        },
        run_int,
    ));
    f
}

// ------------------------------------------------------------------ C07
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Ensure(usize),
    At(usize),
    TryAt(usize),
    Decrypt(usize),
    /// through the reader, which grows then decrypts
    Slice(usize),
    /// encrypting a string grows the same stream
    Encrypt(usize),
    SetIv(u32),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Key {
    Iv([u8; 4]),
    Custom,
    Lua,
    P2(u64),
}
const CUSTOM_AES: [u8; 32] = [9; 32];
fn refstream(k: Key, n: usize) -> Vec<u8> {
    match k {
        Key::Iv(iv) => keystream(iv, &USER_KEY, n),
        Key::Custom => keystream([5, 6, 7, 8], &CUSTOM_AES, n),
        Key::Lua => keystream(EMS, &USER_KEY, n),
        Key::P2(k) => {
            let k = k.to_le_bytes();
            let ks = [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]];
            (0..n).map(|i| ks[i % 8]).collect()
        }
    }
}
fn make(k: Key) -> SharedWzStringDecryptor {
    match k {
        Key::Iv(iv) => Arc::new(RwLock::new(EcbDecryptor::from_iv(iv))),
        Key::Custom => Arc::new(RwLock::new(EcbDecryptor::new([5, 6, 7, 8], CUSTOM_AES))),
        Key::Lua => Arc::new(RwLock::new(EcbDecryptor::new_lua())),
        Key::P2(k) => Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(k, DecrypterType::KMST1199))),
    }
}
thread_local! { static REF: std::cell::RefCell<Vec<(String, Arc<Vec<u8>>)>> = const { std::cell::RefCell::new(vec![]) }; }
fn cached(k: Key, n: usize) -> Arc<Vec<u8>> {
    let id = format!("{k:?}");
    REF.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(x) = r.iter().find(|x| x.0 == id) {
            if x.1.len() >= n {
                return x.1.clone();
            }
        }
        r.retain(|x| x.0 != id);
        let v = Arc::new(refstream(k, n.max(40_000)));
        r.push((id, v.clone()));
        v
    })
}
/// length of what has been produced, by asking for every position
fn produced(d: &dyn Decryptor, cap: usize) -> usize {
    let (mut lo, mut hi) = (0, cap);
    if d.try_at(cap - 1).is_some() {
        return cap;
    }
    while lo < hi {
        let m = (lo + hi) / 2;
        if d.try_at(m).is_some() {
            lo = m + 1
        } else {
            hi = m
        }
    }
    lo
}
fn run_hist(k0: Key, ops: &[Op], big: usize, st: &mut Stats) -> R {
    let mut k = k0;
    let d = make(k);
    let mut before = produced(&*d.read().unwrap(), big);
    for (i, op) in ops.iter().enumerate() {
        let r = cached(k, big + 8192);
        let none = k == Key::Iv(BMS);
        match *op {
            Op::Ensure(n) => {
                let mut w = d.write().unwrap();
                w.ensure_key_size(n).map_err(|e| format!("ensure_key_size({n}): {e}"))?;
                ensure!(w.is_enough(n), "not enough after ensure_key_size({n})");
                if n > 0 && !none {
                    ensure!(w.try_at(n - 1).is_some(), "position {} missing after ensure_key_size({n})", n - 1);
                }
            }
            Op::At(n) => {
                let got = *d.write().unwrap().at(n);
                ensure_eq!(got, r[n], "at({n}) after {:?}", &ops[..i]);
            }
            Op::TryAt(n) => {
                let g = d.read().unwrap();
                if let Some(x) = g.try_at(n) {
                    ensure_eq!(*x, r[n], "try_at({n}) after {:?}", &ops[..i]);
                }
            }
            Op::Decrypt(n) => {
                let g = d.read().unwrap();
                if g.is_enough(n) {
                    let mut b: Vec<u8> = (0..n).map(|i| (i * 13) as u8).collect();
                    let want: Vec<u8> = b.iter().zip(r.iter()).map(|(a, k)| a ^ k).collect();
                    g.decrypt_slice(&mut b);
                    ensure!(b == want, "decrypt_slice of {n} bytes is wrong after {:?}", &ops[..i]);
                }
            }
            Op::Slice(n) => {
                let b: Vec<u8> = (0..n).map(|i| (i * 29 + 1) as u8).collect();
                let got = reader::get_decrypt_slice(&b, n, &d).map_err(|e| e.to_string())?;
                let want: Vec<u8> = b.iter().zip(r.iter()).map(|(a, k)| a ^ k).collect();
                ensure!(got == want, "get_decrypt_slice of {n} bytes is wrong after {:?}", &ops[..i]);
            }
            Op::Encrypt(n) => {
                if matches!(k, Key::P2(_)) {
                    continue;
                }
                let rd = WzReader::from_buff(&[0]).with_existing_keys(d.clone());
                let t = text_ascii(n);
                let got = rd.encrypt_str(&t, &WzStringType::Ascii);
                let want: Vec<u8> = t.bytes().enumerate().map(|(i, b)| b ^ 0xAAu8.wrapping_add(i as u8) ^ r[i]).collect();
                ensure!(got == want, "encrypting {n} characters is wrong after {:?}", &ops[..i]);
            }
            Op::SetIv(v) => {
                match k {
                    Key::P2(_) => k = Key::P2(v as u64 | 0x77_0000_0000),
                    Key::Custom | Key::Lua => continue,
                    Key::Iv(_) => k = Key::Iv(v.to_le_bytes()),
                }
                let v = match k {
                    Key::P2(x) => x,
                    _ => v as u64,
                };
                d.write().unwrap().set_iv(v, DecrypterType::KMST1199);
                before = 0;
            }
        }
        st.transitions += 1;
        // the whole of what exists is the reference prefix, and it never shrinks
        let r = cached(k, big + 8192);
        let g = d.read().unwrap();
        let now = produced(&*g, big);
        ensure!(now >= before, "keystream shrank from {before} to {now} after {:?}", &ops[..=i]);
        if k != Key::Iv(BMS) {
            let mut z = vec![0u8; now];
            g.decrypt_slice(&mut z);
            ensure!(z[..] == r[..now], "keystream of {now} bytes differs at {:?} after {:?}", z.iter().zip(r.iter()).position(|(a, b)| a != b), &ops[..=i]);
            for p in (0..now).step_by(4093).chain(now.checked_sub(1)) {
                ensure_eq!(*g.try_at(p).unwrap(), r[p], "try_at({p})");
            }
        }
        before = now;
        st.states += 1;
    }
    st.observe(&format!("{k:?} {before}"));
    st.traces += 1;
    Ok(())
}
pub fn c07(t: Tier) -> Vec<Family> {
    let keys = || vec![Key::Iv(GMS), Key::Iv(EMS), Key::Iv(BMS), Key::Iv(PRIVATE), Key::Custom, Key::Lua, Key::P2(0xDEADBEEF), Key::P2(0x12_3456_789A)];
    let ops = || {
        let mut v = vec![];
        for n in [0usize, 1, 16, 17, 4095, 4096, 4097, 8193] {
            v.push(Op::Ensure(n));
        }
        for n in [0usize, 15, 4095, 4096, 9000] {
            v.push(Op::At(n));
        }
        v.extend([Op::TryAt(0), Op::TryAt(4096), Op::Decrypt(1), Op::Decrypt(33), Op::Decrypt(4097), Op::Slice(1), Op::Slice(4096), Op::Slice(5000), Op::Encrypt(31), Op::Encrypt(4200)]);
        v.extend([Op::SetIv(u32::from_le_bytes(GMS)), Op::SetIv(0), Op::SetIv(u32::from_le_bytes(EMS))]);
        v
    };
    let depth = t.q(3usize, 4);
    let mut f = vec![];
    f.push(Family::new(
        "histories",
        format!("every sequence of {depth} operations out of 26 (grow, read one byte, try, decrypt, decrypt through the reader, encrypt, change key; sizes around the block and batch boundaries), 8 keys; after each step the whole produced stream is compared"),
        0,
        move |ch| {
            let k = *ch.of(&keys());
            let all = ops();
            let v: Vec<Op> = (0..depth).map(|_| *ch.of(&all)).collect();
            Some((k, v))
        },
        |(k, v), st| run_hist(*k, v, 12_300, st),
    ));
    let maxn = t.q(1200usize, 9000);
    f.push(Family::new(
        "sizes",
        format!("every first request size 0..={maxn} (and large ones), through each operation, followed by a second request from 9 sizes, on a stream of each key"),
        0,
        move |ch| {
            let k = *ch.of(&[Key::Iv(GMS), Key::Iv(PRIVATE), Key::Custom, Key::Iv(BMS)]);
            let n = *ch.of(&lengths(maxn, &[4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 65535, 65536, 65537, 100_001]));
            let m = *ch.of(&[0usize, 1, 16, 4096, 4097, 8192, 20_000]);
            let v = match ch.pick(3) {
                0 => vec![Op::Ensure(n), Op::Slice(m), Op::Decrypt(n)],
                1 => vec![Op::At(n), Op::Ensure(m), Op::Encrypt(n.min(9000))],
                _ => vec![Op::Slice(n), Op::At(m), Op::Ensure(n + m)],
            };
            Some((k, v))
        },
        |(k, v), st| run_hist(*k, v, 125_000, st),
    ));
    f
}
