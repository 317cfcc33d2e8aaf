//! C16 sounds, scripts, raw data and videos are extracted byte for byte.
use crate::core::*;
use crate::crypt::*;
use crate::gens::*;
use crate::img::*;
use crate::{ensure, ensure_eq};
use wz_reader::util::node_util;
use wz_reader::*;

fn blob(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + i / 251 + salt * 77 + 1) as u8).collect()
}
#[derive(Debug)]
struct C {
    iv: [u8; 4],
    pre: usize,
    last: bool,
    v: V,
}
fn node_of(c: &C) -> Result<WzNodeArc, String> {
    let mut top = vec![n("first", st("x"))];
    top.push(n("it", c.v.clone()));
    if !c.last {
        top.push(n("after", int(5)));
    }
    let node = crate::c01::embed_img("x.img", &image(c.iv, &top), c.iv, c.pre, 0);
    node_util::parse_node(&node).map_err(|e| e.to_string())?;
    if !c.last {
        let a = node.read().unwrap().at("after").ok_or("no node after the blob")?;
        ensure_eq!(a.read().unwrap().try_as_int().copied(), Some(5), "node after the blob");
    }
    let r = node.read().unwrap().at("it").ok_or("no node")?;
    // keeps the image alive through the reader it shares
    Ok(r)
}
/// the only file in a fresh folder after saving
fn save_and_list(f: impl FnOnce(std::path::PathBuf) -> Result<(), String>, name: &str, old: Option<(&str, &[u8])>) -> Result<Vec<(String, Vec<u8>)>, String> {
    let d = scratch().join("save");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    if let Some((o, b)) = old {
        std::fs::write(d.join(o), b).map_err(|e| e.to_string())?;
    }
    f(d.join(name))?;
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(&d)
        .map_err(|e| e.to_string())?
        .flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap()))
        .collect();
    v.sort();
    let _ = std::fs::remove_dir_all(&d);
    Ok(v)
}
fn check_sound(c: &C, x: &Sound, save: usize, st: &mut Stats) -> R {
    let node = node_of(c)?;
    let r = node.read().unwrap();
    let snd = r.try_as_sound().ok_or("not a sound")?;
    let want = sound_bytes(x);
    let kind = sound_kind(x);
    ensure_eq!(snd.duration, x.duration as u32, "duration");
    ensure_eq!(format!("{:?}", snd.sound_type), kind, "sound kind");
    ensure!(snd.get_buffer() == want, "get_buffer gives {} bytes, stored {}", snd.get_buffer().len(), want.len());
    let mut cur = std::io::Cursor::new(vec![]);
    snd.write_to(&mut cur).map_err(|e| e.to_string())?;
    ensure!(cur.into_inner() == want, "write_to differs from the stored sound");
    if kind == "Wav" {
        ensure!(snd.get_wav_header() == want[..44], "wav header");
    }
    st.transitions += 3;
    if save > 0 {
        let ext = match kind {
            "Wav" => "out.wav",
            "Mp3" => "out.mp3",
            _ => "out",
        };
        let old = vec![0x55u8; want.len() + 100];
        let got = save_and_list(|p| snd.save(p).map_err(|e| e.to_string()), "out", if save == 2 { Some((ext, &old)) } else { None })?;
        ensure_eq!(got.len(), 1, "files after save");
        ensure_eq!(got[0].0, ext, "saved file name");
        ensure!(got[0].1 == want, "saved file has {} bytes, stored {}", got[0].1.len(), want.len());
        st.transitions += 1;
    }
    st.states += 1;
    st.traces += 1;
    st.observe(&format!("{kind} {} {}", x.duration, fnv(&want)));
    Ok(())
}
fn check_script(name: &str, text: &str, file_iv: [u8; 4], text_iv: [u8; 4], pre: usize, post: usize, st: &mut Stats) -> R {
    let mut b = vec![0x01];
    b.extend(wz_int(text.len() as i32, Form::Auto));
    b.extend(xor_ks(text_iv, text.as_bytes()));
    let node = crate::c01::embed_img(name, &b, file_iv, pre, post);
    node_util::parse_node(&node).map_err(|e| e.to_string())?;
    let s = node.read().unwrap().at("Script").ok_or("no script node")?;
    let r = s.read().unwrap();
    let got = r.try_as_lua().ok_or("not a script")?.extract_lua().map_err(|e| format!("extract_lua: {e}"))?;
    ensure!(got == text, "script is {}, stored {}", short(&got), short(text));
    let again = r.try_as_lua().unwrap().extract_lua().map_err(|e| e.to_string())?;
    ensure!(again == text, "second extraction differs");
    st.transitions += 2;
    st.states += 1;
    st.traces += 1;
    st.observe(&got);
    Ok(())
}
/// text of n chars whose byte length passes every offset of a char inside the guess window
fn script_text(kind: usize, n: usize) -> String {
    let unit: &[&str] = match kind {
        0 => &["a", "b ", "=", "1", "\n", "x"],
        1 => &["é", "a", "ß"],
        2 => &["楓", "之", "x", "谷"],
        _ => &["🍁", "a"],
    };
    (0..n).map(|i| unit[(i * 7 + i / 5) % unit.len()]).collect()
}

pub fn c16(t: Tier) -> Vec<Family> {
    let dense = t.q(300, 1200);
    let lens = move || lengths(dense, &[4095, 4096, 4097, 65535, 65536, 65537, 200_000]);
    let mut f = vec![];
    f.push(Family::new(
        "sounds",
        format!("every payload length 0..={dense} and around 4096 and 65536, header lengths around the kinds' limits (0, 0x3b..0x3e, 0x45..0x47, 0x52, 200), every duration class, at the start or inside a buffer, last in the file or not; read, written and saved"),
        0,
        move |ch| {
            let n = *ch.of(&lens());
            let h = *ch.of(&[0usize, 1, 0x3b, 0x3c, 0x3d, 0x3e, 0x45, 0x46, 0x47, 0x52, 200]);
            let d = *ch.of(&[0i32, 127, 128, 999, 1000, 1001, 70000]);
            let freq = if h == 0x46 { ch.pick(3) } else { 0 };
            let last = ch.flag();
            let mut header = blob(h, 3);
            if h == 0x46 {
                let f = match freq {
                    0 => n as u32,
                    1 => 44100,
                    _ => n as u32 + 1,
                };
                header[0x38..0x3c].copy_from_slice(&f.to_le_bytes());
            }
            let x = Sound { header, data: blob(n, d as usize), duration: d };
            let save = if n % 37 == 0 || n < 3 { 1 + (n + h) % 2 } else { 0 };
            Some((C { iv: GMS, pre: if last { 0 } else { 29 }, last, v: V::Sound(x.clone()) }, x, save))
        },
        |(c, x, save), st| check_sound(c, x, *save, st),
    ));
    f.push(Family::new(
        "save names",
        "saving under names with and without an extension, over a longer existing file or not, for each kind: exactly one file, with the kind's extension, with exactly the stored bytes",
        0,
        |ch| {
            let name = *ch.of(&["out", "out.bin", "a b", "楓", "x.mp3", "x.wav"]);
            let k = ch.pick(3);
            let old = ch.flag();
            Some((name, k, old))
        },
        |(name, k, old), st| {
            let mut header = blob(if *k == 0 { 0x52 } else { 0x46 }, 1);
            let data = blob(500, 2);
            let mut d = 77;
            if *k == 2 {
                header[0x38..0x3c].copy_from_slice(&500u32.to_le_bytes());
                d = 1000;
            }
            let x = Sound { header, data, duration: d };
            let c = C { iv: BMS, pre: 0, last: true, v: V::Sound(x.clone()) };
            let node = node_of(&c)?;
            let r = node.read().unwrap();
            let snd = r.try_as_sound().ok_or("not a sound")?;
            let stem = name.split('.').next().unwrap();
            let want = match sound_kind(&x) {
                "Wav" => format!("{stem}.wav"),
                "Mp3" => format!("{stem}.mp3"),
                _ => name.to_string(),
            };
            let long = vec![1u8; 5000];
            let got = save_and_list(|p| snd.save(p).map_err(|e| e.to_string()), name, if *old { Some((&want, &long)) } else { None })?;
            ensure_eq!(got.iter().map(|g| g.0.clone()).collect::<Vec<_>>(), vec![want], "files after save");
            ensure!(got[0].1 == sound_bytes(&x), "saved bytes differ");
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            st.observe(name);
            Ok(())
        },
    ));
    f.push(Family::new(
        "raw and video",
        format!("every payload length 0..={dense} and around 4096 and 65536, raw kinds 0 and 1 (with and without children) and videos, at the start or inside a buffer, last in the file or not, each key"),
        0,
        move |ch| {
            let n = *ch.of(&lens());
            let k = ch.pick(4);
            let last = ch.flag();
            let iv = *ch.of(&STD);
            let d = blob(n, k);
            let v = match k {
                0 => V::Raw { ver: 0, kids: None, data: d },
                1 => V::Raw { ver: 1, kids: None, data: d },
                2 => V::Raw { ver: 1, kids: Some(vec![n_("k", int(3)), n_("l", st("x"))]), data: d },
                _ => V::Video(d),
            };
            Some(C { iv, pre: if last { 0 } else { 4099 }, last, v })
        },
        |c, st| {
            let node = node_of(c)?;
            let r = node.read().unwrap();
            let (got, want): (&[u8], &Vec<u8>) = match &c.v {
                V::Video(d) => (r.try_as_video().ok_or("not a video")?.get_buffer(), d),
                V::Raw { data, .. } => (r.try_as_raw_data().ok_or("not raw data")?.get_buffer(), data),
                _ => unreachable!(),
            };
            ensure!(got == &want[..], "payload has {} bytes, stored {}", got.len(), want.len());
            st.states += 1;
            st.transitions += 2;
            st.traces += 1;
            st.observe_bytes(got);
            Ok(())
        },
    ));
    let dl = t.q(200, 700);
    f.push(Family::new(
        "scripts",
        format!("scripts of every length 0..={dl} and larger, of one to four byte chars (every cut of a char at the detection window), under the file's own key, at the start or inside a buffer"),
        0,
        move |ch| {
            let n = *ch.of(&lengths(dl, &[1000, 4096, 20000, 65536]));
            let k = ch.pick(4);
            let iv = *ch.of(&STD);
            let lead = ch.pick(4);
            Some((n, k, iv, lead))
        },
        |(n, k, iv, lead), st| {
            let text = format!("{}{}", "-".repeat(*lead), script_text(*k, *n));
            check_script("Global.lua", &text, *iv, *iv, if n % 2 == 0 { 0 } else { 50 }, n % 3, st)
        },
    ));
    f.push(Family::new(
        "scripts under another key",
        "scripts of 40 chars and more stored under any standard key inside a file of any other standard key",
        0,
        |ch| {
            let n = *ch.of(&lengths(0, &[40, 41, 62, 63, 64, 65, 66, 100, 127, 128, 500, 5000]));
            let k = ch.pick(4);
            let a = *ch.of(&STD);
            let b = *ch.of(&STD);
            if n == 0 || a == b {
                return None;
            }
            Some((n, k, a, b))
        },
        |(n, k, a, b), st| check_script("Global.lua", &script_text(*k, *n), *a, *b, 9, 9, st),
    ));
    f.push(Family::new(
        "text images",
        format!("plain and packed text images of every length 0..={dl} and larger: the text node holds exactly the stored bytes"),
        0,
        move |ch| {
            let n = *ch.of(&lengths(dl, &[4096, 65536]));
            Some((n, ch.flag(), *ch.of(&[0usize, 70])))
        },
        |(n, packed, pre), st| {
            let d = blob(*n, 9);
            let mut b = vec![];
            let name = if *packed {
                b.extend(b"#Property");
                "p.img"
            } else {
                "readme.txt"
            };
            b.extend(&d);
            if b.is_empty() {
                return Ok(());
            }
            let node = crate::c01::embed_img(name, &b, GMS, *pre, 4);
            node_util::parse_node(&node).map_err(|e| e.to_string())?;
            let s = node.read().unwrap().at("text.txt").ok_or("no text node")?;
            let r = s.read().unwrap();
            ensure!(r.try_as_raw_data().ok_or("not raw")?.get_buffer() == d, "text bytes differ");
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            st.observe_bytes(&d);
            Ok(())
        },
    ));
    f
}
fn n_(a: &str, v: V) -> N {
    n(a, v)
}
