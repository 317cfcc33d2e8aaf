//! Decodes the bitmap "c" of images handed over on stdin, with the crate built without rayon.
use std::io::{Read, Write};
use std::sync::Arc;
use wz_reader::util::node_util;
use wz_reader::*;

fn one(iv: [u8; 4], b: &[u8]) -> Result<(u8, u32, u32, Vec<u8>), String> {
    let r = Arc::new(WzReader::from_buff(b).with_iv(iv));
    let n = WzNode::new(&"c.img".into(), WzImage::new(&"c.img".into(), 0, b.len(), &r), None).into_lock();
    node_util::parse_node(&n).map_err(|e| e.to_string())?;
    let c = n.read().unwrap().at("c").ok_or("no bitmap")?;
    let r = c.read().unwrap();
    let i = r.try_as_png().ok_or("not a bitmap")?.extract_png().map_err(|e| e.to_string())?;
    let k = match i.color() {
        image::ColorType::Rgb8 => 1,
        image::ColorType::Rgba8 => 2,
        image::ColorType::Rgba16 => 3,
        _ => 0,
    };
    Ok((k, i.width(), i.height(), i.as_bytes().to_vec()))
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut si = std::io::stdin().lock();
    let mut so = std::io::stdout().lock();
    loop {
        let mut h = [0u8; 8];
        if si.read_exact(&mut h).is_err() {
            return;
        }
        let n = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        si.read_exact(&mut b).unwrap();
        let r = std::panic::catch_unwind(|| one(h[4..].try_into().unwrap(), &b));
        let (tag, k, w, hh, body) = match r {
            Ok(Ok((k, w, h, p))) => (0u8, k, w, h, p),
            Ok(Err(e)) => (1, 0, 0, 0, e.into_bytes()),
            Err(_) => (2, 0, 0, 0, vec![]),
        };
        let mut o = vec![tag, k];
        o.extend(w.to_le_bytes());
        o.extend(hh.to_le_bytes());
        o.extend((body.len() as u32).to_le_bytes());
        o.extend(body);
        so.write_all(&o).unwrap();
        so.flush().unwrap();
    }
}
