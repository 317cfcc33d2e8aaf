//! C22 version-hash search.
use crate::core::*;
use crate::ensure;
use crate::pkg::{checksum, hash2, ver_hash, Rel};
use wz_reader::version::pkg1;
use wz_reader::version::pkg2::{self, Pkg2VersionGen};

fn gen_of(rel: Rel) -> Pkg2VersionGen {
    match rel {
        Rel::R1196 => Pkg2VersionGen::V1,
        Rel::R1197 => Pkg2VersionGen::V2,
        Rel::R1198 => Pkg2VersionGen::V3,
        Rel::R1199 => Pkg2VersionGen::V4,
        Rel::R1200 => Pkg2VersionGen::V5,
        Rel::R1202 => Pkg2VersionGen::V6,
    }
}
fn structured() -> Vec<u32> {
    let mut v = vec![0u32, 1, 2, 3, 0x55555555, 0xAAAAAAAA, 0x12345678, 0xDEADBEEF, 0x0000abcd, 0x12340000, 0x1A2B3C4D, !0x1A2B3C4D, 0x6D4C3B2A, 0x2A2C818B, 0x80000001, 0x7fffffff];
    for i in 0..32 {
        v.push(1 << i);
        v.push(!(1u32 << i));
        v.push(!0u32 >> i);
        v.push(!0u32 << i);
        v.push(0u32.wrapping_sub(0x1A2B3C4D).wrapping_add(1 << i));
    }
    for i in 0..64u32 {
        v.push(i.wrapping_mul(0x9E3779B9));
    }
    v.sort();
    v.dedup();
    v
}
/// every t of the whole 32-bit space with hash2(rel, h1, t) in `want`, for each wanted value
fn sweep(rel: Rel, h1: u32, want: &[u32]) -> Vec<(u32, u32)> {
    macro_rules! go {
        ($($r:ident),*) => { match rel { $(Rel::$r => sweep_with(want, &|t| hash2(Rel::$r, h1 as u64, t as u64) as u32),)* } };
    }
    go!(R1196, R1197, R1198, R1199, R1200, R1202)
}
fn sweep_with(want: &[u32], eq: &(impl Fn(u32) -> u32 + Sync)) -> Vec<(u32, u32)> {
    let mut sorted = want.to_vec();
    sorted.sort();
    sorted.dedup();
    let mut filter = vec![0u64; 1 << 14];
    for w in &sorted {
        let i = (w & 0xfffff) as usize;
        filter[i >> 6] |= 1 << (i & 63);
    }
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as u64;
    let (sorted, filter) = (&sorted, &filter);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                s.spawn(move || {
                    let (a, b) = (i * (1u64 << 32) / n, (i + 1) * (1u64 << 32) / n);
                    let mut out = vec![];
                    for t in a..b {
                        let h = eq(t as u32);
                        let k = (h & 0xfffff) as usize;
                        if filter[k >> 6] >> (k & 63) & 1 == 1 && sorted.binary_search(&h).is_ok() {
                            out.push((h, t as u32));
                        }
                    }
                    out
                })
            })
            .collect();
        let mut v: Vec<(u32, u32)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        v.sort();
        v
    })
}
fn search(rel: Rel, h1: u32, h2: u32) -> Vec<u32> {
    let mut v: Vec<u32> = gen_of(rel).get_generator(h1 as u64, h2 as u64).get_iter().collect();
    v.sort();
    v.dedup();
    v
}
fn slice(all: &[(u32, u32)], h: u32) -> Vec<u32> {
    let a = all.partition_point(|x| x.0 < h);
    all[a..].iter().take_while(|x| x.0 == h).map(|x| x.1).collect()
}
pub fn c22(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(Family::new(
        "classic versions",
        "all header values 0..=65535 against all versions 0..=2000: the candidates, their hashes, and their order; ranges of every start and length 0..=12 around boundaries",
        0,
        |ch| {
            let enc = ch.pick(65536) as i32;
            Some(enc)
        },
        |enc, st| {
            let (lo, hi) = if *enc < 512 { (-20, 2300) } else { (*enc - 3, *enc + 3) };
            let got: Vec<(i32, u32)> = pkg1::VersionGen::new(*enc, lo, hi).filter(|x| x.1 != 0).collect();
            let want: Vec<(i32, u32)> = (lo..=hi).map(|v| (v, ver_hash(v))).filter(|(v, h)| (*v == *enc || checksum(*h) as i32 == *enc) && *h != 0).collect();
            ensure!(got == want, "candidates of header value {enc}: {} instead of {}; first difference {:?}", got.len(), want.len(), got.iter().zip(&want).find(|x| x.0 != x.1));
            for v in [1, 83, 113, 770, 2000] {
                let g = pkg1::VersionGen::new(*enc, v, v).check_and_get_version_hash();
                let h = ver_hash(v);
                let w = if v == *enc || checksum(h) as i32 == *enc { h } else { 0 };
                ensure!(g == w, "version {v} against header value {enc}: {g:#x} instead of {w:#x}");
                ensure!(pkg1::VersionGen::calculate_version_hash(v) == h, "hash of {v}");
            }
            for len in 0..=5 {
                let n = pkg1::VersionGen::new(*enc, 7, 7 + len - 1).count();
                ensure!(n == len as usize, "range of {len} versions yields {n}");
            }
            st.traces += 1;
            st.states += got.len() as u64;
            st.observe(&format!("{got:?}"));
            Ok(())
        },
    ));
    f.push(Family::new(
        "verification equations",
        "each release's verifier against the equation for 230 x 230 structured (first hash, version hash) pairs, with the second hash that fits, every one-bit change of it, and its complement",
        0,
        |ch| {
            let rel = *ch.of(&[Rel::R1196, Rel::R1197, Rel::R1198, Rel::R1199, Rel::R1200]);
            let s = structured();
            let h1 = *ch.of(&s);
            Some((rel, h1))
        },
        |(rel, h1), st| {
            let g = gen_of(*rel).get_generator(*h1 as u64, 0);
            let ver = g.get_verifier();
            for v in structured() {
                let h2 = hash2(*rel, *h1 as u64, v as u64) as u32;
                ensure!(ver(*h1, h2, v), "{rel:?}: {v:#x} satisfies the equation for {h1:#x} {h2:#x} but is not accepted");
                ensure!(!ver(*h1, !h2, v), "{rel:?}: {v:#x} accepted for {h1:#x} and a complemented hash");
                for b in 0..32 {
                    ensure!(!ver(*h1, h2 ^ (1 << b), v), "{rel:?}: {v:#x} accepted for {h1:#x} {:#x}", h2 ^ (1 << b));
                    let w = v ^ (1 << b);
                    let e = hash2(*rel, *h1 as u64, w as u64) as u32 == h2;
                    ensure!(ver(*h1, h2, w) == e, "{rel:?}: {w:#x} for {h1:#x} {h2:#x}: accepted {}, equation {e}", !e);
                }
                st.transitions += 66;
            }
            st.traces += 1;
            Ok(())
        },
    ));
    f.push(Family::new(
        "64-bit search",
        "structured 64-bit pairs (every single bit, complements, mixed halves): exactly one version hash",
        0,
        |ch| {
            let mk = |ch: &mut Ch| -> u64 {
                let b = ch.pick(64 + 8);
                match b {
                    0..=63 => 1u64 << b,
                    64 => 0,
                    65 => !0,
                    66 => 0xABCDEF0123456789,
                    67 => 0xffffffff,
                    68 => 0xffffffff00000000,
                    69 => 0x1234567890ABCDEF,
                    70 => 0x8000000080000000,
                    _ => 0xFEDCBA9876543210,
                }
            };
            Some((mk(ch), mk(ch)))
        },
        |(h1, h2), st| {
            let t: Vec<u64> = Pkg2VersionGen::V6.get_generator_u64(*h1, *h2).get_iter().collect();
            let want = h1 ^ h2 ^ 0xABCDEF0123456789u64;
            ensure!(t == vec![want], "search gives {t:x?} instead of {want:x}");
            ensure!(hash2(Rel::R1202, *h1, t[0]) == *h2, "equation");
            let v = Pkg2VersionGen::V6.get_generator_u64(*h1, *h2);
            let ok = v.get_verifier();
            ensure!(ok(*h1, *h2, want), "verifier refuses the version hash");
            for b in 0..64 {
                ensure!(!ok(*h1, *h2, want ^ (1 << b)), "verifier accepts another version hash");
                ensure!(!ok(*h1, *h2 ^ (1 << b), want), "verifier accepts another second hash");
                ensure!(!ok(*h1 ^ (1 << b), *h2, want), "verifier accepts another first hash");
            }
            st.traces += 1;
            st.transitions += 1;
            Ok(())
        },
    ));
    let h1s: Vec<u32> = {
        let mut v: Vec<u32> = t.q(vec![0u32, 1, 3, 8, 10, 15], (0..16).collect()).iter().map(|i| (i.wrapping_mul(0x9E3779B9) & !0xf) | i).collect();
        v.extend(t.q(vec![0xffffffff], vec![0xffffffff, 0x80000000, 0x0000abcd, 0x7fffffff, 0xDEADBEE0, 0x1A2B3C4D, 0xE5D4C3B2, 0x00000010]));
        v
    };
    let nh = h1s.len();
    f.push(
        Family::new(
            "search against the whole space",
            format!("releases with 32-bit hashes and a direct search: {nh} first hashes (low nibbles 0, 1, 3, 8, 10, 15; all in the thorough tier), for each several hundred second hashes (those of structured version hashes, structured values, complements); the whole space of 2^32 version hashes is enumerated and compared"),
            0,
            move |ch| {
                let rel = *ch.of(&[Rel::R1196, Rel::R1197, Rel::R1198]);
                let h1 = *ch.of(&h1s);
                // the low nibble of the first hash only matters to the third
                if rel == Rel::R1196 && h1 != u32::MAX || rel == Rel::R1197 && h1 % 4 != 3 {
                    return None;
                }
                Some((rel, h1))
            },
            |(rel, h1), st| {
                let mut q: Vec<u32> = structured().iter().map(|v| hash2(*rel, *h1 as u64, *v as u64) as u32).collect();
                q.extend(structured());
                q.extend(structured().iter().map(|x| x ^ h1));
                q.sort();
                q.dedup();
                let all = sweep(*rel, *h1, &q);
                st.states += 1 << 32;
                let mut found = 0;
                for h2 in &q {
                    let want = slice(&all, *h2);
                    let got = search(*rel, *h1, *h2);
                    ensure!(got == want, "{rel:?}, hashes {h1:#x} {h2:#x}: the search finds {:x?}, the equation admits {:x?}", got, want);
                    found += want.len();
                    st.transitions += 1;
                    st.observe(&format!("{}", want.len()));
                }
                ensure!(found > 0, "no version hash at all");
                st.traces += 1;
                Ok(())
            },
        )
        .solo(),
    );
    let pairs: Vec<(Rel, u32, u32)> = {
        let mut v = vec![];
        let vs = t.q(vec![(0x0000abcdu32, u32::MAX)], vec![(0x11112222, 0x33334444), (0x0000abcd, u32::MAX), (0, 1), (u32::MAX, 0x80000000), (0xDEADBEEF, 0x7fffffff), (0x6D4C3B2A, 0x6D4C3B2A), (0x80000001, 0xfffffffe), (0x1A2B3C4D, 0x10000)]);
        for rel in [Rel::R1199, Rel::R1200] {
            for (h1, tt) in &vs {
                v.push((rel, *h1, hash2(rel, *h1 as u64, *tt as u64) as u32));
            }
        }
        v.push((Rel::R1199, 0x12345678, hash2(Rel::R1199, 0x12345678, 0) as u32));
        v
    };
    let np = pairs.len();
    f.push(
        Family::new(
            "exhaustive search against the whole space",
            format!("releases searched by trying every hash: {np} pairs of header hashes whose solutions include the first and last value of the space"),
            0,
            move |ch| Some(*ch.of(&pairs)),
            |(rel, h1, h2), st| {
                let want = slice(&sweep(*rel, *h1, &[*h2]), *h2);
                let got = search(*rel, *h1, *h2);
                ensure!(got == want, "{rel:?}, hashes {h1:#x} {h2:#x}: the search finds {:x?}, the equation admits {:x?}", got, want);
                st.states += 1 << 32;
                st.transitions += 1;
                st.traces += 1;
                st.observe(&format!("{want:?}"));
                Ok(())
            },
        )
        .limit(200)
        .solo(),
    );
    f.push(Family::new(
        "combined iterator",
        "the combined search over the three direct generations: every structured second hash for 40 first hashes; it yields the union of the single searches",
        0,
        |ch| {
            let s = structured();
            let h1 = s[ch.pick(40) * s.len() / 40];
            let h2 = *ch.of(&s);
            Some((h1, h2))
        },
        |(h1, h2), st| {
            let mut got: Vec<u32> = pkg2::VersionGen::new(*h1, *h2).collect();
            let mut want: Vec<u32> = [Rel::R1196, Rel::R1197, Rel::R1198].iter().flat_map(|r| search(*r, *h1, *h2)).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "combined search of {h1:#x} {h2:#x}: {got:x?} instead of {want:x?}");
            st.traces += 1;
            st.transitions += 4;
            Ok(())
        },
    ));
    f
}
