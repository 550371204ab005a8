//! C04: Teledisk conversion.
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use crate::{model_lzhuf, model_lzw};

pub const INFO04: Info = Info {
    rule: "one execution = conversion of a normal image to advanced and back",
    states: "distinct (image, advanced image) observations",
    transitions: "bytes of the image and of the advanced image consumed",
    traces: "conversions compared byte for byte with the reference (header with independent CRC, body by the reference coder)",
    bounds: "every value of every header byte (others fixed), every version with several bodies, every body of the listed families",
    assumptions: &["header bytes are varied one at a time (the version together with every body class)"],
};

pub const H2: [u8; 8] = [0, 0x5a, 21, 2, 0, 1, 0, 2];
pub const H1: [u8; 8] = [0, 0x5a, 10, 2, 0, 1, 0, 2];

pub fn gen04(g: &mut Gen) {
    let th = g.thorough;
    let body = D::raw(b"I am Sam. Sam I am. I do not like this Sam I am.\n");
    g.family("every version", 8);
    for v in 0..=255u8 {
        let mut h = H2;
        h[2] = v;
        for d in [D::Raw(vec![]), body.clone(), D::raw(&[v]), D::Runs(vec![(b'S', 300)]), corpus::lcg(700, 256, v as u64)] {
            g.put(Case::Td { head: h.to_vec(), d });
        }
    }
    g.family("every value of every header byte", 8);
    for base in [H1, H2] {
        for k in 0..8 {
            if k == 2 {
                continue;
            }
            for v in 0..=255u8 {
                let mut h = base;
                h[k] = v;
                g.put(Case::Td { head: h.to_vec(), d: if v % 2 == 0 { body.clone() } else { D::raw(b"ab") } });
            }
        }
    }
    g.family("arbitrary headers", 64);
    let mut r = Rng(7);
    for k in 0..if th { 40_000 } else { 4000 } {
        let mut h: Vec<u8> = (0..8).map(|_| r.below(256) as u8).collect();
        match k % 4 {
            0 => h[2] = [10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21][k / 4 % 12],
            1 => h.fill([0, 1, 19, 20, 21, 127, 128, 255][k / 4 % 8]),
            2 => (0..8).for_each(|i| h[i] = if k / 4 >> i & 1 == 1 { 0xff } else { 0 }),
            _ => {}
        }
        g.put(Case::Td { head: h, d: if k % 3 == 0 { D::raw(b"abcabcabc") } else { D::raw(&[k as u8, (k >> 8) as u8]) } });
    }
    g.family("all pairs of header bytes", 256);
    let vals: Vec<u8> = if th { (0..=255).collect() } else { vec![0, 1, 2, 3, 7, 10, 15, 16, 19, 20, 21, 63, 64, 84, 116, 127, 128, 129, 191, 192, 254, 255] };
    for i in 0..8 {
        for j in i + 1..8 {
            for a in &vals {
                for b in &vals {
                    let mut h = if (*a as usize + *b as usize + i + j) % 2 == 0 { H1 } else { H2 };
                    h[i] = *a;
                    h[j] = *b;
                    g.put(Case::Td { head: h.to_vec(), d: D::raw(&[*b, *a, *b]) });
                }
            }
        }
    }
    g.family("every version, all short bodies", 64);
    for v in if th { (0..=255u8).collect::<Vec<_>>() } else { vec![0, 1, 9, 10, 15, 18, 19, 20, 21, 22, 99, 255] } {
        let mut h = H2;
        h[2] = v;
        strings(&[0, b'T', b'd'], 0, if th { 5 } else { 4 }, &mut |s| g.put(Case::Td { head: h.to_vec(), d: D::raw(s) }));
    }
    g.family("bodies that hold headers", 4);
    for v in [10u8, 21] {
        for w in [10u8, 21] {
            let (mut h, mut k) = (H2, H2);
            h[2] = v;
            k[2] = w;
            for adv in [false, true] {
                for n in [0u32, 1, 12, 500] {
                    let mut body = D::Raw(td_image(adv, &k, &corpus::lcg(n, 256, 1).build()));
                    for _ in 0..2 {
                        g.put(Case::Td { head: h.to_vec(), d: body.clone() });
                        body = D::Cat(vec![body.clone(), body]);
                    }
                }
            }
        }
    }
    for base in [H1, H2] {
        g.family("bodies: all strings over two letters", 16);
        strings(&[0xE5, b'T'], 0, if th { 14 } else { 9 }, &mut |s| g.put(Case::Td { head: base.to_vec(), d: D::raw(s) }));
        g.family("bodies: lengths around the boundaries", 4);
        for n in (0..if th { 4000 } else { 100 }).chain(4080..4110).chain(if th { 8000..8400 } else { 8184..8200 }).chain([3838, 3839, 3840, 12288, 12289]) {
            g.put(Case::Td { head: base.to_vec(), d: corpus::lcg(n, 256, n as u64) });
            g.put(Case::Td { head: base.to_vec(), d: corpus::lcg(n, 2, n as u64) });
        }
        g.family("bodies: images", 1);
        for seed in 0..if th { 12 } else { 3 } {
            g.put(Case::Td { head: base.to_vec(), d: D::Disk { sectors: if th { 720 } else { 100 }, seed } });
        }
        g.put(Case::Td { head: base.to_vec(), d: corpus::lcg(40_000, 256, 1) });
        g.put(Case::Td { head: base.to_vec(), d: D::Runs(vec![(0, 200_000)]) });
        g.put(Case::Td { head: base.to_vec(), d: D::Text { n: 90_000, seed: 1 } });
        // large images, either form within the limit
        g.put(Case::Td { head: base.to_vec(), d: D::Cat(vec![D::Disk { sectors: 720, seed: 3 }, corpus::lcg(1_700_000, 256, 9)]) });
        g.put(Case::Td { head: base.to_vec(), d: D::Runs(vec![(0xF6, 3_000_000)]) });
    }
}
pub fn check04(c: &Case, st: &mut St) -> E {
    let Case::Td { head, d } = c else { panic!("case") };
    let h: [u8; 8] = head[..].try_into().expect("eight bytes");
    let body = d.build();
    let img = td_image(false, &h, &body);
    let (z, ..) = mem(&cmp(&Codec::Td), &img).map_err(|e| format!("compression fails with {e:?} on {}", show(&img)))?;
    let v1 = h[2] < 20;
    let want_head = td_image(true, &h, &[]);
    if z.len() < 12 || z[..12] != want_head[..] {
        return Err(format!("wrong header of the advanced image: expected {}, got {}", show(&want_head), show(&z[..z.len().min(12)])));
    }
    let want = if v1 { model_lzw::encode(&body, &model_lzw::TD1) } else { model_lzhuf::encode(&body, model_lzhuf::STD).body };
    if z[12..] != want[..] {
        return Err(format!("body is not coded as {} for version byte {}: {}; image {}, expected {}, got {}", if v1 { "LZW" } else { "LZSS/Huffman" }, h[2], diff(&want, &z[12..]), show(&img), show(&want), show(&z[12..])));
    }
    let (x, ..) = mem(&exp(&Codec::Td), &z).map_err(|e| format!("expansion fails with {e:?} on {}", show(&z)))?;
    let extra = if v1 { 0 } else { 7 };
    if x.len() < img.len() || x.len() > img.len() + extra || x[..img.len()] != img[..] {
        return Err(format!("image is not restored: {}; image {}, restored {}", diff(&img, &x), show(&img), show(&x)));
    }
    // the other signature is refused
    for (op, d) in [(cmp(&Codec::Td), &z), (exp(&Codec::Td), &img)] {
        match slice(&op, d) {
            Err(EK::Format) => {}
            r => return Err(format!("conversion in the wrong direction gives {} for {}", crate::eng::show_r(&r), show(d))),
        }
    }
    st.evals += 2;
    st.traces += 1;
    st.trans += (img.len() + z.len()) as u64;
    st.state(&[&img, &z]);
    st.peak("spurious bytes", (x.len() - img.len()) as u64);
    st.outcome(if v1 { "LZW" } else { "LZSS/Huffman" });
    Ok(())
}

// ---------- C22 ----------
pub const INFO22: Info = Info {
    rule: "one execution = one call of td0::crc16, compared with long division of the message polynomial",
    states: "values of the checksum register (all of them)",
    transitions: "bytes taken into the checksum",
    traces: "calls compared with the reference",
    bounds: "every state of the register with every byte (the whole transition relation); all buffers of up to two bytes from selected start values; longer buffers of the listed families, cut in two at every place",
    assumptions: &["a buffer is taken byte by byte, so that the transition relation and the listed buffers stand for all"],
};
fn crc_ref(seed: u16, b: &[u8]) -> u16 {
    if b.is_empty() {
        return seed;
    }
    // message, 16 zero bits behind it, the start value added to the first 16 bits
    let mut m = b.to_vec();
    m.extend([0, 0]);
    m[0] ^= (seed >> 8) as u8;
    m[1] ^= seed as u8;
    let mut reg: u32 = 0;
    for i in 0..m.len() * 8 {
        reg = reg << 1 | (m[i / 8] >> (7 - i % 8)) as u32 & 1;
        if reg & 0x10000 != 0 {
            reg ^= 0x1a097;
        }
    }
    reg as u16
}
pub fn gen22(g: &mut Gen) {
    let th = g.thorough;
    g.family("every state of the register with every byte", 1);
    for from in (0..65536u32).step_by(256) {
        g.put(Case::CrcStates { from });
    }
    let seeds = [0u16, 1, 0x8000, 0xffff, 0xa097, 0x1234];
    g.family("all buffers of up to two bytes", 1024);
    for s in seeds {
        g.put(Case::Crc { seed: s, d: D::Raw(vec![]) });
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                g.put(Case::Crc { seed: s, d: D::Raw(vec![a, b]) });
            }
        }
    }
    g.family("longer buffers, cut at every place", 16);
    for s in seeds {
        for n in (0..if th { 600u32 } else { 140 }).chain([255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097]) {
            for d in [corpus::lcg(n, 256, n as u64 + 1), D::Runs(vec![(0, n)]), D::Runs(vec![(0xff, n)])] {
                g.put(Case::Crc { seed: s, d });
            }
        }
    }
    g.family("long buffers", 1);
    for n in [65_535u32, 65_536, 65_537, if th { 20_000_000 } else { 1_000_000 }] {
        g.put(Case::Crc { seed: 7, d: corpus::lcg(n, 256, 1) });
    }
}
pub fn check22(c: &Case, st: &mut St) -> E {
    let call = |s: u16, b: &[u8]| guard(|| Ok(retrocompressor::td0::crc16(s, b))).map_err(|e| format!("crc16({s:#x}, {}): {e:?}", show(b)));
    let bad = |s: u16, b: &[u8], got: u16, how: &str| Err(format!("crc16({s:#x}, {}){how} is {got:#06x}, expected {:#06x}", show(b), crc_ref(s, b)));
    match c {
        Case::CrcStates { from } => {
            for s in *from..*from + 256 {
                let s = s as u16;
                for x in 0..=255u8 {
                    let got = call(s, &[x])?;
                    if got != crc_ref(s, &[x]) {
                        return bad(s, &[x], got, "");
                    }
                }
                st.state(&[&s.to_le_bytes()]);
                st.evals += 256;
                st.traces += 256;
                st.trans += 256;
            }
            Ok(())
        }
        Case::Crc { seed, d } => {
            let b = d.build();
            let want = crc_ref(*seed, &b);
            let got = call(*seed, &b)?;
            if got != want {
                return bad(*seed, &b, got, "");
            }
            st.evals += 1;
            st.traces += 1;
            st.trans += b.len() as u64;
            let step = if b.len() > 5000 { b.len() / 7 } else if b.len() > 600 { 37 } else { 1 };
            for at in (0..=b.len()).step_by(step) {
                let got = call(call(*seed, &b[..at])?, &b[at..])?;
                if got != want {
                    return bad(*seed, &b, got, &format!(" in parts of {at} and {} bytes", b.len() - at));
                }
                st.evals += 1;
                st.traces += 1;
            }
            Ok(())
        }
        _ => panic!("case"),
    }
}
