//! C08, C09: arbitrary bytes and malformed containers.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{show, show_r};
use crate::model_lzw::{self as mw, LwO};

// ---------- C08 ----------
pub const INFO08: Info = Info {
    rule: "one execution = expansion of one byte string by one decoder, with a writer that refuses to grow beyond the bound",
    states: "distinct (decoder, outcome, output) observations",
    transitions: "input bytes offered",
    traces: "executions whose outcome and output size were judged against the specification",
    bounds: "all byte strings of the listed lengths behind the listed prefixes; all truncations and all listed corruptions of every byte of the corpus streams; long adversarial strings of the listed families",
    assumptions: &[
        "a call that does not end within 150 s counts as not terminating",
        "outputs beyond 1 MiB are cut off by a write error, which the decoder has to return",
    ],
};
const CAP: u128 = 1 << 20;

fn lz(n: usize, f: usize, t: usize, head: bool) -> Codec {
    Codec::Lz(LzO::new(n, f, t, b' ', head))
}
fn lw(o: LwO) -> Codec {
    Codec::Lw(LwX::new(o))
}
fn le(n: u32) -> D {
    D::Raw(n.to_le_bytes().to_vec())
}
fn td_head(v: u8) -> D {
    D::Raw(td_image(true, &[0, 1, v, 3, 4, 5, 6, 7], &[]))
}
pub fn small_lw() -> Vec<LwO> {
    let mut v = vec![];
    for (width, max) in [(1usize, 0usize), (1, 1), (2, 1), (2, 0), (3, 1), (3, 2), (3, 7), (4, 2), (5, 3)] {
        let top = (1usize << width) - 1;
        for (clear, stop) in [(None, None), (Some(max + 1), Some(max + 2)), (Some(max + 2), Some(max + 1)), (Some(top), None), (None, Some(max + 1))] {
            if [clear, stop].iter().flatten().any(|c| *c > top || *c <= max) || (clear.is_some() && clear == stop) {
                continue;
            }
            for (hb, hd) in [(0usize, 1usize), (8, 1), (5, 1)] {
                for msb in [false, true] {
                    v.push(LwO { hb, hd, chunk: 4, max, clear, stop, width, msb });
                }
            }
        }
    }
    v
}
/// chunk lengths that overflow when they are multiplied
fn overflowing() -> Vec<(Codec, D, u32)> {
    let mut v = vec![];
    for (hb, hd) in [(62usize, 4usize), (62, 12), (63, 2), (63, 3), (63, 12), (61, 8), (61, 9)] {
        for msb in [false, true] {
            for b in [[0xff; 8], [0x55; 8], [0xaa; 8]] {
                v.push((lw(LwO { hb, hd, msb, ..mw::TD1 }), D::raw(&b), 2));
            }
        }
    }
    v
}
/// decoders with prefixes that let the following bytes matter
pub fn fronts(th: bool) -> Vec<(Codec, D, u32)> {
    let two = 2;
    let big = if th { 3 } else { 2 };
    let none = D::Raw(vec![]);
    let mut v = vec![
        (lz(4096, 60, 2, false), none.clone(), big),
        (lz(4096, 60, 2, true), none.clone(), big),
        (Codec::Port, none.clone(), big),
        (lw(mw::STD), none.clone(), big),
        (lw(mw::TD1), none.clone(), big),
        (Codec::Td, none.clone(), two),
        (Codec::Td, td_head(20), two),
        (Codec::Td, td_head(21), two),
        (Codec::Td, td_head(19), big),
        (Codec::Td, td_head(0), two),
        (Codec::Td, td_head(255), two),
        (lw(mw::TD1), D::raw(&[9, 0]), two),
        (lw(mw::TD1), D::raw(&[6, 0, 65, 32, 4]), two),
    ];
    for d in [0u32, 1, 3, 59, 60, 61, 70, 1000] {
        v.push((lz(4096, 60, 2, true), le(d), two));
        v.push((Codec::Port, le(d), two));
    }
    v.push((lz(4096, 60, 2, true), le(u32::MAX), two));
    for (n, f, t) in [(2usize, 1usize, 0usize), (3, 2, 0), (4, 3, 1), (5, 3, 2), (8, 3, 3), (9, 8, 0), (16, 15, 2), (64, 18, 2), (300, 255, 1), (1000, 999, 255), (4156, 60, 2), (256, 60, 60)] {
        v.push((lz(n, f, t, false), none.clone(), two));
        v.push((lz(n, f, t, true), le(40), two));
    }
    for o in small_lw() {
        v.push((lw(o), none.clone(), two));
    }
    v.extend(overflowing());
    for o in [LwO { msb: true, ..mw::STD }, LwO { width: 9, ..mw::STD }, LwO { width: 16, msb: true, ..mw::STD }] {
        v.push((lw(o), none.clone(), two));
    }
    v
}
fn corpus8() -> Vec<D> {
    vec![
        D::raw(b"I am Sam. Sam I am. I do not like this Sam I am.\n"),
        D::raw(b"x"),
        D::Runs(vec![(b'a', 70), (b' ', 130), (b'b', 3)]),
        corpus::lcg(60, 256, 3),
        D::Cat(vec![corpus::lcg(40, 4, 1), corpus::lcg(40, 4, 1), D::Runs(vec![(0, 61)])]),
    ]
}
pub fn gen08(g: &mut Gen) {
    let th = g.thorough;
    g.family("all short strings behind every prefix", 1);
    for (c, pre, n) in fronts(th) {
        for k in 0..=n.min(2) {
            g.put(Case::Sweep { c: c.clone(), pre: pre.clone(), tail: k });
        }
        if n == 3 {
            for b in 0..=255u8 {
                g.put(Case::Sweep { c: c.clone(), pre: D::Cat(vec![pre.clone(), D::raw(&[b])]), tail: 2 });
            }
        }
    }
    g.family("truncations and corruptions of valid streams", 1);
    let mut ds = corpus8();
    if th {
        ds.extend([D::Text { n: 1500, seed: 1 }, corpus::lcg(5000, 256, 2), D::Disk { sectors: 10, seed: 4 }, corpus::lcg(9000, 3, 2)]);
    }
    for d in ds {
        for c in [
            lz(4096, 60, 2, true),
            lz(4096, 60, 2, false),
            lz(16, 5, 2, false),
            lz(64, 18, 2, true),
            Codec::Port,
            lw(mw::STD),
            lw(mw::TD1),
            lw(LwO { hb: 12, hd: 1, chunk: 7, max: 255, clear: None, stop: None, width: 9, msb: true }),
            lw(LwO { chunk: 14, ..mw::STD }),
        ] {
            // resetting the dictionary every few codes makes long streams too expensive
            if !(d.build().len() > 3000 && matches!(&c, Codec::Lw(o) if o.o.chunk < 100)) {
                g.put(Case::Corrupt { c, d: d.clone(), all: th && d.build().len() < 300 });
            }
        }
        for v in [10u8, 21] {
            let mut h = td::H2;
            h[2] = v;
            g.put(Case::Corrupt { c: Codec::Td, d: D::Raw(td_image(false, &h, &d.build())), all: th && d.build().len() < 300 });
        }
    }
    g.family("code chains that fill the dictionary", 1);
    for n in [3u32, 255, 3836, 3837, 3838, 3839, 3840, 3841, 5000] {
        for alpha in [vec![0u16, 256, 257], vec![258, 4095, 4094]] {
            g.put(Case::Codes { o: mw::STD, pre: n, alpha: alpha.clone(), n: 1, split: 0 });
            g.put(Case::Codes { o: LwO { clear: None, stop: None, ..mw::STD }, pre: n, alpha, n: 1, split: 0 });
        }
    }
    g.family("long strings", 1);
    for c in [lz(4096, 60, 2, false), lz(4096, 60, 2, true), Codec::Port, lw(mw::STD), lw(mw::TD1), lz(9, 8, 0, false), lz(4, 2, 2, false), lw(LwO { width: 3, max: 1, clear: None, stop: None, ..mw::STD }), lw(LwO { width: 8, max: 7, clear: None, stop: None, hb: 8, ..mw::STD })] {
        let h = match &c {
            Codec::Port => le(300_000),
            Codec::Lz(o) if o.head => le(u32::MAX),
            _ => D::Raw(vec![]),
        };
        for s in 0..if th { 40 } else { 6 } {
            g.put(Case::Bytes { c: c.clone(), d: D::Cat(vec![h.clone(), corpus::lcg(if th { 100_000 } else { 30_000 }, 256, s)]) });
        }
        for b in [0u8, 0xff, 0x55, 0xaa, 0x80, 0x01, 0x24, 0x49, 0x92, 0xdb] {
            g.put(Case::Bytes { c: c.clone(), d: D::Cat(vec![h.clone(), D::Runs(vec![(b, 40_000)])]) });
        }
        for d in [D::Thue(30_000), D::Ctr(30_000), D::Skew { n: 40_000, ratio: 50, seed: 1 }] {
            g.put(Case::Bytes { c: c.clone(), d: D::Cat(vec![h.clone(), d]) });
        }
    }
}
/// most bytes the decoder may write for this input
fn bound(c: &Codec, d: &[u8]) -> u128 {
    let lzb = |f: usize, n: usize| n as u128 * 8 * f.max(1) as u128 + f as u128;
    let lwb = |o: &LwO, n: usize| {
        let codes = (n as u128 * 8) / o.width as u128 + 1;
        codes * codes.min((1u128 << o.width) + 1)
    };
    match c {
        Codec::Lz(o) => {
            let mut b = lzb(o.f, d.len());
            if o.head && d.len() >= 4 {
                let want = u32::from_le_bytes(d[..4].try_into().unwrap()) as u128;
                b = b.min(if want == 0 { 0 } else { want + o.f.max(1) as u128 - 1 });
            }
            b
        }
        Codec::Port => {
            if d.len() < 4 {
                return 0;
            }
            let want = u32::from_le_bytes(d[..4].try_into().unwrap()) as u128;
            if want == 0 {
                0
            } else {
                want + 59
            }
        }
        Codec::Lw(o) => lwb(&o.o, d.len()),
        Codec::Td => {
            if d.len() < 12 {
                0
            } else {
                12 + lzb(60, d.len()).max(lwb(&mw::TD1, d.len()))
            }
        }
    }
}
fn probe(c: &Codec, d: &[u8], st: &mut St) -> E {
    let b = bound(c, d);
    let cap = b.min(CAP) as usize;
    let (r, out, hit) = capped(&exp(c), d, cap);
    st.evals += 1;
    st.traces += 1;
    st.trans += d.len() as u64;
    let tag = match &r {
        Err(e) if e.is_panic() => return Err(format!("{} panics on {}: {e:?}", name(c), show(d))),
        Err(EK::Io(_)) => "I/O error",
        Err(_) => "format error",
        Ok(_) => "expanded",
    };
    if hit {
        if b <= CAP {
            return Err(format!("{} writes more than {b} bytes for {}", name(c), show(d)));
        }
        if r.is_ok() {
            return Err(format!("{} succeeds although writing failed, on {}", name(c), show(d)));
        }
        st.outcome("cut off");
    } else {
        st.outcome(tag);
    }
    st.state(&[format!("{c:?}{tag}").as_bytes(), &out]);
    Ok(())
}
pub fn check08(c: &Case, st: &mut St) -> E {
    match c {
        Case::Bytes { c, d } => probe(c, &d.build(), st),
        Case::Sweep { c, pre, tail } => sweep(pre, *tail, &mut |b| probe(c, b, st)),
        Case::Codes { o, .. } => {
            let co = lw(o.clone());
            each_codes(c, &mut |b, _| probe(&co, b, st))
        }
        Case::Corrupt { c, d, all } => {
            let z = match mem(&cmp(c), &d.build()) {
                Ok(z) => z.0,
                Err(e) => return Err(format!("{} cannot compress {}: {e:?}", name(c), show(&d.build()))),
            };
            for n in 0..z.len() {
                probe(c, &z[..n], st)?;
            }
            let mut t = z.clone();
            for at in 0..z.len() {
                if !all && z.len() > 400 && at % 7 != 0 && at + 20 < z.len() && at > 30 {
                    continue;
                }
                for x in 1..=255u8 {
                    if !all && x.count_ones() != 1 && x != 255 && x != z[at] {
                        continue;
                    }
                    t[at] = z[at] ^ x;
                    // a large declared length with few bytes is a matter of the bound
                    probe(c, &t, st)?;
                }
                t[at] = z[at];
            }
            for x in [0u8, 0xff, 0x5a] {
                let mut t = z.clone();
                t.extend([x; 40]);
                probe(c, &t, st)?;
            }
            Ok(())
        }
        _ => panic!("case"),
    }
}
pub fn sweep(pre: &D, tail: u32, f: &mut dyn FnMut(&[u8]) -> E) -> E {
    let mut b = pre.build();
    let at = b.len();
    b.resize(at + tail as usize, 0);
    for k in 0..1u64 << (8 * tail) {
        for i in 0..tail as usize {
            b[at + i] = (k >> (8 * i)) as u8;
        }
        f(&b)?;
    }
    Ok(())
}
/// all code sequences of a case, packed
fn each_codes(c: &Case, f: &mut dyn FnMut(&[u8], &[usize]) -> E) -> E {
    let Case::Codes { o, pre, alpha, n, split } = c else { panic!("case") };
    let free = o.free_codes(usize::MAX);
    let base: Vec<usize> = (0..*pre as usize).map(|i| if i == 0 || free.is_empty() { 0 } else { free[(i - 1).min(free.len() - 1)] }).collect();
    let m = alpha.len();
    let total = m.pow(*n);
    let mut codes = vec![];
    for k in 0..total {
        codes.clear();
        codes.extend_from_slice(&base);
        let mut v = k;
        for _ in 0..*n {
            codes.push(alpha[v % m] as usize);
            v /= m;
        }
        let chunks = if *split > 0 && (*split as usize) < codes.len() {
            let (a, b) = codes.split_at(*split as usize);
            vec![mw::Chunk { codes: a.to_vec() }, mw::Chunk { codes: b.to_vec() }]
        } else {
            vec![mw::Chunk { codes: codes.clone() }]
        };
        f(&mw::pack(&chunks, o), &codes)?;
    }
    Ok(())
}

// ---------- C09 ----------
pub const INFO09: Info = Info {
    rule: "one execution = one Teledisk conversion of a (possibly corrupted) container, or one LZW expansion of an enumerated code sequence or byte string",
    states: "distinct (options, outcome, output) observations",
    transitions: "input bytes offered",
    traces: "outcomes compared with the reference decoder / the independent header test",
    bounds: "all 65536 signatures with matching checksum, all single and double bit flips of two headers in both directions, all header truncations; all LZW code sequences of the listed lengths over the listed codes, with and without a filled dictionary, all byte strings up to two bytes for narrow codes",
    assumptions: &["a header with both a wrong signature and a wrong checksum may be rejected with either error"],
};
pub fn gen09(g: &mut Gen) {
    let th = g.thorough;
    g.family("all signatures", 1024);
    for s in 0..=65535u16 {
        for expand in [false, true] {
            let mut v = s.to_be_bytes().to_vec();
            v.extend([0, 1, if s % 2 == 0 { 10 } else { 21 }, 3, 4, 5, 6, 7]);
            let c = crc(&v);
            v.extend(c.to_le_bytes());
            g.put(Case::TdRaw { expand, d: D::Raw(v) });
        }
    }
    g.family("all checksums", 1024);
    for (k, h) in [[0u8, 1, 10, 3, 4, 5, 6, 7], [0, 0, 21, 0, 0, 0, 0, 0], [1, 0xff, 16, 0x83, 0, 1, 0, 2]].iter().enumerate() {
        for expand in [false, true] {
            let v = td_image(expand, h, b"");
            for s in (0..=65535u16).step_by(if th || k == 0 { 1 } else { 3 }) {
                let mut x = v[..10].to_vec();
                x.extend(s.to_le_bytes());
                g.put(Case::TdRaw { expand, d: D::Raw(x) });
            }
        }
    }
    g.family("checksums computed wrongly", 64);
    // seeds, lengths, polynomials and byte orders a reader might take instead
    for v in [10u8, 15, 20, 21] {
        for expand in [false, true] {
            for seed in 0..20u8 {
                let good = td_image(expand, &[seed, seed ^ 0x5a, v, seed.wrapping_mul(13), 0, seed, 0, seed / 3], &[seed; 3]);
                let mut put = |c: u16| {
                    for c in [c, c.swap_bytes(), !c, c.reverse_bits()] {
                        let mut x = good.clone();
                        x[10..12].copy_from_slice(&c.to_le_bytes());
                        g.put(Case::TdRaw { expand, d: D::Raw(x) });
                    }
                };
                for n in 0..=good.len() {
                    for a in 0..=n.min(4) {
                        put(crc(&good[a..n]));
                    }
                }
                let mut other = good.clone();
                other[..2].copy_from_slice(if expand { b"TD" } else { b"td" });
                put(crc(&other[..10]));
                put(good[..10].iter().map(|b| *b as u16).sum());
                put(0);
                put(0xffff);
            }
        }
    }
    g.family("all single and double bit flips of a header", 1024);
    for v in [10u8, 21] {
        for expand in [false, true] {
            let h = td_image(expand, &[0, 1, v, 3, 4, 5, 6, 7], &[]);
            for a in 0..96 {
                for b in a..96 {
                    let mut x = h.clone();
                    x[a / 8] ^= 1 << (a % 8);
                    if b != a {
                        x[b / 8] ^= 1 << (b % 8);
                    }
                    g.put(Case::TdRaw { expand, d: D::Raw(x) });
                }
            }
        }
    }
    g.family("all values of every header byte, checksum not adapted", 1024);
    for expand in [false, true] {
        let h = td_image(expand, &[9, 0xfe, 15, 3, 0x80, 5, 6, 7], b"q");
        for a in 0..12 {
            for b in 0..=255 {
                let mut x = h.clone();
                x[a] = b;
                g.put(Case::TdRaw { expand, d: D::Raw(x) });
            }
        }
    }
    g.family("short containers", 16);
    for expand in [false, true] {
        for v in [10u8, 21] {
            let h = td_image(expand, &[0, 1, v, 3, 4, 5, 6, 7], b"");
            for n in 0..=h.len() {
                g.put(Case::TdRaw { expand, d: D::raw(&h[..n]) });
            }
        }
    }
    g.family("all code sequences, narrow codes", 4);
    let lim = if th { 6 } else { 4 };
    for o in small_lw() {
        if o.width > 4 {
            continue;
        }
        let alpha: Vec<u16> = (0..1u16 << o.width).collect();
        let top = match o.width {
            1 => 9,
            2 => lim + 2,
            3 => lim,
            _ => lim - 1,
        };
        for n in 1..=top as u32 {
            if (alpha.len() as u64).pow(n) > if th { 400_000 } else { 20_000 } {
                continue;
            }
            g.put(Case::Codes { o: o.clone(), pre: 0, alpha: alpha.clone(), n, split: 0 });
            if o.hb > 0 && n > 1 {
                g.put(Case::Codes { o: o.clone(), pre: 0, alpha: alpha.clone(), n, split: 1 });
            }
        }
        for pre in [2u32, 3, 5, 8] {
            g.put(Case::Codes { o: o.clone(), pre, alpha: alpha.clone(), n: if th { 3 } else { 2 }, split: 0 });
        }
    }
    g.family("all byte strings, narrow codes", 4);
    for o in small_lw() {
        for k in 0..=2 {
            g.put(Case::Sweep { c: lw(o.clone()), pre: D::Raw(vec![]), tail: k });
        }
    }
    g.family("chunk headers that overflow", 1);
    for (c, pre, k) in overflowing() {
        for k in 0..=k {
            g.put(Case::Sweep { c: c.clone(), pre: pre.clone(), tail: k });
        }
    }
    g.family("all code sequences over boundary codes, full width", 1);
    let alpha: Vec<u16> = vec![0, 255, 256, 257, 258, 259, 260, 300, 4095];
    for o in [mw::STD, mw::TD1, LwO { msb: true, ..mw::STD }, LwO { clear: None, ..mw::STD }, LwO { stop: None, ..mw::STD }, LwO { clear: Some(257), stop: Some(256), ..mw::STD }] {
        for n in 1..=if th { 5 } else { 3 } {
            g.put(Case::Codes { o: o.clone(), pre: 0, alpha: alpha.clone(), n, split: 0 });
            g.put(Case::Codes { o: o.clone(), pre: 3, alpha: alpha.clone(), n: n.min(4), split: 0 });
            if o.hb > 0 && n > 1 {
                for s in 1..n {
                    g.put(Case::Codes { o: o.clone(), pre: 0, alpha: alpha.clone(), n, split: s });
                }
            }
        }
        for s in 1..4 {
            g.put(Case::Codes { o: o.clone(), pre: 3, alpha: alpha.clone(), n: 3, split: s });
        }
    }
    g.family("filled dictionary", 1);
    for o in [mw::STD, mw::TD1, LwO { width: 9, ..mw::STD }, LwO { width: 9, clear: None, stop: None, ..mw::STD }, LwO { width: 10, msb: true, ..mw::STD }, LwO { width: 9, clear: Some(511), stop: Some(510), ..mw::STD }, LwO { width: 9, clear: Some(300), stop: Some(511), ..mw::STD }] {
        let f = o.free_codes(usize::MAX).len() as u32;
        let last = *o.free_codes(usize::MAX).last().unwrap() as u16;
        let top = ((1usize << o.width) - 1) as u16;
        let mut al = vec![0u16, 256, 257, 258, last, last - 1, top];
        al.sort();
        al.dedup();
        for pre in f - 2..=f + 3 {
            g.put(Case::Codes { o: o.clone(), pre, alpha: al.clone(), n: if o.width < 11 || th { 2 } else { 1 }, split: 0 });
        }
    }
}
pub fn check09(c: &Case, st: &mut St) -> E {
    match c {
        Case::TdRaw { expand, d } => {
            let d = d.build();
            let op = Op { c: Codec::Td, x: *expand };
            let (r, out, _) = capped(&op, &d, 1 << 20);
            st.evals += 1;
            st.traces += 1;
            st.trans += d.len() as u64;
            let what = if *expand { "expansion" } else { "compression" };
            let sig: &[u8] = if *expand { b"td" } else { b"TD" };
            let allowed: &[EK] = if d.len() < 12 {
                &[]
            } else {
                let s = &d[..2] == sig;
                let k = crc(&d[..10]).to_le_bytes() == d[10..12];
                match (s, k) {
                    (true, true) => {
                        if let Err(e) = &r {
                            return Err(format!("{what} of a valid container fails with {e:?}: {}", show(&d)));
                        }
                        st.outcome("valid");
                        st.state(&[&d, &out]);
                        return Ok(());
                    }
                    (false, true) => &[EK::Format],
                    (true, false) => &[EK::Sum],
                    (false, false) => &[EK::Format, EK::Sum],
                }
            };
            let e = match r {
                Ok(_) => return Err(format!("{what} accepts the malformed container {}", show(&d))),
                Err(e) => e,
            };
            if e.is_panic() || (d.len() >= 12 && !allowed.contains(&e)) {
                return Err(format!("{what} rejects {} with {e:?}, expected {allowed:?}", show(&d)));
            }
            if !out.is_empty() {
                return Err(format!("{what} writes {} although it rejects {}", show(&out), show(&d)));
            }
            st.outcome(&format!("{e:?}"));
            st.state(&[&d, format!("{e:?}").as_bytes()]);
            Ok(())
        }
        Case::Codes { o, .. } => each_codes(c, &mut |b, codes| judge(o, b, Some(codes), st)),
        Case::Sweep { c: Codec::Lw(o), pre, tail } => sweep(pre, *tail, &mut |b| judge(&o.o, b, None, st)),
        _ => panic!("case"),
    }
}
fn judge(o: &LwO, b: &[u8], codes: Option<&[usize]>, st: &mut St) -> E {
    let want = mw::decode(b, o);
    let r = mem(&exp(&lw(o.clone())), b).map(|x| x.0);
    st.evals += 1;
    st.traces += 1;
    st.trans += want.codes as u64;
    let of = || match codes {
        Some(c) if c.len() < 30 => format!("{b:02x?} = codes {c:?}"),
        Some(c) => format!("{} codes ending in {:?}", c.len(), &c[c.len() - 10..]),
        None => format!("{b:02x?}"),
    };
    match (&want.bad_code, &r) {
        (Some(_), Err(EK::Format)) => {
            st.outcome("rejected");
            st.state(&[format!("{o:?}").as_bytes(), b]);
            Ok(())
        }
        (Some(k), _) => Err(format!("lzw({o:?}): code {k} is neither known nor next, but expansion of {} gives {}", of(), show_r(&r))),
        (None, Ok(x)) if *x == want.out => {
            st.outcome("expanded");
            st.state(&[format!("{o:?}").as_bytes(), b]);
            Ok(())
        }
        (None, _) => Err(format!("lzw({o:?}): expansion of {} gives {}, expected {}", of(), show_r(&r), show(&want.out))),
    }
}
