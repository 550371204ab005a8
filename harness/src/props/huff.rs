//! C07: the adaptive Huffman model.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use crate::model_lzhuf as m;

pub const INFO07: Info = Info {
    rule: "symbol histories are coded and decoded by the real code; closure: breadth-first search over the states of the real model, every symbol tried in every state",
    states: "distinct states of the real model (closure), else distinct (history, stream) observations",
    transitions: "symbols coded and decoded",
    traces: "histories whose decoded symbols and positions were compared with the coded ones",
    bounds: "closure: alphabets and rescaling limits listed in the families, to the fixed point or the state cap given in the case; histories: the listed families, with every tail of the listed length around the rescaling point",
    assumptions: &["the closure uses a lowered rescaling limit (hook); the real limit is reached by the long histories", "without hooks (build of the hooks impossible) the closure is skipped, which the field hooks shows"],
};

fn pure(t: usize) -> LzO {
    LzO::new(t + 2, t, t, 0, true)
}

pub fn gen07(g: &mut Gen) {
    let th = g.thorough;
    if cfg!(retro_verif) {
        g.family("closure over model states", 1);
        let v: Vec<(u32, u32, u32)> = if th {
            vec![(2, 4, 0), (2, 9, 0), (2, 16, 0), (2, 33, 0), (3, 6, 0), (3, 8, 0), (3, 12, 0), (3, 20, 0), (4, 8, 0), (4, 10, 0), (4, 14, 0), (4, 20, 400_000), (5, 10, 400_000), (5, 14, 400_000), (6, 12, 400_000), (6, 16, 400_000), (7, 14, 300_000), (8, 16, 300_000)]
        } else {
            vec![(2, 4, 0), (2, 9, 0), (2, 16, 0), (3, 6, 0), (3, 8, 0), (3, 12, 0), (4, 8, 0), (4, 10, 0), (4, 12, 60_000), (5, 10, 60_000), (6, 12, 40_000)]
        };
        for (k, max, cap) in v {
            g.put(Case::Close { k, max, cap: if cap == 0 { 2_000_000 } else { cap } });
        }
    }
    let c = Codec::Lz(pure(2));
    let put = |g: &mut Gen, d: D| g.put(Case::Data { c: c.clone(), d });
    g.family("histories: all over two symbols", 64);
    strings(&[0, 255], 1, if th { 12 } else { 9 }, &mut |s| put(g, D::raw(s)));
    g.family("histories: all over four symbols", 64);
    strings(&[7, 0, 128, 255], 1, if th { 7 } else { 5 }, &mut |s| put(g, D::raw(s)));
    g.family("histories: one symbol, any length", 16);
    for b in 0..=255u8 {
        for n in [1u32, 2, 3, 40, 255, 256, 257, 700] {
            put(g, D::Runs(vec![(b, n), (b ^ 0x55, 2), (b, 1)]));
        }
    }
    // prefix up to a few symbols before the rescaling, then every tail
    g.family("every tail around the rescaling", 2);
    let reach = 32768u32 - 256;
    let pre: Vec<D> = vec![
        corpus::lcg(reach - 3, 256, 1),
        D::Runs(vec![(9, reach - 3)]),
        D::Cat(vec![D::Slice(Box::new(D::Chain { base: 157, sets: 1 }), 0, 31763), corpus::lcg(reach - 3 - 31763, 256, 2)]),
        corpus::lcg(reach - 3, 2, 3),
        D::Per(Box::new(D::Raw((0..=255).collect())), reach - 3),
        D::Skew { n: reach - 3, ratio: 75, seed: 4 },
    ];
    for p in &pre {
        strings(&[0, 9, 255], if th { 6 } else { 4 }, if th { 6 } else { 4 }, &mut |s| {
            let mut v = s.to_vec();
            v.extend(0..=255u8);
            put(g, D::Cat(vec![p.clone(), D::Raw(v)]));
        });
    }
    g.family("deep codes", 1);
    for base in [100u32, 157, 256, 40, 80, 120, 140] {
        for sets in [1u32, 2, 4] {
            put(g, D::Chain { base, sets });
        }
    }
    for base in [100u32, 157] {
        for t in [0usize, 1, 3, 60] {
            g.put(Case::Data { c: Codec::Lz(pure(t.max(1))), d: D::Chain { base, sets: 1 } });
        }
    }
    g.family("long histories", 1);
    let n = if th { 400_000 } else { 110_000 };
    for d in [corpus::lcg(n, 256, 1), corpus::lcg(n, 2, 2), corpus::lcg(n, 17, 3), D::Skew { n, ratio: 50, seed: 1 }, D::Skew { n, ratio: 90, seed: 2 }, D::Skew { n, ratio: 97, seed: 3 }, D::Fibw { syms: 20, seed: 1 }, D::Fibw { syms: 22, seed: 2 }, D::Disk { sectors: n / 512, seed: 1 }, D::Runs(vec![(1, n), (2, n / 3), (3, n)])] {
        put(g, d);
    }
    put(g, corpus::lcg(if th { 4_000_000 } else { 1_100_000 }, 256, 11));
    g.family("deep codes with matches, both codecs", 1);
    for (base, pre) in if th { vec![(157u32, 150u32), (314, 60), (80, 150), (200, 100), (500, 150)] } else { vec![(157, 150), (314, 60)] } {
        g.put(Case::Data { c: Codec::Lz(LZSTD), d: D::Deep { base, pre, seed: g.seed } });
        g.put(Case::Data { c: Codec::Port, d: D::Deep { base, pre, seed: g.seed } });
    }
    g.family("long histories with matches, both codecs", 1);
    for d in [corpus::lcg(n, 256, 1), corpus::lcg(n, 8, 2), D::Text { n: n * 2, seed: 1 }, D::Disk { sectors: n / 256, seed: 7 }] {
        g.put(Case::Data { c: Codec::Lz(LZSTD), d: d.clone() });
        g.put(Case::Data { c: Codec::Port, d });
    }
    // positions: every value at several bit phases, decoded by both decoders
    g.family("every position, several bit phases", 8);
    for dist in 1..=4036u16 {
        for ph in 0..if th { 8u16 } else { 1 } {
            let mut t: Vec<(u16, u16)> = (0..(ph + dist / 9) % 9).map(|i| (0, (i * 41 + ph) % 256)).collect();
            t.push((dist, 3 + dist % 58));
            t.push((0, 65));
            t.push((dist, 3 + dist % 7));
            t.push((0, 66));
            g.put(Case::Toks { head: true, t });
        }
    }
}

pub fn check07(c: &Case, st: &mut St) -> E {
    match c {
        Case::Close { k, max, cap } => close(*k as usize, *max as usize, *cap as usize, st),
        Case::Toks { .. } => lzhuf::check05(c, st),
        Case::Data { c, d } => {
            let d = d.build();
            let z = mem(&cmp(c), &d).map_err(|e| format!("{}: coding fails with {e:?} on {}", name(c), show(&d)))?.0;
            let x = mem(&exp(c), &z).map_err(|e| format!("{}: decoding fails with {e:?}, data {}", name(c), show(&d)))?.0;
            if x != d {
                return Err(format!("{}: the decoder diverges from the coder: {}; data {}, decoded {}", name(c), diff(&d, &x), show(&d), show(&x)));
            }
            st.evals += 1;
            st.traces += 1;
            st.trans += d.len() as u64;
            st.state(&[&d, &z]);
            if let Codec::Lz(o) = c {
                if o.f == o.t && d.len() > 20_000 {
                    let e = m::encode_toks(d.iter().map(|b| m::Tok::Lit(*b)).collect(), o.par());
                    st.peak("longest code", e.max_code as u64);
                    st.peak("rescalings", e.rebuilds as u64);
                }
            }
            st.outcome("in step");
            Ok(())
        }
        _ => panic!("case"),
    }
}

#[cfg(not(retro_verif))]
fn close(_k: usize, _max: usize, _cap: usize, _st: &mut St) -> E {
    Ok(())
}

/// Breadth-first search: the pair (model of the coder, model of the decoder) after every history.
/// In every state every pair of symbols is coded and decoded; the two models must stay equal in effect.
#[cfg(retro_verif)]
fn close(k: usize, max: usize, cap: usize, st: &mut St) -> E {
    use retrocompressor::verif_hooks::*;
    use std::collections::{HashMap, VecDeque};
    use std::io::{BufReader, BufWriter, Cursor};
    type Tree = AdaptiveHuffmanTree;
    let fail = |h: &[u8], w: String| Err(format!("alphabet of {k} symbols, rescaling at {max}: after the history {h:?} {w}"));
    // code the symbols with a copy of the tree: bytes and the trees after each symbol
    let code = |t: &Tree, syms: &[usize]| -> Result<(Vec<u8>, Vec<Tree>), EK> {
        guard(|| {
            let mut e = AdaptiveHuffmanCoder::create(k);
            *e.verif_tree() = t.clone();
            let mut w = BufWriter::new(Cursor::new(vec![]));
            let mut ts = vec![];
            for s in syms {
                e.encode_char(*s as u16, &mut w).map_err(|e| EK::Io(e.to_string()))?;
                ts.push(e.verif_tree().clone());
            }
            e.finish(&mut w).map_err(|e| EK::Io(e.to_string()))?;
            Ok((w.into_inner().map_err(|_| EK::Io("flush".into()))?.into_inner(), ts))
        })
    };
    let decode = |t: &Tree, bytes: &[u8], n: usize| -> Result<(Vec<usize>, Vec<Tree>), EK> {
        guard(|| {
            let mut d = AdaptiveHuffmanDecoder::create(k);
            *d.verif_tree() = t.clone();
            let mut r = BufReader::new(Cursor::new(bytes));
            let mut v = vec![];
            let mut ts = vec![];
            for _ in 0..n {
                v.push(d.decode_char(&mut r).map_err(|e| EK::Io(e.to_string()))? as usize);
                ts.push(d.verif_tree().clone());
            }
            Ok((v, ts))
        })
    };
    let mut e0 = AdaptiveHuffmanCoder::create(k);
    e0.verif_tree().verif_set_max_freq(max);
    let mut d0 = AdaptiveHuffmanDecoder::create(k);
    d0.verif_tree().verif_set_max_freq(max);
    let mut seen: HashMap<(u64, u64), ()> = HashMap::new();
    let hash = |t: &Tree| crate::data::fnv(&[format!("{t:?}").as_bytes()]);
    let mut q: VecDeque<(Tree, Tree, Vec<u8>)> = VecDeque::new();
    let (a, b) = (e0.verif_tree().clone(), d0.verif_tree().clone());
    seen.insert((hash(&a), hash(&b)), ());
    q.push_back((a, b, vec![]));
    let mut capped = false;
    while let Some((te, td, h)) = q.pop_front() {
        let mut codes = vec![];
        for s in 0..k {
            for s2 in 0..k {
                let (by, tse) = match code(&te, &[s, s2]) {
                    Ok(x) => x,
                    Err(e) => return fail(&h, format!("symbols {s},{s2} cannot be coded: {e:?}")),
                };
                let mut padded = by.clone();
                padded.extend([0xff, 0, 0xff, 0xff]);
                let (got, tsd) = match decode(&td, &padded, 2) {
                    Ok(x) => x,
                    Err(e) => return fail(&h, format!("symbols {s},{s2} cannot be decoded: {e:?}")),
                };
                st.trans += 2;
                st.evals += 1;
                if got != [s, s2] {
                    return fail(&h, format!("symbols {s},{s2} are decoded as {got:?} from {by:02x?}"));
                }
                if s2 == 0 {
                    codes.push(by);
                    let key = (hash(&tse[0]), hash(&tsd[0]));
                    if !seen.contains_key(&key) {
                        if seen.len() >= cap {
                            capped = true;
                        } else {
                            seen.insert(key, ());
                            let mut h2 = h.clone();
                            h2.push(s as u8);
                            q.push_back((tse[0].clone(), tsd[0].clone(), h2));
                        }
                    }
                }
            }
        }
        // completeness: every bit pattern is some symbol, and each symbol is reachable
        let mut hit = vec![false; k];
        for pat in 0..=255u8 {
            match decode(&td, &[pat, pat.rotate_left(3), 0, 0], 1) {
                Ok((v, _)) if v[0] < k => hit[v[0]] = true,
                r => return fail(&h, format!("the bits {pat:08b} decode to {:?}", r.map(|x| x.0))),
            }
        }
        if k <= 8 && hit.iter().any(|x| !x) {
            return fail(&h, format!("symbols {:?} have no code", (0..k).filter(|i| !hit[*i]).collect::<Vec<_>>()));
        }
        st.state(&[&(k as u32).to_le_bytes(), &(max as u32).to_le_bytes(), &hash(&te).to_le_bytes(), &hash(&td).to_le_bytes()]);
        st.peak("longest history in a closure", h.len() as u64);
    }
    st.traces += seen.len() as u64;
    st.outcome(&format!("closure {k} symbols, limit {max}: {} states{}", seen.len(), if capped { " (capped)" } else { ", fixed point" }));
    Ok(())
}
