//! C03, C06: LZW.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use crate::model_lzw::{self as m, LwO};

pub const INFO03: Info = Info {
    rule: "one execution = compress and expand with the same option set",
    states: "distinct observations (options, input, stream)",
    transitions: "symbols consumed by the coder plus compressed bytes consumed by the decoder",
    traces: "runs whose result was compared with the specification (identity)",
    bounds: "all option sets of the grid times all strings of the listed lengths; full-size option sets times the listed families",
    assumptions: &["option sets outside the grid are not explored"],
};
pub const INFO06: Info = Info {
    rule: "reference LZW coder and the real coder run on the same input and options; streams compared bit for bit; the reference stream is then expanded by the real decoder",
    states: "distinct observations (options, input, stream)",
    transitions: "codes of the reference coder",
    traces: "reference code sequences compared with the real stream and expanded by the real decoder",
    bounds: "all option sets of the grid times all strings of the listed lengths; full-size option sets times the listed families",
    assumptions: &["option sets outside the grid are not explored"],
};

pub fn grid(thorough: bool) -> Vec<LwO> {
    let mut v = vec![];
    let widths: &[usize] = if thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] } else { &[1, 2, 3, 4, 5, 8, 9, 12] };
    for &width in widths {
        let top = (1usize << width) - 1;
        for max in [0usize, 1, 2, 3, 255] {
            if max > top {
                continue;
            }
            let mut sp: Vec<(Option<usize>, Option<usize>)> = vec![
                (None, None),
                (Some(max + 1), Some(max + 2)),
                (Some(max + 2), Some(max + 1)),
                (Some(max + 1), None),
                (None, Some(max + 1)),
                (Some(top), Some(max + 1)),
                (Some(max + 1), Some(top)),
                (Some(top), Some(top.saturating_sub(1))),
                (Some(max + 3), Some(max + 5)),
                (Some(max + 5), Some(max + 3)),
                (None, Some(max + 2)),
                (Some(max + 2), None),
                (None, Some(top)),
                (Some(top), None),
            ];
            sp.sort();
            sp.dedup();
            for (clear, stop) in sp {
                for (hb, hd) in [(0usize, 1usize), (8, 1), (16, 4), (16, 1), (12, 1), (7, 1), (5, 1), (9, 3), (10, 2), (16, 12), (11, 5), (9, 2), (8, 7)] {
                    for chunk in [1usize, 2, 3, 4, 5, 7, 14, 4096] {
                        for msb in [false, true] {
                            let o = LwO { hb, hd, chunk, max, clear, stop, width, msb };
                            if !o.valid() {
                                continue;
                            }
                            if !thorough {
                                // thin out combinations of header, chunk and placement, keeping every pair of values
                                let k = hb * 7 + hd + chunk * 5 + max * 3 + width + clear.unwrap_or(0) * 11 + stop.unwrap_or(0) * 13 + msb as usize;
                                if k % 3 != 0 {
                                    continue;
                                }
                            }
                            v.push(o);
                        }
                    }
                }
            }
        }
    }
    v
}
/// values that the grid leaves out: other symbol ranges, wide codes, wide headers, distant special codes
pub fn wide(thorough: bool) -> Vec<LwO> {
    let mut v = vec![];
    for max in [0usize, 1, 4, 6, 7, 9, 15, 25, 31, 63, 64, 99, 126, 127, 128, 200, 253, 254, 255] {
        for width in [3usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 56, 57, 62, 63] {
            let top = (1usize << width) - 1;
            if max + 2 > top {
                continue;
            }
            for (i, (clear, stop)) in [(Some(max + 1), Some(max + 2)), (Some(max + 2), Some(max + 1)), (Some(top), Some(top - 1)), (Some(max + 1), Some(top)), (Some(top / 2 + 1), Some(max + 1)), (Some(max + 3), Some(max + 4)), (Some(max + 7), Some(max + 1)), (None, Some(top)), (Some(top), None), (None, None)].into_iter().enumerate() {
                for (j, (hb, hd)) in [(0usize, 1usize), (13, 1), (16, width), (17, 1), (20, 1), (24, 1), (31, 1), (32, 1), (33, 1), (40, 1), (63, 1), (11, width), (1, 1), (15, if width % 2 == 0 { 2 } else { 1 })].into_iter().enumerate() {
                    for (k, chunk) in [6usize, 21, 100, 255, 256, 257, 5000].into_iter().enumerate() {
                        if !thorough && (max + width * 3 + i * 5 + j * 7 + k * 11) % 19 != 0 {
                            continue;
                        }
                        let o = LwO { hb, hd, chunk, max, clear, stop, width, msb: (i + j + k + width) % 2 == 0 };
                        if o.valid() {
                            v.push(o);
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn full(thorough: bool) -> Vec<LwO> {
    let mut v = vec![m::STD, m::TD1];
    let mut push = |o: LwO| {
        if !v.contains(&o) {
            v.push(o)
        }
    };
    push(LwO { msb: true, ..m::STD });
    push(LwO { msb: true, ..m::TD1 });
    push(LwO { clear: Some(257), stop: Some(256), ..m::STD });
    push(LwO { width: 16, msb: true, ..m::STD });
    push(LwO { width: 9, chunk: 300, ..m::STD });
    push(LwO { width: 13, hb: 16, hd: 1, chunk: 1000, ..m::STD });
    if thorough {
        for width in 9..=16 {
            for msb in [false, true] {
                for chunk in [14usize, 200, 1 << (width - 1), 1 << width, 5000] {
                    push(LwO { width, msb, chunk, ..m::STD });
                }
            }
        }
        push(LwO { clear: Some(4095), stop: Some(4094), ..m::STD });
        push(LwO { clear: Some(300), stop: Some(1000), ..m::STD });
        push(LwO { max: 127, clear: Some(128), stop: Some(129), ..m::STD });
    }
    v
}
fn inputs(g: &mut Gen) {
    let th = g.thorough;
    let gr = grid(th);
    for (alpha, lim) in [(2usize, if th { 9 } else { 5 }), (3, if th { 6 } else { 3 })] {
        g.family(&format!("option grid x all strings over {alpha} symbols"), 512);
        for (k, o) in gr.iter().enumerate() {
            // in the quick tier every fourth option set gets the longer strings
            let lim = if !th && k % 4 == 0 { lim + 2 } else { lim };
            if o.max + 1 < alpha && !(alpha == 2 && o.max == 0) {
                continue;
            }
            // symbols at the ends of the range
            let al: Vec<u8> = match (alpha, o.max) {
                (_, 0) => vec![0],
                (2, x) => vec![x as u8, 0],
                (_, x) => vec![0, x as u8, (x / 2).max(1) as u8],
            };
            strings(&al, 0, lim, &mut |s| {
                if o.valid() {
                    g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: D::raw(s) });
                }
            });
        }
    }
    g.family("option grid x longer strings", 256);
    for o in &gr {
        let a = o.max as u32 + 1;
        let x = |n: u32, seed: u64| -> D {
            let mut r = Rng(seed * 77 + n as u64);
            D::Raw((0..n).map(|_| r.below(a) as u8).collect())
        };
        for d in [x(25, 1), x(70, 2), D::Runs(vec![(o.max as u8, 60)]), D::Per(Box::new(D::raw(&[0, o.max as u8, 0])), 64), D::Cat(vec![D::Runs(vec![(0, 20)]), x(20, 3), D::Runs(vec![(0, 20)])])] {
            if o.valid() {
                g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d });
            }
        }
    }
    g.family("further values of every option", 16);
    for o in wide(th) {
        let top = o.max as u8;
        let fit = |d: D| if o.max == 255 { d } else { D::Raw(d.build().into_iter().map(|b| (b as usize % (o.max + 1)) as u8).collect()) };
        for d in [D::Raw(vec![]), D::raw(&[top]), D::raw(&[top, 0, top, 0, top, 0, 0, top]), D::Runs(vec![(top, 90)]), fit(corpus::lcg(120, 256, 3)), fit(D::Cat(vec![corpus::lcg(40, 3, 5), corpus::lcg(40, 3, 5), corpus::lcg(300, 200, 6), D::Thue(200)]))] {
            if o.valid() {
                g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d });
            }
        }
    }
    let fl = full(th);
    g.family("full-size options x lengths around every boundary", 4);
    for (k, o) in fl.iter().enumerate() {
        let lens: Vec<u32> = if th || k < 2 {
            (1..40).chain(3830..=3850).chain(4090..=4102).chain(7930..=7940).chain(8186..=8198).chain([12287, 12288, 12289]).collect()
        } else {
            vec![1, 2, 3, 17, 3838, 3839, 3840, 4095, 4096, 4097, 8191, 8192, 8193]
        };
        for n in lens {
            for a in [256u32, 2] {
                g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: limit(o, corpus::lcg(n, a, g.seed + n as u64)) });
            }
        }
    }
    g.family("full-size options x structured data", 1);
    for o in &fl {
        let n = if th { 60_000 } else { 15_000 };
        for d in [
            D::Runs(vec![(b'a', 70_000)]),
            D::Pairs(n),
            D::Thue(n),
            D::Text { n, seed: g.seed },
            D::Disk { sectors: n / 512, seed: g.seed },
            corpus::lcg(n, 256, 9),
            corpus::lcg(n, 3, 9),
            // fill the dictionary with noise, then go on with data the stale dictionary still describes
            D::Cat(vec![corpus::lcg(4200, 256, 4), corpus::lcg(4200, 256, 4), D::Runs(vec![(0, 500)]), corpus::lcg(4200, 256, 4)]),
            D::Cat(vec![corpus::lcg(3900, 256, 4), D::Runs(vec![(b'a', 5000)])]),
            D::Ctr(n),
            D::Skew { n, ratio: 80, seed: 5 },
        ] {
            g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: limit(o, d) });
        }
    }
    g.family("runs of every length", 32);
    for o in fl.iter().take(4) {
        for n in (0..if th { 3000 } else { 300 }).chain([8255, 8256, 8257]) {
            g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: D::Runs(vec![(b'r', n)]) });
        }
    }
    // every length of the last chunk, so that every remainder of the division occurs
    g.family("every header divisor", 32);
    for width in 2usize..=16 {
        for hd in 1..=width {
            let max = ((1usize << width) - 1).min(256) - 1;
            let o = LwO { hb: 16, hd, chunk: 18, max, clear: None, stop: None, width, msb: (width + hd) % 2 == 0 };
            let more = [LwO { hb: 12, chunk: 7, clear: Some(max + 1), msb: !o.msb, ..o.clone() }];
            for o in std::iter::once(o.clone()).chain(more.into_iter().filter(|_| th || hd > 7)) {
                for n in (0..if th { 60 } else { 38 }).step_by(1) {
                    if o.valid() {
                        g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: limit(&o, corpus::lcg(n, 256, 11 + n as u64)) });
                    }
                }
            }
        }
    }
    g.family("chunks of more than 4096 codes", 1);
    for (k, chunk) in [4095usize, 4097, 5000, 6143, 8191, 8192, 8193, 10_000, 16_383, 16_385, 20_000, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 100_000].into_iter().enumerate() {
        for (j, (hb, width, clear, stop)) in [(0, 12usize, Some(256), Some(257)), (24, 12, None, None), (0, 16, Some(256), None), (20, 16, None, Some(257)), (32, 13, Some(8191), Some(300)), (0, 17, Some(70_000), Some(256)), (21, 9, Some(511), None)].into_iter().enumerate() {
            let o = LwO { hb, hd: [1, 4, 1, 1, 13, 1, 9][j], chunk, max: 255, clear, stop, width, msb: (k + j) % 2 == 1 };
            if !o.valid() || (!th && chunk > 20_000 && (k + j) % 3 != 0) {
                continue;
            }
            // a second chunk that repeats the first one: a dictionary that was kept shows; the seam is crossed
            let d = corpus::lcg(3 * chunk as u32 + 200, 16, 21 + k as u64);
            let n = m::first_chunk(&d.build(), &o) as u32;
            for d in [D::Cat(vec![d.clone(), D::Runs(vec![(9, 900)])]), D::Slice(Box::new(d.clone()), 0, n), D::Slice(Box::new(d.clone()), 0, n + 1), corpus::lcg(2 * chunk as u32 + 9, 256, 5)] {
                g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d });
            }
        }
    }
    g.family("distant special codes", 1);
    for (k, sp) in [258usize, 259, 300, 500, 510, 511, 512, 513, 700, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 3000, 4000, 4093, 4094, 4095].into_iter().enumerate() {
        for (j, (clear, stop)) in [(Some(sp), Some(256)), (Some(256), Some(sp)), (Some(sp), Some(sp - 1)), (Some(sp - 1), Some(sp)), (Some(sp), None), (None, Some(sp)), (Some(sp), Some(sp - 2))].into_iter().enumerate() {
            for (hb, hd, chunk) in [(0usize, 1usize, 4096usize), (16, 4, 4096), (0, 1, 5000)] {
                let o = LwO { hb, hd, chunk, max: 255, clear, stop, width: 12, msb: (k + j) % 2 == 0 };
                if !o.valid() || (!th && chunk == 5000 && k % 4 != 0) {
                    continue;
                }
                g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: corpus::lcg(14_000, 5, 31 + k as u64) });
            }
        }
    }
    for (k, sp) in [65_535usize, 65_534, 65_533, 32_768, 32_767, 16_384, 16_383, 8192, 8191].into_iter().enumerate() {
        for (j, (clear, stop)) in [(Some(sp), Some(256)), (Some(256), Some(sp)), (Some(sp), Some(sp - 1)), (Some(sp - 1), Some(sp))].into_iter().enumerate() {
            if !th && k >= 3 && j != k % 4 {
                continue;
            }
            // the dictionary is filled and then used often enough for its last strings to turn up
            let o = LwO { hb: 0, hd: 1, chunk: 1_000_000, max: 255, clear, stop, width: 16, msb: k % 2 == 0 };
            g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: corpus::lcg(700_000, 256, 31 + k as u64) });
        }
    }
    g.family("lengths around powers of 256", 1);
    for o in fl.iter().take(2) {
        for n in if th { vec![65_535u32, 65_536, 65_537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1] } else { vec![65_535u32, 65_536, 65_537, (1 << 24) + 1] } {
            g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: D::Cat(vec![D::raw(b"long"), D::Runs(vec![(b'A', n - 4)])]) });
        }
    }
    g.family("big", 1);
    for o in fl.iter().take(if th { 4 } else { 2 }) {
        g.put(Case::Data { c: Codec::Lw(LwX::new(o.clone())), d: corpus::lcg(if th { 5_000_000 } else { 2_400_000 }, 256, 5) });
    }
    g.put(Case::Data { c: Codec::Lw(LwX::new(m::STD)), d: D::Disk { sectors: if th { 2880 } else { 400 }, seed: 3 } });
    g.put(Case::Data { c: Codec::Lw(LwX::new(m::TD1)), d: D::Disk { sectors: if th { 2880 } else { 400 }, seed: 4 } });
    g.put(Case::Data { c: Codec::Lw(LwX::new(LwO { width: 16, chunk: 70_000, ..m::STD })), d: corpus::lcg(300_000, 256, 4) });
    g.put(Case::Data { c: Codec::Lw(LwX::new(LwO { width: 16, chunk: 5000, msb: true, ..m::STD })), d: D::Runs(vec![(1, 3_000_000)]) });
}
/// data has to stay within the symbol range
fn limit(o: &LwO, d: D) -> D {
    if o.max >= 255 {
        d
    } else {
        D::Raw(d.build().into_iter().map(|b| b % (o.max as u8 + 1)).collect())
    }
}
pub fn gen03(g: &mut Gen) {
    inputs(g)
}
pub fn gen06(g: &mut Gen) {
    inputs(g)
}
fn key(o: &LwO) -> Vec<u8> {
    format!("{o:?}").into_bytes()
}
pub fn check03(c: &Case, st: &mut St) -> E {
    let Case::Data { c: Codec::Lw(o), d } = c else { panic!("case") };
    let c = Codec::Lw(o.clone());
    let d = d.build();
    let z = mem(&cmp(&c), &d).map_err(|e| format!("{}: compression fails with {e:?} on {}", name(&c), show(&d)))?.0;
    let x = mem(&exp(&c), &z).map_err(|e| format!("{}: expansion fails with {e:?} on {}, data {}", name(&c), show(&z), show(&d)))?.0;
    if x != d {
        return Err(format!("{}: expansion differs from the data ({}); data {}, compressed {}, expanded {}", name(&c), diff(&d, &x), show(&d), show(&z), show(&x)));
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += (d.len() + z.len()) as u64;
    st.state(&[&key(&o.o), &d, &z]);
    st.peak("longest input", d.len() as u64);
    st.outcome("round trip");
    Ok(())
}
pub fn check06(c: &Case, st: &mut St) -> E {
    let Case::Data { c: Codec::Lw(o), d } = c else { panic!("case") };
    let c = Codec::Lw(o.clone());
    let d = d.build();
    let ch = m::codes(&d, &o.o);
    let s = m::pack(&ch, &o.o);
    let z = mem(&cmp(&c), &d).map_err(|e| format!("{}: compression fails with {e:?} on {}", name(&c), show(&d)))?.0;
    if z != s {
        return Err(format!("{}: stream is not the canonical one ({}); data {}, expected {}, got {}", name(&c), diff(&s, &z), show(&d), show(&s), show(&z)));
    }
    let x = mem(&exp(&c), &s).map_err(|e| format!("{}: expansion of the canonical stream fails with {e:?}: {}, data {}", name(&c), show(&s), show(&d)))?.0;
    if x != d {
        return Err(format!("{}: expansion of the canonical stream is wrong ({}); data {}, stream {}, expanded {}", name(&c), diff(&d, &x), show(&d), show(&s), show(&x)));
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += ch.iter().map(|c| c.codes.len() as u64).sum::<u64>();
    st.state(&[&key(&o.o), &d, &z]);
    st.peak("chunks", ch.len() as u64);
    st.peak("longest input", d.len() as u64);
    st.outcome(if ch.len() > 1 { "several chunks" } else { "one chunk" });
    Ok(())
}
