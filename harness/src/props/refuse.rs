//! C21: what the options cannot represent is refused.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use crate::model_lzw::{self as mw, LwO};

pub const INFO21: Info = Info {
    rule: "one execution = compression, and if it succeeds expansion with the same options; the code is built as it is shipped, without overflow checks",
    states: "distinct (options, data, outcome) observations",
    transitions: "bytes of data and of the compressed stream",
    traces: "compressions that succeeded, whose expansion was compared with the data",
    bounds: "all option sets and data of the listed families",
    assumptions: &["a panic counts as a refusal, the functions are documented to panic if options are inconsistent"],
};
fn lz(n: usize, f: usize, t: usize, head: bool) -> Codec {
    Codec::Lz(LzO::new(n, f, t, b' ', head))
}
fn lw(o: LwO) -> Codec {
    Codec::Lw(LwX::new(o))
}
pub fn gen21(g: &mut Gen) {
    let th = g.thorough;
    g.family("LZSS: thresholds beyond the lookahead", 64);
    for n in 2..=if th { 9usize } else { 6 } {
        for f in 1..n {
            for t in (0..=f + 3).chain(250..=254 + f) {
                for head in [true, false] {
                    let mut put = |d: D| g.put(Case::Data { c: lz(n, f, t, head), d });
                    strings(b" a", 0, if th { 8 } else { 5 }, &mut |s| put(D::raw(s)));
                    for d in [D::raw(&[0]), D::raw(&[254]), D::raw(&[255]), D::raw(&[1, 255, 1]), D::Runs(vec![(b' ', 30)]), D::Ctr(300), corpus::lcg(200, 256, 1), corpus::lcg(200, 3, 1)] {
                        put(d);
                    }
                }
            }
        }
    }
    g.family("LZSS: large thresholds and lookaheads", 4);
    for f in [1usize, 2, 60, 254, 255, 256, 257, 300, 400] {
        for t in [0usize, 2, 59, 60, 61, 100, 253, 254, 255, 256, 257, 300, 320, 399, 400, 401, 500, 600] {
            if 255 + f < t + 1 {
                continue;
            }
            for n in [f + 1, f + 40, 2 * f, 1000] {
                if n <= f {
                    continue;
                }
                for d in [D::Runs(vec![(b'x', 1000)]), D::Ctr(600), corpus::lcg(500, 256, 1), D::Cat(vec![corpus::lcg(450, 256, 1), corpus::lcg(450, 256, 1)])] {
                    g.put(Case::Data { c: lz(n, f, t, true), d });
                }
            }
        }
    }
    g.family("LZSS: distances beyond what position codes hold", 1);
    for n in [4156usize, 4157, 4158, 4200, 4220, 5000, 8191, 8192, 8193, 8252, 12_348, 16_384, 65_535, 65_536, 65_596, 65_597, 69_000, 70_000, 131_072, 140_000] {
        for f in [3usize, 60] {
            let b = corpus::lcg(70, 256, 9);
            let mut ds = vec![];
            for dist in [4090usize, 4095, 4096, 4097, 4098, 4100, 4150, 4157, 4160, 8191, 8192, 8193, 8196, 12_288, 12_290, 65_535, 65_536, 65_537, 65_538, 65_600, 69_000, 69_631, 69_632, 69_633, 131_071, 131_072, 131_073, 131_100] {
                if dist <= n {
                    ds.push(D::Cat(vec![b.clone(), corpus::lcg(dist as u32 - 70, 256, dist as u64), b.clone()]));
                }
            }
            for d in ds {
                // the higher threshold leaves only the one match
                for (t, head) in [(2usize, true), (2, false), (20, true)] {
                    if t < f {
                        g.put(Case::Data { c: lz(n, f, t, head), d: d.clone() });
                    }
                }
            }
            for k in [1u32, 100, n as u32 - f as u32 - 1, n as u32, n as u32 + 70] {
                g.put(Case::Data { c: lz(n, f, 2, true), d: D::Cat(vec![corpus::lcg(k, 256, 3), D::Runs(vec![(b' ', 100)])]) });
            }
        }
    }
    let special = |max: usize| [(None, None), (Some(max + 1), Some(max + 2)), (Some(max + 2), Some(max + 1)), (None, Some(max + 1)), (Some(max + 1), None)];
    g.family("LZW: symbols beyond the range", 32);
    for max in (0usize..255).filter(|m| th || m % 7 == 0 || (m + 1).is_power_of_two() || *m < 6) {
        for width in [max.ilog2_ceil() + 1, 8, 9, 12, 16] {
            for (k, (clear, stop)) in special(max).into_iter().enumerate() {
                for (hb, hd) in [(0usize, 1usize), (16, 1)] {
                    let o = LwO { hb, hd, chunk: 3 + k, max, clear, stop, width, msb: (max + k) % 2 == 0 };
                    if !o.valid() {
                        continue;
                    }
                    let bad: Vec<u8> = [max + 1, max + 2, max + 3, 2 * (max + 1), 127, 128, 254, 255].into_iter().filter(|b| *b > max && *b < 256).map(|b| b as u8).collect();
                    for b in bad {
                        for n in 0..=6usize {
                            for at in 0..=n {
                                let mut v = vec![0u8; n];
                                v.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 3 == 2 { max as u8 } else { 0 });
                                v.insert(at, b);
                                if (n + at + b as usize) % 2 == 0 || th || n < 3 {
                                    g.put(Case::Data { c: lw(o.clone()), d: D::Raw(v) });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    g.family("LZW: codes wider than the code width", 32);
    for width in 1..=9usize {
        for max in [0usize, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255] {
            let top = 1usize << width;
            for clear in [None, Some(max + 1), Some(max + 2), Some(top.max(max + 1)), Some(2 * top + max + 5)] {
                for stop in [None, Some(max + 1), Some(max + 2), Some(top.max(max + 2)), Some(2 * top + max + 7)] {
                    for (hb, hd) in [(0usize, 1usize), (16, 1)] {
                        for chunk in [1usize, 2, 5, 4096] {
                            // the end has to be visible
                            if (clear.is_some() && clear == stop) || (stop.is_none() && hb == 0 && width < 8) {
                                continue;
                            }
                            let o = LwO { hb, hd, chunk, max, clear, stop, width, msb: (chunk + max) % 2 == 0 };
                            if o.valid() {
                                continue; // C03
                            }
                            let m = max as u8;
                            for d in [D::Raw(vec![]), D::raw(&[0]), D::raw(&[m]), D::raw(&[0, m, 0, 0, m, 0, m, m, 0, 0, m]), D::Runs(vec![(m, 40)]), D::Raw((0..=m).collect()), D::Raw((0..60).map(|i| if max == 255 { i as u8 } else { (i % (max + 1)) as u8 }).collect())] {
                                g.put(Case::Data { c: lw(o.clone()), d });
                            }
                        }
                    }
                }
            }
        }
    }
    g.family("LZW: chunks that do not fit their header", 16);
    for width in [9usize, 12, 16] {
        for hb in 1..=if th { 17usize } else { 13 } {
            for hd in [1usize, 2, 4, 5, width - 1, width, width + 1, 2 * width, 3 * width + 1, 64] {
                for (clear, stop) in special(255) {
                    for chunk in [1usize, 2, 3, 4, 5, 6, 7, 10, 20, 21, 22, 42, 50, 100, 341, 342, 455, 1000, 5461, 5462, 10_000] {
                        if !th && (width + hb + hd + chunk + clear.unwrap_or(3)) % 5 != 0 {
                            continue;
                        }
                        let o = LwO { hb, hd, chunk, max: 255, clear, stop, width, msb: (hb + chunk) % 2 == 0 };
                        // padding must not be taken for a chunk header and codes
                        for n in [1u32, 2, 3, chunk as u32, chunk as u32 + 1, 2 * chunk as u32 + 1] {
                            g.put(Case::Data { c: lw(o.clone()), d: corpus::lcg(n, 256, n as u64) });
                        }
                    }
                }
            }
        }
    }
    g.family("LZW: chunks that nothing separates", 8);
    for chunk in [1usize, 2, 3, 10, 100, 300, 1000, 4096] {
        for stop in [None, Some(256), Some(257)] {
            for width in [9usize, 12, 16] {
                for msb in [false, true] {
                    for n in [1u32, 2, 3, 4, 10, 99, 100, 101, 299, 300, 301, 302, 1001, 4096, 4097, 9000] {
                        for d in [corpus::lcg(n, 256, n as u64), corpus::lcg(n, 2, n as u64), D::Text { n, seed: 1 }] {
                            g.put(Case::Data { c: lw(LwO { hb: 0, hd: 1, chunk, max: 255, clear: None, stop, width, msb }), d });
                        }
                    }
                }
            }
        }
    }
    let _ = mw::STD;
}
trait Log2 {
    fn ilog2_ceil(self) -> usize;
}
impl Log2 for usize {
    /// bits of this number
    fn ilog2_ceil(self) -> usize {
        (usize::BITS - self.leading_zeros()) as usize
    }
}
pub fn check21(c: &Case, st: &mut St) -> E {
    let Case::Data { c, d } = c else { panic!("case") };
    let d = d.build();
    let r = mem(&cmp(c), &d);
    st.evals += 1;
    st.trans += d.len() as u64;
    let z = match r {
        Err(e) => {
            let tag = match e {
                EK::Panic(_) => "refused by a panic",
                _ => "refused by an error",
            };
            st.outcome(tag);
            st.state(&[format!("{c:?}{tag}").as_bytes(), &d]);
            return Ok(());
        }
        Ok(z) => z.0,
    };
    st.traces += 1;
    st.trans += z.len() as u64;
    st.outcome("compressed");
    st.state(&[format!("{c:?}").as_bytes(), &z]);
    let loss = |how: String| Err(format!("{}: compression of {} succeeds, but {how}; stream {}", name(c), show(&d), show(&z)));
    match mem(&exp(c), &z) {
        Err(e) => loss(format!("expansion fails with {e:?}")),
        Ok((x, ..)) => {
            let open = matches!(c, Codec::Lz(o) if !o.head);
            if x == d || (open && x.starts_with(&d) && x.len() <= d.len() + 7) {
                Ok(())
            } else {
                loss(format!("expansion gives other data ({})", diff(&d, &x)))
            }
        }
    }
}
