//! C20: memory use follows the data, not what the data claims.
use super::lzhuf::name;
use super::malformed::{fronts, sweep};
use super::*;
use crate::alloc::measure;
use crate::data::*;
use crate::eng::show;
use crate::model_lzw::{self as mw, LwO};

pub const INFO20: Info = Info {
    rule: "one execution = one call of the library, over streams or on a slice, under an allocator that counts",
    states: "distinct (operation, outcome, memory in use rounded to a power of two) observations",
    transitions: "bytes offered and produced",
    traces: "executions whose peak memory was compared with the bound",
    bounds: "all byte strings of the listed lengths behind the listed prefixes, every byte value at every place of length and chunk headers, all listed corruptions of valid streams; data of doubling lengths up to the listed ones",
    assumptions: &["the bound is 16 MiB and 32 bytes for each byte read or written", "memory of the caller's streams counts as used by the call"],
};
const BASE: u64 = 16 << 20;
const EACH: u64 = 32;
/// output cut off by a write error
const SHORT: usize = 40_000;
const LONG: usize = 256 << 20;

fn lz(n: usize, f: usize, t: usize, head: bool) -> Codec {
    Codec::Lz(LzO::new(n, f, t, b' ', head))
}
fn codecs() -> Vec<Codec> {
    let l = |o: LwO| Codec::Lw(LwX::new(o));
    vec![
        lz(4096, 60, 2, true),
        lz(4096, 60, 2, false),
        lz(64, 18, 2, true),
        lz(4, 2, 1, true),
        Codec::Port,
        l(mw::STD),
        l(mw::TD1),
        l(LwO { msb: true, chunk: 14, ..mw::STD }),
        l(LwO { width: 16, chunk: 1 << 30, clear: None, stop: None, ..mw::STD }),
        l(LwO { hb: 16, hd: 1, chunk: 4000, max: 255, clear: None, stop: None, width: 16, msb: true }),
        Codec::Td,
    ]
}
pub fn gen20(g: &mut Gen) {
    let th = g.thorough;
    g.family("every byte in every place of a length or chunk header", 16);
    let bodies = [D::Raw(vec![]), D::raw(&[0]), D::raw(&[0xff; 3]), corpus::lcg(40, 256, 1), D::Runs(vec![(0, 600)]), D::Runs(vec![(0x9b, 3000)])];
    for c in codecs() {
        for b in &bodies {
            for at in 0..4usize {
                for x in 0..=255u8 {
                    for rest in if th { vec![0u8, 1, 0xff, 0x7f, 0x80] } else { vec![0u8, 0xff] } {
                        let mut h = [rest; 4];
                        h[at] = x;
                        g.put(Case::Bytes { c: c.clone(), d: D::Cat(vec![D::raw(&h), b.clone()]) });
                    }
                }
            }
        }
    }
    g.family("containers with every byte in every place of the header", 64);
    for at in 2..10usize {
        for x in 0..=255u8 {
            for body in [&b""[..], b"\x06\x00A \x04", b"\xff\xff\xff\xff\xff\xff\xff\xff", b"\x00\x00\x00\x00"] {
                for adv in [false, true] {
                    for v in [10u8, 21] {
                        let mut h = [0u8, 1, v, 3, 4, 5, 6, 7];
                        h[at - 2] = x;
                        g.put(Case::TdRaw { expand: adv, d: D::Raw(td_image(adv, &h, body)) });
                    }
                }
            }
        }
    }
    g.family("all short strings behind every prefix", 1);
    for (c, pre, n) in fronts(false) {
        for k in 0..=if th { n } else { n.min(1) } {
            g.put(Case::Sweep { c: c.clone(), pre: pre.clone(), tail: k });
        }
    }
    g.family("corruptions of valid streams", 1);
    for c in codecs() {
        for d in [D::raw(b"I am Sam. Sam I am. I do not like this Sam I am.\n"), D::Runs(vec![(b'a', 70), (b' ', 130)]), corpus::lcg(60, 256, 3)] {
            let d = if c == Codec::Td { vec![D::Raw(td_image(false, &td::H1, &d.build())), D::Raw(td_image(false, &td::H2, &d.build()))] } else { vec![d] };
            for d in d {
                g.put(Case::Corrupt { c: c.clone(), d, all: th });
            }
        }
    }
    g.family("data of doubling lengths", 1);
    for k in (8..=if th { 24 } else { 20 }).rev() {
        let n = 1u32 << k;
        for c in codecs() {
            for (j, d) in [D::Runs(vec![(b'x', n)]), corpus::lcg(n, 256, 5), D::Text { n, seed: 2 }, D::Thue(n)].into_iter().enumerate() {
                // the tiny windows are slow, and there is little to tell apart
                if (j == 3 && k > 20) || (k > 22 && j > 1) || (c == Codec::Td && k > 21) {
                    continue;
                }
                g.put(Case::Data { c: c.clone(), d: if c == Codec::Td { D::Cat(vec![D::Raw(td_image(false, if j % 2 == 0 { &td::H1 } else { &td::H2 }, &[])), d]) } else { d } });
            }
        }
    }
}
fn judge(op: &Op, d: &[u8], out: usize, peak: u64, how: &str, tag: &str, st: &mut St) -> E {
    st.evals += 1;
    st.traces += 1;
    st.trans += (d.len() + out) as u64;
    st.outcome(tag);
    st.peak("memory", peak);
    st.state(&[format!("{op:?}{tag}{}", 64 - peak.leading_zeros()).as_bytes()]);
    let most = BASE + EACH * (d.len() + out) as u64;
    if std::env::var_os("MC_MEM").is_some() && peak > 1 << 20 {
        eprintln!("{} {} in {} out {out} peak {peak} = {:.1} per byte", name(&op.c), op.x, d.len(), peak as f64 / (d.len() + out) as f64);
    }
    if peak > most {
        return Err(format!("{} {} {how} of {} ({out} bytes produced): {peak} bytes of memory in use, at most {most} expected", name(&op.c), if op.x { "expansion" } else { "compression" }, show(d)));
    }
    Ok(())
}
fn tag<T>(r: &Result<T, EK>) -> &'static str {
    match r {
        Ok(_) => "done",
        Err(EK::Panic(_)) => "panic",
        Err(EK::Io(_)) => "I/O error",
        Err(_) => "format error",
    }
}
/// over streams, and on a slice
fn both(op: &Op, d: &[u8], cap: usize, st: &mut St) -> Result<Vec<u8>, String> {
    let ((r, out, hit), peak) = measure(|| capped(op, d, cap));
    judge(op, d, out.len(), peak, "over streams", tag(&r), st)?;
    // what the slice function would produce is known: it ends without filling the memory
    if !hit {
        let (s, peak) = measure(|| slice(op, d));
        let n = s.as_ref().map(|v| v.len()).unwrap_or(out.len());
        judge(op, d, n, peak, "of a slice", tag(&s), st)?;
    }
    Ok(out)
}
pub fn check20(c: &Case, st: &mut St) -> E {
    match c {
        Case::Bytes { c, d } => both(&exp(c), &d.build(), SHORT, st).map(|_| ()),
        Case::TdRaw { expand, d } => both(&Op { c: Codec::Td, x: *expand }, &d.build(), SHORT, st).map(|_| ()),
        Case::Sweep { c, pre, tail } => sweep(pre, *tail, &mut |b| both(&exp(c), b, SHORT, st).map(|_| ())),
        Case::Corrupt { c, d, all } => {
            let z = both(&cmp(c), &d.build(), LONG, st)?;
            for n in 0..z.len() {
                both(&exp(c), &z[..n], SHORT, st)?;
            }
            let mut t = z.clone();
            for at in 0..z.len() {
                for x in 1..=255u8 {
                    if !all && x.count_ones() != 1 && x != 255 && x != z[at] && at >= 4 {
                        continue;
                    }
                    t[at] = z[at] ^ x;
                    both(&exp(c), &t, SHORT, st)?;
                }
                t[at] = z[at];
            }
            Ok(())
        }
        Case::Data { c, d } => {
            let z = both(&cmp(c), &d.build(), LONG, st)?;
            both(&exp(c), &z, LONG, st).map(|_| ())
        }
        _ => panic!("case"),
    }
}
