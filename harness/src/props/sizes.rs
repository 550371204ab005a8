//! C12, C13: offsets, reported sizes, size limits.
use super::env::model_stream;
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use crate::model_lzw::{self as mw, LwO};
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom};

fn lzo() -> LzO {
    LZSTD
}
fn with(c: &Codec, ino: u64, outo: u64) -> Codec {
    match c {
        Codec::Lz(o) => Codec::Lz(LzO { ino, outo, ..o.clone() }),
        Codec::Lw(o) => Codec::Lw(LwX { ino, outo, ..o.clone() }),
        c => c.clone(),
    }
}
fn offs(c: &Codec) -> (u64, u64) {
    match c {
        Codec::Lz(o) => (o.ino, o.outo),
        Codec::Lw(o) => (o.ino, o.outo),
        _ => (0, 0),
    }
}

// ---------- C12 ----------
pub const INFO12: Info = Info {
    rule: "one execution = one operation with input offset, output offset and prior output content",
    states: "distinct (operation, offsets, prior output, output) observations",
    transitions: "stream calls made",
    traces: "executions whose sizes and output were compared with the run without offsets on an empty output",
    bounds: "the products of offsets, prior output lengths, operations and inputs listed in the families",
    assumptions: &["what lies behind the produced bytes in a longer output is not specified (the command line tool cuts it, C14)", "the input is a proper stream of the method"],
};
fn codecs() -> Vec<Codec> {
    vec![
        Codec::Lz(lzo()),
        Codec::Lz(LzO { head: false, ..lzo() }),
        Codec::Lz(LzO::new(16, 5, 2, 0, true)),
        Codec::Lz(LzO::new(64, 18, 2, 0, false)),
        Codec::Lw(LwX::new(mw::STD)),
        Codec::Lw(LwX::new(mw::TD1)),
        Codec::Lw(LwX::new(LwO { msb: true, chunk: 5, ..mw::STD })),
        Codec::Lw(LwX::new(LwO { hb: 12, hd: 1, chunk: 3, max: 255, clear: None, stop: None, width: 9, msb: true })),
        Codec::Port,
        Codec::Td,
    ]
}
pub fn gen12(g: &mut Gen) {
    let th = g.thorough;
    let mut ds = vec![
        D::Raw(vec![]),
        D::raw(b"a"),
        D::raw(b"ab"),
        D::raw(b"abc"),
        D::raw(b"I am Sam. Sam I am. I do not like this Sam I am.\n"),
        D::Runs(vec![(b'a', 200)]),
        corpus::lcg(300, 256, 1),
        corpus::lcg(9000, 256, 2),
        D::Text { n: 9000, seed: 3 },
    ];
    if th {
        for n in 2..120 {
            ds.push(corpus::lcg(n, 256, n as u64));
            ds.push(corpus::lcg(n, 2, n as u64));
        }
    }
    let offs: Vec<u64> = if th { vec![0, 1, 2, 3, 4, 5, 7, 11, 12, 13, 100, 255, 4095, 4096, 8191, 8192, 8193, 20_000] } else { vec![0, 1, 3, 4, 12, 100, 8191, 8192, 8193] };
    g.family("offsets", 8);
    for (k, d) in ds.iter().enumerate() {
        for c in codecs() {
            if matches!(c, Codec::Port | Codec::Td) {
                continue;
            }
            for &i in &offs {
                for &o in &offs {
                    if !th && ((i > 4000 && o > 4000) || (k > 5 && i.max(o) > 3)) && i != o {
                        continue;
                    }
                    for x in [false, true] {
                        for pre in [0u32, o as u32 + 10] {
                            g.put(Case::Off { op: Op { c: with(&c, i, o), x }, d: d.clone(), prefill: pre });
                        }
                    }
                }
            }
        }
    }
    g.family("prior output of every length class", 8);
    for (k, d) in ds.iter().enumerate() {
        for c in codecs() {
            let vs: Vec<D> = if c == Codec::Td {
                [0u8, 19, 20, 255].iter().map(|v| D::Raw(td_image(false, &[1, 2, *v, 3, 4, 5, 6, 7], &d.build()))).collect()
            } else {
                vec![d.clone()]
            };
            for d in vs {
                for x in [false, true] {
                    for o in [0u64, 5] {
                        let c = with(&c, 0, o);
                        if o > 0 && c == with(&c, 0, 0) {
                            continue;
                        }
                        for pre in [1u32, 2, 4, 5, 6, 11, 12, 13, 50, 300, 8192, 8193, 30_000] {
                            if !th && k > 5 && ![1, 13, 300, 8193, 30_000].contains(&pre) {
                                continue;
                            }
                            g.put(Case::Off { op: Op { c: c.clone(), x }, d: d.clone(), prefill: pre });
                        }
                    }
                }
            }
        }
    }
    g.family("huge offsets", 8);
    let far = [0u64, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 40) + 3];
    for (k, d) in ds.iter().enumerate() {
        for c in codecs() {
            if matches!(c, Codec::Port | Codec::Td) || (k > 5 && !th) {
                continue;
            }
            for &i in &far {
                for &o in &far {
                    for x in [false, true] {
                        g.put(Case::Far { op: Op { c: with(&c, i, o), x }, d: d.clone(), rpos: 0, wpos: 0 });
                    }
                }
            }
        }
    }
    g.family("streams positioned elsewhere before the call", 8);
    for (k, d) in ds.iter().enumerate() {
        for c in codecs() {
            if matches!(c, Codec::Port | Codec::Td) || (k > 5 && !th) {
                continue;
            }
            for (i, o) in [(0u64, 0u64), (0, 4), (3, 0), (5, 7)] {
                for rpos in [0u64, 1, 3, 9, 100_000] {
                    for wpos in [0u64, 1, 3, 9, 8192, 100_000] {
                        for x in [false, true] {
                            g.put(Case::Far { op: Op { c: with(&c, i, o), x }, d: d.clone(), rpos, wpos });
                        }
                    }
                }
            }
        }
    }
    g.family("streams in which the data starts where they are positioned", 8);
    for (k, d) in ds.iter().enumerate() {
        if k > 5 && !th {
            continue;
        }
        for rpos in [0u64, 1, 4, 11, 12, 13, 100, 8192, 100_000, (1 << 32) + 5] {
            for wpos in [0u64, 1, 4, 11, 12, 13, 100, 8192, 100_000, (1 << 32) + 5] {
                for x in [false, true] {
                    g.put(Case::Far { op: Op { c: Codec::Port, x }, d: d.clone(), rpos, wpos });
                    for h in [td::H1, td::H2] {
                        g.put(Case::Far { op: Op { c: Codec::Td, x }, d: D::Raw(td_image(false, &h, &d.build())), rpos, wpos });
                    }
                }
            }
        }
    }
    g.family("sizes of all short inputs", 64);
    for c in codecs() {
        strings(b"ab", 0, if th { 9 } else { 5 }, &mut |s| {
            let ds = if c == Codec::Td { vec![td_image(false, &td::H1, s), td_image(false, &td::H2, s)] } else { vec![s.to_vec()] };
            for d in ds {
                for x in [false, true] {
                    g.put(Case::Off { op: Op { c: c.clone(), x }, d: D::raw(&d), prefill: 0 });
                }
            }
        });
        for n in 1..if th { 400 } else { 140 } {
            let d = corpus::lcg(n, 256, n as u64).build();
            let ds = if c == Codec::Td { vec![td_image(false, &td::H1, &d), td_image(false, &td::H2, &d)] } else { vec![d] };
            for d in ds {
                for x in [false, true] {
                    g.put(Case::Off { op: Op { c: c.clone(), x }, d: D::raw(&d), prefill: 0 });
                }
            }
        }
    }
}
fn far12(op: &Op, d: &D, rpos: u64, wpos: u64, st: &mut St) -> E {
    let d = d.build();
    let plain = Op { c: with(&op.c, 0, 0), x: op.x };
    let inp = if op.x { model_stream(&plain.c, &d) } else { d };
    let (ino, outo) = match (&op.c, op.x) {
        // where the streams are: only the port's encoder takes the whole input
        (Codec::Port, false) => (0, wpos),
        (Codec::Port | Codec::Td, _) => (rpos, wpos),
        _ => offs(&op.c),
    };
    let what = format!("{} {} of {} with input offset {ino}, output offset {outo}, streams positioned at {rpos} and {wpos}", name(&plain.c), if op.x { "expansion" } else { "compression" }, show(&inp));
    let (base, ..) = mem(&plain, &inp).map_err(|e| format!("{what}: fails even without offsets: {e:?}"))?;
    let mut r = Sparse { base: ino, d: inp.clone(), pos: rpos, low: false };
    let mut w = Sparse { base: outo, d: vec![], pos: wpos, low: false };
    let res = run(op, &mut r, &mut w);
    st.evals += 1;
    st.traces += 1;
    st.trans += 1;
    if w.low {
        return Err(format!("{what}: output before the offset is written"));
    }
    match res {
        Ok((a, b)) if a == inp.len() as u64 && b == base.len() as u64 => {}
        Ok((a, b)) => return Err(format!("{what}: sizes {a}, {b} reported, {} bytes are there to read, {} to produce", inp.len(), base.len())),
        Err(e) => return Err(format!("{what} fails with {e:?}")),
    }
    if w.d != base {
        return Err(format!("{what}: output differs from the one without offsets: {}", diff(&base, &w.d)));
    }
    st.state(&[format!("{op:?}{rpos} {wpos}").as_bytes(), &base]);
    st.outcome("huge offset or other position");
    Ok(())
}
pub fn check12(c: &Case, st: &mut St) -> E {
    if let Case::Far { op, d, rpos, wpos } = c {
        return far12(op, d, *rpos, *wpos, st);
    }
    let Case::Off { op, d, prefill } = c else { panic!("case") };
    let d = d.build();
    let plain = Op { c: with(&op.c, 0, 0), x: op.x };
    let inp = if op.x { model_stream(&plain.c, &d) } else { d.clone() };
    let (ino, outo) = offs(&op.c);
    let what = || {
        format!(
            "{} {} of {} with input offset {ino}, output offset {outo}, {prefill} bytes of prior output",
            name(&plain.c),
            if op.x { "expansion" } else { "compression" },
            show(&inp)
        )
    };
    let (base, a, b) = mem(&plain, &inp).map_err(|e| format!("{} {} of {} fails with {e:?}", name(&plain.c), if op.x { "expansion" } else { "compression" }, show(&inp)))?;
    if a != inp.len() as u64 || b != base.len() as u64 {
        return Err(format!("{} {} of {}: sizes {a}, {b} reported, {} bytes read and {} produced", name(&plain.c), if op.x { "expansion" } else { "compression" }, show(&inp), inp.len(), base.len()));
    }
    let mut src: Vec<u8> = (0..ino).map(|i| (i * 7 + 11) as u8).collect();
    src.extend_from_slice(&inp);
    let prior: Vec<u8> = (0..*prefill).map(|i| (i * 13 + 5) as u8 | 1).collect();
    let r = env_run(op, &src, &prior, &[], usize::MAX, usize::MAX);
    st.evals += 1;
    st.traces += 1;
    st.trans += r.calls.len() as u64;
    match &r.res {
        Err(e) => return Err(format!("{} fails with {e:?}", what())),
        Ok((x, y)) => {
            if *x != inp.len() as u64 || *y != base.len() as u64 {
                return Err(format!("{}: sizes {x}, {y} reported, {} bytes are there to read, {} to produce", what(), inp.len(), base.len()));
            }
        }
    }
    let o = outo as usize;
    let keep = o.min(prior.len());
    if r.out.len() < keep || r.out[..keep] != prior[..keep] {
        return Err(format!("{}: output before the offset is changed", what()));
    }
    let got = r.out.get(o..).unwrap_or(&[]);
    if got.len() < base.len() || got[..base.len()] != base[..] {
        return Err(format!("{}: output differs from the one without offsets: {}", what(), diff(&base, got)));
    }
    if got.len() > base.len() && r.out.len() > prior.len() {
        return Err(format!("{}: {} bytes written, {} reported", what(), got.len(), base.len()));
    }
    // nothing behind the produced bytes may be touched either: it would be stale data of another length
    if r.out.len() > o + base.len() && r.out[o + base.len()..] != prior[o + base.len()..] {
        return Err(format!("{}: bytes behind the reported size are changed", what()));
    }
    st.state(&[format!("{op:?}{prefill}").as_bytes(), &base]);
    st.outcome(if op.x { "expansion" } else { "compression" });
    Ok(())
}

// ---------- C13 ----------
pub const INFO13: Info = Info {
    rule: "one execution = one operation on a stream that reports a given length (delivering zeros, stopped by a read error after 16 KiB), or on real data around a lowered limit",
    states: "distinct (operation, length, outcome) observations",
    transitions: "decisions taken",
    traces: "decisions compared with the documented limits",
    bounds: "lengths from limit-3 to limit+3, twice the limit, 2^32-3..2^32+3, 2^40, with several offsets; real data of every length around small limits",
    assumptions: &["streams of the default limits are represented by streams that report the length; their content is only delivered up to 16 KiB"],
};
fn ddef(c: &Codec) -> u64 {
    match c {
        Codec::Lz(o) => o.max,
        Codec::Lw(o) => o.max,
        Codec::Td => 3_000_000,
        Codec::Port => u32::MAX as u64,
    }
}
pub fn gen13(g: &mut Gen) {
    let th = g.thorough;
    g.family("reported lengths around the limits", 8);
    let mut cs = vec![];
    for max in [0u64, 1, 2, 10, 4095, 4096, 60_000, 3_000_000, u32::MAX as u64 / 4] {
        for ino in [0u64, 1, 12, 5000] {
            for outo in [0u64, 12] {
                cs.push(Codec::Lz(LzO { max, ino, outo, ..lzo() }));
                cs.push(Codec::Lz(LzO { max, ino, outo, head: false, ..lzo() }));
                cs.push(Codec::Lw(LwX { max, ino, outo, ..LwX::new(mw::STD) }));
                cs.push(Codec::Lw(LwX { max, ino, outo, ..LwX::new(mw::TD1) }));
            }
        }
    }
    for c in &cs {
        let m = ddef(c);
        let (i, _) = offs(c);
        let mut ls: Vec<u64> = (m.saturating_sub(3)..=m + 3).collect();
        ls.extend([0, 2 * m + 1, m + 12, m + 5000, 1 << 40]);
        ls.extend((1u64 << 32) - 3..=(1 << 32) + 3);
        ls.sort();
        ls.dedup();
        for l in ls {
            for x in [false, true] {
                g.put(Case::Size { op: Op { c: c.clone(), x }, len: l + i, reject: l > m });
            }
        }
    }
    g.family("lengths that do not fit the header", 8);
    for i in [0u64, 7] {
        let c = Codec::Lz(LzO { max: u64::MAX / 2, ino: i, ..lzo() });
        let h = Codec::Lz(LzO { max: u64::MAX / 2, ino: i, head: false, ..lzo() });
        let w = Codec::Lw(LwX { max: u64::MAX / 2, ino: i, ..LwX::new(mw::STD) });
        for l in [(1u64 << 32) - 2, (1 << 32) - 1] {
            g.put(Case::Size { op: cmp(&c), len: l + i, reject: false });
        }
        for l in ((1u64 << 32)..=(1 << 32) + 60).chain([1 << 33, (1 << 33) + 5, 1 << 40, (1 << 40) + 100]) {
            g.put(Case::Size { op: cmp(&c), len: l + i, reject: true });
            g.put(Case::Size { op: cmp(&h), len: l + i, reject: false });
            for x in [false, true] {
                g.put(Case::Size { op: Op { c: w.clone(), x }, len: l + i, reject: false });
            }
            g.put(Case::Size { op: exp(&c), len: l + i, reject: false });
        }
    }
    for l in [0u64, 1, 59, 60, 61, 4095, 4096, 3_000_000, 3_000_001, 1 << 30, 1 << 31, (1 << 32) - 3, (1 << 32) - 2] {
        g.put(Case::Size { op: cmp(&Codec::Port), len: l, reject: false });
    }
    for l in ((1u64 << 32)..=(1 << 32) + 70).chain([1 << 33, (1 << 33) + 5, 1 << 40]) {
        g.put(Case::Size { op: cmp(&Codec::Port), len: l, reject: true });
    }
    g.family("Teledisk bodies around the limit", 8);
    for l in [0u64, 1, 100, 2_999_988, 2_999_989, 2_999_998, 2_999_999, 3_000_000, 3_000_001, 3_000_002, 3_000_011, 3_000_012, 3_000_013, 3_000_100, 6_000_000, 1 << 32, (1 << 32) + 500] {
        for x in [false, true] {
            for v in [10u64, 21] {
                // the version rides in the high bits
                g.put(Case::Size { op: Op { c: Codec::Td, x }, len: v << 48 | (l + 12), reject: l > 3_000_000 });
            }
        }
    }
    g.family("real data around small limits", 16);
    for max in (0..if th { 80u64 } else { 30 }).chain([255, 256, 4096, 5000]) {
        for c in [
            Codec::Lz(LzO { max, ..lzo() }),
            Codec::Lz(LzO { max, ino: 3, outo: 2, head: false, ..lzo() }),
            Codec::Lw(LwX { max, ..LwX::new(mw::STD) }),
            Codec::Lw(LwX { max, ino: 4, outo: 9, ..LwX::new(mw::TD1) }),
        ] {
            for l in max.saturating_sub(2)..=max + 2 {
                g.put(Case::Limit { op: cmp(&c), d: corpus::lcg(l as u32, 256, l), reject: l > max });
            }
        }
    }
    g.family("real streams around small limits", 4);
    for n in (0..if th { 80u32 } else { 30 }).chain([300, 5000]) {
        for c in [Codec::Lz(lzo()), Codec::Lz(LzO { head: false, ino: 3, outo: 2, ..lzo() }), Codec::Lw(LwX::new(mw::STD)), Codec::Lw(LwX { ino: 4, outo: 9, ..LwX::new(mw::TD1) })] {
            let d = corpus::lcg(n, 256, n as u64);
            let z = model_stream(&with(&c, 0, 0), &d.build()).len() as u64;
            for max in z.saturating_sub(2)..=z + 2 {
                let c = match &c {
                    Codec::Lz(o) => Codec::Lz(LzO { max, ..o.clone() }),
                    Codec::Lw(o) => Codec::Lw(LwX { max, ..o.clone() }),
                    _ => panic!(),
                };
                g.put(Case::Limit { op: exp(&c), d: d.clone(), reject: z > max });
            }
        }
    }
    g.family("real Teledisk images at the limit", 1);
    for v in [10u8, 21] {
        for n in [2_999_999u32, 3_000_000, 3_000_001] {
            let mut h = td::H2;
            h[2] = v;
            g.put(Case::Td { head: h.to_vec(), d: D::Runs(vec![(0xE5, n)]) });
        }
    }
}
struct Long {
    head: Vec<u8>,
    len: u64,
    pos: u64,
    given: u64,
}
impl Read for Long {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.given > 16_384 {
            return Err(Error::new(ErrorKind::InvalidData, "probe"));
        }
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            *x = self.head.get(self.pos as usize + i).copied().unwrap_or(0);
        }
        self.pos += n as u64;
        self.given += n as u64;
        Ok(n)
    }
}
impl Seek for Long {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let v = match p {
            SeekFrom::Start(v) => v as i128,
            SeekFrom::End(o) => self.len as i128 + o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
        };
        if v < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = v as u64;
        Ok(self.pos)
    }
}
pub fn check13(c: &Case, st: &mut St) -> E {
    match c {
        Case::Size { op, len, reject } => {
            let (head, len) = match op.c {
                Codec::Td => (td_image(op.x, &[0, 1, (len >> 48) as u8, 3, 4, 5, 6, 7], &[]), len & 0xffff_ffff_ffff),
                _ => (vec![], *len),
            };
            let hl = head.len();
            let mut r = Long { head, len, pos: 0, given: 0 };
            let mut w = Cap { c: std::io::Cursor::new(vec![]), cap: 1 << 20, hit: false };
            let res = run(op, &mut r, &mut w);
            st.evals += 1;
            st.traces += 1;
            st.trans += 1;
            let what = format!("{} {} of {len} bytes", name(&op.c), if op.x { "expansion" } else { "compression" });
            let large = res == Err(EK::Large);
            if let Err(e) = &res {
                if e.is_panic() {
                    return Err(format!("{what}: {e:?}"));
                }
            }
            if large != *reject {
                return Err(format!("{what} {} rejected as too large: {res:?}", if large { "is" } else { "is not" }));
            }
            if large && w.c.get_ref().len() > hl {
                return Err(format!("{what} is rejected after {} bytes of output", w.c.get_ref().len()));
            }
            st.outcome(if large { "rejected" } else { "not rejected" });
            st.state(&[format!("{op:?}{len}{large}").as_bytes()]);
            Ok(())
        }
        Case::Limit { op, d, reject } => {
            let d = d.build();
            let plain = with(&op.c, 0, 0);
            let (ino, outo) = offs(&op.c);
            let unlimited = match &plain {
                Codec::Lz(o) => Codec::Lz(LzO { max: 1 << 30, ..o.clone() }),
                Codec::Lw(o) => Codec::Lw(LwX { max: 1 << 30, ..o.clone() }),
                c => c.clone(),
            };
            let inp = if op.x { model_stream(&plain, &d) } else { d };
            let mut src = vec![0x77; ino as usize];
            src.extend_from_slice(&inp);
            let r = mem(op, &src);
            st.evals += 1;
            st.traces += 1;
            st.trans += 1;
            let what = format!("{} {} of {} bytes", name(&op.c), if op.x { "expansion" } else { "compression" }, inp.len());
            if *reject {
                if r != Err(EK::Large) {
                    return Err(format!("{what} is not rejected: {:?}", r.map(|x| (x.1, x.2))));
                }
                st.outcome("real data rejected");
            } else {
                let (out, ..) = r.map_err(|e| format!("{what} fails with {e:?}"))?;
                let (base, ..) = mem(&Op { c: unlimited, x: op.x }, &inp).map_err(|e| format!("{what} without limit fails with {e:?}"))?;
                if out.get(outo as usize..).unwrap_or(&[]) != &base[..] {
                    return Err(format!("{what} differs from the result without limit"));
                }
                st.outcome("real data accepted");
            }
            st.state(&[format!("{op:?}").as_bytes(), &inp]);
            Ok(())
        }
        Case::Td { head, d } => {
            let h: [u8; 8] = head[..].try_into().unwrap();
            let img = td_image(false, &h, &d.build());
            let r = mem(&cmp(&Codec::Td), &img).map(|x| (x.1, x.2));
            st.evals += 1;
            st.traces += 1;
            st.trans += 1;
            let large = r == Err(EK::Large);
            if large != (img.len() - 12 > 3_000_000) || (!large && r.is_err()) {
                return Err(format!("Teledisk compression of a body of {} bytes: {r:?}", img.len() - 12));
            }
            st.outcome(if large { "real image rejected" } else { "real image accepted" });
            st.state(&[&img[..12], &(img.len() as u64).to_le_bytes()]);
            Ok(())
        }
        _ => panic!("case"),
    }
}
