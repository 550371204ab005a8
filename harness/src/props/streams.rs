//! C18, C19: what an expansion makes of streams no encoder of ours need have written.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show, show_r};
use crate::model_lzhuf as m;
use crate::model_lzw as mw;

// ---------- C18 ----------
pub const INFO18: Info = Info {
    rule: "one execution = expansion of one stream by the real decoder and by the reference decoder, outputs compared byte for byte",
    states: "distinct (options, stream, output) observations",
    transitions: "tokens of the reference decoder",
    traces: "token sequences of the reference decoder replayed through a real decoder",
    bounds: "all token sequences of the listed lengths over all distances and lengths of small option sets behind every number of literals; every distance of the standard window with selected lengths; all byte strings of the listed lengths and fixed long ones as streams; every declared length",
    assumptions: &["copies from further back than the window (possible only with windows below 4096) have no defined meaning: the output is compared up to there"],
};
fn lz(n: usize, f: usize, t: usize, fill: u8, head: bool) -> LzO {
    LzO::new(n, f, t, fill, head)
}
/// the tokens of an option set: two literals and all copies
fn alphabet(o: &LzO) -> Vec<(u16, u16)> {
    let mut v = vec![(0, b'b' as u16), (0, o.fill as u16)];
    for d in 1..=o.n as u16 {
        for l in o.t + 1..=o.f {
            v.push((d, l as u16));
        }
    }
    v
}
pub fn gen18(g: &mut Gen) {
    let th = g.thorough;
    g.family("more data than 32 bits can count", 1);
    for (head, len, dist) in [(false, 4096u16, 1u16), (true, 4096, 3)] {
        let copies = ((1u64 << 32) / len as u64) as u32 + 5;
        if th || !head {
            g.put(Case::Giant { c: Codec::Lz(lz(8192, 4096, 2, b' ', head)), dist, len, copies });
        }
    }
    g.family("declared lengths of every number of bits", 1);
    for bits in (20..=31u32).rev() {
        for less in [0u64, 1] {
            // just above and, a copy and more, below a power of two
            let copies = ((1u64 << bits) / 4096 + 1 - 3 * less) as u32;
            if less == 0 || th {
                g.put(Case::Giant { c: Codec::Lz(lz(8192, 4096, 2, b' ', true)), dist: 2 + bits as u16, len: 4096, copies });
            }
        }
        if bits < if th { 32 } else { 27 } {
            for c in [Codec::Lz(LZSTD), Codec::Port] {
                g.put(Case::Giant { c, dist: 7, len: 60, copies: (1u32 << bits) / 60 + 2 });
            }
        }
    }
    g.family("small option sets: all token pairs behind every number of literals", 128);
    for n in 2..=if th { 10usize } else { 8 } {
        for f in 1..n {
            for t in 0..f.min(3) {
                let o = lz(n, f, t, if (n + f + t) % 2 == 0 { b'a' } else { 0 }, (n + f) % 2 == 0);
                let al = alphabet(&o);
                for lits in 0..=n as u32 + 1 {
                    for x in &al {
                        for y in &al {
                            g.put(Case::Tokens { c: Codec::Lz(o.clone()), lits, t: vec![*x, *y], short: 0 });
                        }
                    }
                }
            }
        }
    }
    g.family("smallest option sets: all token sequences", 128);
    for (n, f, t, k) in [(2usize, 1usize, 0usize, if th { 8 } else { 6 }), (3, 2, 0, if th { 5 } else { 4 }), (3, 2, 1, if th { 6 } else { 5 }), (4, 2, 1, if th { 6 } else { 4 }), (4, 3, 1, if th { 5 } else { 3 }), (5, 3, 2, if th { 5 } else { 4 }), (6, 4, 2, if th { 4 } else { 3 })] {
        let o = lz(n, f, t, b'a', n % 2 == 0);
        let al = alphabet(&o);
        let mut ix = vec![0usize; k];
        loop {
            g.put(Case::Tokens { c: Codec::Lz(o.clone()), lits: 0, t: ix.iter().map(|i| al[*i]).collect(), short: 0 });
            let mut p = k;
            while p > 0 && ix[p - 1] + 1 == al.len() {
                ix[p - 1] = 0;
                p -= 1;
            }
            if p == 0 {
                break;
            }
            ix[p - 1] += 1;
        }
    }
    g.family("standard options: every distance, several histories", 16);
    let outs = [Codec::Lz(LZSTD), Codec::Port, Codec::Lz(lz(4096, 60, 2, b' ', false))];
    for (k, lits) in [0u32, 1, 5, 59, 60, 61, 4035, 4036, 4037, 4095, 4096, 4097, 8191].iter().enumerate() {
        for d in (1..=4096u16).filter(|d| th || d % 97 == k as u16 || *d <= 3 || *d as u32 + 2 >= 4096 || (*lits as i64 - *d as i64).abs() < 3 || (4036 + *lits as i64 - *d as i64).abs() < 3 || (60 - *d as i64).abs() < 2 || (4036 - *d as i64).abs() < 2) {
            let c = &outs[(d as usize + k) % 3];
            let l = [3, 60, 4, 59, 31][(d as usize + k) % 5];
            g.put(Case::Tokens { c: c.clone(), lits: *lits, t: vec![(d, l), (0, 1), (d, 63 - l), (4097 - d, 5)], short: 0 });
        }
    }
    g.family("other windows: every distance at their edges", 16);
    for (n, f, t) in [(4097usize, 60usize, 2usize), (4156, 60, 2), (4100, 4, 0), (8192, 4096, 255), (5000, 1000, 10), (4096, 1, 0), (4096, 4095, 3), (4096, 256, 255), (2048, 18, 2), (256, 255, 2), (100, 60, 60 - 1), (1024, 16, 1)] {
        let o = lz(n, f, t, b'#', (n + f) % 2 == 0);
        let top = n.min(4096) as u16;
        for lits in [0, 1, n - f - 1, n - f, n - f + 1, n - 1, n, n + 1] {
            for d in [1u16, 2, 3, (n - f) as u16, (n - f) as u16 + 1, f as u16, f as u16 + 1, lits as u16, lits as u16 + 1, top - 1, top, top / 2] {
                if d < 1 || d > top {
                    continue;
                }
                for l in [t + 1, (t + 1 + f) / 2, f] {
                    g.put(Case::Tokens { c: Codec::Lz(o.clone()), lits: lits as u32, t: vec![(d, l as u16), (1, f as u16), (top, t as u16 + 1)], short: 0 });
                }
            }
        }
    }
    g.family("every precursor", 16);
    for fill in 0..=255u8 {
        for (n, f, t) in [(4096usize, 60usize, 2usize), (16, 5, 1), (100, 60, 60 - 1), (4156, 60, 2), (300, 40, 3)] {
            for head in [true, false] {
                let c = Codec::Lz(lz(n, f, t, fill, head));
                let (top, l) = (n.min(4096) as u16, t as u16 + 1);
                for lits in [0u32, 1, 7] {
                    for d in [lits as u16 + 1, (n - f) as u16, top] {
                        g.put(Case::Tokens { c: c.clone(), lits, t: vec![(d, f as u16), (0, fill as u16), (0, !fill as u16), (d, l), (top, l)], short: 0 });
                    }
                }
            }
        }
    }
    g.family("declared length inside the last copy and before it", 16);
    for c in &outs[..2] {
        for l in (3..=60u16).step_by(if th { 1 } else { 3 }) {
            for short in 0..=l as u32 + 3 {
                g.put(Case::Tokens { c: c.clone(), lits: 7, t: vec![(3, 9), (5, l)], short });
            }
        }
    }
    g.family("all byte strings as streams", 1);
    for c in [Codec::Lz(lz(4096, 60, 2, b' ', false)), Codec::Lz(lz(4097, 2, 1, 0, false)), Codec::Lz(lz(4100, 4, 0, 255, false))] {
        for k in 0..=2 {
            g.put(Case::Sweep { c: c.clone(), pre: D::Raw(vec![]), tail: k });
        }
        if th {
            for b in 0..=255u8 {
                g.put(Case::Sweep { c: c.clone(), pre: D::raw(&[b]), tail: 2 });
            }
        }
    }
    for n in [0u32, 1, 61, 300] {
        for c in [Codec::Lz(LZSTD), Codec::Port] {
            for k in 0..=if n == 300 { 2 } else { 1 } {
                g.put(Case::Sweep { c: c.clone(), pre: D::Raw(n.to_le_bytes().to_vec()), tail: k });
            }
        }
    }
    g.family("fixed long byte strings as streams", 2);
    for i in 0..if th { 1000u32 } else { 120 } {
        for (k, c) in [Codec::Lz(lz(4096, 60, 2, b' ', false)), Codec::Lz(LZSTD), Codec::Port, Codec::Lz(lz(4156, 60, 2, 0, false)), Codec::Lz(lz(5000, 1000, 3, 7, true)), Codec::Lz(lz(4097, 1, 1, 0, false))].into_iter().enumerate() {
            let n = [40u32, 300, 2000, 9000][(i % 4) as usize];
            let body = match i % 5 {
                0 => corpus::lcg(n, 256, (i * 7 + k as u32) as u64 + g.seed),
                1 => corpus::lcg(n, 3, (i + k as u32) as u64),
                2 => D::Per(Box::new(corpus::lcg(1 + i % 11, 256, i as u64)), n),
                3 => D::Runs(vec![((i * 53) as u8, n / 2), ((i * 91) as u8, n / 2)]),
                _ => D::Cat(vec![corpus::lcg(n / 2, 256, i as u64), D::Runs(vec![(0, n / 4), (255, n / 4)])]),
            };
            let d = match &c {
                Codec::Lz(o) if !o.head => body,
                _ => D::Cat(vec![D::Raw([1u32 << 20, 100_000, 60_000][(i % 3) as usize].to_le_bytes().to_vec()), body]),
            };
            g.put(Case::Bytes { c, d });
        }
    }
}
fn par(c: &Codec) -> (m::Par, bool, bool) {
    match c {
        Codec::Lz(o) => (o.par(), o.head, false),
        Codec::Port => (m::STD, true, true),
        _ => panic!("codec"),
    }
}
fn compare(c: &Codec, s: &[u8], st: &mut St) -> E {
    const CAP: usize = 1 << 22;
    let (p, head, zeros) = par(c);
    let (want, body) = if head {
        if s.len() < 4 {
            return Ok(());
        }
        (u32::from_le_bytes(s[..4].try_into().unwrap()) as u64, &s[4..])
    } else {
        (u64::MAX, s)
    };
    let r = m::decode(body, p, want.min(CAP as u64), zeros);
    let (x, out, hit) = capped(&exp(c), s, CAP);
    // output up to the first copy from outside the window
    let mut defined = 0;
    let mut all = true;
    for t in &r.toks {
        match *t {
            m::Tok::Lit(_) => defined += 1,
            m::Tok::Copy(d, _) if d > p.n => {
                all = false;
                break;
            }
            m::Tok::Copy(_, l) => defined += l,
        }
    }
    let fail = |w: &str| Err(format!("{}: {w}; stream {}, expected {}, got {}", name(c), show(s), show(&r.out), show(&out)));
    if hit {
        return fail("expansion does not end with the stream");
    }
    if all {
        if let Err(e) = x {
            return fail(&format!("expansion fails: {e:?}"));
        }
    }
    // the copy that reaches the declared length may be completed
    let least = (defined as u64).min(want) as usize;
    if out.len() < least {
        return fail("output is too short");
    }
    let k = out.len().min(defined);
    if out[..k] != r.out[..k] {
        return fail(&format!("output is not what the codes describe ({})", diff(&r.out[..k], &out[..k])));
    }
    if all && out.len() > r.out.len() {
        return fail("output is longer than what the codes describe");
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += r.toks.len() as u64;
    st.state(&[&(p.n as u32).to_le_bytes(), &(p.f as u32).to_le_bytes(), &(p.t as u32).to_le_bytes(), &[p.fill, zeros as u8], s, &out]);
    st.peak("longest output", out.len() as u64);
    st.outcome(if all { "as described" } else { "as described up to a copy from outside the window" });
    Ok(())
}
/// accepts data of period `dist` and only counts it
struct Periodic {
    want: Vec<u8>,
    pos: u64,
    end: u64,
    bad: Option<u64>,
}
impl std::io::Write for Periodic {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.want.len() as u64;
        for (i, x) in b.iter().enumerate() {
            let p = self.pos + i as u64;
            if self.bad.is_none() && *x != self.want[(p % n) as usize] {
                self.bad = Some(p);
            }
        }
        self.pos += b.len() as u64;
        self.end = self.end.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Periodic {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let v = match p {
            std::io::SeekFrom::Start(v) => v as i128,
            std::io::SeekFrom::End(o) => self.end as i128 + o as i128,
            std::io::SeekFrom::Current(o) => self.pos as i128 + o as i128,
        };
        if v < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = v as u64;
        Ok(self.pos)
    }
}
fn giant(c: &Codec, dist: usize, len: usize, copies: u32, st: &mut St) -> E {
    let (p, head, _) = par(c);
    let lits: Vec<u8> = (0..dist).map(|i| (i * 7 + i / 256 + 1) as u8).collect();
    let mut toks: Vec<m::Tok> = lits.iter().map(|b| m::Tok::Lit(*b)).collect();
    toks.extend((0..copies).map(|_| m::Tok::Copy(dist, len)));
    let total = dist as u64 + len as u64 * copies as u64;
    let mut s = vec![];
    if head {
        s.extend_from_slice(&(total.min(u32::MAX as u64) as u32).to_le_bytes());
    }
    s.extend_from_slice(&m::encode_toks(toks, p).body);
    let mut w = Periodic { want: lits, pos: 0, end: 0, bad: None };
    let r = run(&exp(c), &mut std::io::Cursor::new(&s), &mut w);
    let what = format!("{}: {dist} literals and {copies} copies of {len}, {total} bytes", name(c));
    let (_, n) = r.map_err(|e| format!("{what}: expansion fails: {e:?}"))?;
    if let Some(at) = w.bad {
        return Err(format!("{what}: byte {at} is not what the codes describe"));
    }
    // the last copy may be completed, and without header unused bits may be taken for codes
    let least = if head { total.min(u32::MAX as u64) } else { total };
    if w.end < least || w.end > least + if head { len as u64 } else { 7 + 7 * len as u64 } || n != w.end {
        return Err(format!("{what}: expansion yields {} bytes and reports {n}", w.end));
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += copies as u64;
    st.state(&[&total.to_le_bytes(), &w.end.to_le_bytes(), &[head as u8]]);
    st.peak("longest output", w.end);
    st.outcome("as described");
    Ok(())
}
pub fn check18(c: &Case, st: &mut St) -> E {
    match c {
        Case::Tokens { c, lits, t, short } => {
            let (p, head, _) = par(c);
            let mut toks: Vec<m::Tok> = (0..*lits).map(|i| m::Tok::Lit((i * 7 + i / 256 + 1) as u8)).collect();
            toks.extend(t.iter().map(|&(d, l)| if d == 0 { m::Tok::Lit(l as u8) } else { m::Tok::Copy(d as usize, l as usize) }));
            let total: usize = toks.iter().map(|t| if let m::Tok::Copy(_, l) = t { *l } else { 1 }).sum();
            let e = m::encode_toks(toks, p);
            let mut s = vec![];
            if head {
                s.extend_from_slice(&((total as u32).saturating_sub(*short)).to_le_bytes());
            }
            s.extend_from_slice(&e.body);
            compare(c, &s, st)
        }
        Case::Bytes { c, d } => compare(c, &d.build(), st),
        Case::Giant { c, dist, len, copies } => giant(c, *dist as usize, *len as usize, *copies, st),
        Case::Sweep { c, pre, tail } => {
            let mut s = pre.build();
            let k = s.len();
            s.resize(k + *tail as usize, 0);
            loop {
                compare(c, &s, st)?;
                let mut p = s.len();
                while p > k && s[p - 1] == 255 {
                    s[p - 1] = 0;
                    p -= 1;
                }
                if p == k {
                    return Ok(());
                }
                s[p - 1] += 1;
            }
        }
        _ => panic!("case"),
    }
}

// ---------- C19 ----------
pub const INFO19: Info = Info {
    rule: "one execution = expansion of a stream that marks its end, followed by one tail; compared with the expansion without the tail",
    states: "distinct (codec, stream, tail) observations",
    transitions: "bytes offered to the decoders",
    traces: "expansions compared with the data",
    bounds: "all listed inputs and options times every single byte, all pairs of bytes of the listed set, paddings up to every multiple of 128, 256, 512 and 1024, whole further streams and noise as tails",
    assumptions: &["LZW streams without stop code and LZSS/Huffman streams without header do not mark their end"],
};
pub fn gen19(g: &mut Gen) {
    let th = g.thorough;
    let mut cs = vec![Codec::Lz(LZSTD), Codec::Port, Codec::Lw(LwX::new(mw::STD))];
    for (n, f, t, fill) in [(9usize, 3usize, 1usize, 0u8), (4, 2, 2, 32), (256, 18, 2, 0), (4156, 60, 2, 32), (1024, 255, 0, 7)] {
        cs.push(Codec::Lz(lz(n, f, t, fill, true)));
    }
    for (hb, hd, chunk, max, clear, stop, width) in [(0usize, 1usize, 4096usize, 255usize, Some(256usize), Some(257usize), 12usize), (0, 1, 4096, 255, Some(257), Some(256), 9), (0, 1, 50, 255, Some(256), Some(257), 16), (16, 4, 100, 255, None, Some(256), 12), (16, 1, 10, 255, Some(4095), Some(4094), 12), (5, 3, 2, 3, None, Some(7), 3), (0, 1, 3, 1, Some(2), Some(3), 2), (0, 1, 7, 15, Some(30), Some(31), 5), (0, 1, 1000, 3, Some(5), Some(4), 11)] {
        for msb in [false, true] {
            cs.push(Codec::Lw(LwX::new(mw::LwO { hb, hd, chunk, max, clear, stop, width, msb })));
        }
    }
    g.family("short inputs", 4);
    for c in &cs {
        strings(&[0, 1], 0, if th { 6 } else { 4 }, &mut |s| g.put(Case::Tails { c: c.clone(), d: D::raw(s), all: th || s.len() < 2 }));
    }
    g.family("every number of free bits in the last byte", 4);
    for c in &cs {
        for n in 5..=if th { 60u32 } else { 21 } {
            g.put(Case::Tails { c: c.clone(), d: D::Lcg { n, alpha: 2, seed: n as u64 }, all: th });
            g.put(Case::Tails { c: c.clone(), d: D::Runs(vec![(0, n), (1, n / 3)]), all: th });
        }
    }
    g.family("longer inputs", 1);
    for c in &cs {
        let small = matches!(c, Codec::Lw(o) if o.o.max < 255);
        let mut ds = vec![];
        for n in [300u32, 2000, 8190, 9000] {
            if small {
                ds.push(D::Runs((0..n / 4).map(|i| ((i * i / 3 % 2) as u8, 1 + i % 4)).collect()));
            } else {
                ds.extend([corpus::lcg(n, 256, n as u64), D::Text { n, seed: 2 }, D::Runs(vec![(9, n), (b' ', n)])]);
            }
        }
        for d in ds {
            g.put(Case::Tails { c: c.clone(), d, all: false });
        }
    }
}
pub fn check19(c: &Case, st: &mut St) -> E {
    let Case::Tails { c, d, all } = c else { panic!("case") };
    let mut d = d.build();
    if let Codec::Lw(o) = c {
        if o.o.max < 255 {
            d.iter_mut().for_each(|b| *b %= o.o.max as u8 + 1);
        }
    }
    let z = match mem(&cmp(c), &d) {
        Ok(z) => z.0,
        Err(e) => return Err(format!("{}: compression fails: {e:?} on {}", name(c), show(&d))),
    };
    let (x0, b0) = match mem(&exp(c), &z) {
        Ok((x, _, b)) => (x, b),
        Err(e) => return Err(format!("{}: expansion of its own stream fails: {e:?}, data {}", name(c), show(&d))),
    };
    if x0 != d {
        return Err(format!("{}: expansion differs from the data ({}), data {}", name(c), diff(&d, &x0), show(&d)));
    }
    let mut tails: Vec<Vec<u8>> = vec![];
    for b in 0..=255u8 {
        if *all || [0, 1, 0x1a, 0x20, 0x55, 0x7f, 0x80, 0xaa, 0xe5, 0xff].contains(&b) {
            tails.push(vec![b]);
            if z.len() < 200 {
                for e in [0u8, 1, 0x80, 0xff] {
                    tails.push(vec![b, e]);
                }
            }
        }
    }
    for b in [0u8, 0x1a, 0xe5, 0xff] {
        for unit in [128usize, 256, 512, 1024] {
            tails.push(vec![b; (unit - z.len() % unit) % unit]);
        }
        tails.push(vec![b; 8192 - z.len() % 8192]);
        for k in 3..12 {
            tails.push(vec![b; k]);
        }
    }
    tails.push(z.clone());
    tails.push(z[z.len() / 2..].to_vec());
    for n in [5u32, 60, 700, 9000] {
        tails.push(corpus::lcg(n, 256, n as u64).build());
    }
    for t in tails {
        let mut s = z.clone();
        s.extend_from_slice(&t);
        match mem(&exp(c), &s) {
            Ok((x, _, b)) => {
                if x != d || b != b0 {
                    return Err(format!("{}: {} bytes behind the end of the stream change the result ({}); data {}, tail {}, expanded {}, size {b} instead of {b0}", name(c), t.len(), diff(&d, &x), show(&d), show(&t), show(&x)));
                }
            }
            Err(e) => return Err(format!("{}: bytes behind the end of the stream make the expansion fail: {}; data {}, tail {}", name(c), show_r(&Err(e)), show(&d), show(&t))),
        }
        st.evals += 1;
        st.traces += 1;
        st.trans += s.len() as u64;
        st.state(&[name(c).as_bytes(), &z, &t]);
    }
    st.outcome("tails ignored");
    Ok(())
}
