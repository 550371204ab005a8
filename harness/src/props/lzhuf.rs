//! C01, C02, C05, C16: LZSS with adaptive Huffman coding.
use super::*;
use crate::data::*;
use crate::eng::{diff, show, show_r};
use crate::model_lzhuf as m;

// ---------- C01 ----------
pub const INFO01: Info = Info {
    rule: "one execution = compress with the real code, expand with the real code; a case is non-trivial when the data is not empty",
    states: "distinct observations (input, compressed stream) of both implementations",
    transitions: "symbols consumed by the encoders plus compressed bytes consumed by the decoders",
    traces: "compress/expand runs whose result was compared with the specification (identity)",
    bounds: "all inputs of the listed families (see families: exhaustive small alphabets, every period/distance/length at the window edges, around every rescaling of the model), standard options",
    assumptions: &["inputs outside the families are not explored", "in-memory streams (I/O behaviour is C10/C11)"],
};
pub fn gen01(g: &mut Gen) {
    corpus::std_inputs(g, &|d| Case::Data { c: Codec::Port, d });
    g.family("lengths of more bits", 1);
    for bits in if g.thorough { vec![25u32, 26, 27] } else { vec![25] } {
        g.put(Case::Data { c: Codec::Port, d: D::Cat(vec![D::raw(b"longer"), D::Runs(vec![(b'A', (1 << bits) - 5)])]) });
    }
}
fn pos(op: &Op, d: &[u8]) -> Result<Vec<u8>, String> {
    mem(op, d).map(|x| x.0).map_err(|e| format!("{} {} fails: {e:?} on {}", name(&op.c), if op.x { "expansion" } else { "compression" }, show(d)))
}
pub fn name(c: &Codec) -> String {
    match c {
        Codec::Lz(o) if *o == LZSTD => "lzss_huff(std)".into(),
        Codec::Lz(o) => format!("lzss_huff({o:?})"),
        Codec::Port => "lzhuf-port".into(),
        Codec::Lw(o) => format!("lzw({o:?})"),
        Codec::Td => "td0".into(),
    }
}
fn round(c: &Codec, d: &[u8], st: &mut St) -> E {
    let z = pos(&cmp(c), d)?;
    let x = pos(&exp(c), &z)?;
    if x != d {
        return Err(format!("{}: expansion differs from the data ({}); data {}, compressed {}, expanded {}", name(c), diff(d, &x), show(d), show(&z), show(&x)));
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += (d.len() + z.len()) as u64;
    st.state(&[d, &z]);
    Ok(())
}
pub fn check01(c: &Case, st: &mut St) -> E {
    let Case::Data { d, .. } = c else { panic!("case") };
    let d = d.build();
    round(&Codec::Lz(LZSTD), &d, st)?;
    round(&Codec::Port, &d, st)?;
    st.peak("longest input", d.len() as u64);
    st.outcome("round trip");
    Ok(())
}

// ---------- C05 ----------
pub const INFO05: Info = Info {
    rule: "reference LZHUF model and both implementations run on the same input; streams compared bit for bit, every decoder run on the stream of every encoder",
    states: "distinct (input, stream) observations",
    transitions: "tokens of the reference model",
    traces: "model traces (token sequences with their bits) compared with the streams of the two encoders",
    bounds: "the inputs of the listed families plus all hand-built token streams of the families named so",
    assumptions: &["the reference model is a re-implementation of LZHUF.C written from the published algorithm; LZHUF.C itself cannot be run here", "codes longer than 16 bits, which LZHUF.C cannot represent, are only cross-checked"],
};
pub fn gen05(g: &mut Gen) {
    corpus::std_inputs(g, &|d| Case::Data { c: Codec::Port, d });
    // decoders on token streams chosen freely: every position at every bit phase, every length
    g.family("token streams: every distance, eight bit phases", 8);
    let step = if g.thorough { 1 } else { 7 };
    for dist in (1..=4096u16).step_by(step) {
        for ph in 0..if g.thorough { 8u16 } else { 2 } {
            // literals of different code lengths shift the phase
            let mut t: Vec<(u16, u16)> = (0..(ph * 4 + dist / 7) % 13).map(|i| (0, (i * 41 + ph) % 256)).collect();
            t.push((dist, 3 + dist % 58));
            t.push((4097 - dist, 60));
            t.push((0, 65));
            g.put(Case::Toks { head: true, t });
        }
    }
    g.family("token streams: every pair of lengths", 8);
    for a in 3..=60u16 {
        for b in (3..=60u16).step_by(if g.thorough { 1 } else { 3 }) {
            g.put(Case::Toks { head: a % 2 == 0, t: vec![(0, 97), (0, 98), (1, a), (2, b), (a + 1, 3), (0, 33)] });
        }
    }
}
pub fn check05(c: &Case, st: &mut St) -> E {
    match c {
        Case::Toks { head, t } => {
            let toks: Vec<m::Tok> = t.iter().map(|&(d, l)| if d == 0 { m::Tok::Lit(l as u8) } else { m::Tok::Copy(d as usize, l as usize) }).collect();
            let e = m::encode_toks(toks, m::STD);
            let full = m::decode(&e.body, m::STD, u64::MAX, false);
            // what the tokens stand for, by the definition of a copy
            let mut win = vec![0u8; 4096 - 60 - (4096 - 60)];
            win.resize(8192, 0);
            let mut out: Vec<u8> = vec![];
            let at = |out: &Vec<u8>, i: i64| -> u8 {
                if i >= 0 {
                    out[i as usize]
                } else if i >= -4036 {
                    b' '
                } else {
                    0
                }
            };
            for &(d, l) in t {
                if d == 0 {
                    out.push(l as u8);
                } else {
                    for _ in 0..l {
                        let b = at(&out, out.len() as i64 - d as i64);
                        out.push(b);
                    }
                }
            }
            let mut s = (out.len() as u32).to_le_bytes().to_vec();
            s.extend_from_slice(&e.body);
            if full.out.len() < out.len() || full.out[..out.len()] != out[..] {
                panic!("reference model disagrees with itself");
            }
            // distances reaching behind the precursor are not defined by the format: only compare when none does
            let mut n = 0i64;
            let defined = t.iter().all(|&(d, l)| {
                let ok = d == 0 || n - d as i64 >= -4036;
                n += if d == 0 { 1 } else { l as i64 };
                ok
            });
            if !defined {
                return Ok(());
            }
            for c in [Codec::Lz(LZSTD), Codec::Port] {
                let x = pos(&exp(&c), &s)?;
                if x != out {
                    return Err(format!("{} expands the token stream {t:?} wrongly: {}", name(&c), diff(&out, &x)));
                }
            }
            if *head {
                let o = LzO::new(4096, 60, 2, b' ', false);
                let x = pos(&exp(&Codec::Lz(o)), &e.body)?;
                if x.len() < out.len() || x[..out.len()] != out[..] {
                    return Err(format!("headerless expansion of the token stream {t:?} is wrong: {}", diff(&out, &x)));
                }
            }
            st.evals += 2;
            st.traces += 2;
            st.trans += t.len() as u64;
            st.state(&[&s]);
            st.outcome("token stream decoded");
            Ok(())
        }
        Case::Data { d, .. } => {
            let d = d.build();
            let e = m::encode(&d, m::STD);
            let mut s = (d.len() as u32).to_le_bytes().to_vec();
            s.extend_from_slice(&e.body);
            let lz = Codec::Lz(LZSTD);
            let a = slice(&cmp(&lz), &d).map_err(|e| format!("lzss_huff compression fails: {e:?} on {}", show(&d)))?;
            let b = slice(&cmp(&Codec::Port), &d).map_err(|e| format!("lzhuf-port encoding fails: {e:?} on {}", show(&d)))?;
            if e.max_code <= 16 {
                if a != s {
                    return Err(format!("lzss_huff stream is not LZHUF's: {}; data {}, expected {}, got {}", diff(&s, &a), show(&d), show(&s), show(&a)));
                }
                if b != s {
                    return Err(format!("lzhuf-port stream is not LZHUF's: {}; data {}, expected {}, got {}", diff(&s, &b), show(&d), show(&s), show(&b)));
                }
                st.traces += 2;
                st.outcome("stream equals the model's");
            } else {
                st.outcome("codes beyond 16 bits: cross-decoded only");
            }
            let same = a == b;
            for (by, z) in [("lzss_huff", &a), ("lzhuf-port", &b)] {
                if by == "lzhuf-port" && same {
                    break;
                }
                for c in [&lz, &Codec::Port] {
                    let x = slice(&exp(c), z);
                    if x.as_deref() != Ok(&d[..]) {
                        return Err(format!("{} does not expand the stream of {by} back to the data: {} from data {}", name(c), show_r(&x), show(&d)));
                    }
                }
            }
            st.evals += 1;
            st.trans += e.toks.len() as u64;
            st.state(&[&d, &a]);
            st.peak("longest code", e.max_code as u64);
            st.peak("rescalings", e.rebuilds as u64);
            st.peak("longest input", d.len() as u64);
            Ok(())
        }
        _ => panic!("case"),
    }
}

// ---------- C02 ----------
pub const INFO02: Info = Info {
    rule: "one execution = compress and expand with the same option set",
    states: "distinct observations (options, input, stream)",
    transitions: "symbols consumed by the encoder plus compressed bytes consumed by the decoder",
    traces: "runs whose result was compared with the specification (identity, plus at most seven bytes without header)",
    bounds: "all option sets of the listed grids times all strings / lassos of the listed lengths; large option sets times the listed data families",
    assumptions: &["option sets outside the grids are not explored"],
};
/// small option sets: every window, lookahead, threshold in range
fn grid(g: &Gen) -> Vec<LzO> {
    let mut v = vec![];
    let top = if g.thorough { 14 } else { 9 };
    for n in 2..=top {
        for f in 1..n {
            if f > 7 && !g.thorough {
                continue;
            }
            for t in 0..=f.min(4) {
                for (fill, head) in [(b'a', true), (b' ', false)] {
                    v.push(LzO::new(n, f, t, fill, head));
                }
            }
        }
    }
    v
}
fn big(g: &Gen) -> Vec<LzO> {
    let mut v = vec![];
    let ns: &[usize] = if g.thorough { &[15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4000, 4095, 4096, 4097, 4156] } else { &[16, 17, 32, 64, 256, 1000, 4096, 4156] };
    for &n in ns {
        for f in [1usize, 2, 3, 4, 5, 8, 15, 16, 17, 18, 60, 61, 64, 200, 255, 256, 300, 1000] {
            if f >= n || n - f > 4096 {
                continue;
            }
            for t in [0usize, 1, 2, 3, 4, 5, 9, 21, 60, 130, 255, 256, 257] {
                if t > f {
                    continue;
                }
                if !g.thorough && (f * 7 + t * 3 + n) % 4 != 0 && !(f == 60 && t == 2) {
                    continue;
                }
                let (fill, head) = if (n + f + t) % 2 == 0 { (0u8, true) } else { (b' ', false) };
                v.push(LzO::new(n, f, t, fill, head));
                if f == 60 && t == 2 {
                    v.push(LzO::new(n, f, t, fill, !head));
                }
            }
        }
    }
    for (n, f, t) in [(4097usize, 1usize, 1usize), (4097, 1, 0), (4200, 104, 2), (4200, 104, 104), (5000, 1000, 10), (3000, 1500, 1), (5001, 4096, 3), (4098, 4096, 0)] {
        v.push(LzO::new(n, f, t, (n % 256) as u8, t % 2 == 0));
    }
    v
}
pub fn lassos(u: usize, v: usize, n: u32, f: &mut dyn FnMut(D)) {
    rgs(b"ab", 0, u, &mut |x| {
        let x = x.to_vec();
        strings(b"ab", 1, v, &mut |y| f(D::Cat(vec![D::raw(&x), D::Per(Box::new(D::raw(y)), n)])));
    });
}
fn gen_opts(g: &mut Gen) {
    let th = g.thorough;
    let gr = grid(g);
    g.family("small option sets x all strings over two letters", 256);
    for o in &gr {
        strings(b"ab", 0, if th { 10 } else { 8 }, &mut |s| g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::raw(s) }));
    }
    g.family("small option sets x all strings over three letters", 256);
    for o in &gr {
        strings(b"a b", 1, if th { 7 } else { 4 }, &mut |s| g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::raw(s) }));
    }
    g.family("small option sets x lassos", 256);
    for o in &gr {
        lassos(if th { 4 } else { 2 }, if th { 5 } else { 3 }, 36, &mut |d| g.put(Case::Data { c: Codec::Lz(o.clone()), d }));
    }
    g.family("small option sets x noise", 64);
    for o in &gr {
        for a in [2u32, 3, 5, 256] {
            for n in [20u32, 60, 200] {
                g.put(Case::Data { c: Codec::Lz(o.clone()), d: corpus::lcg(n, a, (o.n * 31 + o.f) as u64 + g.seed) });
            }
        }
    }
    let bg = big(g);
    g.family("larger option sets x structured data", 4);
    for o in &bg {
        let n = (o.n as u32 * 2 + 300).min(6000);
        let f = o.f as u32;
        let mut ds = vec![
            D::Raw(vec![]),
            D::raw(b"x"),
            D::Runs(vec![(b'q', f.max(1))]),
            D::Runs(vec![(o.fill, f + 1)]),
            D::Runs(vec![(b'q', 1), (o.fill, 3 * f + 2), (b'q', f + 1), (o.fill, 1)]),
            corpus::lcg(n, 2, 1),
            corpus::lcg(n, 4, 2),
            D::Thue(n),
            D::Text { n, seed: g.seed },
            D::Per(Box::new(corpus::lcg((o.n - o.f) as u32, 100, 3)), n),
            D::Per(Box::new(corpus::lcg((o.n - o.f) as u32 + 1, 100, 4)), n),
        ];
        if th {
            ds.extend([corpus::lcg(n, 256, 5), corpus::lcg(n, 3, 6), D::Fibo(n), D::Disk { sectors: 12, seed: 9 }, D::Per(Box::new(corpus::lcg(o.n as u32, 100, 7)), n), D::Ctr(n), D::Skew { n, ratio: 70, seed: 3 }]);
        }
        ds.extend(agreeing(o, 17));
        if !th && o.f == 1000 && o.n > 2000 && o.t > 0 {
            ds.retain(|d| !matches!(d, D::Runs(v) if v.len() == 4));
        }
        if o.f > 1000 {
            // runs make the index a list whose entries agree in thousands of places: too slow
            ds.retain(|d| matches!(d, D::Raw(_) | D::Lcg { .. } | D::Text { .. } | D::Per(..) | D::Cat(_)));
            ds.push(D::Runs(vec![(b'q', 700), (b'r', 5), (b'q', 900)]));
        }
        for d in ds {
            g.put(Case::Data { c: Codec::Lz(o.clone()), d });
        }
    }
}
/// strings that agree for exactly as many symbols as matter to the option set
fn agreeing(o: &LzO, seed: u64) -> Vec<D> {
    let base = corpus::lcg(o.f as u32 + 4, 200, seed);
    let cut = |l: usize| D::Slice(Box::new(base.clone()), 0, l.min(o.f + 4) as u32);
    let list = |ls: &[usize]| -> D {
        let mut v = vec![];
        for (k, l) in ls.iter().enumerate() {
            v.push(cut(*l));
            // separators differ, so that no match goes on behind them
            v.push(D::raw(&[201 + (k * 7 % 54) as u8]));
        }
        D::Cat(v)
    };
    let f = o.f;
    let t = o.t;
    let mut v = vec![
        list(&[t + 3, t, t + 1, t + 2, t + 1, t, t + 3, t.max(1) - 1, t + 1]),
        list(&[f, f - 1, f - 1, f, f + 1, f - 1, f, f.max(2) - 2, f - 1, f, f + 2]),
        list(&[f.max(2) - 2, f - 1, f, f - 1, f + 1, f, f.max(2) - 2, f]),
    ];
    // the previous string has to be in the window
    if f >= o.n - f || f > 1000 {
        v.truncate((t + 4 < o.n - f) as usize);
    }
    // the same around every power of two and byte size
    for k in [2usize, 8, 15, 16, 32, 64, 127, 128, 255, 256, 512] {
        if k > t && k < f && k + 2 < o.n - f {
            v.push(list(&[k, k - 1, k + 1, k, k + 1, k - 1, k]));
        }
    }
    v
}
pub fn gen02(g: &mut Gen) {
    gen_opts(g);
    g.family("every precursor value", 16);
    for b in 0..=255u8 {
        for o in [LzO::new(9, 3, 1, b, false), LzO::new(64, 18, 2, b, true)] {
            g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::Runs(vec![(b, 7), (b ^ 1, 5), (b, 30), (7, 1), (b, 2)]) });
        }
    }
    // the unused bits of the last byte: every tail length
    g.family("headerless tails", 16);
    let o = LzO::new(4096, 60, 2, b' ', false);
    for n in 1..=if g.thorough { 300 } else { 90 } {
        for a in [2u32, 3, 64, 256] {
            g.put(Case::Data { c: Codec::Lz(o.clone()), d: corpus::lcg(n, a, n as u64) });
        }
        g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::Runs(vec![(b'z', n * 3)]) });
    }
    g.family("headerless tails, pure Huffman", 16);
    let o = LzO::new(4, 2, 2, b' ', false);
    for n in 1..=if g.thorough { 4000 } else { 700 } {
        g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::Runs(vec![(b'z', n)]) });
        g.put(Case::Data { c: Codec::Lz(o.clone()), d: D::Skew { n, ratio: 30, seed: n as u64 } });
    }
    g.family("a million symbols and more", 1);
    for o in [LzO::new(4096, 60, 2, b' ', false), LzO::new(4156, 60, 2, 32, true), LzO::new(300, 40, 3, 0, true), LzO::new(4, 2, 2, 0, true)] {
        g.put(Case::Data { c: Codec::Lz(o), d: corpus::lcg(if g.thorough { 5_000_000 } else { 1_300_000 }, 256, 6) });
    }
    g.family("long inputs", 1);
    for o in [LzO::new(4096, 60, 2, b' ', false), LzO::new(256, 18, 2, 0, true), LzO::new(4156, 60, 2, 32, true), LzO::new(64, 4, 4, 0, true), LzO::new(9, 4, 1, 0, false), LzO::new(1024, 255, 0, 32, true)] {
        for d in [corpus::lcg(40000, 256, 1), corpus::lcg(60000, 16, 2), D::Disk { sectors: 200, seed: 2 }, D::Chain { base: 157, sets: if g.thorough { 4 } else { 1 } }, D::Text { n: 120_000, seed: 3 }] {
            g.put(Case::Data { c: Codec::Lz(o.clone()), d });
        }
    }
}
pub fn check02(c: &Case, st: &mut St) -> E {
    let Case::Data { c: Codec::Lz(o), d } = c else { panic!("case") };
    let c = Codec::Lz(o.clone());
    let d = d.build();
    let z = pos(&cmp(&c), &d)?;
    let x = pos(&exp(&c), &z)?;
    let ok = if o.head { x == d } else { x.len() >= d.len() && x.len() <= d.len() + 7 && x[..d.len()] == d[..] };
    if !ok {
        return Err(format!("{}: expansion differs from the data ({}); data {}, compressed {}, expanded {}", name(&c), diff(&d, &x), show(&d), show(&z), show(&x)));
    }
    if !o.head {
        st.peak("spurious bytes", (x.len() - d.len()) as u64);
    }
    st.evals += 1;
    st.traces += 1;
    st.trans += (d.len() + z.len()) as u64;
    st.state(&[&(o.n as u32).to_le_bytes(), &(o.f as u32).to_le_bytes(), &(o.t as u32).to_le_bytes(), &[o.fill, o.head as u8], &d, &z]);
    st.outcome(if x.len() == d.len() { "exact" } else { "exact plus padding" });
    Ok(())
}

// ---------- C16 ----------
pub const INFO16: Info = Info {
    rule: "the real encoder's stream is split into tokens by the reference decoder; each token is compared with a brute-force search of the window",
    states: "distinct (options, token, position modulo window) triples seen",
    transitions: "tokens checked",
    traces: "streams whose whole token sequence was checked",
    bounds: "all option sets of the listed grids times all strings / lassos of the listed lengths; standard options with the listed families",
    assumptions: &["matches with the precursor bytes before the data may be found or missed: only longest matches within the data are required"],
};
pub fn gen16(g: &mut Gen) {
    gen_opts(g);
    let c = Codec::Lz(LZSTD);
    g.family("standard options: window edge", 4);
    for m in [3u32, 4, 30, 59, 60, 61] {
        for dist in (4028..=4044).chain(4090..=4100) {
            let a = corpus::lcg(m, 100, 7 + m as u64);
            for c in [&c, &Codec::Port] {
                g.put(Case::Data { c: c.clone(), d: D::Cat(vec![a.clone(), corpus::lcg(dist - m, 256, 3), a.clone(), D::raw(b"!")]) });
            }
        }
    }
    g.family("standard options: structured data", 2);
    for n in if g.thorough { vec![300u32, 5000, 9000, 20000] } else { vec![300u32, 5000, 9000] } {
        for d in [D::Thue(n), D::Fibo(n), D::Ctr(n), D::Pairs(n), D::Text { n, seed: g.seed }, D::Disk { sectors: n / 512, seed: 1 }, corpus::lcg(n, 2, 1), corpus::lcg(n, 3, 1), corpus::lcg(n, 16, 2), D::Skew { n, ratio: 60, seed: 1 }] {
            for c in [&c, &Codec::Port] {
                g.put(Case::Data { c: c.clone(), d: d.clone() });
            }
        }
    }
    g.family("standard options: positions beyond 16 bits", 1);
    for d in [corpus::lcg(70_000, 256, 3), corpus::lcg(70_000, 9, 4), D::Text { n: 140_000, seed: 5 }] {
        for c in [&c, &Codec::Port] {
            g.put(Case::Data { c: c.clone(), d: d.clone() });
        }
    }
    g.family("standard options: all strings over two letters", 32);
    strings(b"ab", 1, if g.thorough { 12 } else { 9 }, &mut |s| g.put(Case::Data { c: if s.len() % 2 == 0 { c.clone() } else { Codec::Port }, d: D::raw(s) }));
}
pub fn check16(c: &Case, st: &mut St) -> E {
    let Case::Data { c, d } = c else { panic!("case") };
    let o = match c {
        Codec::Lz(o) => o.clone(),
        _ => LZSTD,
    };
    let p = o.par();
    let d = d.build();
    let z = pos(&cmp(c), &d)?;
    if z.len() < 4 && o.head {
        return Err(format!("{}: no header in {}", name(c), show(&z)));
    }
    let body = &z[if o.head { 4 } else { 0 }..];
    let r = m::decode(body, p, d.len() as u64, false);
    if r.out != d {
        // not this property: the stream is not understood by the reference (C01, C02, C05)
        st.outcome("stream not understood");
        return Err(format!("{}: the stream does not describe the data ({}), data {}, stream {}", name(c), diff(&d, &r.out), show(&d), show(&z)));
    }
    let mut at = 0usize;
    for (k, t) in r.toks.iter().enumerate() {
        let (len, dist) = match *t {
            m::Tok::Lit(_) => (1, 0),
            m::Tok::Copy(d, l) => (l, d),
        };
        let lit = dist == 0;
        let fail = |w: &str| Err(format!("{}: token {k} ({t:?}) at {at} {w}; data {}", name(c), show(&d)));
        if !lit {
            if len > p.f {
                return fail("is longer than the lookahead");
            }
            if at + len > d.len() {
                return fail("is longer than the remaining data");
            }
            if len <= p.t {
                return fail("is not longer than the threshold");
            }
            if dist > p.n - p.f {
                return fail("refers to data that has left the window");
            }
            if dist > at && dist - at > p.n - p.f {
                return fail("refers to data that has not been produced");
            }
        }
        let best = m::longest(&d, at, p, (p.n - p.f).min(at));
        let got = if lit { 0 } else { len };
        if best > p.t && got < best {
            return fail(&format!("misses a match of length {best}"));
        }
        st.state(&[&(p.n as u32).to_le_bytes(), &(p.f as u32).to_le_bytes(), &(p.t as u32).to_le_bytes(), &(len as u32).to_le_bytes(), &(dist as u32).to_le_bytes(), &((at % p.n) as u32).to_le_bytes()]);
        st.trans += 1;
        at += len;
    }
    st.evals += 1;
    st.traces += 1;
    st.outcome("greedy");
    Ok(())
}
