//! C10, C11: the environment's answers; C17: cuts.
use super::lzhuf::name;
use super::*;
use crate::data::*;
use crate::eng::{diff, show, show_r};
use crate::model_lzhuf as m;
use crate::model_lzw::{self as mw, LwO};

fn lz(n: usize, f: usize, t: usize, head: bool) -> Codec {
    Codec::Lz(LzO::new(n, f, t, b' ', head))
}
fn lw(o: LwO) -> Codec {
    Codec::Lw(LwX::new(o))
}
/// the stream an expansion is given: always from the reference coders
pub fn model_stream(c: &Codec, d: &[u8]) -> Vec<u8> {
    match c {
        Codec::Lz(o) => {
            let mut v = vec![0; o.ino as usize];
            if o.head {
                v.extend((d.len() as u32).to_le_bytes());
            }
            if !d.is_empty() {
                v.extend(m::encode(d, o.par()).body);
            }
            v
        }
        Codec::Port => {
            let mut v = (d.len() as u32).to_le_bytes().to_vec();
            if !d.is_empty() {
                v.extend(m::encode(d, m::STD).body);
            }
            v
        }
        Codec::Lw(o) => {
            let mut v = vec![0; o.ino as usize];
            v.extend(mw::encode(d, &o.o));
            v
        }
        Codec::Td => {
            let h: [u8; 8] = d[2..10].try_into().unwrap();
            let mut v = td_image(true, &h, &[]);
            if h[2] < 20 {
                v.extend(mw::encode(&d[12..], &mw::TD1));
            } else if d.len() > 12 {
                v.extend(m::encode(&d[12..], m::STD).body);
            }
            v
        }
    }
}
/// operations with inputs; the input of an expansion is the reference stream of the data
pub fn ops() -> Vec<Codec> {
    vec![
        lz(4096, 60, 2, true),
        lz(4096, 60, 2, false),
        lz(8, 3, 1, true),
        Codec::Port,
        lw(mw::STD),
        lw(mw::TD1),
        lw(LwO { chunk: 3, ..mw::STD }),
        lw(LwO { hb: 12, hd: 1, chunk: 2, max: 255, clear: None, stop: None, width: 9, msb: true }),
        Codec::Td,
    ]
}
fn td_of(v: u8, d: &D) -> D {
    let mut h = td::H2;
    h[2] = v;
    D::Raw(td_image(false, &h, &d.build()))
}
/// (operation, data): for an expansion the data is what the stream stands for
fn pairs(inputs: &[D]) -> Vec<(Op, D)> {
    let mut v = vec![];
    for d in inputs {
        for c in ops() {
            let ds = if c == Codec::Td { vec![td_of(10, d), td_of(21, d)] } else { vec![d.clone()] };
            for d in ds {
                v.push((cmp(&c), d.clone()));
                v.push((exp(&c), d));
            }
        }
    }
    v
}
fn input_of(op: &Op, d: &D) -> Vec<u8> {
    let d = d.build();
    if op.x {
        model_stream(&op.c, &d)
    } else {
        d
    }
}

// ---------- C10 ----------
pub const INFO10: Info = Info {
    rule: "one execution = one operation under one pattern of short reads, short writes and interrupted calls; the patterns with up to `depth` deviations are enumerated completely, each deviation at each call index",
    states: "distinct (operation, input, sequence of stream calls) observations",
    transitions: "stream calls made",
    traces: "executions whose result, sizes and output were compared with the undisturbed run",
    bounds: "deviations: a read or write of one byte, an interrupted read or write, at every call index, depth as given in the cases; besides every uniform limit 1, 2, 3, 7 on read and write sizes",
    assumptions: &["seek and flush are not interrupted (std does not retry them)", "deviation depth 2 at most"],
};
pub fn gen10(g: &mut Gen) {
    let th = g.thorough;
    let small = [D::Raw(vec![]), D::raw(b"a"), D::raw(b"abcabcabcab"), D::Runs(vec![(b'a', 70)]), D::raw(&[0, 255, 0, 255, 32, 32, 32])];
    g.family("one deviation at every call", 1);
    let mid = [corpus::lcg(150, 256, 1), D::Text { n: 300, seed: 2 }, D::Runs(vec![(7, 400)])];
    for (op, d) in pairs(&small).into_iter().chain(pairs(&mid)) {
        g.put(Case::Env { op, d, depth: 1, part: 0, parts: 1, rmax: 0, wmax: 0 });
    }
    g.family("one deviation at every call, transfers of at most so many bytes", 1);
    for k in [1u32, 2, 3] {
        for (op, d) in pairs(&small).into_iter().chain(pairs(&mid)) {
            g.put(Case::Env { op, d, depth: 1, part: 0, parts: 1, rmax: k, wmax: k });
        }
    }
    g.family("two deviations at all pairs of calls", 1);
    let few = [D::raw(b"a"), D::raw(b"abcabcab"), D::Runs(vec![(b'a', 20)])];
    for (op, d) in pairs(if th { &small } else { &few }) {
        let parts = if th { 4 } else { 1 };
        for part in 0..parts {
            g.put(Case::Env { op: op.clone(), d: d.clone(), depth: 2, part, parts, rmax: 0, wmax: 0 });
        }
    }
    if th {
        g.family("two deviations, longer inputs", 1);
        for (op, d) in pairs(&[D::raw(b"I am Sam. Sam I am. I do not like"), corpus::lcg(40, 256, 5)]) {
            for part in 0..16 {
                g.put(Case::Env { op: op.clone(), d: d.clone(), depth: 2, part, parts: 16, rmax: 0, wmax: 0 });
            }
        }
    }
    g.family("uniform transfer limits", 1);
    // long strings per code, so that single writes exceed any buffer
    let mut chain = D::Runs(vec![(b'a', 8300)]);
    let mut big = vec![corpus::lcg(9000, 256, 3), D::Text { n: 20_000, seed: 4 }, D::Disk { sectors: 40, seed: 5 }, D::Runs(vec![(0, 40_000)])];
    if th {
        big.extend([corpus::lcg(70_000, 256, 1), corpus::lcg(60_000, 7, 1)]);
        chain = D::Runs(vec![(b'a', 3_000_000)]);
    }
    for (i, (op, d)) in pairs(&small).into_iter().chain(pairs(&mid)).chain(pairs(&big)).enumerate() {
        let long = !th && d.build().len() > 5000;
        for k in [1u32, 2, 3, 7] {
            for (rmax, wmax) in [(k, 0), (0, k), (k, k)] {
                if long && ((k != 1 && k != 7) || (rmax == k && wmax == k) != (k == [1, 7][i / 2 % 2])) {
                    continue;
                }
                g.put(Case::Env { op: op.clone(), d: d.clone(), depth: 0, part: 0, parts: 1, rmax, wmax });
            }
        }
    }
    g.family("codes that stand for more than a buffer", 1);
    let wide = lw(LwO { width: 16, chunk: 20_000, ..mw::STD });
    for (d, wmax) in [(chain, 5000u32), (D::Runs(vec![(b'b', 33_700_000)]), 8191), (D::Runs(vec![(b'c', 33_700_000)]), if th { 5000 } else { 0 })] {
        g.put(Case::Env { op: exp(&wide), d, depth: (wmax == 0) as u32, part: 4095, parts: 4096, rmax: 0, wmax });
    }
    g.family("one deviation at every call, inputs beyond the buffers", 1);
    // resets every few codes are slow: fewer of the calls
    for (op, d) in pairs(&[corpus::lcg(9000, 256, 3), D::Disk { sectors: 36, seed: 5 }]) {
        let parts = if !th { 1500 } else if slow(&op) { 1024 } else { 64 };
        for part in 0..if th { 16 } else { 1 } {
            g.put(Case::Env { op: op.clone(), d: d.clone(), depth: 1, part, parts, rmax: 0, wmax: 0 });
        }
    }
}
fn slow(op: &Op) -> bool {
    matches!(&op.c, Codec::Lw(o) if o.o.chunk < 100)
}
fn lim(k: u32) -> usize {
    if k == 0 {
        usize::MAX
    } else {
        k as usize
    }
}
pub fn check10(c: &Case, st: &mut St) -> E {
    let Case::Env { op, d, depth, part, parts, rmax, wmax } = c else { panic!("case") };
    let inp = input_of(op, d);
    let base = env_run(op, &inp, &[], &[], usize::MAX, usize::MAX);
    let what = format!("{} {}", name(&op.c), if op.x { "expansion" } else { "compression" });
    if let Err(e) = &base.res {
        return Err(format!("{what} of {} fails with {e:?}", show(&inp)));
    }
    if base.dirty {
        return Err(format!("{what} of {} returns before its output is flushed", show(&inp)));
    }
    let s = slice(op, &inp);
    if s.as_deref() != Ok(&base.out[..]) {
        return Err(format!("{what}: slice function gives {}, stream function gives {} for {}", show_r(&s), show(&base.out), show(&inp)));
    }
    let judge = |plan: &[(u32, Ans)], st: &mut St| -> Result<Vec<Call>, String> {
        let r = env_run(op, &inp, &[], plan, lim(*rmax), lim(*wmax));
        st.evals += 1;
        st.traces += 1;
        st.trans += r.calls.len() as u64;
        if r.over {
            return Err(format!("{what} of {} does not end under {plan:?}, limits {rmax}/{wmax}", show(&inp)));
        }
        if r.res != base.res || r.out != base.out {
            return Err(format!(
                "{what} of {} under {plan:?}, limits {rmax}/{wmax}: result {:?}, undisturbed {:?}; output {}",
                show(&inp),
                r.res,
                base.res,
                diff(&base.out, &r.out)
            ));
        }
        if r.dirty {
            return Err(format!("{what} of {} under {plan:?} returns before its output is flushed", show(&inp)));
        }
        let key: Vec<u8> = r.calls.iter().map(|c| *c as u8).collect();
        st.state(&[what.as_bytes(), &inp[..inp.len().min(64)], &key]);
        st.peak("stream calls", r.calls.len() as u64);
        Ok(r.calls)
    };
    // depth first over deviations
    let answers = |c: Call| -> &'static [Ans] {
        match c {
            Call::Read | Call::Write => &[Ans::Short(1), Ans::Intr],
            _ => &[],
        }
    };
    let calls = judge(&[], st)?;
    let mut stack: Vec<(Vec<(u32, Ans)>, Vec<Call>)> = vec![(vec![], calls)];
    while let Some((plan, calls)) = stack.pop() {
        if plan.len() as u32 >= *depth {
            continue;
        }
        let from = plan.last().map_or(0, |p| p.0 + 1);
        for k in from..calls.len() as u32 {
            if plan.is_empty() && k % parts != *part {
                continue;
            }
            for a in answers(calls[k as usize]) {
                let mut p = plan.clone();
                p.push((k, *a));
                let cs = judge(&p, st)?;
                if (p.len() as u32) < *depth {
                    stack.push((p, cs));
                }
            }
        }
    }
    st.outcome(&format!("depth {depth}: same result"));
    Ok(())
}

// ---------- C11 ----------
pub const INFO11: Info = Info {
    rule: "one execution = one operation with one failing stream call (every call index x every error kind), optionally after one short or interrupted call",
    states: "distinct (operation, failing call index, kind, returned error) observations",
    transitions: "stream calls made",
    traces: "executions whose result was checked to be an error",
    bounds: "every call index of every listed operation and input, error kinds Other, PermissionDenied, WouldBlock, TimedOut, BrokenPipe, InvalidData, and writes accepting nothing",
    assumptions: &["UnexpectedEof is the streams' end-of-data signal and Interrupted a request to retry: neither counts as a failure"],
};
pub fn gen11(g: &mut Gen) {
    let th = g.thorough;
    g.family("every failing call", 1);
    let small = [D::Raw(vec![]), D::raw(b"a"), D::raw(b"abcabcabcab"), D::Runs(vec![(b'a', 70)]), D::raw(b"I am Sam. Sam I am. I do not like this Sam I am.\n"), corpus::lcg(150, 256, 1)];
    for (op, d) in pairs(&small) {
        g.put(Case::Faults { op, d, pre: 0, part: 0, parts: 1, lim: 0 });
    }
    g.family("every failing call, transfers of at most so many bytes", 1);
    for l in [1u32, 2, 3] {
        for (op, d) in pairs(&small).into_iter().chain(pairs(&[D::Text { n: 300, seed: 2 }, D::Runs(vec![(7, 400)])])) {
            g.put(Case::Faults { op, d, pre: 0, part: 0, parts: 1, lim: l });
        }
    }
    g.family("every failing call after one benign deviation", 1);
    for (op, d) in pairs(&if th { vec![D::raw(b"a"), D::raw(b"abcabcabcab"), D::Runs(vec![(b'a', 70)]), corpus::lcg(30, 256, 1)] } else { vec![D::raw(b"abcabcab")] }) {
        g.put(Case::Faults { op, d, pre: 1, part: 0, parts: 1, lim: 0 });
    }
    g.family("every failing call, inputs beyond the buffers", 1);
    for (op, d) in pairs(&[corpus::lcg(9000, 256, 3), D::Disk { sectors: 36, seed: 5 }, D::Runs(vec![(0, 20_000)])]) {
        let parts = if !th { 1500 } else if slow(&op) { 2048 } else { 128 };
        for part in 0..if th { 16 } else { 1 } {
            g.put(Case::Faults { op: op.clone(), d: d.clone(), pre: 0, part, parts, lim: 0 });
        }
    }
    // and the first and last calls of those, whatever the partition
    g.family("failing calls at the edges, inputs beyond the buffers", 1);
    for (op, d) in pairs(&[corpus::lcg(9000, 256, 3), D::Runs(vec![(0, 20_000)]), D::Text { n: 30_000, seed: 1 }]) {
        g.put(Case::Faults { op, d, pre: 0, part: u32::MAX, parts: 1, lim: 0 });
    }
}
pub fn check11(c: &Case, st: &mut St) -> E {
    let Case::Faults { op, d, pre, part, parts, lim: l } = c else { panic!("case") };
    let inp = input_of(op, d);
    let what = format!("{} {}", name(&op.c), if op.x { "expansion" } else { "compression" });
    let base = env_run(op, &inp, &[], &[], lim(*l), lim(*l));
    let mut plans: Vec<(Vec<(u32, Ans)>, Vec<Call>)> = vec![(vec![], base.calls.clone())];
    if *pre > 0 {
        for (k, c) in base.calls.iter().enumerate() {
            if matches!(c, Call::Read | Call::Write) {
                for a in [Ans::Short(1), Ans::Intr] {
                    let p = vec![(k as u32, a)];
                    let r = env_run(op, &inp, &[], &p, lim(*l), lim(*l));
                    plans.push((p, r.calls));
                }
            }
        }
    }
    for (plan, calls) in plans {
        let from = plan.last().map_or(0, |p| p.0 + 1);
        let n = calls.len() as u32;
        for k in from..n {
            if *part == u32::MAX {
                if k > 9 && k + 9 < n {
                    continue;
                }
            } else if k % parts != *part {
                continue;
            }
            let mut ans: Vec<Ans> = (0..KINDS.len() as u8).map(Ans::Fail).collect();
            if plan.len() + (*pre as usize) > 0 || *l > 1 || inp.len() + base.out.len() > 5000 {
                ans.truncate(2);
            }
            if calls[k as usize] == Call::Write {
                ans.push(Ans::Zero);
            }
            for a in ans {
                let mut p = plan.clone();
                p.push((k, a));
                let r = env_run(op, &inp, &[], &p, lim(*l), lim(*l));
                st.evals += 1;
                st.trans += r.calls.len() as u64;
                if r.over {
                    return Err(format!("{what} of {} does not end when {:?} {k} fails ({p:?})", show(&inp), calls[k as usize]));
                }
                if r.applied < p.len() {
                    // the run took another course and never made the call
                    st.outcome("call not reached");
                    continue;
                }
                st.traces += 1;
                match &r.res {
                    Ok(v) => return Err(format!("{what} of {} reports success {v:?} although {:?} number {k} failed ({p:?})", show(&inp), calls[k as usize])),
                    Err(e) if e.is_panic() => return Err(format!("{what} of {} panics when {:?} number {k} fails ({p:?}): {e:?}", show(&inp), calls[k as usize])),
                    Err(e) => {
                        st.state(&[what.as_bytes(), &inp[..inp.len().min(64)], format!("{p:?}{e:?}").as_bytes()]);
                        st.outcome(&format!("{:?} fails: error returned", calls[k as usize]));
                    }
                }
            }
        }
        st.peak("stream calls", n as u64);
    }
    Ok(())
}

// ---------- C17 ----------
pub const INFO17: Info = Info {
    rule: "one execution = expansion of one cut of one compressed stream",
    states: "distinct (stream, cut, recovered length) observations",
    transitions: "bytes of the cut streams offered",
    traces: "recovered data compared with the original and with the codes that are complete in the cut",
    bounds: "every cut of every stream of the listed families",
    assumptions: &["the number of complete codes in a cut is counted by the reference decoders on the real stream"],
};
pub fn gen17(g: &mut Gen) {
    let th = g.thorough;
    let cs = || {
        vec![
            lz(4096, 60, 2, true),
            lz(4096, 60, 2, false),
            lz(16, 5, 2, true),
            lz(64, 18, 2, false),
            Codec::Port,
            lw(mw::STD),
            lw(mw::TD1),
            lw(LwO { chunk: 5, ..mw::STD }),
            lw(LwO { msb: true, ..mw::STD }),
            lw(LwO { hb: 12, hd: 1, chunk: 7, max: 255, clear: None, stop: None, width: 9, msb: true }),
        ]
    };
    let put = |g: &mut Gen, d: &D| {
        let long = d.build().len() > 3000;
        for c in cs() {
            // resetting the dictionary every few codes makes the cuts of a long stream too expensive
            if !(long && matches!(&c, Codec::Lw(o) if o.o.chunk < 100)) {
                g.put(Case::Cuts { c, d: d.clone() });
            }
        }
        for v in [0u8, 19, 20, 21] {
            g.put(Case::Cuts { c: Codec::Td, d: td_of(v, d) });
        }
    };
    g.family("every cut: all strings over two letters", 32);
    strings(b"ab", 0, if th { 10 } else { 7 }, &mut |s| put(g, &D::raw(s)));
    g.family("every cut: all strings over four letters", 32);
    strings(&[0, 32, 97, 255], 1, if th { 5 } else { 3 }, &mut |s| put(g, &D::raw(s)));
    g.family("every cut: noise and runs of every length", 4);
    for n in 1..=if th { 260 } else { 130 } {
        put(g, &corpus::lcg(n, 256, n as u64));
        put(g, &corpus::lcg(n, 3, n as u64));
        put(g, &D::Runs(vec![(b'r', n), (b' ', 3 * n), (b'r', 61)]));
    }
    g.family("every cut: structured data", 1);
    for n in if th { vec![1000u32, 6000, 12_000] } else { vec![1200u32] } {
        for d in [D::Thue(n), D::Text { n, seed: 1 }, D::Ctr(n), D::Disk { sectors: n / 512, seed: 1 }, corpus::lcg(n, 16, 3)] {
            put(g, &d);
        }
    }
}
pub fn check17(c: &Case, st: &mut St) -> E {
    let Case::Cuts { c, d } = c else { panic!("case") };
    let d = d.build();
    let z = mem(&cmp(c), &d).map_err(|e| format!("{}: compression of {} fails with {e:?}", name(c), show(&d)))?.0;
    let (first, base) = match c {
        Codec::Lz(o) => (if o.head { 4 } else { 0 }, 0),
        Codec::Port => (4, 0),
        Codec::Lw(_) => (0, 0),
        Codec::Td => (12, 12),
    };
    // (bit position behind a code, bytes produced so far)
    let marks: Vec<(usize, usize)> = match c {
        Codec::Lz(_) | Codec::Port | Codec::Td if *c != Codec::Td || d[4] >= 20 => {
            let p = if let Codec::Lz(o) = c { o.par() } else { m::STD };
            let r = m::decode(&z[first..], p, (d.len() - base) as u64, false);
            let mut n = base;
            r.toks
                .iter()
                .zip(&r.ends)
                .map(|(t, e)| {
                    n += match t {
                        m::Tok::Lit(_) => 1,
                        m::Tok::Copy(_, l) => *l,
                    };
                    (first * 8 + e, n)
                })
                .collect()
        }
        _ => vec![],
    };
    let lwo = match c {
        Codec::Lw(o) => Some(o.o.clone()),
        Codec::Td if d[4] < 20 => Some(mw::TD1),
        _ => None,
    };
    let mut last = 0;
    for k in first..z.len() {
        let cut = &z[..k];
        let (out, ..) = mem(&exp(c), cut).map_err(|e| format!("{}: expansion of {k} of {} bytes fails with {e:?}; data {}", name(c), z.len(), show(&d)))?;
        st.evals += 1;
        st.traces += 1;
        st.trans += k as u64;
        // what the complete codes stand for
        let need = match &lwo {
            Some(o) => base + mw::decode(&cut[base..], o).out.len(),
            None => marks.iter().take_while(|m| m.0 <= k * 8).last().map_or(base.min(d.len()), |m| m.1),
        };
        let w = || format!("{}: cut after {k} of {} bytes of {}", name(c), z.len(), show(&z));
        if *c == Codec::Port {
            if out.len() < d.len() {
                return Err(format!("{}: {} of {} declared bytes", w(), out.len(), d.len()));
            }
            if out[..need.min(d.len())] != d[..need.min(d.len())] {
                return Err(format!("{}: data before the cut is wrong: {}", w(), diff(&d, &out)));
            }
        } else {
            if out.len() > d.len() || out[..] != d[..out.len()] {
                return Err(format!("{}: not a prefix of the data: {}; recovered {}", w(), diff(&d, &out), show(&out)));
            }
            if out.len() < need {
                return Err(format!("{}: {} bytes recovered, {need} are complete", w(), out.len()));
            }
            if out.len() < last {
                return Err(format!("{}: {} bytes recovered, a shorter cut gives {last}", w(), out.len()));
            }
            last = out.len();
        }
        st.state(&[&z, &(k as u64).to_le_bytes(), &(out.len() as u64).to_le_bytes()]);
    }
    st.peak("longest stream", z.len() as u64);
    st.outcome("cuts recovered");
    Ok(())
}
