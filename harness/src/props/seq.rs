//! C15: histories, nested and concurrent calls.
use super::env::model_stream;
use super::*;
use crate::data::{strings, D};
use crate::eng::{show, show_r};
use crate::model_lzw::{self as mw, LwO};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

pub const INFO15: Info = Info {
    rule: "one execution = one history: a sequence of calls, a call made inside a stream call of another one, or two calls in two threads under one schedule of their stream calls",
    states: "distinct (history, results) observations",
    transitions: "calls made (sequences), scheduling points passed (schedules)",
    traces: "results compared with the result of the same call made alone in a fresh process",
    bounds: "all sequences of the listed length over the alphabet of calls; every pair nested at every stream call; every pair in two threads with all schedules of at most two preemptions at stream calls",
    assumptions: &["threads are switched only at stream calls: the crate takes no locks and keeps no shared state there is to interleave with otherwise"],
};

pub fn alphabet() -> Vec<(Op, Vec<u8>)> {
    let text = b"I am Sam. Sam I am. I do not like this Sam I am.\n".to_vec();
    let lz = |n, f, t, fill, head| Codec::Lz(LzO::new(n, f, t, fill, head));
    let lw = |o: LwO| Codec::Lw(LwX::new(o));
    let std = lz(4096, 60, 2, b' ', true);
    let small = lz(16, 5, 1, 0, false);
    let huf = lz(4, 2, 2, 0, true);
    let narrow = lw(LwO { hb: 12, hd: 1, chunk: 7, max: 255, clear: None, stop: None, width: 9, msb: true });
    let long = corpus::lcg(33_000, 256, 4).build();
    let i1 = td_image(false, &td::H1, &text);
    let i2 = td_image(false, &td::H2, &text);
    let s = |c: &Codec, d: &[u8]| model_stream(c, d);
    let mut bad = i2.clone();
    bad[11] ^= 1;
    let port = s(&Codec::Port, &text);
    vec![
        (cmp(&std), text.clone()),
        (exp(&std), s(&std, &text)),
        (cmp(&small), vec![b'a'; 40]),
        (exp(&small), s(&small, &text)),
        (cmp(&Codec::Port), text.clone()),
        (exp(&Codec::Port), port.clone()),
        (exp(&Codec::Port), port[..20].to_vec()),
        (cmp(&lw(mw::STD)), text.clone()),
        (exp(&lw(mw::STD)), s(&lw(mw::STD), &text)),
        (cmp(&narrow), text.clone()),
        (exp(&narrow), s(&narrow, &text)),
        (cmp(&Codec::Td), i1.clone()),
        (cmp(&Codec::Td), i2.clone()),
        (exp(&Codec::Td), s(&Codec::Td, &i1)),
        (exp(&Codec::Td), s(&Codec::Td, &i2)),
        (cmp(&Codec::Td), bad),
        (exp(&lw(mw::STD)), vec![0xff, 0xff, 0xff]),
        (cmp(&Codec::Lz(LzO { max: 3, ..LZSTD })), text.clone()),
        (cmp(&std), vec![]),
        (cmp(&huf), long.clone()),
        (exp(&std), s(&std, &text)[..30].to_vec()),
        // options that share all but one parameter with others
        (cmp(&lz(4096, 60, 2, 0, true)), vec![0; 70]),
        (exp(&lz(4096, 18, 2, b' ', true)), s(&lz(4096, 18, 2, b' ', true), &text)),
        (cmp(&lz(4096, 60, 3, b' ', true)), text.clone()),
        (cmp(&lz(16, 4, 1, 0, false)), vec![0; 40]),
        (cmp(&lw(LwO { msb: true, ..mw::STD })), text.clone()),
        (exp(&lw(LwO { chunk: 5, ..mw::STD })), s(&lw(LwO { chunk: 5, ..mw::STD }), &text)),
        (cmp(&lw(LwO { clear: Some(257), stop: Some(256), ..mw::STD })), text.clone()),
        (exp(&lw(LwO { clear: None, stop: None, ..mw::STD })), s(&lw(LwO { clear: None, stop: None, ..mw::STD }), &text)),
        (cmp(&lw(LwO { max: 127, clear: Some(128), stop: None, ..mw::STD })), text.clone()),
        (exp(&Codec::Port), vec![3, 0]),
        (cmp(&Codec::Port), corpus::lcg(5000, 256, 4).build()),
        (cmp(&lw(mw::STD)), corpus::lcg(5000, 256, 4).build()),
    ]
}
/// index of the expensive call, left out of longer sequences
const LONG: u32 = 19;
/// calls with many stream calls
fn heavy(i: u32) -> bool {
    [LONG, 31, 32].contains(&i)
}

pub fn gen15(g: &mut Gen) {
    let th = g.thorough;
    let n = alphabet().len() as u32;
    g.family("all sequences of one or two calls", 8);
    for a in 0..n {
        g.put(Case::Seq { calls: vec![a] });
    }
    for a in 0..n {
        for b in 0..n {
            g.put(Case::Seq { calls: vec![a, b] });
        }
    }
    g.family("nested calls at every stream call", 1);
    for a in 0..n {
        for b in 0..n {
            if !heavy(a) && !heavy(b) {
                g.put(Case::Nest { outer: a, inner: b });
            }
        }
    }
    g.family("a call after one that failed at any stream call", 1);
    for a in 0..n {
        for b in 0..n {
            if !heavy(a) && !heavy(b) {
                g.put(Case::After { a, b });
            }
        }
    }
    g.family("two threads, all schedules with two preemptions", 1);
    for a in 0..n {
        for b in a..n {
            if !heavy(a) && !heavy(b) && (th || a == b || (a + b) % 2 == 0) {
                g.put(Case::Sched { a, b, bound: if th { 2 } else { 1 } });
            }
        }
    }
    if !th {
        for (a, b) in [(0, 4), (1, 1), (2, 3), (8, 13), (14, 5), (9, 10), (0, 0), (4, 4), (7, 7), (11, 12)] {
            g.put(Case::Sched { a, b, bound: 2 });
        }
    }
    g.family("many other calls after each call", 1);
    probes(th, &mut |op, d| g.put(Case::Probe { op, d: D::Raw(d) }));
    g.family(if th { "all sequences of three calls" } else { "a quarter of the sequences of three calls" }, 64);
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                if [a, b, c].iter().filter(|x| heavy(**x)).count() <= th as usize && (th || (a + b + c) % 4 == 0) {
                    g.put(Case::Seq { calls: vec![a, b, c] });
                }
            }
        }
    }
    if th {
        g.family("an eighth of the sequences of four calls", 64);
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    for d in 0..n {
                        if ![a, b, c, d].into_iter().any(heavy) && (a + b + c + d) % 8 == 0 {
                            g.put(Case::Seq { calls: vec![a, b, c, d] });
                        }
                    }
                }
            }
        }
    }
    g.family("the same call many times", 1);
    for a in 0..n {
        g.put(Case::Seq { calls: vec![a; if heavy(a) { 4 } else if th { 300 } else { 40 }] });
    }
}
/// `mc one i`, `mc one {case}`: the call in a fresh process
pub fn one(what: &str) -> String {
    let r = match what.parse::<usize>() {
        Ok(i) => {
            let (op, d) = &alphabet()[i];
            full(op, d)
        }
        Err(_) => {
            let Ok(Case::Probe { op, d }) = serde_json::from_str(what) else { panic!("case") };
            full(&op, &d.build())
        }
    };
    serde_json::to_string(&r).unwrap()
}
fn fresh(what: &str) -> Res {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["one", what]).output().expect("fresh process");
    if !o.status.success() {
        return Err(EK::Panic("fresh process fails".into()));
    }
    serde_json::from_slice(&o.stdout).expect("result of a fresh process")
}
/// calls made before a probe: those of the alphabet, and some that leave no part of any buffer as it was
fn before() -> &'static Vec<(Op, Vec<u8>)> {
    static B: OnceLock<Vec<(Op, Vec<u8>)>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v: Vec<(Op, Vec<u8>)> = alphabet().into_iter().enumerate().filter(|(i, _)| !heavy(*i as u32)).map(|x| x.1).collect();
        let std = Codec::Lz(LZSTD);
        let lw = Codec::Lw(LwX::new(mw::STD));
        let d = corpus::lcg(4300, 200, 9).build();
        for c in [std, Codec::Port, lw] {
            v.push((exp(&c), model_stream(&c, &d)));
            v.push((cmp(&c), d.clone()));
        }
        v
    })
}
fn probes(th: bool, f: &mut dyn FnMut(Op, Vec<u8>)) {
    let std = Codec::Lz(LZSTD);
    let both = [std.clone(), Codec::Port];
    // data shorter than the lookahead
    for c in &both {
        strings(b"a b", 0, if th { 5 } else { 3 }, &mut |s| f(cmp(c), s.to_vec()));
        for p in 1..if th { 12u32 } else { 5 } {
            for n in (p..=66).step_by(if th { 1 } else { 2 }) {
                f(cmp(c), D::Per(Box::new(corpus::lcg(p, 256, p as u64)), n).build());
            }
        }
    }
    // streams that refer to any part of the window
    let dists: Vec<u16> = if th { (1..=4096).step_by(3).collect() } else { (1..=4096).step_by(61).chain(4030..=4096).collect() };
    for (k, dist) in dists.into_iter().enumerate() {
        let e = crate::model_lzhuf::encode_toks(vec![crate::model_lzhuf::Tok::Copy(dist as usize, 60), crate::model_lzhuf::Tok::Lit(1), crate::model_lzhuf::Tok::Copy(dist as usize, 9)], crate::model_lzhuf::STD);
        let mut s = 70u32.to_le_bytes().to_vec();
        s.extend(e.body);
        f(exp(&both[k % 2]), s.clone());
        if th {
            f(exp(&both[1 - k % 2]), s);
        }
    }
    // other options
    for n in 2..=5usize {
        for fo in 1..n {
            for t in 0..=fo {
                let c = Codec::Lz(LzO::new(n, fo, t, b'a', n % 2 == 0));
                for d in [&b"abaababab"[..], b"aaaaaaaaaaaab"] {
                    f(cmp(&c), d.to_vec());
                    f(exp(&c), model_stream(&c, d));
                }
            }
        }
    }
    for (k, o) in lzw::grid(false).into_iter().enumerate() {
        if k % if th { 7 } else { 61 } == 0 {
            let c = Codec::Lw(LwX::new(o.clone()));
            let d: Vec<u8> = (0..40u32).map(|i| if (i * i / 3) % 2 == 0 { 0 } else { o.max as u8 }).collect();
            if o.valid() {
                f(cmp(&c), d.clone());
                let mut z = model_stream(&c, &d);
                f(exp(&c), z.clone());
                let h = z.len() / 2;
                z[h] ^= 0x55;
                f(exp(&c), z);
            }
        }
    }
    for v in [0u8, 19, 20, 255] {
        let mut h = td::H1;
        h[2] = v;
        for d in [&b""[..], b"abcabcabc"] {
            let i = td_image(false, &h, d);
            f(cmp(&Codec::Td), i.clone());
            f(exp(&Codec::Td), model_stream(&Codec::Td, &i));
            f(exp(&Codec::Td), i);
        }
    }
}
type Res = Result<(Vec<u8>, u64, u64), EK>;
fn full(op: &Op, d: &[u8]) -> Res {
    mem(op, d).map_err(unplace)
}
fn unplace(e: EK) -> EK {
    e
}
struct World {
    calls: Vec<(Op, Vec<u8>)>,
    alone: Vec<Res>,
}
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let calls = alphabet();
        let alone = (0..calls.len())
            .map(|i| fresh(&i.to_string()))
            .collect();
        World { calls, alone }
    })
}
fn desc(i: u32) -> String {
    let (op, d) = &world().calls[i as usize];
    format!("call {i} ({} {} of {} bytes)", lzhuf::name(&op.c), if op.x { "expansion" } else { "compression" }, d.len())
}
fn same(i: u32, got: &Res, how: &str) -> E {
    let want = &world().alone[i as usize];
    if got == want {
        return Ok(());
    }
    let s = |r: &Res| format!("{} {:?}", show_r(&r.clone().map(|x| x.0)), r.clone().map(|x| (x.1, x.2)));
    Err(format!("{} gives {} {how}, alone it gives {}", desc(i), s(got), s(want)))
}
pub fn check15(c: &Case, st: &mut St) -> E {
    let w = world();
    match c {
        Case::Seq { calls } => {
            let mut key = vec![];
            for (k, i) in calls.iter().enumerate() {
                let (op, d) = &w.calls[*i as usize];
                let r = full(op, d);
                same(*i, &r, &format!("as call number {k} of the sequence {:?}", &calls[..calls.len().min(8)]))?;
                st.trans += 1;
                key.push(*i as u8);
                if let Ok(x) = &r {
                    key.extend_from_slice(&(x.2 as u32).to_le_bytes());
                }
            }
            st.evals += 1;
            st.traces += 1;
            st.state(&[&key]);
            st.outcome("sequence");
            Ok(())
        }
        Case::Probe { op, d: dd } => {
            let want = fresh(&serde_json::to_string(c).unwrap());
            let d = dd.build();
            for (k, (bo, bd)) in before().iter().enumerate() {
                let _ = full(bo, bd);
                let r = full(op, &d);
                if r != want {
                    let s = |r: &Res| format!("{} {:?}", show_r(&r.clone().map(|x| x.0)), r.clone().map(|x| (x.1, x.2)));
                    return Err(format!(
                        "{} {} of {} gives {} after call {k} ({} {} of {} bytes), alone it gives {}",
                        lzhuf::name(&op.c), if op.x { "expansion" } else { "compression" }, show(&d), s(&r),
                        lzhuf::name(&bo.c), if bo.x { "expansion" } else { "compression" }, bd.len(), s(&want)
                    ));
                }
                st.trans += 2;
                st.traces += 1;
            }
            st.evals += 1;
            st.state(&[serde_json::to_string(c).unwrap().as_bytes()]);
            st.outcome("probe");
            Ok(())
        }
        Case::After { a, b } => {
            let (op, d) = &w.calls[*a as usize];
            let n = ops_of(*a);
            for k in 0..n {
                let _ = env_run(op, d, &[], &[(k as u32, Ans::Fail(0))], usize::MAX, usize::MAX);
                let (bo, bd) = &w.calls[*b as usize];
                let r = full(bo, bd);
                same(*b, &r, &format!("after {} was ended by a failure of its stream call {k}", desc(*a)))?;
                st.evals += 1;
                st.traces += 1;
                st.trans += 2;
                st.state(&[&[*a as u8, *b as u8, 77], &(k as u32).to_le_bytes()]);
            }
            st.outcome("after a failure");
            Ok(())
        }
        Case::Nest { outer, inner } => {
            let (oo, od) = &w.calls[*outer as usize];
            let mut n = 1;
            let mut k = 0;
            while k < n {
                let inner_res: Rc<RefCell<Option<Res>>> = Default::default();
                let mut ctl = Ctl::new();
                let (ir, ii) = (inner_res.clone(), *inner as usize);
                ctl.hook = Some(Box::new(move |at| {
                    if at == k {
                        let (op, d) = &world().calls[ii];
                        *ir.borrow_mut() = Some(full(op, d));
                    }
                }));
                let r = env_run_ctl(oo, od, &[], ctl);
                n = r.calls.len();
                st.evals += 1;
                st.traces += 1;
                st.trans += 2;
                let how = format!("with {} made inside its stream call {k}", desc(*inner));
                let got: Res = r.res.clone().map(|(a, b)| (r.out.clone(), a, b));
                same(*outer, &got, &how)?;
                if let Some(x) = inner_res.borrow().as_ref() {
                    same(*inner, x, &format!("inside stream call {k} of {}", desc(*outer)))?;
                }
                st.state(&[&[*outer as u8, *inner as u8], &(k as u32).to_le_bytes()]);
                k += 1;
            }
            st.outcome("nested");
            Ok(())
        }
        Case::Sched { a, b, bound } => {
            // preemption plans: thread `first` runs; at its call i the other one; at the other's call j back
            let (na, nb) = (ops_of(*a), ops_of(*b));
            for first in 0..2usize {
                let (n0, n1) = if first == 0 { (na, nb) } else { (nb, na) };
                for i in 0..n0 {
                    let js: Vec<Option<usize>> = if *bound > 1 { (0..n1).map(Some).chain([None]).collect() } else { vec![None] };
                    for j in js {
                        let (ra, rb, steps) = two(*a, *b, first, i, j);
                        st.evals += 1;
                        st.traces += 1;
                        st.trans += steps;
                        let how = |o: u32| format!("in two threads with {} (thread {first} first, preempted at its stream call {i}, the other at {j:?})", desc(o));
                        same(*a, &ra, &how(*b))?;
                        same(*b, &rb, &how(*a))?;
                    }
                    st.state(&[&[*a as u8, *b as u8, first as u8], &(i as u32).to_le_bytes()]);
                }
            }
            st.outcome(&format!("two threads, {bound} preemptions"));
            Ok(())
        }
        _ => panic!("case"),
    }
}
fn ops_of(i: u32) -> usize {
    let (op, d) = &world().calls[i as usize];
    env_run(op, d, &[], &[], usize::MAX, usize::MAX).calls.len()
}
struct Turn {
    who: usize,
    done: [bool; 2],
    steps: u64,
    /// pending preemptions: (thread, call index)
    plan: Vec<(usize, usize)>,
}
fn two(a: u32, b: u32, first: usize, i: usize, j: Option<usize>) -> (Res, Res, u64) {
    let mut plan = vec![(first, i)];
    if let Some(j) = j {
        plan.push((1 - first, j));
    }
    plan.reverse();
    let t = Arc::new((Mutex::new(Turn { who: first, done: [false; 2], steps: 0, plan }), Condvar::new()));
    let spawn = |me: usize, i: u32| {
        let t = t.clone();
        std::thread::spawn(move || {
            let (op, d) = &world().calls[i as usize];
            let wait = |me: usize, t: &(Mutex<Turn>, Condvar)| {
                let mut s = t.0.lock().unwrap();
                while s.who != me && !s.done[1 - me] {
                    s = t.1.wait(s).unwrap();
                }
            };
            wait(me, &t);
            let mut ctl = Ctl::new();
            let t2 = t.clone();
            ctl.hook = Some(Box::new(move |k| {
                {
                    let mut s = t2.0.lock().unwrap();
                    s.steps += 1;
                    if s.plan.last() == Some(&(me, k)) {
                        s.plan.pop();
                        if !s.done[1 - me] {
                            s.who = 1 - me;
                            t2.1.notify_all();
                        }
                    }
                }
                wait(me, &t2);
            }));
            let r = env_run_ctl(op, d, &[], ctl);
            let mut s = t.0.lock().unwrap();
            s.done[me] = true;
            s.who = 1 - me;
            t.1.notify_all();
            drop(s);
            let out: Res = r.res.map(|(x, y)| (r.out, x, y));
            out
        })
    };
    let h0 = spawn(0, a);
    let h1 = spawn(1, b);
    let (ra, rb) = (h0.join().expect("thread"), h1.join().expect("thread"));
    let s = t.0.lock().unwrap().steps;
    (ra, rb, s)
}
