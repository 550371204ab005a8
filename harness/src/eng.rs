//! The explorer: enumerates the cases of a property simplest first, executes them on all cores,
//! records what was covered, and turns a failure into a replayable file.
use crate::imp::*;
use crate::props::{self, Case};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// What one worker has covered.
#[derive(Default)]
pub struct St {
    pub states: HashSet<u64>,
    pub trans: u64,
    pub traces: u64,
    pub evals: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub max: BTreeMap<&'static str, u64>,
}
impl St {
    /// a distinct final observation or model state
    pub fn state(&mut self, parts: &[&[u8]]) {
        if self.states.len() < 6_000_000 {
            self.states.insert(crate::data::fnv(parts));
        }
    }
    pub fn outcome(&mut self, s: &str) {
        match self.outcomes.get_mut(s) {
            Some(c) => *c += 1,
            None => {
                if self.outcomes.len() < 64 {
                    self.outcomes.insert(s.to_string(), 1);
                }
            }
        }
    }
    pub fn peak(&mut self, k: &'static str, v: u64) {
        let e = self.max.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn merge(&mut self, o: St) {
        self.states.extend(o.states);
        self.trans += o.trans;
        self.traces += o.traces;
        self.evals += o.evals;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.max {
            self.peak(k, v);
        }
    }
}

pub struct Gen<'a> {
    pub thorough: bool,
    pub seed: u64,
    fam: usize,
    pub fams: Vec<(String, u64)>,
    batch: Vec<(u64, Case)>,
    batch_cap: usize,
    next: u64,
    tx: &'a mpsc::SyncSender<Vec<(u64, Case)>>,
    stop: &'a AtomicBool,
    pub limit: Option<u64>,
    t0: Instant,
}
impl Gen<'_> {
    /// start a family of cases; `batch` cases are handed to a core at a time
    pub fn family(&mut self, name: &str, batch: usize) {
        self.flush();
        if std::env::var_os("MC_TIME").is_some() {
            eprintln!("{:.1} s {name}", self.t0.elapsed().as_secs_f64());
        }
        self.fams.push((name.to_string(), 0));
        self.fam = self.fams.len() - 1;
        self.batch_cap = batch;
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn put(&mut self, c: Case) {
        if self.stopped() {
            return;
        }
        self.fams[self.fam].1 += 1;
        self.batch.push((self.next, c));
        self.next += 1;
        if self.batch.len() >= self.batch_cap {
            self.flush();
        }
    }
    fn flush(&mut self) {
        if !self.batch.is_empty() {
            let b = std::mem::take(&mut self.batch);
            let _ = self.tx.send(b);
        }
    }
}

struct Slot {
    started: AtomicU64, // ms since start, 0 = idle
    case: Mutex<Option<Case>>,
}

const CASE_LIMIT_MS: u64 = 150_000;

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub struct Fail {
    pub idx: u64,
    pub case: Case,
    pub what: String,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

pub fn report(prop: &str, case: Option<&Case>, what: &str) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}.json"));
    let j = serde_json::json!({"property": prop, "what": what, "case": case,
        "how": format!("/verif/run.sh replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    let mut w = what.to_string();
    if w.len() > 1500 {
        w.truncate((0..=1500).rev().find(|i| w.is_char_boundary(*i)).unwrap());
    }
    println!("{prop}: {w}");
    println!("VIOLATION property={prop} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

/// parent: run the worker process, judge how it ended
pub fn parent(prop: &str, tier: &str) -> i32 {
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let code = parent_in(prop, tier, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
fn spawn(args: &[&str], scratch: &Path) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("MC_SCRATCH", scratch).spawn().expect("spawn worker")
}
fn parent_in(prop: &str, tier: &str, scratch: &Path) -> i32 {
    let t0 = Instant::now();
    let mut ch = spawn(&["work", prop, tier], scratch);
    let st = ch.wait().expect("wait");
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("{prop}: worker ended by signal {sig}; looking for the case");
    // the cases that were running
    for k in 0..64 {
        let f = scratch.join(format!("t{k}"));
        let Ok(b) = std::fs::read(&f) else { continue };
        if b.len() < 8 {
            continue;
        }
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        if n == 0 || b.len() < 8 + n {
            continue;
        }
        let one = scratch.join("one.json");
        let v: serde_json::Value = match serde_json::from_slice(&b[8..8 + n]) {
            Ok(v) => v,
            Err(_) => continue,
        };
        std::fs::write(&one, serde_json::json!({"property": prop, "case": v}).to_string()).unwrap();
        let mut c = spawn(&["replay", one.to_str().unwrap()], scratch);
        let dl = Instant::now() + Duration::from_secs(200);
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if Instant::now() > dl {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(s) = st {
            if let Some(sg) = s.signal() {
                let case: Case = serde_json::from_value(v).unwrap();
                report(prop, Some(&case), &format!("the process is killed by signal {sg} (stack overflow, abort or memory exhaustion)"));
                evidence(prop, tier, &St { evals: 1, ..Default::default() }, &[], vec![serde_json::to_value(&case).unwrap()], 1, t0, false, &[]);
                return 1;
            }
        }
    }
    // what kills it may need the calls made before: run them all again
    if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        let st = spawn(&["work", prop, tier], scratch).wait().expect("wait");
        match (st.code(), st.signal()) {
            (Some(1), _) => return 1,
            (None, Some(s)) if s == sig => {
                report(prop, None, &format!("the process that makes the calls of all cases is killed by signal {sig} (stack overflow, abort or memory exhaustion) every time, no case does that alone"));
                evidence(prop, tier, &St { evals: 1, ..Default::default() }, &[], vec![serde_json::json!("all cases in one process")], 1, t0, false, &[]);
                return 1;
            }
            _ => {}
        }
    }
    eprintln!("{prop}: signal {sig} could not be reproduced: error of the check");
    3
}

pub fn work(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let scratch = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp".into()));
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let n = props::serial(prop).then_some(1).unwrap_or(threads());
    let (tx, rx) = mpsc::sync_channel::<Vec<(u64, Case)>>(64);
    let rx = Arc::new(Mutex::new(rx));
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<Fail>>> = Default::default();
    let samples: Arc<Mutex<Vec<serde_json::Value>>> = Default::default();
    let total: Arc<Mutex<St>> = Default::default();
    let broken = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new((0..n).map(|_| Slot { started: AtomicU64::new(0), case: Mutex::new(None) }).collect());
    // listed findings stay quiet, everything else is a violation
    let known = Arc::new(known(prop));
    let listed: Arc<Mutex<std::collections::BTreeSet<String>>> = Default::default();
    let mut hs = vec![];
    for k in 0..n {
        let (rx, stop, fails, samples, total, broken, slots, known, listed) =
            (rx.clone(), stop.clone(), fails.clone(), samples.clone(), total.clone(), broken.clone(), slots.clone(), known.clone(), listed.clone());
        let prop = prop.to_string();
        let jf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(scratch.join(format!("t{k}"))).expect("journal");
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let mut st = St::default();
                    let mut buf = Vec::new();
                    // MC_SLOW=seconds: report the cases that take longer
                    let slow = std::env::var("MC_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0f64);
                    loop {
                        let b = { rx.lock().unwrap().recv() };
                        let Ok(b) = b else { break };
                        for (idx, case) in b {
                            if broken.load(Ordering::Relaxed) {
                                continue;
                            }
                            if stop.load(Ordering::Relaxed) && fails.lock().unwrap().iter().any(|f| f.idx < idx) {
                                continue;
                            }
                            buf.clear();
                            buf.extend_from_slice(&[0; 8]);
                            serde_json::to_writer(&mut buf, &case).unwrap();
                            let n = (buf.len() - 8) as u64;
                            buf[..8].copy_from_slice(&n.to_le_bytes());
                            let _ = jf.write_all_at(&buf, 0);
                            *slots[k].case.lock().unwrap() = Some(case.clone());
                            slots[k].started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let ev0 = st.evals;
                            let began = std::time::Instant::now();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(&prop, &case, &mut st)));
                            if slow > 0.0 && began.elapsed().as_secs_f64() > slow {
                                let t = serde_json::to_string(&case).unwrap();
                                eprintln!("{:.1} s {}", began.elapsed().as_secs_f64(), &t[..t.len().min(300)]);
                            }
                            if st.evals == ev0 {
                                st.evals += 1;
                            }
                            slots[k].started.store(0, Ordering::SeqCst);
                            match r {
                                Ok(Ok(())) => {
                                    if idx.is_power_of_two() || idx == 0 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 40 {
                                            s.push(shorten(serde_json::to_value(&case).unwrap()));
                                        }
                                    }
                                }
                                Ok(Err(_)) if known.iter().any(|k| k.0.as_bytes() == &buf[8..]) => {
                                    let k = known.iter().find(|k| k.0.as_bytes() == &buf[8..]).unwrap();
                                    listed.lock().unwrap().insert(k.1.clone());
                                }
                                Ok(Err(what)) => {
                                    fails.lock().unwrap().push(Fail { idx, case, what });
                                    stop.store(true, Ordering::SeqCst);
                                }
                                Err(_) => {
                                    eprintln!("checker failed on {}", serde_json::to_string(&case).unwrap());
                                    broken.store(true, Ordering::SeqCst);
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                    let _ = jf.write_all_at(&[0; 8], 0);
                    total.lock().unwrap().merge(st);
                })
                .unwrap(),
        );
    }
    // watchdog
    let done = Arc::new(AtomicBool::new(false));
    {
        let (slots, done, prop, tier) = (slots.clone(), done.clone(), prop.to_string(), tier.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if done.load(Ordering::SeqCst) {
                return;
            }
            let now = t0.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let b = s.started.load(Ordering::SeqCst);
                if b > 0 && now > b + CASE_LIMIT_MS {
                    let c = s.case.lock().unwrap().clone();
                    if matches!(c, Some(Case::Giant { .. })) && now < b + 6 * CASE_LIMIT_MS {
                        continue;
                    }
                    report(&prop, c.as_ref(), &format!("no end after {} s", CASE_LIMIT_MS / 1000));
                    evidence(&prop, &tier, &St { evals: 1, ..Default::default() }, &[], vec![serde_json::to_value(&c).unwrap()], 1, t0, false, &[]);
                    std::process::exit(1);
                }
            }
        });
    }
    let mut g = Gen {
        thorough,
        seed,
        fam: 0,
        fams: vec![],
        batch: vec![],
        batch_cap: 16,
        next: 0,
        tx: &tx,
        stop: &stop,
        limit: None,
        t0,
    };
    g.family("main", 16);
    props::gen(prop, &mut g);
    g.flush();
    let fams: Vec<_> = g.fams.drain(..).filter(|f| f.1 > 0).collect();
    drop(tx);
    for h in hs {
        let _ = h.join();
    }
    done.store(true, Ordering::SeqCst);
    let st = std::mem::take(&mut *total.lock().unwrap());
    let fails = std::mem::take(&mut *fails.lock().unwrap());
    let samples = std::mem::take(&mut *samples.lock().unwrap());
    if broken.load(Ordering::SeqCst) && fails.is_empty() {
        eprintln!("{prop}: the checker itself failed");
        return 2;
    }
    let bad = fails.into_iter().min_by_key(|f| f.idx);
    let listed = std::mem::take(&mut *listed.lock().unwrap());
    for l in &listed {
        println!("KNOWN-FINDING: property={prop} {l}");
    }
    let viol = bad.is_some() as u64;
    if let Some(f) = &bad {
        report(prop, Some(&f.case), &f.what);
    }
    let fams_s: Vec<String> = fams.iter().map(|f| format!("{}: {}", f.0, f.1)).collect();
    println!(
        "{prop} {tier}: {} executions, {} states, {} transitions, {} traces compared, {:.1} s",
        st.evals,
        st.states.len(),
        st.trans,
        st.traces,
        t0.elapsed().as_secs_f64()
    );
    for f in &fams_s {
        println!("  {f}");
    }
    for (k, v) in &st.outcomes {
        println!("  outcome {k}: {v}");
    }
    evidence(prop, tier, &st, &fams, samples, viol, t0, viol == 0, &[]);
    if viol > 0 {
        1
    } else {
        0
    }
}

/// cap long arrays/strings inside a sample
fn shorten(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        String(s) if s.len() > 160 => String(format!("{}... ({} chars)", &s[..120], s.len())),
        Array(a) if a.len() > 40 => {
            let n = a.len();
            let mut b: Vec<_> = a.into_iter().take(20).map(shorten).collect();
            b.push(String(format!("... {n} items")));
            Array(b)
        }
        Array(a) => Array(a.into_iter().map(shorten).collect()),
        Object(m) => Object(m.into_iter().map(|(k, v)| (k, shorten(v))).collect()),
        v => v,
    }
}

/// unrepaired findings, lines `open: property=<id> case=<json> :: <what fails>`: (case as json, description)
fn known(prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return vec![] };
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("open: property=") else { continue };
        let Some((id, r)) = r.split_once(' ') else { continue };
        let Some((case, what)) = r.strip_prefix("case=").and_then(|r| r.split_once(" :: ")) else { panic!("known_findings.txt: {l}") };
        if id == prop {
            let c: Case = serde_json::from_str(case).expect("case of a known finding");
            v.push((serde_json::to_string(&c).unwrap(), what.to_string()));
        }
    }
    v
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(
    prop: &str,
    tier: &str,
    st: &St,
    fams: &[(String, u64)],
    mut samples: Vec<serde_json::Value>,
    viol: u64,
    t0: Instant,
    exhaustive: bool,
    extra: &[String],
) {
    let info = props::info(prop);
    if samples.is_empty() {
        samples.push(serde_json::json!("none"));
    }
    samples.truncate(24);
    let mut assumptions: Vec<String> = info.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.extend(extra.iter().cloned());
    let fam_map: serde_json::Map<String, serde_json::Value> = fams.iter().map(|f| (f.0.clone(), f.1.into())).collect();
    let j = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "evaluations": st.evals,
            "states": st.states.len(),
            "transitions": st.trans,
            "traces_validated_against_impl": st.traces,
            "samples": samples,
            "rule": info.rule,
            "states_are": info.states,
            "transitions_are": info.transitions,
            "traces_are": info.traces,
            "families": fam_map,
            "outcomes": st.outcomes,
            "peaks": st.max,
            "bounds": info.bounds,
            "hooks": cfg!(retro_verif),
            "exhaustive": exhaustive,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&j).unwrap());
}

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&t).expect("replay file is not json");
    let prop = v["property"].as_str().expect("property").to_string();
    if v["case"].is_null() {
        // all cases in one process
        return parent(&prop, "quick");
    }
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let mut st = St::default();
    match props::check(&prop, &case, &mut st) {
        Ok(()) => {
            println!("{prop}: this case holds");
            0
        }
        Err(w) => {
            println!("{prop}: {w}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let h: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        format!("{h}.. ({} bytes)", b.len())
    } else {
        format!("{h} ({} bytes)", b.len())
    }
}
pub fn show_r(r: &Result<Vec<u8>, EK>) -> String {
    match r {
        Ok(v) => show(v),
        Err(e) => format!("{e:?}"),
    }
}
/// where two byte strings part
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at {k}", a.len(), b.len())
}
