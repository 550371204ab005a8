//! C14: the command line tool.
use super::*;
use crate::data::*;
use crate::eng::{diff, show};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const INFO14: Info = Info {
    rule: "one execution = one run of the executable on files of a scratch directory",
    states: "distinct (arguments, input, prior output, answer, exit, output file) observations",
    transitions: "process runs",
    traces: "exit status and output file compared with the specification; converted bytes with the library call",
    bounds: "the full product of direction, method, input class, prior output class and answer listed in the families",
    assumptions: &["a rejected input leaves unspecified output content"],
};
pub const METHODS: [&str; 4] = ["lzw", "lzhuf-port", "lzss_huff", "td0"];
pub fn codec(m: &str) -> Codec {
    match m {
        "lzw" => Codec::Lw(LwX::new(crate::model_lzw::STD)),
        "lzhuf-port" => Codec::Port,
        "lzss_huff" => Codec::Lz(LZSTD),
        "td0" => Codec::Td,
        _ => panic!("method"),
    }
}
fn img(adv: bool, v: u8, body: &[u8]) -> D {
    let mut h = td::H2;
    h[2] = v;
    D::Raw(td_image(adv, &h, body))
}
pub fn gen14(g: &mut Gen) {
    let th = g.thorough;
    let text = b"I am Sam. Sam I am. I do not like this Sam I am.\n";
    // plain data, Teledisk images and streams: offered to every method in both directions
    let mut ds = vec![
        D::Raw(vec![]),
        D::raw(b"a"),
        D::raw(text),
        corpus::lcg(9000, 256, 1),
        D::Runs(vec![(0, 20_000)]),
        img(false, 10, text),
        img(false, 21, text),
        img(false, 21, b""),
        D::raw(&[0x54, 0x44, 0, 0, 21, 0, 0, 0, 0, 0, 1, 1, 9]),
    ];
    for m in ["lzw", "lzhuf-port", "lzss_huff"] {
        let c = codec(m);
        for d in [D::Raw(vec![]), D::raw(text), corpus::lcg(700, 16, 2), D::Runs(vec![(b'z', 30_000)])] {
            ds.push(D::Raw(env::model_stream(&c, &d.build())));
        }
    }
    for v in [10u8, 21] {
        for b in [&text[..], b"", b"xyz"] {
            ds.push(D::Raw(env::model_stream(&Codec::Td, &img(false, v, b).build())));
        }
    }
    ds.push(D::raw(&[0x74, 0x64, 0, 0, 21, 0, 0, 0, 0, 0, 1, 1, 9]));
    if th {
        for n in [2u32, 3, 11, 12, 13, 4096, 8191, 8192, 8193, 60_000] {
            ds.push(corpus::lcg(n, 256, n as u64));
        }
        ds.push(D::Text { n: 50_000, seed: 1 });
        ds.push(D::Disk { sectors: 60, seed: 1 });
    }
    let priors = [None, Some(D::Raw(vec![])), Some(D::raw(b"old")), Some(D::Runs(vec![(b'#', 70_000)]))];
    // the port pads a short stream with zeros up to the declared length: keep that small
    let huge = |x: bool, m: &str, d: &D| {
        let b = d.build();
        x && m == "lzhuf-port" && b.len() >= 4 && (b[2] > 2 || b[3] > 0)
    };
    let case = |x: bool, m: &str, i: Option<&D>, p: Option<&D>, a: &str| Case::Cli { expand: x, method: m.into(), input: i.cloned(), prior: p.cloned(), answer: a.into(), form: 0 };
    g.family("conversions with every prior output", 2);
    for d in &ds {
        for m in METHODS {
            for x in [false, true] {
                if huge(x, m, d) {
                    continue;
                }
                for p in &priors {
                    g.put(case(x, m, Some(d), p.as_ref(), if p.is_none() { "n\n" } else { "y\n" }));
                }
            }
        }
    }
    g.family("every answer", 2);
    let answers = ["y\n", "Y\n", "y", "Y", "n\n", "N\n", "", "\n", "yes\n", "yy\n", "no\n", "Yes\n", "q\n", "0\n", "ny\n", "n\ny\n", "\ny\n", "y\r\n", "y\nn\n", " y\n", "\ty\n", " Y", "y y\n", "yn\n", "Yn\n", "YY\n", "ye", "-y\n", "1\n", "true\n", "\u{fc}\n", "j\n", "o\n", "ok\n"];
    let some: Vec<&D> = if th { ds.iter().collect() } else { vec![&ds[2], &ds[9 + 5], &ds[ds.len() - 6]] };
    for a in answers {
        for m in METHODS {
            for x in [false, true] {
                for d in &some {
                    if huge(x, m, d) {
                        continue;
                    }
                    for p in [&priors[2], &priors[3]] {
                        g.put(case(x, m, Some(d), p.as_ref(), a));
                    }
                }
            }
        }
    }
    g.family("missing input", 2);
    for m in METHODS {
        for x in [false, true] {
            for p in &priors {
                for a in ["y\n", "n\n"] {
                    g.put(case(x, m, None, p.as_ref(), a));
                }
            }
        }
    }
    g.family("unknown methods", 2);
    for m in ["", "huff", "LZW", "td", "lzss", "lzhuf", "lzhuf_port", "lzw ", "td0x", "zip"] {
        for x in [false, true] {
            for p in &priors {
                g.put(case(x, m, Some(&ds[2]), p.as_ref(), "y\n"));
            }
        }
    }
    g.family("every way to write the arguments", 2);
    for form in 1..FORMS {
        for m in METHODS {
            for x in [false, true] {
                for d in [&ds[2], &ds[6], &ds[3], &ds[10], &ds[14], &ds[18], &ds[21]] {
                    if huge(x, m, d) {
                        continue;
                    }
                    for p in &priors {
                        for a in ["y\n", "n\n"] {
                            let c = case(x, m, Some(d), p.as_ref(), a);
                            g.put(with_form(c, form));
                        }
                    }
                }
            }
        }
    }
    g.family("input and output the same file", 2);
    for form in INPLACE {
        for m in METHODS {
            for x in [false, true] {
                let mut l: Vec<D> = ds.iter().filter(|d| !huge(x, m, d)).cloned().collect();
                // larger than what is buffered anywhere
                let big = [corpus::lcg(150_000, 256, 3), D::Text { n: 90_000, seed: 3 }, D::Runs(vec![(b'x', 100_000)])];
                for b in big {
                    let b = if m == "td0" {
                        D::Raw(td_image(false, &td::H2, &b.build()))
                    } else {
                        b
                    };
                    l.push(if x { D::Raw(env::model_stream(&codec(m), &b.build())) } else { b });
                }
                for d in &l {
                    for a in ["y\n", "n\n"] {
                        g.put(with_form(case(x, m, Some(d), None, a), form));
                    }
                }
            }
        }
    }
    g.family("read-only input and write-only output of an unprivileged user", 2);
    for m in METHODS {
        for x in [false, true] {
            for d in [&ds[2], &ds[6], &ds[10], &ds[14], &ds[18], &ds[21]] {
                if huge(x, m, d) {
                    continue;
                }
                for p in &priors {
                    for a in ["y\n", "n\n", ""] {
                        g.put(with_form(case(x, m, Some(d), p.as_ref(), a), USER));
                    }
                }
            }
        }
    }
    g.family("no room for the output", 2);
    for m in METHODS {
        for x in [false, true] {
            for d in &ds {
                if huge(x, m, d) {
                    continue;
                }
                for p in [&priors[0], &priors[2]] {
                    g.put(with_form(case(x, m, Some(d), p.as_ref(), "y\n"), FULL));
                }
            }
        }
    }
    g.family("answers that are not UTF-8", 2);
    for a in ["\u{ff}\n", "y\u{ff}\n", "\u{fd}\ny\n", "\u{c3}", "Y\u{80}"] {
        for m in METHODS {
            for x in [false, true] {
                g.put(with_form(case(x, m, Some(&ds[2]), priors[2].as_ref(), a), LATIN));
            }
        }
    }
}
fn with_form(mut c: Case, to: u32) -> Case {
    if let Case::Cli { form, .. } = &mut c {
        *form = to;
    }
    c
}
const FORMS: u32 = 11;
// input and output are the same file: by name, by another name, by a hard link, by a symbolic link
const INPLACE: [u32; 4] = [11, 12, 13, 14];
/// an unprivileged user, who may only read the input and only write the output
const USER: u32 = 15;
/// files cannot become larger than LIMIT
const FULL: u32 = 16;
const LIMIT: u64 = 4096;
/// the answer in Latin-1, which is not UTF-8
const LATIN: u32 = 17;
static SERIAL: AtomicU64 = AtomicU64::new(0);

const NOBODY: u32 = 65534;
struct Run {
    code: Option<i32>,
    err: String,
    out: Option<Vec<u8>>,
}
/// names of the input and the output
fn names(form: u32) -> (&'static str, &'static str) {
    match form {
        5 => (".in p\u{fc}t  1", "out put (2).lzh.old"),
        10 => ("in", "in.out"),
        11 | 12 => ("in", "in"),
        _ => ("in", "out"),
    }
}
fn run_cli(dir: &Path, expand: bool, method: &str, answer: &str, form: u32) -> Result<Option<Run>, String> {
    use std::os::unix::process::CommandExt;
    let exe = PathBuf::from(std::env::var("MC_CLI").expect("MC_CLI"));
    let mut c = Command::new(if form == USER { Path::new("./tool") } else { &exe });
    let (ni, no) = names(form);
    let full = |n: &str| dir.join(n).to_string_lossy().into_owned();
    let (i, o) = match form {
        6 => (full("link-in"), full("link-out")),
        4 => (format!("./{ni}"), format!("../{}/{no}", dir.file_name().unwrap().to_string_lossy())),
        5 | 10 | USER => (ni.to_string(), no.to_string()),
        12 => (full(ni), format!("./{no}")),
        _ => (full(ni), full(no)),
    };
    let m = method;
    let args: Vec<String> = match form {
        1 => vec!["--method".into(), m.into(), "--input".into(), i, "--output".into(), o],
        2 => vec![format!("--method={m}"), format!("--input={i}"), format!("--output={o}")],
        3 => vec!["-o".into(), o, "-i".into(), i, "-m".into(), m.into()],
        7 => vec![format!("-i{i}"), format!("-m{m}"), format!("-o{o}")],
        _ => vec!["-m".into(), m.into(), "-i".into(), i, "-o".into(), o],
    };
    c.arg(if expand { "expand" } else { "compress" }).args(args);
    c.current_dir(dir).env_remove("RUST_LOG");
    match form {
        8 => {
            c.env("RUST_LOG", "trace");
        }
        9 => {
            c.env("RUST_LOG", "off").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8");
        }
        _ => {}
    }
    c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join("err")).unwrap());
    // a runaway output ends the process instead of filling the disk
    unsafe {
        c.pre_exec(move || {
            let n = if form == FULL { LIMIT } else { 64 << 20 };
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            if form == FULL {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            if form == USER && (libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0) {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut ch = loop {
        match c.spawn() {
            Ok(ch) => break ch,
            // another thread was between fork and exec while the copy of the executable was written
            Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) => std::thread::sleep(Duration::from_millis(1)),
            // nothing can be said without privileges to give up
            Err(e) if form == USER && e.raw_os_error() == Some(libc::EPERM) => return Ok(None),
            Err(e) => panic!("run the executable: {e}"),
        }
    };
    let mut si = ch.stdin.take().unwrap();
    let _ = if form == LATIN { si.write_all(&answer.chars().map(|c| c as u8).collect::<Vec<u8>>()) } else { si.write_all(answer.as_bytes()) };
    drop(si);
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("no end after 60 s".into());
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 200 } else { 5000 }));
    };
    let err = std::fs::read(dir.join("err")).unwrap_or_default();
    Ok(Some(Run { code: st.code(), err: String::from_utf8_lossy(&err[..err.len().min(300)]).into_owned(), out: std::fs::read(dir.join(no)).ok() }))
}
pub fn check14(c: &Case, st: &mut St) -> E {
    let Case::Cli { expand, method, input, prior, answer, form } = c else { panic!("case") };
    let base = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into()));
    let dir = base.join(format!("cli-{}-{}", std::process::id(), SERIAL.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).expect("scratch");
    let r = judge(&dir, *expand, method, input.as_ref().map(|d| d.build()), prior.as_ref().map(|d| d.build()), answer, *form, st);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn judge(dir: &Path, expand: bool, method: &str, input: Option<Vec<u8>>, prior: Option<Vec<u8>>, answer: &str, form: u32, st: &mut St) -> E {
    let (ni, no) = names(form);
    if form == 6 {
        std::os::unix::fs::symlink(ni, dir.join("link-in")).unwrap();
        std::os::unix::fs::symlink(no, dir.join("link-out")).unwrap();
    }
    std::fs::write(dir.join("other"), "x").unwrap();
    if let Some(i) = &input {
        std::fs::write(dir.join(ni), i).unwrap();
    }
    if let Some(p) = &prior {
        std::fs::write(dir.join(no), p).unwrap();
    }
    let inplace = INPLACE.contains(&form);
    match form {
        13 => std::fs::hard_link(dir.join(ni), dir.join(no)).unwrap(),
        14 => std::os::unix::fs::symlink(ni, dir.join(no)).unwrap(),
        USER => {
            use std::os::unix::fs::{chown, PermissionsExt};
            let mode = |n: &str, m: u32| {
                let p = dir.join(n);
                if !p.exists() || chown(&p, Some(NOBODY), Some(NOBODY)).is_err() {
                    return;
                }
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).unwrap();
            };
            std::fs::copy(std::env::var("MC_CLI").expect("MC_CLI"), dir.join("tool")).unwrap();
            mode("tool", 0o500);
            mode(ni, 0o400);
            mode(no, 0o200);
            mode(".", 0o700);
        }
        _ => {}
    }
    let prior = if inplace { input.clone() } else { prior };
    let Some(r) = run_cli(dir, expand, method, answer, form)? else {
        st.outcome("no unprivileged user");
        return Ok(());
    };
    st.evals += 1;
    st.traces += 1;
    st.trans += 1;
    let what = format!(
        "`retrocompressor {} -m {method:?}`{} with input {}, prior output {}, answer {answer:?}",
        if expand { "expand" } else { "compress" },
        if form > 0 { format!(" (form {form} of the arguments)") } else { String::new() },
        input.as_ref().map_or("missing".into(), |d| show(d)),
        prior.as_ref().map_or("none".into(), |d| show(d))
    );
    let got = r.out.as_ref().map_or("no file".into(), |d| show(d));
    let Some(code) = r.code else { return Err(format!("{what}: killed by a signal; {}", r.err)) };
    if !inplace && std::fs::read(dir.join(ni)).ok() != input {
        return Err(format!("{what}: the input file is changed"));
    }
    let mut files: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).filter(|n| n != no && !n.starts_with("link-")).collect();
    files.sort();
    let mut expect = vec!["err".to_string(), "other".into()];
    if input.is_some() && ni != no {
        expect.push(ni.to_string());
    }
    if form == USER {
        expect.push("tool".into());
    }
    expect.sort();
    if files != expect || std::fs::read(dir.join("other")).ok().as_deref() != Some(&b"x"[..]) {
        return Err(format!("{what}: other files are touched: {files:?}"));
    }
    let known = METHODS.contains(&method);
    let line = answer.split('\n').next().unwrap_or("");
    let yes = matches!(line.trim_end_matches('\r'), "y" | "Y");
    let same = || -> E {
        if r.out != prior {
            return Err(format!("{what}: the output was to be left as it was, now {got}"));
        }
        Ok(())
    };
    let kind;
    if !known || input.is_none() {
        kind = if known { "missing input" } else { "unknown method" };
        // without the answer y the tool may give up first, with success
        if code == 0 && !(known && prior.is_some() && !yes) {
            return Err(format!("{what}: success is reported for {kind}"));
        }
        same()?;
    } else if prior.is_some() && !yes {
        kind = "declined";
        if code != 0 {
            return Err(format!("{what}: exit status {code} after declining; {}", r.err));
        }
        same()?;
    } else {
        let op = Op { c: codec(method), x: expand };
        match slice(&op, input.as_ref().unwrap()) {
            Ok(_) if inplace && code != 0 => {
                kind = "refused";
                same()?;
            }
            Ok(want) if form == FULL && want.len() as u64 > LIMIT => {
                kind = "no room";
                if code == 0 {
                    return Err(format!("{what}: success is reported, but there is room for {LIMIT} of {} bytes only; {got}", want.len()));
                }
            }
            Ok(want) => {
                kind = "converted";
                if code != 0 {
                    return Err(format!("{what}: exit status {code}, expected success; {}", r.err));
                }
                match &r.out {
                    Some(o) if *o == want => {}
                    Some(o) => return Err(format!("{what}: output file differs from the library's result: {}; {got}", diff(&want, o))),
                    None => return Err(format!("{what}: no output file")),
                }
            }
            Err(e) => {
                kind = "rejected";
                if code == 0 {
                    return Err(format!("{what}: success is reported, the library returns {e:?}"));
                }
            }
        }
    }
    st.outcome(kind);
    st.state(&[what.as_bytes(), &[code as u8], got.as_bytes()]);
    Ok(())
}
