//! The implementation under test behind one uniform call, with streams the checker controls.
use crate::model_lzhuf::Par;
use crate::model_lzw::LwO;
use retrocompressor as rc;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LzO {
    pub n: usize,
    pub f: usize,
    pub t: usize,
    pub fill: u8,
    pub head: bool,
    pub ino: u64,
    pub outo: u64,
    pub max: u64,
}
pub const LZSTD: LzO = LzO { n: 4096, f: 60, t: 2, fill: b' ', head: true, ino: 0, outo: 0, max: u32::MAX as u64 / 4 };
impl LzO {
    pub fn new(n: usize, f: usize, t: usize, fill: u8, head: bool) -> LzO {
        LzO { n, f, t, fill, head, ..LZSTD }
    }
    pub fn par(&self) -> Par {
        Par { n: self.n, f: self.f, t: self.t, fill: self.fill }
    }
    pub fn opt(&self) -> rc::lzss_huff::Options {
        if *self == LZSTD {
            return rc::lzss_huff::STD_OPTIONS;
        }
        // assigned one by one: a tree with further fields still fits
        let mut o = rc::lzss_huff::STD_OPTIONS;
        o.header = self.head;
        o.in_offset = self.ino;
        o.out_offset = self.outo;
        o.window_size = self.n;
        o.threshold = self.t;
        o.lookahead = self.f;
        o.precursor = self.fill;
        o.max_file_size = self.max;
        o
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LwX {
    pub o: LwO,
    pub ino: u64,
    pub outo: u64,
    pub max: u64,
}
impl LwX {
    pub fn new(o: LwO) -> LwX {
        LwX { o, ino: 0, outo: 0, max: u32::MAX as u64 / 4 }
    }
    pub fn opt(&self) -> rc::lzw::Options {
        if self.ino == 0 && self.outo == 0 && self.o == crate::model_lzw::STD && self.max == u32::MAX as u64 / 4 {
            return rc::lzw::STD_OPTIONS;
        }
        if self.o == crate::model_lzw::TD1 {
            let mut o = rc::td0::TD_V1_OPTIONS;
            o.in_offset = self.ino;
            o.out_offset = self.outo;
            o.max_file_size = self.max;
            return o;
        }
        let mut o = rc::lzw::STD_OPTIONS;
        o.header_bits = self.o.hb;
        o.header_divisor = self.o.hd;
        o.in_offset = self.ino;
        o.out_offset = self.outo;
        o.chunk_size = self.o.chunk;
        o.min_symbol = 0;
        o.max_symbol = self.o.max;
        o.clear_code = self.o.clear;
        o.stop_code = self.o.stop;
        o.min_code_width = self.o.width;
        o.max_code_width = self.o.width;
        o.ord = if self.o.msb { rc::BitOrder::Msb0 } else { rc::BitOrder::Lsb0 };
        o.max_file_size = self.max;
        o
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Codec {
    Lz(LzO),
    Port,
    Lw(LwX),
    Td,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub c: Codec,
    pub x: bool,
}
pub fn cmp(c: &Codec) -> Op {
    Op { c: c.clone(), x: false }
}
pub fn exp(c: &Codec) -> Op {
    Op { c: c.clone(), x: true }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum EK {
    Format,
    Large,
    Sum,
    Io(String),
    Other(String),
    Panic(String),
}
impl EK {
    pub fn is_panic(&self) -> bool {
        matches!(self, EK::Panic(_))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !quiet {
            old(i);
            return;
        }
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run code of the implementation; a panic of it becomes EK::Panic.  A panic of the harness's own
/// streams is passed on (it is an error of the checker).
pub fn guard<T>(f: impl FnOnce() -> Result<T, EK>) -> Result<T, EK> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = before);
    match r {
        Ok(v) => v,
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if l.starts_with("src/") && !l.starts_with("src/direct") {
                panic!("checker failed at {l}: {m}");
            }
            Err(EK::Panic(format!("panic at {l}: {m}")))
        }
    }
}

pub fn kind(e: &(dyn std::error::Error + 'static)) -> EK {
    if let Some(e) = e.downcast_ref::<rc::Error>() {
        return match e {
            rc::Error::FileFormatMismatch => EK::Format,
            rc::Error::FileTooLarge => EK::Large,
            rc::Error::BadChecksum => EK::Sum,
            #[allow(unreachable_patterns)]
            e => EK::Other(e.to_string()),
        };
    }
    if let Some(e) = e.downcast_ref::<Error>() {
        return EK::Io(format!("{:?}", e.kind()));
    }
    EK::Other(e.to_string())
}

pub fn run<R: Read + Seek, W: Write + Seek>(op: &Op, r: &mut R, w: &mut W) -> Result<(u64, u64), EK> {
    guard(|| {
        match (&op.c, op.x) {
            (Codec::Lz(o), false) => rc::lzss_huff::compress(r, w, &o.opt()),
            (Codec::Lz(o), true) => rc::lzss_huff::expand(r, w, &o.opt()),
            (Codec::Port, false) => rc::direct_ports::lzhuf::encode(r, w),
            (Codec::Port, true) => rc::direct_ports::lzhuf::decode(r, w),
            (Codec::Lw(o), false) => rc::lzw::compress(r, w, &o.opt()),
            (Codec::Lw(o), true) => rc::lzw::expand(r, w, &o.opt()),
            (Codec::Td, false) => rc::td0::compress(r, w),
            (Codec::Td, true) => rc::td0::expand(r, w),
        }
        .map_err(|e| kind(e.as_ref()))
    })
}
pub fn slice(op: &Op, d: &[u8]) -> Result<Vec<u8>, EK> {
    guard(|| {
        match (&op.c, op.x) {
            (Codec::Lz(o), false) => rc::lzss_huff::compress_slice(d, &o.opt()),
            (Codec::Lz(o), true) => rc::lzss_huff::expand_slice(d, &o.opt()),
            (Codec::Port, false) => rc::direct_ports::lzhuf::encode_slice(d),
            (Codec::Port, true) => rc::direct_ports::lzhuf::decode_slice(d),
            (Codec::Lw(o), false) => rc::lzw::compress_slice(d, &o.opt()),
            (Codec::Lw(o), true) => rc::lzw::expand_slice(d, &o.opt()),
            (Codec::Td, false) => rc::td0::compress_slice(d),
            (Codec::Td, true) => rc::td0::expand_slice(d),
        }
        .map_err(|e| kind(e.as_ref()))
    })
}
/// over plain cursors
pub fn mem(op: &Op, d: &[u8]) -> Result<(Vec<u8>, u64, u64), EK> {
    let mut r = Cursor::new(d);
    let mut w = Cursor::new(Vec::new());
    let (a, b) = run(op, &mut r, &mut w)?;
    Ok((w.into_inner(), a, b))
}
/// over plain cursors, output limited: the writer refuses to grow beyond `cap`
pub fn capped(op: &Op, d: &[u8], cap: usize) -> (Result<(u64, u64), EK>, Vec<u8>, bool) {
    let mut r = Cursor::new(d);
    let mut w = Cap { c: Cursor::new(vec![]), cap, hit: false };
    let x = run(op, &mut r, &mut w);
    (x, w.c.into_inner(), w.hit)
}
pub struct Cap {
    pub c: Cursor<Vec<u8>>,
    pub cap: usize,
    pub hit: bool,
}
impl Write for Cap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.c.position() as usize + b.len() > self.cap {
            self.hit = true;
            let room = self.cap.saturating_sub(self.c.position() as usize);
            if room == 0 {
                return Err(Error::new(ErrorKind::Other, "cap"));
            }
            return self.c.write(&b[..room.min(b.len())]);
        }
        self.c.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Cap {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

// ---------- controlled environment ----------

/// What the environment answers at one call of a stream.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ans {
    /// at most k bytes
    Short(u32),
    Intr,
    /// hard error, index into KINDS
    Fail(u8),
    /// a write accepting nothing
    Zero,
}
pub const KINDS: [ErrorKind; 6] =
    [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidData];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Call {
    Read,
    Write,
    SeekR,
    SeekW,
    Flush,
}

#[derive(Default)]
pub struct Ctl {
    pub calls: Vec<Call>,
    pub plan: Vec<(u32, Ans)>,
    /// default limits on transfer sizes
    pub rmax: usize,
    pub wmax: usize,
    pub applied: usize,
    pub first_fail: Option<usize>,
    pub horizon: usize,
    pub over: bool,
    pub hook: Option<Box<dyn FnMut(usize)>>,
}
impl Ctl {
    pub fn new() -> Self {
        Ctl { rmax: usize::MAX, wmax: usize::MAX, horizon: 2_000_000, ..Default::default() }
    }
}
pub type Shared = Rc<RefCell<Ctl>>;
fn step(ctl: &Shared, c: Call) -> std::io::Result<Option<Ans>> {
    let (k, hook) = {
        let mut s = ctl.borrow_mut();
        let k = s.calls.len();
        s.calls.push(c);
        if k > s.horizon {
            s.over = true;
            return Err(Error::new(ErrorKind::Other, "horizon"));
        }
        (k, s.hook.take())
    };
    if let Some(mut h) = hook {
        h(k);
        ctl.borrow_mut().hook = Some(h);
    }
    let mut s = ctl.borrow_mut();
    let a = s.plan.iter().find(|p| p.0 as usize == k).map(|p| p.1);
    if let Some(a) = a {
        s.applied += 1;
        match a {
            Ans::Fail(i) => {
                s.first_fail.get_or_insert(k);
                return Err(Error::new(KINDS[i as usize % KINDS.len()], "injected"));
            }
            Ans::Intr => return Err(Error::new(ErrorKind::Interrupted, "injected")),
            _ => {}
        }
    }
    Ok(a)
}
pub struct Src<'a> {
    pub d: &'a [u8],
    pub pos: u64,
    pub ctl: Shared,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let a = step(&self.ctl, Call::Read)?;
        let p = (self.pos as usize).min(self.d.len());
        let mut n = b.len().min(self.d.len() - p).min(self.ctl.borrow().rmax);
        if let Some(Ans::Short(k)) = a {
            n = n.min(k as usize);
        }
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
fn seek_to(pos: u64, len: u64, p: SeekFrom) -> std::io::Result<u64> {
    let v = match p {
        SeekFrom::Start(v) => return Ok(v),
        SeekFrom::End(o) => len as i64 + o,
        SeekFrom::Current(o) => pos as i64 + o,
    };
    if v < 0 {
        return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
    }
    Ok(v as u64)
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        step(&self.ctl, Call::SeekR)?;
        self.pos = seek_to(self.pos, self.d.len() as u64, p)?;
        Ok(self.pos)
    }
}
pub struct Dst {
    pub d: Vec<u8>,
    pub pos: u64,
    pub ctl: Shared,
    /// bytes written behind the last successful flush
    pub dirty: bool,
}
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let a = step(&self.ctl, Call::Write)?;
        let mut n = b.len().min(self.ctl.borrow().wmax);
        match a {
            Some(Ans::Short(k)) => n = n.min(k as usize),
            Some(Ans::Zero) => n = 0,
            _ => {}
        }
        if n == 0 {
            return Ok(0);
        }
        let p = self.pos as usize;
        if self.d.len() < p + n {
            self.d.resize(p + n, 0);
        }
        self.d[p..p + n].copy_from_slice(&b[..n]);
        self.pos += n as u64;
        self.dirty = true;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        step(&self.ctl, Call::Flush)?;
        self.dirty = false;
        Ok(())
    }
}
impl Seek for Dst {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        step(&self.ctl, Call::SeekW)?;
        self.pos = seek_to(self.pos, self.d.len() as u64, p)?;
        Ok(self.pos)
    }
}

pub struct EnvRun {
    pub res: Result<(u64, u64), EK>,
    pub out: Vec<u8>,
    pub calls: Vec<Call>,
    pub applied: usize,
    pub over: bool,
    pub dirty: bool,
}
/// one execution under a planned environment
pub fn env_run(op: &Op, d: &[u8], prefill: &[u8], plan: &[(u32, Ans)], rmax: usize, wmax: usize) -> EnvRun {
    let mut c = Ctl::new();
    c.plan = plan.to_vec();
    c.rmax = rmax;
    c.wmax = wmax;
    env_run_ctl(op, d, prefill, c)
}
pub fn env_run_ctl(op: &Op, d: &[u8], prefill: &[u8], c: Ctl) -> EnvRun {
    let ctl = Rc::new(RefCell::new(c));
    let mut r = Src { d, pos: 0, ctl: ctl.clone() };
    let mut w = Dst { d: prefill.to_vec(), pos: 0, ctl: ctl.clone(), dirty: false };
    let res = run(op, &mut r, &mut w);
    let mut c = ctl.borrow_mut();
    EnvRun { res, out: w.d, calls: std::mem::take(&mut c.calls), applied: c.applied, over: c.over, dirty: w.dirty }
}

/// a stream whose bytes before `base` are not stored (they read as zeros)
pub struct Sparse {
    pub base: u64,
    pub d: Vec<u8>,
    pub pos: u64,
    /// a byte before `base` was written
    pub low: bool,
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos < self.base {
            let n = (b.len() as u64).min(self.base - self.pos) as usize;
            b[..n].fill(0);
            self.pos += n as u64;
            return Ok(n);
        }
        let p = ((self.pos - self.base) as usize).min(self.d.len());
        let n = b.len().min(self.d.len() - p);
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.pos < self.base {
            self.low = true;
            return Err(Error::new(ErrorKind::Other, "write before the offset"));
        }
        let p = (self.pos - self.base) as usize;
        if p > 1 << 26 {
            return Err(Error::new(ErrorKind::Other, "far write"));
        }
        if self.d.len() < p + b.len() {
            self.d.resize(p + b.len(), 0);
        }
        self.d[p..p + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let v = match p {
            SeekFrom::Start(v) => v as i128,
            SeekFrom::End(o) => self.base as i128 + self.d.len() as i128 + o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
        };
        if v < 0 || v > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = v as u64;
        Ok(self.pos)
    }
}

/// Teledisk image with a valid header
pub fn td_image(advanced: bool, head: &[u8; 8], body: &[u8]) -> Vec<u8> {
    let mut v = if advanced { b"td".to_vec() } else { b"TD".to_vec() };
    v.extend_from_slice(head);
    let c = crc(&v[..10]);
    v.extend_from_slice(&c.to_le_bytes());
    v.extend_from_slice(body);
    v
}
/// independent CRC-16, polynomial 0xA097, by long division of the message polynomial
pub fn crc(b: &[u8]) -> u16 {
    let mut reg: u32 = 0;
    for i in 0..b.len() * 8 + 16 {
        let bit = if i < b.len() * 8 { (b[i / 8] >> (7 - i % 8)) as u32 & 1 } else { 0 };
        reg = reg << 1 | bit;
        if reg & 0x10000 != 0 {
            reg ^= 0x1a097;
        }
    }
    reg as u16
}
