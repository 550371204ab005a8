//! Reference model of LZHUF (LZSS + adaptive Huffman), written from the published C algorithm
//! with the constants made parameters.  It shares no code with the crate under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Lit(u8),
    /// distance (1 = previous byte), length
    Copy(usize, usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub n: usize, // window
    pub f: usize, // lookahead
    pub t: usize, // threshold
    pub fill: u8,
}

pub const STD: Par = Par { n: 4096, f: 60, t: 2, fill: b' ' };

const NIL: usize = usize::MAX;

#[derive(Clone, Copy)]
enum Up {
    Free,
    Root(u8),
    Node(usize, bool), // parent, am I the right son
}

/// LZSS match finder: one binary search tree per first byte.
pub struct Finder {
    p: Par,
    /// the ring, followed by the copy of its first f-1 places that LZHUF keeps behind it;
    /// the copy is zero until data is stored in those places
    text: Vec<u8>,
    kids: Vec<[usize; 2]>,
    up: Vec<Up>,
    root: [usize; 256],
    pub len: usize,
    pub dist: usize,
}

impl Finder {
    fn new(p: Par) -> Self {
        Finder { p, text: vec![0; p.n + p.f - 1], kids: vec![[NIL; 2]; p.n], up: vec![Up::Free; p.n], root: [NIL; 256], len: 0, dist: 0 }
    }
    fn at(&self, pos: usize) -> u8 {
        self.text[pos]
    }
    fn store(&mut self, s: usize, c: u8) {
        self.text[s] = c;
        if s + 1 < self.p.f {
            self.text[self.p.n + s] = c;
        }
    }
    fn hang(&mut self, up: Up, child: usize) {
        match up {
            Up::Free => {}
            Up::Root(s) => self.root[s as usize] = child,
            Up::Node(q, right) => self.kids[q][right as usize] = child,
        }
        if child != NIL {
            self.up[child] = up;
        }
    }
    fn insert(&mut self, r: usize) {
        let n = self.p.n;
        self.kids[r] = [NIL; 2];
        self.len = 0;
        self.dist = 0;
        let s = self.at(r);
        let mut link = Up::Root(s);
        let mut q = self.root[s as usize];
        while q != NIL {
            let mut i = 1;
            let mut cmp = 0i32;
            while i < self.p.f {
                cmp = self.at(r + i) as i32 - self.at(q + i) as i32;
                if cmp != 0 {
                    break;
                }
                i += 1;
            }
            if i > self.p.t {
                let d = (r + n - q) % n;
                if i > self.len {
                    self.len = i;
                    self.dist = d;
                    if i >= self.p.f {
                        // r takes the place of q
                        let (l, rt, u) = (self.kids[q][0], self.kids[q][1], self.up[q]);
                        self.hang(u, r);
                        self.hang(Up::Node(r, false), l);
                        self.hang(Up::Node(r, true), rt);
                        self.up[q] = Up::Free;
                        return;
                    }
                } else if i == self.len && d < self.dist {
                    self.dist = d;
                }
            }
            let right = cmp >= 0;
            link = Up::Node(q, right);
            q = self.kids[q][right as usize];
        }
        self.hang(link, r);
    }
    fn remove(&mut self, p: usize) {
        let up = match self.up[p] {
            Up::Free => return,
            u => u,
        };
        let [l, r] = self.kids[p];
        let repl = if r == NIL {
            l
        } else if l == NIL {
            r
        } else {
            let mut q = l;
            if self.kids[q][1] != NIL {
                while self.kids[q][1] != NIL {
                    q = self.kids[q][1];
                }
                let (u, ql) = (self.up[q], self.kids[q][0]);
                self.hang(u, ql);
                let l2 = self.kids[p][0];
                self.hang(Up::Node(q, false), l2);
            }
            self.hang(Up::Node(q, true), r);
            q
        };
        self.hang(up, repl);
        self.up[p] = Up::Free;
    }
}

/// The token sequence LZHUF produces.
pub fn parse(data: &[u8], p: Par) -> Vec<Tok> {
    let mut out = Vec::new();
    if data.is_empty() {
        return out;
    }
    let n = p.n;
    let mut z = Finder::new(p);
    let mut r = n - p.f;
    let mut s = 0usize;
    for i in 0..r {
        z.text[i] = p.fill;
    }
    let mut next = 0;
    let mut len = 0;
    while len < p.f && next < data.len() {
        z.text[r + len] = data[next];
        len += 1;
        next += 1;
    }
    for i in 1..=p.f.min(r) {
        z.insert(r - i);
    }
    z.insert(r);
    while len > 0 {
        let m = z.len.min(len);
        let take = if m <= p.t {
            out.push(Tok::Lit(z.text[r]));
            1
        } else {
            out.push(Tok::Copy(z.dist, m));
            m
        };
        for _ in 0..take {
            z.remove(s);
            if next < data.len() {
                z.store(s, data[next]);
                next += 1;
            } else {
                len -= 1;
            }
            s = (s + 1) % n;
            r = (r + 1) % n;
            if len > 0 {
                z.insert(r);
            }
        }
    }
    out
}

/// Adaptive Huffman model of LZHUF.
#[derive(Clone)]
pub struct Huff {
    pub k: usize,
    pub freq: Vec<u32>,
    pub son: Vec<usize>,   // son >= T is a leaf
    pub prnt: Vec<usize>,  // T.. is the symbol map
    pub max: u32,
    pub rebuilds: u32,
}

impl Huff {
    pub fn new(k: usize) -> Self {
        let t = 2 * k - 1;
        let mut h = Huff { k, freq: vec![0; t + 1], son: vec![0; t], prnt: vec![0; t + k], max: 0x8000, rebuilds: 0 };
        for i in 0..k {
            h.freq[i] = 1;
            h.son[i] = i + t;
            h.prnt[i + t] = i;
        }
        for j in k..t {
            let i = 2 * (j - k);
            h.freq[j] = h.freq[i] + h.freq[i + 1];
            h.son[j] = i;
            h.prnt[i] = j;
            h.prnt[i + 1] = j;
        }
        h.freq[t] = 0xffff;
        h.prnt[t - 1] = 0;
        h
    }
    fn t(&self) -> usize {
        2 * self.k - 1
    }
    fn rebuild(&mut self) {
        self.rebuilds += 1;
        let t = self.t();
        // halve the leaves, keep their order; insert each new parent after the last node not heavier
        let mut nodes: Vec<(u32, usize)> = (0..t).filter(|&i| self.son[i] >= t).map(|i| ((self.freq[i] + 1) / 2, self.son[i])).collect();
        let mut i = 0;
        while nodes.len() < t {
            let f = nodes[i].0 + nodes[i + 1].0;
            let mut at = nodes.len();
            while nodes[at - 1].0 > f {
                at -= 1;
            }
            nodes.insert(at, (f, i));
            i += 2;
        }
        for (i, (f, s)) in nodes.iter().enumerate() {
            self.freq[i] = *f;
            self.son[i] = *s;
        }
        for i in 0..t {
            let s = self.son[i];
            self.prnt[s] = i;
            if s < t {
                self.prnt[s + 1] = i;
            }
        }
    }
    fn bump(&mut self, sym: usize) {
        let t = self.t();
        if self.freq[t - 1] == self.max {
            self.rebuild();
        }
        let mut c = self.prnt[t + sym];
        loop {
            self.freq[c] += 1;
            let f = self.freq[c];
            // highest numbered node that is lighter than c now is
            let mut l = c;
            while self.freq[l + 1] < f {
                l += 1;
            }
            if l != c {
                self.freq.swap(c, l);
                self.son.swap(c, l);
                for x in [c, l] {
                    let s = self.son[x];
                    self.prnt[s] = x;
                    if s < t {
                        self.prnt[s + 1] = x;
                    }
                }
                c = l;
            }
            c = self.prnt[c];
            if c == 0 {
                return;
            }
        }
    }
    /// code of the symbol, first bit first; then the model learns the symbol
    pub fn encode(&mut self, sym: usize, out: &mut Bits) -> usize {
        let t = self.t();
        let mut code = Vec::new();
        let mut k = self.prnt[t + sym];
        while k != t - 1 {
            code.push(k & 1 == 1);
            k = self.prnt[k];
        }
        for b in code.iter().rev() {
            out.push(*b);
        }
        self.bump(sym);
        code.len()
    }
    pub fn decode(&mut self, inp: &mut BitSrc) -> Option<usize> {
        let t = self.t();
        let mut c = self.son[t - 1];
        while c < t {
            c = self.son[c + inp.get()? as usize];
        }
        self.bump(c - t);
        Some(c - t)
    }
}

#[derive(Default)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub n: usize,
}
impl Bits {
    pub fn push(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 0x80 >> (self.n % 8);
        }
        self.n += 1;
    }
    pub fn push_n(&mut self, v: usize, bits: usize) {
        for i in (0..bits).rev() {
            self.push(v >> i & 1 == 1);
        }
    }
}
pub struct BitSrc<'a> {
    pub bytes: &'a [u8],
    pub n: usize,
    pub zeros: bool,
}
impl<'a> BitSrc<'a> {
    pub fn get(&mut self) -> Option<u8> {
        let by = self.n / 8;
        if by >= self.bytes.len() {
            if self.zeros {
                self.n += 1;
                return Some(0);
            }
            return None;
        }
        let b = self.bytes[by] >> (7 - self.n % 8) & 1;
        self.n += 1;
        Some(b)
    }
    pub fn get_n(&mut self, k: usize) -> Option<usize> {
        let mut v = 0;
        for _ in 0..k {
            v = v << 1 | self.get()? as usize;
        }
        Some(v)
    }
}

/// Static prefix code for the upper 6 bits of a position: (length, code) computed from the
/// length profile 1x3, 3x4, 8x5, 12x6, 24x7, 16x8 by canonical assignment.
fn pos_code(v: usize) -> (usize, usize) {
    let profile = [(1usize, 3usize), (3, 4), (8, 5), (12, 6), (24, 7), (16, 8)];
    let mut first = 0usize; // left aligned in 8 bits
    let mut base = 0usize;
    for (cnt, len) in profile {
        if v < base + cnt {
            return (len, (first >> (8 - len)) + (v - base));
        }
        first += cnt << (8 - len);
        base += cnt;
    }
    panic!("position out of range")
}
fn pos_decode(inp: &mut BitSrc) -> Option<usize> {
    let profile = [(1usize, 3usize), (3, 4), (8, 5), (12, 6), (24, 7), (16, 8)];
    let mut first = 0usize;
    let mut base = 0usize;
    let mut code = 0usize;
    let mut have = 0usize;
    for (cnt, len) in profile {
        while have < len {
            code = code << 1 | inp.get()? as usize;
            have += 1;
        }
        let f = first >> (8 - len);
        if code < f + cnt {
            return Some(base + (code - f));
        }
        first += cnt << (8 - len);
        base += cnt;
    }
    None
}

pub struct Enc {
    pub body: Vec<u8>,
    pub toks: Vec<Tok>,
    pub max_code: usize,
    pub rebuilds: u32,
    pub bits: usize,
    /// bit position behind each token
    pub ends: Vec<usize>,
}

pub fn encode_toks(toks: Vec<Tok>, p: Par) -> Enc {
    let mut h = Huff::new(256 + p.f - p.t);
    let mut b = Bits::default();
    let mut max_code = 0;
    let mut ends = Vec::with_capacity(toks.len());
    for t in &toks {
        match *t {
            Tok::Lit(c) => max_code = max_code.max(h.encode(c as usize, &mut b)),
            Tok::Copy(d, l) => {
                max_code = max_code.max(h.encode(255 - p.t + l, &mut b));
                let pos = d - 1;
                let (len, code) = pos_code(pos >> 6);
                b.push_n(code, len);
                b.push_n(pos & 63, 6);
            }
        }
        ends.push(b.n);
    }
    Enc { bits: b.n, body: b.bytes, toks, max_code, rebuilds: h.rebuilds, ends }
}

pub fn encode(data: &[u8], p: Par) -> Enc {
    encode_toks(parse(data, p), p)
}

pub struct Dec {
    pub out: Vec<u8>,
    pub toks: Vec<Tok>,
    /// bit position behind each complete token
    pub ends: Vec<usize>,
}

/// Expand `body` until at least `want` bytes are out or the bits are used up.
/// `zeros`: missing bits are zeros (LZHUF), otherwise they end the data.
pub fn decode(body: &[u8], p: Par, want: u64, zeros: bool) -> Dec {
    let mut h = Huff::new(256 + p.f - p.t);
    let mut src = BitSrc { bytes: body, n: 0, zeros };
    let mut win = vec![0u8; p.n];
    let mut r = p.n - p.f;
    for b in win[..r].iter_mut() {
        *b = p.fill;
    }
    let mut d = Dec { out: Vec::new(), toks: Vec::new(), ends: Vec::new() };
    while (d.out.len() as u64) < want {
        let c = match h.decode(&mut src) {
            Some(c) => c,
            None => break,
        };
        if c < 256 {
            d.out.push(c as u8);
            win[r] = c as u8;
            r = (r + 1) % p.n;
            d.toks.push(Tok::Lit(c as u8));
        } else {
            // like LZHUF, eight bits are looked at first: running out of data within them ends the data
            let hi = match pos_decode(&mut src) {
                Some(v) => v,
                None => break,
            };
            let lo = match src.get_n(6) {
                Some(v) => v,
                None => break,
            };
            let dist = (hi << 6 | lo) + 1;
            let len = c + p.t - 255;
            for _ in 0..len {
                let b = win[(r as i64 - dist as i64).rem_euclid(p.n as i64) as usize];
                d.out.push(b);
                win[r] = b;
                r = (r + 1) % p.n;
            }
            d.toks.push(Tok::Copy(dist, len));
        }
        d.ends.push(src.n);
    }
    d
}

/// Length of the longest match at `at` among the distances up to `dmax`, by brute force.
/// Positions before the data hold the fill byte.
pub fn longest(data: &[u8], at: usize, p: Par, dmax: usize) -> usize {
    let get = |i: i64| -> u8 { if i < 0 { p.fill } else { data[i as usize] } };
    let cap = p.f.min(data.len() - at);
    let mut best = 0;
    for d in 1..=dmax {
        let mut l = 0;
        while l < cap && get(at as i64 - d as i64 + l as i64) == data[at + l] {
            l += 1;
        }
        best = best.max(l);
    }
    best
}
