//! Reference model of fixed-width LZW with chunks: a list of strings, nothing clever.
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct LwO {
    pub hb: usize,    // header bits
    pub hd: usize,    // header divisor
    pub chunk: usize, // codes per chunk
    pub max: usize,   // highest symbol
    pub clear: Option<usize>,
    pub stop: Option<usize>,
    pub width: usize,
    pub msb: bool,
}

pub const STD: LwO = LwO { hb: 0, hd: 1, chunk: 4096, max: 255, clear: Some(256), stop: Some(257), width: 12, msb: false };
pub const TD1: LwO = LwO { hb: 16, hd: 4, chunk: 4096, max: 255, clear: None, stop: None, width: 12, msb: false };

impl LwO {
    fn special(&self, c: usize) -> bool {
        c <= self.max || Some(c) == self.clear || Some(c) == self.stop
    }
    /// the first `most` codes that can be given to strings, in order of assignment
    pub fn free_codes(&self, most: usize) -> Vec<usize> {
        (0..1usize << self.width).filter(|c| !self.special(*c)).take(most).collect()
    }
    /// expansion can follow a reset
    pub fn resets(&self) -> bool {
        self.hb > 0 || self.clear.is_some()
    }
    pub fn valid(&self) -> bool {
        let top = 1usize << self.width;
        let sp = [self.clear, self.stop];
        self.max < top
            && self.max <= 255
            && sp.iter().flatten().all(|c| *c > self.max && *c < top)
            && !(self.clear.is_some() && self.clear == self.stop)
            && self.chunk >= 1
            && (self.hb == 0 || (self.hd >= 1 && self.hd <= self.width && ((self.chunk + 2) * self.width / self.hd) < 1usize << self.hb))
            && (self.stop.is_some() || self.hb > 0 || self.width >= 8)
    }
}

pub struct Pack {
    pub bytes: Vec<u8>,
    pub n: usize,
    msb: bool,
}
impl Pack {
    pub fn new(msb: bool) -> Self {
        Pack { bytes: vec![], n: 0, msb }
    }
    fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            let k = self.n % 8;
            *self.bytes.last_mut().unwrap() |= if self.msb { 0x80 >> k } else { 1 << k };
        }
        self.n += 1;
    }
    pub fn put(&mut self, v: usize, w: usize) {
        for i in 0..w {
            let b = if self.msb { v >> (w - 1 - i) } else { v >> i };
            self.bit(b & 1 == 1);
        }
    }
}
pub struct Unpack<'a> {
    bytes: &'a [u8],
    pub n: usize,
    msb: bool,
}
impl<'a> Unpack<'a> {
    pub fn new(bytes: &'a [u8], msb: bool) -> Self {
        Unpack { bytes, n: 0, msb }
    }
    pub fn get(&mut self, w: usize) -> Option<usize> {
        let mut v = 0usize;
        for i in 0..w {
            let by = self.n / 8;
            if by >= self.bytes.len() {
                self.n = self.bytes.len() * 8;
                return None;
            }
            let k = self.n % 8;
            let b = if self.msb { self.bytes[by] >> (7 - k) } else { self.bytes[by] >> k } as usize & 1;
            self.n += 1;
            if self.msb {
                v = v << 1 | b;
            } else {
                v |= b << i;
            }
        }
        Some(v)
    }
}

pub struct Chunk {
    pub codes: Vec<usize>,
}

/// symbols that go into the first chunk
pub fn first_chunk(data: &[u8], o: &LwO) -> usize {
    let mut trie: HashMap<(usize, u8), usize> = HashMap::new();
    let free = o.free_codes(o.chunk + 2);
    let (mut i, mut used, mut n) = (0, 0, 0);
    while i < data.len() && n < o.chunk {
        let mut cur = data[i] as usize;
        i += 1;
        while let Some(c) = data.get(i).and_then(|b| trie.get(&(cur, *b))) {
            cur = *c;
            i += 1;
        }
        n += 1;
        if i < data.len() && used < free.len() {
            trie.insert((cur, data[i]), free[used]);
            used += 1;
        }
    }
    i
}

/// codes of every chunk, special codes included
pub fn codes(data: &[u8], o: &LwO) -> Vec<Chunk> {
    let mut chunks = Vec::new();
    let free = o.free_codes(if o.resets() { o.chunk + 2 } else { data.len() });
    let mut i = 0;
    loop {
        // the trie stands for the list of strings: (code of prefix, next symbol) -> code
        let mut trie: HashMap<(usize, u8), usize> = HashMap::new();
        let mut used = 0;
        let mut codes = Vec::new();
        let mut closed = false;
        while i < data.len() {
            let mut cur = data[i] as usize;
            let mut j = i + 1;
            while j < data.len() {
                match trie.get(&(cur, data[j])) {
                    Some(c) => cur = *c,
                    None => break,
                }
                j += 1;
            }
            codes.push(cur);
            if j < data.len() {
                if used < free.len() {
                    trie.insert((cur, data[j]), free[used]);
                    used += 1;
                }
                if codes.len() >= o.chunk && o.resets() {
                    i = j;
                    closed = true;
                    break;
                }
            }
            i = j;
        }
        if closed {
            if let Some(c) = o.clear {
                codes.push(c);
            }
            chunks.push(Chunk { codes });
        } else {
            if let Some(c) = o.stop {
                codes.push(c);
            }
            chunks.push(Chunk { codes });
            return chunks;
        }
    }
}

pub fn pack(chunks: &[Chunk], o: &LwO) -> Vec<u8> {
    let mut p = Pack::new(o.msb);
    for c in chunks {
        if o.hb > 0 {
            p.put(c.codes.len() * o.width / o.hd, o.hb);
        }
        for k in &c.codes {
            p.put(*k, o.width);
        }
    }
    p.bytes
}

pub fn encode(data: &[u8], o: &LwO) -> Vec<u8> {
    pack(&codes(data, o), o)
}

pub struct Dec {
    pub out: Vec<u8>,
    /// None: accepted
    pub bad_code: Option<usize>,
    pub codes: usize,
}

/// Strict decoder. Strings are stored as (prefix code, first, last, length).
pub fn decode(bytes: &[u8], o: &LwO) -> Dec {
    let mut u = Unpack::new(bytes, o.msb);
    let mut d = Dec { out: vec![], bad_code: None, codes: 0 };
    let free = o.free_codes(bytes.len() * 8 / o.width + 2);
    let size = free.last().map_or(0, |c| c + 1);
    loop {
        let mut table: Vec<Option<(usize, usize)>> = vec![None; size]; // start,len within out: where the string was produced
        let limit = if o.hb > 0 {
            match u.get(o.hb) {
                Some(v) => v.saturating_mul(o.hd),
                None => return d,
            }
        } else {
            usize::MAX
        };
        let mut used = 0;
        let mut bits = 0;
        let mut prev: Option<(usize, usize)> = None;
        while bits < limit {
            let c = match u.get(o.width) {
                Some(c) => c,
                None => return d,
            };
            if Some(c) == o.stop {
                return d;
            }
            if Some(c) == o.clear {
                break;
            }
            bits += o.width;
            d.codes += 1;
            let fresh = if prev.is_some() && used < free.len() { Some(free[used]) } else { None };
            let start = d.out.len();
            let len;
            if c <= o.max {
                d.out.push(c as u8);
                len = 1;
            } else if let Some((s, l)) = table.get(c).copied().flatten() {
                for i in 0..l {
                    let b = d.out[s + i];
                    d.out.push(b);
                }
                len = l;
            } else if fresh == Some(c) {
                let (s, l) = prev.unwrap();
                for i in 0..l {
                    let b = d.out[s + i];
                    d.out.push(b);
                }
                let b = d.out[s];
                d.out.push(b);
                len = l + 1;
            } else {
                d.bad_code = Some(c);
                return d;
            }
            if let Some(f) = fresh {
                // previous string plus the first symbol of this one, contiguous in the output
                let (s, l) = prev.unwrap();
                table[f] = Some((s, l + 1));
                used += 1;
            }
            prev = Some((start, len));
        }
    }
}
