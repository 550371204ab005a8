//! Data recipes: short, serialisable descriptions of inputs.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum D {
    /// literal bytes (hex in the file)
    Raw(#[serde(with = "hexser")] Vec<u8>),
    /// runs of (byte, count)
    Runs(Vec<(u8, u32)>),
    /// n bytes of a linear congruential sequence over `alpha` symbols
    Lcg { n: u32, alpha: u32, seed: u64 },
    /// unit repeated, cut at n bytes
    Per(Box<D>, u32),
    Cat(Vec<D>),
    /// Thue-Morse word over two bytes
    Thue(u32),
    /// Fibonacci word over two bytes
    Fibo(u32),
    /// 16-bit little-endian counter
    Ctr(u32),
    /// disk-like: sectors, some blank, some patterned
    Disk { sectors: u32, seed: u64 },
    /// every symbol a given number of times, in the given order of first appearance, ascending
    /// frequencies, then every symbol value once: forces deep Huffman trees
    Chain { base: u32, sets: u32 },
    /// copies with such length statistics that the standard options give deep Huffman trees
    Deep { base: u32, pre: u32, seed: u64 },
    /// words from a small vocabulary
    Text { n: u32, seed: u64 },
    /// all ordered pairs of bytes: de-Bruijn like walk, cut at n
    Pairs(u32),
    /// literal-only data for the standard window: values never repeat within 3 bytes' context; weights skewed
    Skew { n: u32, ratio: u32, seed: u64 },
    /// bytes weighted so that the Huffman tree is as deep as possible with the standard options
    Fibw { syms: u32, seed: u64 },
    Slice(Box<D>, u32, u32),
}

mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        let mut t = String::with_capacity(v.len() * 2);
        for b in v {
            t.push(char::from_digit((b >> 4) as u32, 16).unwrap());
            t.push(char::from_digit((b & 15) as u32, 16).unwrap());
        }
        s.serialize_str(&t)
    }
    pub fn deserialize<'a, De: Deserializer<'a>>(d: De) -> Result<Vec<u8>, De::Error> {
        let t = String::deserialize(d)?;
        let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
        Ok(t.as_bytes().chunks(2).map(|p| h(p[0]) << 4 | h(p[1])).collect())
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u32
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() as u64 * n as u64) >> 31) as u32
    }
}

impl D {
    pub fn raw(b: &[u8]) -> D {
        D::Raw(b.to_vec())
    }
    pub fn build(&self) -> Vec<u8> {
        match self {
            D::Raw(v) => v.clone(),
            D::Runs(r) => {
                let mut o = vec![];
                for (b, n) in r {
                    o.resize(o.len() + *n as usize, *b);
                }
                o
            }
            D::Lcg { n, alpha, seed } => {
                let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(*alpha as u64));
                r.next();
                (0..*n)
                    .map(|_| {
                        let v = r.below(*alpha);
                        if *alpha > 64 { v as u8 } else { (v * 37 + 0x20) as u8 }
                    })
                    .collect()
            }
            D::Per(u, n) => {
                let u = u.build();
                if u.is_empty() {
                    return vec![];
                }
                (0..*n as usize).map(|i| u[i % u.len()]).collect()
            }
            D::Cat(v) => v.iter().flat_map(|d| d.build()).collect(),
            D::Thue(n) => (0..*n).map(|i| if i.count_ones() & 1 == 1 { b'b' } else { b'a' }).collect(),
            D::Fibo(n) => {
                let (mut a, mut b) = (vec![b'a'], vec![b'a', b'b']);
                while b.len() < *n as usize {
                    let mut c = b.clone();
                    c.extend_from_slice(&a);
                    a = b;
                    b = c;
                }
                b.truncate(*n as usize);
                b
            }
            D::Ctr(n) => (0..*n / 2).flat_map(|i| (i as u16).to_le_bytes()).collect(),
            D::Disk { sectors, seed } => {
                let mut r = Rng(*seed ^ 0xd15c);
                let mut o = vec![];
                for s in 0..*sectors {
                    match r.below(4) {
                        0 => o.resize(o.len() + 512, 0xE5),
                        1 => o.extend((0..512u32).map(|i| if i % 32 < 11 { b'A' + ((s + i / 32) % 26) as u8 } else { 0 })),
                        2 => o.extend((0..512).map(|_| r.below(256) as u8)),
                        _ => o.extend((0..512u32).map(|i| ((i * i + s) >> 3) as u8)),
                    }
                }
                o
            }
            D::Chain { base, sets } => {
                let mut o = vec![];
                for k in 0..*sets {
                    for (i, f) in chain(256, *base, 32000).iter().enumerate() {
                        for _ in 0..*f {
                            o.push((i as u32 * 7 + 1 + k) as u8);
                        }
                    }
                    o.extend(0..=255u8);
                    o.extend((0..=255u8).rev());
                }
                o
            }
            D::Deep { base, pre, seed } => {
                let mut r = Rng(*seed ^ 0xdee9);
                let mut lens = vec![];
                for (i, f) in chain(314 + *pre, *base, 31500).iter().enumerate() {
                    for _ in 0..*f {
                        lens.push(3 + i);
                    }
                }
                for i in (1..lens.len()).rev() {
                    let j = r.below(i as u32 + 1) as usize;
                    lens.swap(i, j);
                }
                let mut o: Vec<u8> = (0..*pre).map(|_| r.below(128) as u8).collect();
                let mut prev = 0usize; // length of the copy before
                for l in lens {
                    // copy of exactly l bytes from the recent past, not continuing the copy before
                    let lo = o.len().saturating_sub(3900);
                    let mut at = 0;
                    for _ in 0..200 {
                        at = lo + r.below((o.len() - lo - l) as u32) as usize;
                        let mut pat = o[o.len() - prev..].to_vec();
                        pat.push(o[at]);
                        if prev == 0 || !o[o.len().saturating_sub(4100)..].windows(pat.len()).any(|w| w == pat) {
                            break;
                        }
                    }
                    for i in 0..l {
                        o.push(o[at + i]);
                    }
                    prev = l;
                }
                o.extend((0..=255u8).rev());
                o.extend((0..=255u8).map(|b| b.wrapping_mul(151)));
                o
            }
            D::Text { n, seed } => {
                let words = ["sam", "I", "am", "do", "not", "like", "green", "eggs", "and", "ham", "anywhere", "the", "priests", "chaunt", "of", "Mung"];
                let mut r = Rng(*seed ^ 0x7e87);
                let mut o = vec![];
                while o.len() < *n as usize {
                    let w = words[r.below(16) as usize].as_bytes();
                    o.extend_from_slice(w);
                    o.push(if r.below(9) == 0 { b'\n' } else { b' ' });
                }
                o.truncate(*n as usize);
                o
            }
            D::Pairs(n) => {
                let mut o = Vec::new();
                'x: for i in 0..256u32 {
                    for j in 0..=i {
                        o.push(i as u8);
                        o.push(j as u8);
                        if o.len() >= *n as usize {
                            break 'x;
                        }
                    }
                }
                o.truncate(*n as usize);
                o
            }
            D::Skew { n, ratio, seed } => {
                let mut r = Rng(*seed ^ 0x5e3);
                (0..*n)
                    .map(|_| {
                        let mut v = 0u32;
                        while v < 255 && r.below(100) < *ratio {
                            v += 1;
                        }
                        v as u8
                    })
                    .collect()
            }
            D::Fibw { syms, seed } => {
                let mut c = vec![];
                let (mut a, mut b) = (1u32, 1u32);
                for k in 0..*syms {
                    for _ in 0..a {
                        c.push((k * 5 + 3) as u8);
                    }
                    let t = a + b;
                    a = b;
                    b = t;
                }
                let mut r = Rng(*seed ^ 0xf1b);
                for i in (1..c.len()).rev() {
                    let j = r.below(i as u32 + 1) as usize;
                    c.swap(i, j);
                }
                c.extend(0..=255u8);
                c
            }
            D::Slice(d, a, n) => {
                let v = d.build();
                let a = (*a as usize).min(v.len());
                v[a..(a + *n as usize).min(v.len())].to_vec()
            }
        }
    }
}

/// all strings over `alpha` with length in lo..=hi, shortest first
pub fn strings(alpha: &[u8], lo: usize, hi: usize, f: &mut dyn FnMut(&[u8])) {
    for n in lo..=hi {
        let mut idx = vec![0usize; n];
        let mut s: Vec<u8> = vec![alpha[0]; n];
        loop {
            f(&s);
            let mut k = n;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    s[k] = alpha[idx[k]];
                    break;
                }
                idx[k] = 0;
                s[k] = alpha[0];
                if k == 0 {
                    k = usize::MAX;
                    break;
                }
            }
            if n == 0 || k == usize::MAX {
                break;
            }
        }
    }
}
/// the same up to renaming of symbols: first occurrences in order (restricted growth strings)
pub fn rgs(alpha: &[u8], lo: usize, hi: usize, f: &mut dyn FnMut(&[u8])) {
    fn rec(alpha: &[u8], s: &mut Vec<u8>, used: usize, n: usize, f: &mut dyn FnMut(&[u8])) {
        if s.len() == n {
            f(s);
            return;
        }
        for k in 0..(used + 1).min(alpha.len()) {
            s.push(alpha[k]);
            rec(alpha, s, used.max(k + 1), n, f);
            s.pop();
        }
    }
    for n in lo..=hi {
        rec(alpha, &mut vec![], 0, n, f);
    }
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        let mut it = p.chunks_exact(8);
        for c in &mut it {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        for b in it.remainder() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ p.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 32;
    }
    h
}

/// frequencies that stack leaves on top of a subtree of weight t0, each one level above the last
pub fn chain(t0: u32, base: u32, limit: u32) -> Vec<u32> {
    let mut f = vec![base];
    let mut m = t0 + base;
    let mut total = base;
    let mut next = t0.max(base) + 1;
    while total + next < limit {
        f.push(next);
        total += next;
        let m2 = m + next;
        next = m + 1;
        m = m2;
    }
    f
}
