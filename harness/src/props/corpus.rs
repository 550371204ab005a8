//! Families of inputs.
use crate::data::*;
use crate::eng::Gen;

pub fn lcg(n: u32, alpha: u32, seed: u64) -> D {
    D::Lcg { n, alpha, seed }
}

/// Inputs for the standard LZHUF options. `put` receives every input once.
pub fn std_inputs(g: &mut Gen, mk: &dyn Fn(D) -> super::Case) {
    let th = g.thorough;
    let seed = g.seed;
    g.family("all strings over two letters", 16);
    strings(b"ab", 0, if th { 17 } else { 9 }, &mut |s| g.put(mk(D::raw(s))));
    g.family("all strings over space, 0, 255", 16);
    strings(&[32, 0, 255], 1, if th { 10 } else { 5 }, &mut |s| g.put(mk(D::raw(s))));
    g.family("all strings up to renaming over five letters", 16);
    rgs(b"abcde", 1, if th { 10 } else { 6 }, &mut |s| g.put(mk(D::raw(s))));
    g.family("all single bytes", 16);
    for b in 0..=255 {
        g.put(mk(D::raw(&[b])));
    }
    g.family("all pairs of bytes", 64);
    for a in (0..=255u8).step_by(if th { 1 } else { 15 }) {
        for b in (0..=255u8).step_by(if th { 1 } else { 15 }) {
            g.put(mk(D::raw(&[a, b])));
        }
    }
    g.family("every symbol once in 16 orders, then again", 2);
    for k in 0..16u32 {
        let o: Vec<u8> = (0..256u32).map(|i| ((i * (2 * k + 1) + k * 29) % 256) as u8).collect();
        g.put(mk(D::raw(&o)));
        let mut two = o.clone();
        two.extend(o.iter().rev());
        g.put(mk(D::raw(&two)));
    }
    // run lengths: all triples of segment lengths
    g.family("run-length triples", 8);
    let lens: &[u32] = if th { &[1, 2, 3, 4, 5, 57, 58, 59, 60, 61, 62, 63, 118, 119, 120, 121, 122, 179, 180, 181] } else { &[1, 2, 3, 58, 59, 60, 61, 62, 119, 121] };
    for &x in lens {
        for &y in lens {
            for &z in lens {
                g.put(mk(D::Runs(vec![(b'a', x), (b'b', y), (b'a', z)])));
                if th || (x + y + z) % 3 == 0 {
                    g.put(mk(D::Runs(vec![(b' ', x), (b'a', y), (b' ', z), (b'a', y), (0, 1)])));
                }
            }
        }
    }
    g.family("one byte repeated, every length", 8);
    for n in (1..=if th { 1000 } else { 260 }).chain(3960..=if th { 4300 } else { 4110 }) {
        for b in [b' ', b'x', 0] {
            g.put(mk(D::Runs(vec![(b, n)])));
        }
    }
    g.family("all short periods over 0, 1, space at every length up to two lookaheads", 64);
    strings(&[0, 1, 32], 1, if th { 5 } else { 4 }, &mut |u| {
        for n in (u.len() as u32 + 1..=if th { 190 } else { 128 }).step_by(if th || u.len() < 3 { 1 } else { 3 }) {
            g.put(mk(D::Per(Box::new(D::raw(u)), n)));
        }
    });
    g.family("all short strings over 0, 1 behind and before runs around the lookahead", 64);
    strings(&[0, 1], 1, if th { 6 } else { 4 }, &mut |u| {
        strings(&[0, 1], 1, if th { 5 } else { 3 }, &mut |v| {
            for n in if th { 40..=70u32 } else { 50..=62 } {
                g.put(mk(D::Cat(vec![D::raw(u), D::Runs(vec![((n % 2) as u8 * 32, n)]), D::raw(v)])));
                g.put(mk(D::Cat(vec![D::raw(u), lcg(n, 2, n as u64), D::raw(u), D::raw(v)])));
            }
        });
    });
    // every match distance: a block of noise with period p, repeated a bit
    g.family("every period", 8);
    let mut p = 1;
    while p <= 4200 {
        let n = p + if p < 70 { 300 } else { 130 };
        g.put(mk(D::Per(Box::new(lcg(p, 200, seed + p as u64)), n)));
        p += if th || p < 140 || (p > 4020 && p < 4110) { 1 } else { 5 };
    }
    g.family("match at every length and distance around the window edge", 8);
    for m in [3u32, 4, 5, 30, 58, 59, 60, 61, 62, 70] {
        for dist in (if th { 3800..=4300 } else { 4030..=4100 }).step_by(if th { 1 } else { 2 }) {
            let a = lcg(m, 100, 7 + m as u64);
            g.put(mk(D::Cat(vec![a.clone(), lcg(dist - m, 256, 3 + dist as u64), a, D::raw(b"!")])));
        }
    }
    g.family("match of every length followed by a tail of every length", 8);
    for m in (1..=if th { 130 } else { 66 }).step_by(if th { 1 } else { 1 }) {
        for tail in [0u32, 1, 2, 3, 4, 59, 60, 61] {
            if !th && tail > 4 && m % 5 != 0 {
                continue;
            }
            let a = lcg(m, 100, 11 + m as u64);
            g.put(mk(D::Cat(vec![a.clone(), lcg(90, 256, 5), a, lcg(tail, 256, 99)])));
        }
    }
    g.family("noise of every length", 8);
    let ranges: Vec<std::ops::RangeInclusive<u32>> =
        if th { vec![1..=1500, 3950..=4250, 8100..=8350, 12200..=12350] } else { vec![1..=140, 4030..=4060, 4090..=4100, 8186..=8198] };
    for r in ranges {
        for n in r {
            for a in [2u32, 4, 256] {
                g.put(mk(lcg(n, a, seed + n as u64)));
            }
        }
    }
    g.family("structured data", 2);
    for n in [100u32, 1000, 4096, 5000, 9000, 20000] {
        for d in [D::Thue(n), D::Fibo(n), D::Ctr(n), D::Pairs(n), D::Text { n, seed }, D::Disk { sectors: n / 512, seed }, D::Skew { n, ratio: 50, seed }, D::Skew { n, ratio: 80, seed }] {
            g.put(mk(d));
        }
    }
    g.family("noise over alphabets of every size class", 2);
    for a in [2u32, 3, 4, 5, 8, 16, 32, 64, 100, 128, 200, 256] {
        for s in 0..if th { 12 } else { 2 } {
            g.put(mk(lcg(if th { 30000 } else { 12000 }, a, seed * 100 + s)));
        }
    }
    // the model is rescaled when 32768 - 314 tokens are coded
    g.family("lengths around the rescaling of the Huffman model", 1);
    let k = 32768 - 314;
    let around: Vec<i64> = if th { (-6..=6).collect() } else { vec![-2, -1, 0, 1, 2] };
    for o in around {
        // noise over 256 symbols: literal tokens mostly; runs: one token per 60 bytes
        g.put(mk(lcg((k as i64 + o) as u32, 256, seed + 5)));
        g.put(mk(D::Pairs((k as i64 + o) as u32)));
    }
    g.family("several rescalings", 1);
    for a in if th { vec![2u32, 16, 100, 256] } else { vec![16u32, 256] } {
        g.put(mk(lcg(if th { 260_000 } else { 90_000 }, a, seed)));
    }
    g.put(mk(D::Disk { sectors: if th { 1440 } else { 360 }, seed }));
    g.put(mk(D::Text { n: if th { 600_000 } else { 150_000 }, seed }));
    g.put(mk(D::Runs(vec![(0xE5, if th { 2_100_000 } else { 200_000 }), (0, 70_000)])));
    g.family("lengths around powers of 256", 1);
    for n in [65_535u32, 65_536, 65_537] {
        g.put(mk(D::Runs(vec![(b'A', n)])));
        g.put(mk(D::Per(Box::new(lcg(700, 256, 3)), n)));
    }
    for n in if th { vec![(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 65_537] } else { vec![(1 << 24) + 1] } {
        g.put(mk(D::Cat(vec![D::raw(b"long"), D::Runs(vec![(b'A', n - 4)])])));
    }
    g.family("a million symbols", 1);
    g.put(mk(lcg(if th { 6_000_000 } else { 2_200_000 }, 256, seed + 1)));
    if th {
        g.put(mk(lcg(2_900_000, 256, seed + 2)));
        g.put(mk(lcg(2_200_000, 5, seed + 3)));
    }
    g.family("deep Huffman codes", 1);
    for (base, pre) in if th { vec![(157u32, 150u32), (314, 60), (80, 150), (200, 100), (500, 150), (40, 60), (314, 250)] } else { vec![(157, 150), (314, 60)] } {
        g.put(mk(D::Deep { base, pre, seed }));
    }
}
