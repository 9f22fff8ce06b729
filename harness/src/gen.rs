//! Generators: every decision goes through the chooser.
use crate::deflate::*;
use crate::engine::Ch;
use std::collections::BTreeSet;

fn used(codes: &[C]) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let mut l: BTreeSet<usize> = [256].into();
    let mut d = BTreeSet::new();
    for c in codes {
        match *c {
            C::L(b) => {
                l.insert(b as usize);
            }
            C::R { len, dist, alt } => {
                l.insert(257 + if alt { 27 } else { len_symbol(len) });
                d.insert(dist_symbol(dist));
            }
        }
    }
    (l, d)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Style {
    pub lit: u8,  // 0 balanced, 1 skewed to 15 bits, 2 skewed reversed, 3 all 286 symbols
    pub dist: u8, // 0 minimal, 1 with a companion code, 2 all 30, 3 minimal padded to 32 entries
    pub rle: Rle,
    pub all_cl: bool,
}
pub const RLES: [Rle; 4] = [Rle::Greedy, Rle::Plain, Rle::RepZero, Rle::Small];

pub fn all_styles() -> Vec<Style> {
    let mut v = vec![];
    for lit in 0..4 {
        for dist in 0..4 {
            for rle in RLES {
                for all_cl in [false, true] {
                    v.push(Style { lit, dist, rle, all_cl });
                }
            }
        }
    }
    v
}
/// A few styles that together use every value of every dimension.
pub fn few_styles() -> Vec<Style> {
    vec![
        Style { lit: 0, dist: 0, rle: Rle::Greedy, all_cl: false },
        Style { lit: 1, dist: 1, rle: Rle::RepZero, all_cl: true },
        Style { lit: 3, dist: 2, rle: Rle::Small, all_cl: false },
        Style { lit: 2, dist: 3, rle: Rle::Plain, all_cl: true },
    ]
}

pub fn lens_for(codes: &[C], st: Style) -> (Vec<u8>, Vec<u8>) {
    let (mut l, d) = used(codes);
    let mut lit = vec![0u8; 286];
    match st.lit {
        3 => {
            let b = balanced(286);
            lit.copy_from_slice(&b);
        }
        k => {
            let skew = k == 1 || k == 2;
            let mut extra = [0usize, 1, 254, 255, 7, 100, 31, 64, 128, 200, 13, 77, 190, 33, 150, 2, 3].iter();
            let want = if skew { 16 } else { 2 };
            while l.len() < want {
                l.insert(*extra.next().unwrap());
            }
            let syms: Vec<usize> = l.into_iter().collect();
            let mut b = if skew && syms.len() == 16 { skewed(16) } else { balanced(syms.len()) };
            if k == 2 {
                b.reverse();
            }
            for (s, x) in syms.iter().zip(b) {
                lit[*s] = x;
            }
        }
    }
    let top = (0..286).rev().find(|&i| lit[i] != 0).unwrap();
    lit.truncate((top + 1).max(257));

    let mut dist = vec![0u8; 30];
    let mut ds: Vec<usize> = d.into_iter().collect();
    match st.dist {
        2 => {
            dist.copy_from_slice(&balanced(30));
        }
        1 => {
            while ds.len() < 2 {
                let c = (0..30).find(|x| !ds.contains(x)).unwrap();
                ds.push(c);
            }
            ds.sort();
            let b = if ds.len() <= 16 { skewed(ds.len()) } else { balanced(ds.len()) };
            for (s, x) in ds.iter().zip(b) {
                dist[*s] = x;
            }
        }
        _ => {
            if ds.len() == 1 {
                dist[ds[0]] = 1;
            } else if ds.len() > 1 {
                for (s, x) in ds.iter().zip(balanced(ds.len())) {
                    dist[*s] = x;
                }
            }
        }
    }
    let top = (0..30).rev().find(|&i| dist[i] != 0).unwrap_or(0);
    dist.truncate(top + 1);
    if st.dist == 3 && dist != [0] {
        dist.resize(32, 0);
    }
    (lit, dist)
}

pub fn make_dyn(codes: Vec<C>, st: Style) -> B {
    let (lit, dist) = lens_for(&codes, st);
    B::Dyn(hdr_from_lens(&lit, &dist, st.rle, st.all_cl), codes)
}

/// Code sequences that are valid after `hist` bytes of output; the simplest first.
pub fn phrases(hist: usize) -> Vec<Vec<C>> {
    let l = C::L;
    let mut v = vec![
        vec![],
        vec![l(b'a')],
        vec![l(b'a'), r(1, 3)],
        vec![l(0), l(255), l(143), l(144)],
        vec![l(b'a'), l(b'b'), r(2, 258), l(b'c'), r(1, 257)],
        vec![l(b'x'), l(b'y'), l(b'z'), r(3, 3), r(6, 10), r(5, 11), r(9, 18), r(20, 19)],
    ];
    let h = hist.min(32768) as u16;
    if h >= 1 {
        v.push(vec![r(1, 3)]);
        v.push(vec![r(h, 4), l(b'q')]);
    }
    if h >= 3 {
        v.push(vec![r(h, 258), r(h.min(2), 131)]);
        v.push(vec![l(b'a'), r(h, 3), r(h - 1, 12)]);
    }
    v
}

pub struct Cfg {
    pub max_blocks: usize,
    pub styles: Vec<Style>,
    pub stored: Vec<usize>,
    pub free: usize, // additionally, code-by-code free sequences up to this length in single-block streams
}

pub fn pattern(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + i / 251 * 13 + seed * 31 + 1) & 0xff) as u8).collect()
}

/// Any stream of up to `max_blocks` blocks from the menus.
pub fn stream(ch: &Ch, cfg: &Cfg) -> Vec<B> {
    let n = 1 + ch.pick(cfg.max_blocks);
    let mut hist = 0;
    let mut v = vec![];
    for i in 0..n {
        let b = match ch.pick(3) {
            0 => {
                let k = *ch.of(&cfg.stored);
                B::Stored(pattern(k, i))
            }
            1 => B::Fixed(ch.of(&phrases(hist)).clone()),
            _ => {
                let p = ch.of(&phrases(hist)).clone();
                make_dyn(p, *ch.of(&cfg.styles))
            }
        };
        hist += match &b {
            B::Stored(d) => d.len(),
            B::Fixed(c) | B::Dyn(_, c) => c
                .iter()
                .map(|c| match c {
                    C::L(_) => 1,
                    C::R { len, .. } => *len as usize,
                })
                .sum(),
        };
        v.push(b);
    }
    v
}

/// Every code sequence up to `k` codes over a boundary alphabet that depends on the history length.
pub fn free_codes(ch: &Ch, mut hist: usize, k: usize, alt: bool) -> Vec<C> {
    let mut v = vec![];
    let n = ch.pick(k + 1);
    for _ in 0..n {
        let mut menu = vec![C::L(b'a'), C::L(b'b'), C::L(0xff)];
        let h = hist.min(32768) as u16;
        let mut ds: Vec<u16> = [1, 2, 3, 4, 5, 6, 8, 9, h.saturating_sub(1), h].into_iter().filter(|&d| d >= 1 && d <= h).collect();
        ds.sort();
        ds.dedup();
        for d in ds {
            for len in [3u16, 4, 10, 11, 12, 130, 131, 257, 258] {
                menu.push(r(d, len));
            }
            if alt {
                menu.push(C::R { len: 258, dist: d, alt: true });
            }
        }
        let c = ch.of(&menu).clone();
        hist += match c {
            C::L(_) => 1,
            C::R { len, .. } => len as usize,
        };
        v.push(c);
    }
    v
}

/// A fixed catalogue of streams of every kind, for checks that multiply it by something else.
pub fn catalogue() -> Vec<Vec<B>> {
    let l = C::L;
    let s = few_styles();
    let ph = |h: usize, i: usize| phrases(h)[i].clone();
    let mut v: Vec<Vec<B>> = vec![
        vec![B::Fixed(vec![])],
        vec![B::Fixed(vec![l(b'a')])],
        vec![B::Stored(vec![])],
        vec![B::Stored(vec![1, 2, 3])],
        vec![B::Fixed(ph(0, 2))],
        vec![B::Fixed(ph(0, 3))],
        vec![B::Fixed(ph(0, 5))],
        vec![make_dyn(vec![], s[0])],
        vec![make_dyn(vec![l(b'a')], s[0])],
        vec![make_dyn(ph(0, 2), s[0])],
        vec![make_dyn(ph(0, 2), s[1])],
        vec![make_dyn(ph(0, 4), s[2])],
        vec![make_dyn(ph(0, 5), s[3])],
        vec![make_dyn(ph(0, 5), s[1])],
        vec![B::Stored(vec![5]), B::Fixed(vec![r(1, 3)])],
        vec![B::Fixed(vec![l(9)]), B::Stored(vec![1, 2]), make_dyn(vec![r(3, 9), l(4)], s[0])],
        vec![make_dyn(vec![l(1), l(2), l(3)], s[1]), B::Fixed(vec![r(3, 258)]), B::Stored(vec![7; 9])],
        vec![B::Fixed(vec![]), B::Fixed(vec![]), B::Stored(vec![]), B::Fixed(vec![l(0x90)])],
        vec![make_dyn(vec![l(b'x')], s[3]), make_dyn(vec![l(b'y'), r(2, 5)], s[0]), make_dyn(vec![r(7, 4)], s[1])],
        vec![B::Stored(pattern(300, 1)), B::Fixed(vec![r(300, 258), r(257, 67)]), B::Stored(vec![])],
    ];
    v.push((0..9).map(|i| B::Fixed(vec![l(i as u8); i])).collect());
    v
}

/// Histories longer than the window, reached in several steps, then references into them.
pub fn window_stream(ch: &Ch, firsts: &[usize], mids: &[usize], dists: &[u16], lens: &[u16], refs: usize) -> Vec<B> {
    let mut v = vec![];
    let n = *ch.of(firsts);
    if n > 0 {
        let p = pattern(n, 3);
        v.push(if ch.flag() && n <= 1000 { B::Fixed(p.into_iter().map(C::L).collect()) } else { B::Stored(p) });
    }
    let m = *ch.of(mids);
    match ch.pick(3) {
        0 => v.push(B::Stored(pattern(m.min(65535), 11))),
        1 => {
            // halves
            let p = pattern(m, 12);
            v.push(B::Stored(p[..m / 2].to_vec()));
            v.push(B::Stored(p[m / 2..].to_vec()));
        }
        _ => {
            // 1000 literals, then copies of them
            let mut c: Vec<C> = pattern(1000, 13).into_iter().map(C::L).collect();
            let mut at = 1000;
            let mut k = 0u16;
            while at < m {
                k = (k * 7 + 131) % 997;
                c.push(r(1 + k, 258));
                at += 258;
            }
            v.push(B::Fixed(c));
        }
    }
    let mut codes = vec![];
    let hist = expand(&v).expect("valid").len();
    let dists: Vec<u16> = dists.iter().cloned().filter(|&d| d as usize <= hist).collect();
    for _ in 0..refs {
        codes.push(r(*ch.of(&dists), *ch.of(lens)));
        if ch.flag() {
            codes.push(C::L(200));
        }
    }
    v.push(if ch.flag() { B::Fixed(codes) } else { make_dyn(codes, few_styles()[0]) });
    v
}

/// Streams in which some count is large: many blocks, many codes in one block, much stored data, or
/// the longest description a dynamic block can have.
pub fn scale_stream(ch: &Ch, th: bool, cli: bool, tr: bool) -> Vec<B> {
    let l = C::L;
    match ch.pick(4) {
        0 => {
            let mut ns = vec![16usize, 17, 32, 33, 127, 128, 129, 255, 256, 257, 1000];
            if !cli {
                ns.extend([4096, 10000, 65537]);
            }
            if th {
                ns.extend([10, 11, 31, 63, 64, 65, 99, 100, 101, 511, 512, 513, 1023, 1024, 1025, 32768, 65535, 65536]);
            }
            if cli {
                ns.extend([65535, 65537]);
            }
            let n = *ch.of(&ns);
            // so many only of the cheapest kind
            let k = if n > 32768 && (cli || !th) {
                *ch.of(if tr { &[1usize][..] } else { &[1, 6] })
            } else {
                ch.pick(7)
            };
            let st = few_styles();
            (0..n)
                .map(|i| match if k == 5 { i % 5 } else { k } {
                    0 => B::Stored(vec![]),
                    1 => B::Fixed(vec![]),
                    2 => B::Stored(vec![i as u8, (i >> 8) as u8]),
                    3 => B::Fixed(vec![l(i as u8), r(1, 3)]),
                    // most reach back over many blocks
                    6 if i == 0 => B::Stored(pattern(300, 5)),
                    6 if i % 3 == 0 => B::Fixed(vec![l(i as u8)]),
                    6 => B::Fixed(vec![r(1 + ((i * 7) % 300) as u16, 3)]),
                    _ => make_dyn(vec![l((i % 7) as u8), l((i % 5) as u8), r(2, 4)], st[i % 2]),
                })
                .collect()
        }
        1 => {
            let mut ns = vec![255usize, 256, 257, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 65537];
            if th {
                ns.extend([1023, 1024, 1025, 16384, 100000, 131072, 300000]);
            }
            // tracing runs is quadratic in their number
            let traced = if th { 6000 } else { 4097 };
            let n = *ch.of(&ns);
            let k = ch.pick(3);
            let n = if tr && k > 0 { n.min(traced) } else { n };
            let codes: Vec<C> = match k {
                0 => pattern(n, 21).into_iter().map(l).collect(),
                1 => (0..n).map(|i| if i == 0 { l(3) } else { r(1, 3) }).collect(),
                _ => (0..n).map(|i| if i < 3 || i % 3 != 0 { l((i * 31 >> 4) as u8) } else { r(1 + ((i * 7) % i.min(30000)) as u16, 3 + (i % 9) as u16) }).collect(),
            };
            let st = few_styles();
            vec![
                match ch.pick(3) {
                    0 => B::Fixed(codes),
                    1 => make_dyn(codes, Style { lit: 3, dist: 2, rle: Rle::Greedy, all_cl: false }),
                    _ => make_dyn(codes, Style { lit: 3, ..st[3] }),
                },
                B::Fixed(vec![l(1)]),
            ]
        }
        2 => {
            let n = *ch.of(if th { &[2usize, 3, 4, 5, 16][..] } else { &[2, 3][..] });
            let m = *ch.of(&[65535usize, 65534, 32768, 32767]);
            let mut v: Vec<B> = (0..n).map(|i| B::Stored(pattern(m, i))).collect();
            v.push(B::Fixed(vec![r(32768, 258), r(32767, 4), r(1, 3)]));
            v
        }
        _ => vec![longest_description(ch)],
    }
}

/// 286 literal and 30 to 32 distance lengths spelled one by one, with code-length codes of 7 bits for
/// those in use (or for some of them).
pub fn longest_description(ch: &Ch) -> B {
    let lit = balanced(286); // 8 and 9
    let mut dist = balanced(30); // 4 and 5
    dist.resize(30 + ch.pick(3), 0);
    let mut v = lit.clone();
    v.extend(&dist);
    let mut cl = [0u8; 19];
    let used = [4usize, 5, 8, 9];
    let rest = [0usize, 1, 2, 3, 6];
    match ch.pick(4) {
        // all in use long
        0 => {
            for s in used {
                cl[s] = 7;
            }
            for (i, s) in rest.iter().enumerate() {
                cl[*s] = i as u8 + 1;
            }
        }
        // every symbol has a code
        k => {
            let b = balanced(19);
            for s in 0..19 {
                cl[s] = b[(s * k) % 19];
            }
        }
    }
    if dist.len() > 30 && cl[0] == 0 {
        unreachable!()
    }
    let hclen = (0..19).rev().find(|&i| cl[CL_ORDER[i]] != 0).unwrap().max(3) + 1;
    let items = rle(&v, Rle::Plain);
    let h = Hdr { hlit: 286, hdist: dist.len(), hclen, cl_lens: cl, items };
    B::Dyn(h, vec![C::L(0), C::L(255), r(2, 258), C::L(128), r(1, 5)])
}

/// Dynamic blocks whose descriptions have every length modulo `m`, ending in a 0 bit and in a 1 bit.
pub fn descriptions_of_each_length(m: usize) -> Vec<B> {
    let mut seen = std::collections::BTreeMap::new();
    for k in 2..=255usize {
        for (a, b) in [(1, 0), (3, 1), (7, 2), (11, 3)] {
            for how in [Rle::Greedy, Rle::Plain, Rle::Small] {
                if seen.len() == 2 * m {
                    return seen.into_values().collect();
                }
                let l = if k % 2 == 0 || k > 15 { balanced(k) } else { skewed(k) };
                let mut lit = vec![0u8; 257 + b * 9];
                // every a-th literal, then the end of block
                for (i, &x) in l.iter().enumerate() {
                    let at = if i + 1 == k { 256 } else { (i * a) % 251 };
                    lit[at] = x;
                }
                let dist: Vec<u8> = match b {
                    0 => vec![0],
                    1 => vec![0, 0, 1],
                    2 => vec![1, 1],
                    _ => vec![2, 0, 2, 1],
                };
                if kraft(&lit) != Kraft::Complete {
                    continue;
                }
                let used = (0..256).rev().find(|&i| lit[i] > 0).unwrap() as u8;
                while lit.len() > 257 && lit.last() == Some(&0) {
                    lit.pop();
                }
                let h = hdr_from_lens(&lit, &dist, how, k % 3 == 0);
                let mut bits = Bits::default();
                h.write(&mut bits);
                let last = bits.bytes[(bits.n - 1) / 8] >> ((bits.n - 1) % 8) & 1;
                seen.entry((bits.n % m, last)).or_insert_with(|| B::Dyn(h, vec![C::L(used), C::L(used)]));
            }
        }
    }
    seen.into_values().collect()
}
