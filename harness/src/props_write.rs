//! C25: writing a block that may not be expressible by its own tables.
use crate::deflate::*;
use crate::engine::*;
use crate::gen::*;
use crate::sut;
use crate::{stage, Stage, Tier};
use librezip::verif_hooks::{BitVec, BitWriter};
use librezip::{Block, Code};

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C25" => c25(t),
        _ => vec![],
    }
}

/// A block as a caller may put it together.
#[derive(Clone, Debug)]
enum Any {
    Stored(Vec<u8>),
    Fixed(Vec<C>),
    Dyn(Vec<bool>, Vec<C>),
}

enum Want {
    Bits,
    Refusal(&'static str),
    Either(&'static str),
}

fn push_codes(b: &mut Bits, lit: &[Option<(u16, u8)>], dist: &[Option<(u16, u8)>], codes: &[C]) -> Result<(), &'static str> {
    let get = |t: &[Option<(u16, u8)>], i: usize| t.get(i).cloned().flatten();
    for c in codes {
        match *c {
            C::L(x) => b.code(get(lit, x as usize).ok_or("literal without symbol")?),
            C::R { len, dist: d, .. } => {
                let mut ls = len_symbol(len);
                if len == 258 && get(lit, 257 + ls).is_none() {
                    ls = 27;
                }
                b.code(get(lit, 257 + ls).ok_or("length without symbol")?);
                b.val((len - LEN_BASE[ls]) as u32, LEN_EXTRA[ls] as u32);
                let ds = dist_symbol(d);
                b.code(get(dist, ds).ok_or("distance without symbol")?);
                b.val((d - DIST_BASE[ds]) as u32, DIST_EXTRA[ds] as u32);
            }
        }
    }
    b.code(get(lit, 256).ok_or("no end of block symbol")?);
    Ok(())
}

/// Appends the block to `b`, as RFC 1951 has it.
fn model(b: &mut Bits, blk: &Any) -> Want {
    match blk {
        Any::Stored(d) if d.len() > 65535 => return Want::Refusal("too long for a stored block"),
        Any::Stored(d) => {
            b.val(0, 2);
            b.align();
            let n = d.len() as u16;
            b.raw(&[n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8]);
            b.raw(d);
        }
        Any::Fixed(c) => {
            b.val(1, 2);
            if let Err(e) = push_codes(b, &canon(&fixed_lit()), &canon(&[5u8; 30]), c) {
                return Want::Refusal(e);
            }
        }
        Any::Dyn(t, c) => {
            b.val(2, 2);
            t.iter().for_each(|&x| b.bit(x));
            let (lit, dist, verdict) = description(t);
            let gray = match verdict {
                Ok(()) => None,
                Err(End::Gray(why)) => Some(why),
                Err(End::Invalid(why)) => return Want::Refusal(why),
                Err(_) => return Want::Refusal("description cut short"),
            };
            if gray.is_some() && kraft(&lit) != Kraft::Complete {
                return Want::Refusal("literal code set");
            }
            if let Err(e) = push_codes(b, &canon(&lit), &canon(&dist), c) {
                return Want::Refusal(e);
            }
            if let Some(why) = gray {
                return Want::Either(why);
            }
        }
    }
    Want::Bits
}

fn real(blk: &Any) -> Block {
    match blk {
        Any::Stored(d) => Block::Uncompressed(d.clone()),
        Any::Fixed(c) => Block::FixedHuffman(codes(c)),
        Any::Dyn(t, c) => {
            let mut v = BitVec::new();
            t.iter().for_each(|&x| v.push(x));
            Block::DynamicHuffman { trees: v, codes: codes(c) }
        }
    }
}
thread_local! {
    static REFS: std::cell::RefCell<std::collections::HashMap<(u16, u16), librezip::Ref>> = Default::default();
}
fn codes(c: &[C]) -> Vec<Code> {
    c.iter()
        .map(|c| match *c {
            C::L(b) => Code::Literal(b),
            C::R { len, dist, .. } => Code::Reference(REFS.with(|m| *m.borrow_mut().entry((dist, len)).or_insert_with(|| sut::mkref(dist, len)))),
        })
        .collect()
}

/// `lead` nine-bit literals before it, the block, and, if it was written, a block behind it.
fn check(ch: &Ch, lead: usize, blk: &Any) -> Result<Out, String> {
    let brief = || format!("{:?}", blk).chars().take(500).collect::<String>();
    ch.note(|| format!("after {} literals: {}", lead, brief()));
    let mut want = Bits::default();
    let mut w = BitWriter::new(vec![]);
    if lead > 0 {
        write_block(&mut want, &B::Fixed(vec![C::L(200); lead]), false);
        w.write_bit(false).map_err(|e| e.to_string())?;
        librezip::compressed_block(&mut w, &Block::FixedHuffman(vec![Code::Literal(200); lead])).map_err(|e| e.to_string())?;
    }
    want.bit(false);
    w.write_bit(false).map_err(|e| e.to_string())?;
    let verdict = model(&mut want, blk);
    let block = real(blk);
    let done = guarded(|| librezip::compressed_block(&mut w, &block).map_err(|e| format!("{:#}", e)));
    let done = done.map_err(|p| format!("writing {} (after {} literals): {}", brief(), lead, p))?;
    match (&verdict, &done) {
        (Want::Refusal(why), Ok(())) => return Err(format!("written although it cannot be ({}): {}", why, brief())),
        (Want::Bits, Err(e)) => return Err(format!("refused although it can be written: {}: {}", e, brief())),
        (Want::Refusal(why), Err(_)) => return ok(why, 1),
        (Want::Either(_), Err(_)) => return ok("unspecified", 2),
        _ => {}
    }
    // whatever follows must come right behind it
    write_block(&mut want, &B::Fixed(vec![C::L(b'z')]), true);
    want.align();
    w.write_bit(true)
        .and_then(|_| librezip::compressed_block(&mut w, &Block::FixedHuffman(vec![Code::Literal(b'z')])))
        .and_then(|_| w.align())
        .map_err(|e| format!("the block after it: {}", e))?;
    let got = w.into_inner();
    if got != want.bytes {
        let at = (0..got.len().max(want.bytes.len())).find(|&i| got.get(i) != want.bytes.get(i)).unwrap();
        return Err(format!("byte {} of {} differs, after {} literals: {} instead of {}: {}", at, want.bytes.len(), lead, hex(&got), hex(&want.bytes), brief()));
    }
    ok("written", fnv(&got))
}

fn bits_of(h: &Hdr) -> Vec<bool> {
    let mut b = Bits::default();
    h.write(&mut b);
    (0..b.n).map(|i| (b.bytes[i / 8] >> (i % 8)) & 1 == 1).collect()
}
/// Complete lengths for the given symbols, the last ones the longest.
fn lens_of(syms: &[usize], n: usize, skew: bool) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let l = if syms.len() == 1 { vec![1] } else if skew { skewed(syms.len()) } else { balanced(syms.len()) };
    for (i, &s) in syms.iter().enumerate() {
        v[s] = l[i];
    }
    v
}
fn trim(mut v: Vec<u8>, min: usize) -> Vec<u8> {
    while v.len() > min && v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn tables(lits: &[usize], dists: &[usize], skew: bool) -> Vec<bool> {
    let lit = trim(lens_of(lits, 286, skew), 257);
    let dist = if dists.is_empty() { vec![0] } else { trim(lens_of(dists, 30, skew), 1) };
    bits_of(&hdr_from_lens(&lit, &dist, Rle::Greedy, false))
}
fn lens_at(i: usize) -> [u16; 2] {
    [LEN_BASE[i], if i == 27 { 257 } else { LEN_BASE[i] + (1 << LEN_EXTRA[i]) - 1 }]
}
fn dists_at(j: usize) -> [u16; 2] {
    [DIST_BASE[j], (DIST_BASE[j] as u32 + (1 << DIST_EXTRA[j]) - 1) as u16]
}

/// Descriptions of several kinds and sizes.
fn descriptions() -> Vec<Vec<bool>> {
    let mut v = vec![
        tables(&[97, 256], &[], false),
        tables(&[0, 97, 256, 257, 285], &[0], false),
        tables(&[97, 98, 255, 256, 260, 284], &[0, 5, 29], true),
        tables(&(0..286).collect::<Vec<_>>(), &(0..30).collect::<Vec<_>>(), false),
    ];
    let codes = phrases(0)[5].clone();
    for st in few_styles() {
        let (l, d) = lens_for(&codes, st);
        for how in [Rle::Greedy, Rle::Plain] {
            v.push(bits_of(&hdr_from_lens(&l, &d, how, false)));
        }
    }
    v
}

fn c25(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let all_lens: Vec<u16> = (3..=258).collect();
    let mut v = vec![
        stage("symbols", 0, "tables with the end of block, one literal, none or one of the 29 length symbols, none or one of the 30 distance symbols; each single literal, every length boundary of the symbols around x every distance boundary of the symbols around", move |ch| {
            let i = ch.pick(30);
            let j = ch.pick(31);
            let mut lits = vec![97, 256];
            if i < 29 {
                lits.push(257 + i);
            }
            let dists: Vec<usize> = if j < 30 { vec![j] } else { vec![] };
            let t = tables(&lits, &dists, ch.flag());
            let mut menu = vec![vec![], vec![C::L(97)], vec![C::L(98)], vec![C::L(96)], vec![C::L(0)], vec![C::L(255)], vec![C::L(97), C::L(1)]];
            for a in [i.wrapping_sub(1), i, i + 1, (i + 15) % 29].into_iter().filter(|&a| a < 29) {
                for b in [j.wrapping_sub(1), j, j + 1, (j + 15) % 30].into_iter().filter(|&b| b < 30) {
                    for l in lens_at(a) {
                        for d in dists_at(b) {
                            menu.push(vec![r(d, l)]);
                        }
                    }
                }
            }
            let c = ch.of(&menu).clone();
            check(ch, (i + j) % 8, &Any::Dyn(t, c))
        }),
        stage("run-258", 0, "each subset of length symbols 283, 284, 285 with every length from 195 to 258, alone and repeated", move |ch| {
            let s = ch.pick(8);
            let mut lits = vec![97, 256];
            lits.extend((0..3).filter(|b| s >> b & 1 == 1).map(|b| 283 + b));
            let t = tables(&lits, &[0, 3], ch.flag());
            let l = 195 + ch.pick(64) as u16;
            let n = *ch.of(&[1usize, 2, 9]);
            check(ch, ch.pick(8), &Any::Dyn(t, vec![r(1, l); n]))
        }),
        stage("sequences", 0, "tables lacking some symbols x every sequence of up to 3 (thorough 4) codes over a small alphabet", move |ch| {
            let lits: &[usize] = *ch.of(&[&[97usize, 98, 256, 257, 285][..], &[97, 256, 257], &[97, 98, 256], &[98, 256, 284], &[97, 98, 257, 285], &[97, 98]]);
            let dists: &[usize] = *ch.of(&[&[][..], &[0], &[29], &[0, 4], &[0, 29, 7]]);
            let t = tables(lits, dists, false);
            let menu = [C::L(97), C::L(98), r(1, 3), r(1, 258), r(5, 3), r(32768, 3), r(32768, 258)];
            let n = ch.pick(if th { 5 } else { 4 });
            let c: Vec<C> = (0..n).map(|_| ch.of(&menu).clone()).collect();
            check(ch, n, &Any::Dyn(t, c))
        }),
        stage("late", 0, "a code without symbol as the n-th of n, n up to 70000, in dynamic blocks", move |ch| {
            let n = *ch.of(&[1usize, 2, 7, 8, 9, 63, 64, 255, 256, 257, 4096, 32768, 65535, 65536, 70000]);
            let t = tables(&[97, 98, 256, 257], *ch.of(&[&[0usize][..], &[]]), false);
            let mut c = vec![C::L(97); n];
            c.push(ch.of(&[C::L(98), C::L(99), r(1, 3), r(2, 3), r(1, 4), r(1, 258)]).clone());
            check(ch, n % 8, &Any::Dyn(t, c))
        }),
        stage("literals", 0, "tables with every literal but one, or only one: each of the 256 literals", move |ch| {
            let s = ch.pick(256);
            let lits: Vec<usize> = if ch.flag() { (0..256).filter(|&x| x != s).chain([256]).collect() } else { vec![s, 256] };
            let x = ch.pick(256) as u8;
            check(ch, s % 8, &Any::Dyn(tables(&lits, &[], false), vec![C::L(x)]))
        }),
        stage("fixed", 0, "fixed blocks: each literal; every length x the first and last distance of every symbol", move |ch| {
            let c = match ch.pick(3) {
                0 => vec![],
                1 => vec![C::L(ch.pick(256) as u8)],
                _ => vec![r(dists_at(ch.pick(30))[ch.pick(2)], *ch.of(&all_lens))],
            };
            check(ch, ch.pick(8), &Any::Fixed(c))
        }),
        stage("cut-descriptions", 0, "descriptions of several kinds, cut at every bit, or followed by 1 to 20 more bits (each value of up to 4 bits, all zeros, all ones)", move |ch| {
            let all = descriptions();
            let mut t = ch.of(&all).clone();
            match ch.pick(3) {
                0 => {
                    let n = ch.pick(t.len() + 1);
                    t.truncate(n)
                }
                1 => {
                    let k = 1 + ch.pick(4);
                    let x = ch.pick(1 << k);
                    t.extend((0..k).map(|b| x >> b & 1 == 1))
                }
                _ => {
                    let b = ch.flag();
                    t.extend(vec![b; 5 + ch.pick(16)])
                }
            }
            check(ch, *ch.of(&[0, 3]), &Any::Dyn(t, if ch.flag() { vec![C::L(97)] } else { vec![] }))
        }),
        stage("changed-descriptions", 0, "the same descriptions with every bit (thorough: every two bits up to 24 apart) flipped, or one bit dropped or doubled", move |ch| {
            let all = descriptions();
            let mut t = ch.of(&all).clone();
            let at = ch.pick(t.len());
            match ch.pick(3) {
                0 => {
                    t[at] = !t[at];
                    if th {
                        let d = ch.pick(25).min(t.len() - 1 - at);
                        if d > 0 {
                            t[at + d] = !t[at + d];
                        }
                    }
                }
                1 => {
                    t.remove(at);
                }
                _ => t.insert(at, t[at]),
            }
            let c = ch.of(&[vec![], vec![C::L(97)], vec![C::L(97), r(1, 3)]]).clone();
            check(ch, at % 8, &Any::Dyn(t, c))
        }),
        stage("short-descriptions", 0, "every description of up to 12 (thorough 18) bits", move |ch| {
            let n = ch.pick(if th { 19 } else { 13 });
            let x = ch.pick(1 << n);
            check(ch, 1, &Any::Dyn((0..n).map(|b| x >> b & 1 == 1).collect(), vec![]))
        }),
        stage("stored", 0, "stored data of every length up to 300 and around every power of two up to 2^20, after 0 to 7 literals", move |ch| {
            let n = if ch.flag() {
                let p = 1usize << (9 + ch.pick(12));
                p + ch.pick(5) - 2
            } else {
                ch.pick(301)
            };
            check(ch, ch.pick(8), &Any::Stored(pattern(n, 5)))
        }),
    ];
    if th {
        v.push(stage("pairs", 0, "tables with two length and two distance symbols, each pair of neighbours at distance 1 to 3, x the boundaries of all of them twice", move |ch| {
            let i = ch.pick(28);
            let j = ch.pick(29);
            let (a, b) = (1 + ch.pick(3), 1 + ch.pick(3));
            let mut lits = vec![97, 256, 257 + i];
            if i + a < 29 {
                lits.push(257 + i + a);
            }
            let mut dists = vec![j];
            if j + b < 30 {
                dists.push(j + b);
            }
            let t = tables(&lits, &dists, ch.flag());
            let l = |x: usize| lens_at(x.min(28));
            let d = |x: usize| dists_at(x.min(29));
            let mut menu = vec![];
            for x in 0..3 {
                for y in 0..3 {
                    menu.push(r(d(j + y)[0], l(i + x)[1]));
                    menu.push(r(d(j + y)[1], l(i + x)[0]));
                }
            }
            let c = vec![ch.of(&menu).clone(), C::L(97), ch.of(&menu).clone()];
            check(ch, (i + j) % 8, &Any::Dyn(t, c))
        }));
    }
    v
}
