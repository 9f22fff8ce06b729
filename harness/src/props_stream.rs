//! C01-C07, C23, C24: the DEFLATE / gzip stream level.
use crate::deflate::*;
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::sut;
use crate::{stage, Stage, Tier};
use librezip::{Block, CircularBuffer};
use std::io::{ErrorKind, Read};
use std::sync::Arc;

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C01" => c01(t),
        "C02" => c02(t),
        "C03" => {
            let mut v = c03(t);
            v.extend(c24(t).into_iter().filter(|s| ["lit-verdict", "dist-verdict", "near-complete", "cl-verdict", "first-items"].contains(&s.name)));
            v
        }
        "C04" => c04(t),
        "C05" => c05(t),
        "C06" => c06(t),
        "C07" => c07(t),
        "C23" => c23(t),
        "C24" => c24(t),
        _ => vec![],
    }
}

fn thorough(t: Tier) -> bool {
    t == Tier::Thorough
}

fn desc(b: &[B]) -> String {
    let mut s = String::new();
    for x in b {
        if s.len() > 3000 {
            s.push_str(&format!("... {} blocks in all", b.len()));
            break;
        }
        match x {
            B::Stored(d) => s.push_str(&format!("stored[{}] ", d.len())),
            B::Fixed(c) => s.push_str(&format!("fixed{} ", few(c))),
            B::Dyn(h, c) => s.push_str(&format!("dyn(hlit={} hdist={} hclen={}){} ", h.hlit, h.hdist, h.hclen, few(c))),
        }
    }
    s
}
fn few(c: &[C]) -> String {
    if c.len() > 60 {
        return format!("{:?}...({} codes)", &c[..60], c.len());
    }
    format!("{:?}", c)
}

/// Bit offset at which the next block starts, shifted by k nine-bit literals.
fn shifter(k: usize) -> B {
    B::Fixed(vec![C::L(200); k])
}

fn has_alt(blocks: &[B]) -> bool {
    blocks.iter().any(|b| match b {
        B::Stored(_) => false,
        B::Fixed(c) | B::Dyn(_, c) => c.iter().any(|c| matches!(c, C::R { alt: true, .. })),
    })
}
/// Length 258 as it is written back: by symbol 285 wherever the block has it.
fn without_alt(blocks: &[B]) -> Vec<B> {
    let f = |c: &Vec<C>| {
        c.iter()
            .map(|c| match *c {
                C::R { len, dist, .. } => r(dist, len),
                ref l => l.clone(),
            })
            .collect::<Vec<C>>()
    };
    blocks
        .iter()
        .map(|b| match b {
            B::Stored(d) => B::Stored(d.clone()),
            B::Fixed(c) => B::Fixed(f(c)),
            B::Dyn(h, c) if h.lit().get(285).map(|&l| l > 0).unwrap_or(false) => B::Dyn(h.clone(), f(c)),
            B::Dyn(h, c) => B::Dyn(h.clone(), c.clone()),
        })
        .collect()
}

/// Parse, write back, compare with the original bytes.
fn check_reencode(ch: &Ch, blocks: &[B]) -> Result<Out, String> {
    let bytes = write_stream(blocks).bytes;
    ch.note(|| format!("{} = {}", desc(blocks), hex(&bytes)));
    let (got, err) = sut::parse_all(&bytes[..]);
    if let Some(e) = err {
        return Err(format!("a valid stream is refused: {} ({})", e, hex(&bytes)));
    }
    let re = guarded(|| sut::reencode(&got)).and_then(|r| r)?;
    if re != bytes {
        // is it exactly the known difference?
        if has_alt(blocks) && write_stream(&without_alt(blocks)).bytes == re {
            return Ok(Out {
                label: "known-258-spelling",
                hash: fnv(&bytes),
                known: Some(("len258-as-symbol-284", "a match of length 258 spelled with length symbol 284 and extra bits 31, in a block that also has symbol 285, is written back with symbol 285".into())),
            });
        }
        let at = (0..re.len().max(bytes.len())).find(|&i| re.get(i) != bytes.get(i)).unwrap();
        return Err(format!("re-encoding differs at byte {} of {}: {} instead of {} ({})", at, bytes.len(), hex(&re), hex(&bytes), desc(blocks)));
    }
    ok("same", fnv(&bytes))
}

fn check_decode(ch: &Ch, blocks: &[B]) -> Result<Out, String> {
    let bytes = write_stream(blocks).bytes;
    ch.note(|| format!("{} = {}", desc(blocks), hex(&bytes)));
    let want = expand(blocks).ok_or("generator produced an invalid stream")?;
    let (got, err) = sut::parse_all(&bytes[..]);
    if let Some(e) = err {
        return Err(format!("a valid stream is refused: {} ({})", e, hex(&bytes)));
    }
    let rb: Vec<RB> = blocks.iter().map(to_rb).collect();
    let strip = |b: &RB| match b {
        RB::Fixed(c) => RB::Fixed(norm(c)),
        RB::Dyn(t, c) => RB::Dyn(t.clone(), norm(c)),
        x => x.clone(),
    };
    sut::blocks_eq(&got, &rb.iter().map(strip).collect::<Vec<_>>())?;
    let out = sut::expand(&got)?;
    if out != want {
        let at = (0..out.len().max(want.len())).find(|&i| out.get(i) != want.get(i)).unwrap();
        return Err(format!("decompressed data differs at byte {} (got {} bytes, expected {})", at, out.len(), want.len()));
    }
    ok("same", fnv(&bytes))
}
fn norm(c: &[C]) -> Vec<C> {
    c.iter()
        .map(|c| match *c {
            C::R { len, dist, .. } => r(dist, len),
            ref l => l.clone(),
        })
        .collect()
}

/// Compare what the crate makes of arbitrary bytes with the reference decoder.
pub fn judge(bytes: &[u8]) -> Result<(&'static str, u64), String> {
    judge_with(bytes, &decode(bytes))
}
fn judge_with(bytes: &[u8], want: &Decoded) -> Result<(&'static str, u64), String> {
    let (got, err) = guarded(|| sut::parse_all(bytes)).map_err(|p| format!("{} while parsing {}", p, hex(bytes)))?;
    let h = fnv(bytes);
    let expanded = guarded(|| {
        let mut out = vec![];
        let mut d = CircularBuffer::new();
        for (i, b) in got.iter().enumerate() {
            if librezip::decompressed_block(&mut out, &mut d, b).is_err() {
                return (out, Some(i));
            }
        }
        (out, None)
    })
    .map_err(|p| format!("{} while expanding {}", p, hex(bytes)))?;
    let same_blocks = |n: usize| -> Result<(), String> {
        for i in 0..n {
            let w = match &want.blocks[i] {
                RB::Fixed(c) => RB::Fixed(norm(c)),
                RB::Dyn(t, c) => RB::Dyn(t.clone(), norm(c)),
                x => x.clone(),
            };
            sut::block_eq(&got[i], &w).map_err(|e| format!("block {} of {}: {}", i, hex(bytes), e))?;
        }
        Ok(())
    };
    match &want.end {
        End::Complete { .. } => {
            if let Some(e) = err {
                return Err(format!("valid stream {} is refused: {}", hex(bytes), e));
            }
            if got.len() != want.blocks.len() {
                return Err(format!("{}: {} blocks, expected {}", hex(bytes), got.len(), want.blocks.len()));
            }
            same_blocks(got.len())?;
            match (want.far, expanded.1) {
                (None, None) => {
                    if expanded.0 != want.out {
                        return Err(format!("{}: decompressed data differs", hex(bytes)));
                    }
                    Ok(("valid", h))
                }
                (Some(i), Some(j)) if i == j => Ok(("too-far", h)),
                (None, Some(_)) => Err(format!("{}: valid references refused", hex(bytes))),
                (Some(i), e) => Err(format!("{}: block {} has a reference before the start of the data, expansion reported {:?}", hex(bytes), i, e)),
            }
        }
        End::Truncated | End::Invalid(_) => {
            if err.is_none() {
                return Err(format!("{} is accepted, although {:?}", hex(bytes), want.end));
            }
            if got.len() > want.blocks.len() {
                return Err(format!("{}: delivers {} blocks although block {} is broken ({:?})", hex(bytes), got.len(), want.blocks.len(), want.end));
            }
            same_blocks(got.len())?;
            if got.len() < want.blocks.len() {
                return Err(format!("{}: stops after {} blocks, {} are intact", hex(bytes), got.len(), want.blocks.len()));
            }
            Ok((
                match want.end {
                    End::Truncated => "truncated",
                    End::Invalid(w) => w,
                    _ => unreachable!(),
                },
                h,
            ))
        }
        End::Gray(w) => {
            // either answer is defensible; what was delivered before must still be right
            same_blocks(got.len().min(want.blocks.len()))?;
            Ok((w, h))
        }
    }
}

fn cfg(t: Tier, blocks: usize) -> Cfg {
    Cfg { max_blocks: blocks, styles: few_styles(), stored: if thorough(t) { vec![0, 1, 2, 3, 300] } else { vec![0, 1, 3] }, free: 0 }
}

fn wrap_in(ch: &Ch, codes: Vec<C>) -> B {
    // 0: fixed, else a style
    let st = few_styles();
    match ch.pick(1 + st.len()) {
        0 => B::Fixed(codes),
        i => make_dyn(codes, st[i - 1]),
    }
}

fn long_block(ch: &Ch, th: bool) -> Vec<B> {
    let n = *ch.of(if th { &[131072usize, 262145, 524288, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, 1 << 22, (1 << 24) + 1][..] } else { &[131073usize, 262145, 524288, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2_097_153][..] });
    let codes: Vec<C> = match ch.pick(2) {
        0 => pattern(n, 3).into_iter().map(C::L).collect(),
        _ => (0..n).map(|i| if i < 3 || i % 4 != 0 { C::L((i * 31 >> 4) as u8) } else { r(1 + ((i * 7) % i.min(32768)) as u16, 3 + (i % 9) as u16) }).collect(),
    };
    let st = few_styles();
    let b = match ch.pick(2) {
        0 => B::Fixed(codes),
        _ => make_dyn(codes, Style { lit: 3, ..st[3] }),
    };
    vec![b, B::Fixed(vec![C::L(1), r(1, 3)])]
}
const LONG_BLOCK: &str = "single blocks of 2^17 to 2^21 (thorough 2^24) codes, literals or a mixture, fixed or dynamic, followed by another block";

fn c01(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let cf = cfg(t, if thorough(t) { 4 } else { 3 });
    let k = if thorough(t) { 4 } else { 3 };
    let stored: Vec<usize> = if thorough(t) { vec![0, 1, 2, 255, 256, 257, 258, 511, 512, 4096, 32767, 32768, 65280, 65534, 65535] } else { vec![0, 1, 255, 256, 258, 65535] };
    vec![
        stage("blocks", 0, "every sequence of up to 3 (thorough 4) blocks from menus of stored sizes, fixed and dynamic code phrases and 4 description styles", move |ch| check_reencode(ch, &stream(ch, &cf))),
        stage("offsets", 0, "every block kind (all 128 description styles x phrases, stored sizes up to 65535) at every bit offset 0-7, followed by another block or last", move |ch| {
            let k = ch.pick(8);
            let mut v = vec![shifter(k)];
            let b = match ch.pick(3) {
                0 => B::Stored(pattern(*ch.of(&stored), 3)),
                1 => B::Fixed(ch.of(&phrases(k)).clone()),
                _ => make_dyn(ch.of(&phrases(k)).clone(), *ch.of(&all_styles())),
            };
            v.push(b);
            match ch.pick(3) {
                0 => {}
                1 => v.push(B::Stored(vec![1, 2])),
                _ => v.push(shifter(1)),
            }
            check_reencode(ch, &v)
        }),
        {
            let m = if th { 1024 } else { 512 };
            let all = descriptions_of_each_length(m);
            stage("descriptions", 0, "dynamic blocks whose descriptions have every length in bits modulo 128 and most modulo 512 (thorough 1024), ending in 0 and in 1, at every bit offset, last or followed by another block", move |ch| {
                let d = ch.of(&all).clone();
                let k = ch.pick(9);
                let mut v = if k < 8 { vec![shifter(k)] } else { vec![] };
                v.push(d.clone());
                match ch.pick(3) {
                    0 => {}
                    1 => v.push(d),
                    _ => v.push(B::Stored(vec![9, 8, 7])),
                }
                if v.len() == 1 && all.len() < 2 * m {
                    ch.note(|| format!("only {} of {} kinds of description could be made", all.len(), 2 * m));
                }
                check_reencode(ch, &v)
            })
        },
        stage("codes", 0, "every sequence of up to 3 (thorough 4) codes over boundary literals, distances and lengths, both spellings of length 258, in one block of each style", move |ch| {
            let c = free_codes(ch, 0, k, true);
            check_reencode(ch, &[wrap_in(ch, c)])
        }),
        stage("spelling-258", 0, "both spellings of a match of length 258 in fixed and full dynamic codes", move |ch| {
            let alt = ch.flag();
            let c = vec![C::L(1), C::R { len: 258, dist: 1, alt }];
            let b = match ch.pick(2) {
                0 => B::Fixed(c),
                _ => make_dyn(c, few_styles()[2]),
            };
            check_reencode(ch, &[b])
        }),
        stage("symbols", 0, "every literal, every length and every distance boundary in turn, fixed and dynamic", move |ch| {
            let c = match ch.pick(3) {
                0 => vec![C::L(ch.pick(256) as u8)],
                1 => vec![C::L(1), r(1, 3 + ch.pick(256) as u16)],
                _ => {
                    let mut ds: Vec<u16> = vec![];
                    for i in 0..30 {
                        let top = if i == 29 { 32768 } else { DIST_BASE[i + 1] - 1 };
                        ds.extend([DIST_BASE[i], top, DIST_BASE[i] + (top - DIST_BASE[i]) / 2]);
                    }
                    ds.dedup();
                    vec![C::L(1), r(*ch.of(&ds), 3)]
                }
            };
            check_reencode(ch, &[wrap_in(ch, c)])
        }),
        stage("scale", 0, "up to 65537 blocks, up to 65537 (thorough 300000) codes in a block, up to 3 (thorough 16) large stored blocks, and the longest possible code descriptions", move |ch| check_reencode(ch, &scale_stream(ch, th, false, false))),
        stage("long-blocks", 0, LONG_BLOCK, move |ch| check_reencode(ch, &long_block(ch, th))),
        stage("header-items", 0, "dynamic descriptions spelled with every choice of items around the literal/distance boundary (streams the reference accepts)", {
            let n = if thorough(t) { 9 } else { 7 };
            move |ch| {
                let bytes = boundary_header(ch, n);
                let d = decode(&bytes);
                ch.note(|| hex(&bytes));
                match d.end {
                    End::Complete { consumed } => {
                        let (got, err) = sut::parse_all(&bytes[..consumed]);
                        if let Some(e) = err {
                            return Err(format!("a valid stream is refused: {}", e));
                        }
                        let re = sut::reencode(&got)?;
                        if re != bytes[..consumed] {
                            return Err(format!("re-encoding gives {} instead of {}", hex(&re), hex(&bytes)));
                        }
                        ok("same", fnv(&bytes))
                    }
                    _ => ok("not-a-valid-stream", 0),
                }
            }
        }),
    ]
}

/// Every one of `tails` (bit strings) after the same beginning: what is wrong before them stays wrong,
/// also when a parser that overlooked it would find a complete block.
fn judge_tails(ch: &Ch, start: &Bits, tails: &[Vec<bool>]) -> Result<Out, String> {
    let mut res = ("", 0);
    for t in tails {
        let mut b = start.clone();
        t.iter().for_each(|&x| b.bit(x));
        b.align();
        b.raw(&[0, 0]);
        let d = decode(&b.bytes);
        ch.note(|| format!("{:?}: {}", d.end, hex(&b.bytes)));
        let (l, h) = judge_with(&b.bytes, &d)?;
        res = (l, mix(res.1, h));
    }
    ch.inner(tails.len() as u64 - 1, tails.len() as u64 - 1);
    ok(res.0, res.1)
}
/// Every bit string of `n` bits.
fn strings(n: usize) -> impl Iterator<Item = Vec<bool>> {
    (0..1u32 << n).map(move |v| (0..n).map(|i| v >> i & 1 == 1).collect())
}
fn code_bits(c: (u16, u8)) -> Vec<bool> {
    (0..c.1).rev().map(|i| c.0 >> i & 1 == 1).collect()
}

/// One dynamic block whose code lengths are spelled by freely chosen items. The literal part up to a
/// few entries before the literal/distance boundary is given; the rest is enumerated.
fn boundary_header(ch: &Ch, n: usize) -> Vec<u8> {
    let mut b = boundary_start(ch, n);
    // enough bits for whatever codes were described: 'a', then an end-of-block for each possible shape
    for x in [0u32, 1, 0, 1, 1, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0] {
        b.bit(x == 1);
    }
    b.align();
    b.bytes
}
fn boundary_tails() -> Vec<Vec<bool>> {
    // an end-of-block of one to three bits; 'a' first; then everything
    let mut v: Vec<Vec<bool>> = (1..=3).flat_map(strings).collect();
    v.push([0u32, 1, 0, 1, 1, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0].map(|x| x == 1).to_vec());
    v
}
fn boundary_start(ch: &Ch, n: usize) -> Bits {
    // literal alphabet: 'a' (97) len 1, 256 len 2, then hlit up to 260 with one more symbol of length 2
    let hlit = 257 + ch.pick(3); // 257, 258, 259
    let hdist = 1 + ch.pick(4);
    let total = hlit + hdist;
    let mut items = vec![Cl::Z11(97), Cl::Len(1), Cl::Z11(138), Cl::Z11(19)];
    let mut have = 97 + 1 + 138 + 19; // 255
    let mut left = n;
    while have < total && left > 0 {
        let menu = [Cl::Len(0), Cl::Len(1), Cl::Len(2), Cl::Rep(3), Cl::Rep(4), Cl::Rep(6), Cl::Z3(3), Cl::Z3(4), Cl::Z3(10), Cl::Z11(11)];
        let it = *ch.of(&menu);
        have += it.count();
        items.push(it);
        left -= 1;
    }
    let mut cl_lens = [0u8; 19];
    // 6 symbols: 0 1 2 16 17 18
    for (s, l) in [(0usize, 2u8), (1, 2), (2, 3), (16, 3), (17, 3), (18, 3)] {
        cl_lens[s] = l;
    }
    let h = Hdr { hlit, hdist, hclen: 18, cl_lens, items };
    let mut b = Bits::default();
    b.bit(true);
    b.val(2, 2);
    h.write(&mut b);
    b
}
fn c02(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let cf = cfg(t, if thorough(t) { 4 } else { 3 });
    let k = if thorough(t) { 4 } else { 3 };
    let fills: Vec<usize> = if thorough(t) {
        vec![1, 2, 3, 257, 258, 259, 4096, 32766, 32767, 32768, 32769, 32770, 33026, 33027, 65534, 65535, 65536, 65537, 65538, 98303, 98304, 98305]
    } else {
        vec![1, 258, 32766, 32767, 32768, 32769, 33026, 65535, 65536, 65537]
    };
    let mut v = vec![
        stage("blocks", 0, "every sequence of up to 3 (thorough 4) blocks from menus, blocks and expansion compared with the reference encoder's input", move |ch| check_decode(ch, &stream(ch, &cf))),
        stage("codes", 0, "every sequence of up to 3 (thorough 4) boundary codes in one block of each style", move |ch| {
            let c = free_codes(ch, 0, k, true);
            check_decode(ch, &[wrap_in(ch, c)])
        }),
        stage("all-literals-and-lengths", 0, "every literal value, and every length at several overlapping distances", move |ch| {
            let c = match ch.pick(2) {
                0 => vec![C::L(ch.pick(256) as u8)],
                _ => vec![C::L(1), C::L(2), C::L(3), C::L(4), r(*ch.of(&[1u16, 2, 3, 4]), 3 + ch.pick(256) as u16)],
            };
            check_decode(ch, &[wrap_in(ch, c)])
        }),
        stage("window", 0, "history filled to sizes around 32768, 65536 and 98304 by stored blocks or long matches, then up to two references at boundary distances and lengths, in the same or a new block", move |ch| {
            let fill = *ch.of(&fills);
            let mut v = vec![];
            match ch.pick(3) {
                0 => {
                    let p = pattern(fill, 5);
                    for c in p.chunks(65535) {
                        v.push(B::Stored(c.to_vec()));
                    }
                }
                1 => {
                    // literals, then matches
                    let mut c: Vec<C> = pattern(fill.min(300), 9).into_iter().map(C::L).collect();
                    let mut n = c.len();
                    let mut k = 0u16;
                    while n < fill {
                        let left = fill - n;
                        if left >= 3 {
                            let mut l = left.min(258);
                            if left - l > 0 && left - l < 3 {
                                l -= 3;
                            }
                            k = (k + 37) % 290;
                            c.push(r(1 + k, l as u16));
                            n += l;
                        } else {
                            c.push(C::L(n as u8));
                            n += 1;
                        }
                    }
                    v.push(B::Fixed(c));
                }
                _ => {
                    let p = pattern(fill, 6);
                    for c in p.chunks(8191) {
                        v.push(B::Stored(c.to_vec()));
                    }
                }
            }
            let mut hist = fill;
            let mut codes = vec![];
            for _ in 0..1 + ch.pick(2) {
                let h = hist.min(32768) as u16;
                let mut ds: Vec<u16> = [1u16, 2, 258, 259, 16384, 16385, 24576, 24577, 32766, 32767, 32768, h.saturating_sub(1), h].into_iter().filter(|&d| d >= 1 && d <= h).collect();
                ds.sort();
                ds.dedup();
                let d = *ch.of(&ds);
                let l = *ch.of(&[3u16, 4, 258]);
                codes.push(r(d, l));
                hist += l as usize;
            }
            v.push(match ch.pick(2) {
                0 => B::Fixed(codes),
                _ => make_dyn(codes, few_styles()[1]),
            });
            let bytes = write_stream(&v).bytes;
            ch.note(|| format!("fill {} then {}", fill, desc(&v[v.len() - 1..])));
            let want = expand(&v).ok_or("generator")?;
            let (got, err) = sut::parse_all(&bytes[..]);
            if let Some(e) = err {
                return Err(format!("valid stream refused: {}", e));
            }
            let out = sut::expand(&got)?;
            if out != want {
                let at = (0..out.len().max(want.len())).find(|&i| out.get(i) != want.get(i)).unwrap();
                return Err(format!("decompressed data differs at byte {} of {}", at, want.len()));
            }
            ok("same", fnv(&bytes))
        }),
        stage("scale", 0, "up to 65537 blocks, up to 65537 (thorough 300000) codes in a block, up to 3 (thorough 16) large stored blocks, and the longest possible code descriptions", move |ch| check_decode(ch, &scale_stream(ch, th, false, false))),
        stage("long-blocks", 0, LONG_BLOCK, move |ch| check_decode(ch, &long_block(ch, th))),
        stage("long-after-short", 0, "a short first block (none to 20000 bytes), then 32767 to 65535 bytes stored at once, in two halves or as matches, then one or two references at boundary distances", move |ch| {
            let v = window_stream(
                ch,
                if th { &[0, 1, 2, 5, 300, 1000, 20000, 32767, 32768, 32769] } else { &[0, 1, 5, 300, 20000] },
                if th { &[32766, 32767, 32768, 32769, 33000, 40000, 65534, 65535] } else { &[32767, 32768, 32769, 40000, 65535] },
                if th { &[1, 2, 3, 100, 16385, 20000, 32505, 32506, 32507, 32766, 32767, 32768] } else { &[1, 100, 20000, 32506, 32507, 32767, 32768] },
                &[3, 258],
                1,
            );
            ch.note(|| desc(&v));
            let bytes = write_stream(&v).bytes;
            let want = expand(&v).ok_or("generator")?;
            let (got, err) = sut::parse_all(&bytes[..]);
            if let Some(e) = err {
                return Err(format!("valid stream refused: {}", e));
            }
            let out = sut::expand(&got)?;
            if out != want {
                let at = (0..out.len().max(want.len())).find(|&i| out.get(i) != want.get(i)).unwrap();
                return Err(format!("decompressed data differs at byte {} of {}", at, want.len()));
            }
            ok("same", fnv(&bytes))
        }),
        stage("total", 0, "streams that expand to around 1 MiB and 16 MiB (thorough 64 MiB): exactly so much, one byte less or more, then references of boundary distances", move |ch| {
            let total = (1usize << *ch.of(if th { &[17, 18, 20, 22, 24, 25, 26][..] } else { &[17, 20, 24][..] })) - 1 + ch.pick(3);
            let tail = *ch.of(&[0usize, 1, 300]);
            let mut codes: Vec<C> = vec![];
            let mut blocks = vec![B::Stored(pattern(33000, 5))];
            let mut n = 33000;
            while n < total {
                // whole periods and others
                let run = (total - n).min(258);
                if run < 3 {
                    codes.extend((0..run).map(|i| C::L(i as u8)));
                } else {
                    codes.push(r(if codes.len() % 3 == 0 { 32768 } else { 1000 + codes.len() as u16 % 977 }, run as u16));
                }
                n += run;
                if codes.len() == 20000 {
                    blocks.push(B::Fixed(std::mem::take(&mut codes)));
                }
            }
            blocks.push(B::Fixed(codes));
            if tail > 0 {
                blocks.push(B::Stored(pattern(tail, 2)));
            }
            blocks.push(B::Fixed(vec![r(*ch.of(&[1u16, 3, 32767, 32768]), 258), C::L(9)]));
            let bytes = write_stream(&blocks).bytes;
            let want = expand(&blocks).ok_or("generator")?;
            let (got, err) = sut::parse_all(&bytes[..]);
            if let Some(e) = err {
                return Err(format!("valid stream refused: {}", e));
            }
            let out = sut::expand(&got)?;
            if out != want {
                let at = (0..out.len().max(want.len())).find(|&i| out.get(i) != want.get(i)).unwrap();
                return Err(format!("decompressed data differs at byte {} of {}", at, want.len()));
            }
            ok("same", mix(total as u64, fnv(&bytes)))
        }),
        stage("oracle", 0, "the reference encoder and decoder agree with each other and with an independent inflate on every stream of the catalogue and of 2 menu blocks", {
            let cf = cfg(t, 2);
            move |ch| {
                let b = match ch.pick(2) {
                    0 => ch.of(&catalogue()).clone(),
                    _ => stream(ch, &cf),
                };
                let bytes = write_stream(&b).bytes;
                let want = expand(&b).ok_or("generator")?;
                let d = decode(&bytes);
                if d.out != want || d.end != (End::Complete { consumed: bytes.len() }) {
                    panic!("reference decoder disagrees with the reference encoder on {}: {:?}", hex(&bytes), d.end);
                }
                let mut out = vec![];
                if b.iter().all(|x| match x {
                    B::Dyn(h, _) => h.hdist <= 30,
                    _ => true,
                }) {
                    let mut f = flate2::read::DeflateDecoder::new(&bytes[..]);
                    f.read_to_end(&mut out).map_err(|e| format!("independent inflate refuses {}: {}", hex(&bytes), e))?;
                    if out != want {
                        return Err(format!("independent inflate differs on {}", hex(&bytes)));
                    }
                    return ok("agrees", fnv(&bytes));
                }
                ok("only-reference", fnv(&bytes))
            }
        }),
    ];
    if thorough(t) {
        v.push(stage("styles", 0, "all 128 description styles for two consecutive dynamic blocks", move |ch| {
            let a = make_dyn(ch.of(&phrases(0)).clone(), *ch.of(&all_styles()));
            let b = make_dyn(ch.of(&phrases(0)).clone(), *ch.of(&all_styles()));
            check_decode(ch, &[a, b])
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ C03

pub fn targeted() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let bits = |f: &dyn Fn(&mut Bits)| {
        let mut b = Bits::default();
        f(&mut b);
        b.align();
        b.bytes
    };
    for k in 0..8 {
        for last in [false, true] {
            v.push(("reserved-type", bits(&|b| {
                write_block(b, &shifter(k), false);
                b.bit(last);
                b.val(3, 2);
                b.val(0, 30);
            })));
        }
        for pad in 1..8u32 {
            // one non-zero padding bit before a stored block
            let mut b = Bits::default();
            write_block(&mut b, &shifter(k), false);
            b.bit(true);
            b.val(0, 2);
            let n = (8 - b.n % 8) % 8;
            if (pad as usize) <= n {
                for i in 1..=n {
                    b.bit(i as u32 == pad);
                }
                b.raw(&[1, 0, 0xfe, 0xff, 0x55]);
                v.push(("stored-padding", b.bytes.clone()));
            }
            // and after the last block
            let mut b = Bits::default();
            write_block(&mut b, &shifter(k), true);
            let n = (8 - b.n % 8) % 8;
            if (pad as usize) <= n {
                for i in 1..=n {
                    b.bit(i as u32 == pad);
                }
                v.push(("final-padding", b.bytes));
            }
        }
    }
    // stored length check: every single wrong bit
    for len in [0u16, 1, 255, 256, 65535] {
        for bit in 0..16 {
            let mut b = Bits::default();
            b.bit(true);
            b.val(0, 2);
            b.align();
            let n = !len ^ (1 << bit);
            b.raw(&[len as u8, (len >> 8) as u8, n as u8, (n >> 8) as u8]);
            b.raw(&vec![0; len as usize]);
            v.push(("stored-check", b.bytes));
        }
    }
    // reserved symbols in fixed codes
    let lit = canon(&fixed_lit());
    let dist: Vec<_> = canon(&[5u8; 32]);
    for s in [286usize, 287] {
        v.push(("reserved-length", bits(&|b| {
            b.bit(true);
            b.val(1, 2);
            b.code(lit[97].unwrap());
            b.code(lit[s].unwrap());
            b.code(dist[0].unwrap());
            b.code(lit[256].unwrap());
        })));
    }
    for s in [30usize, 31] {
        for extra in [0u32, 0x1fff, 0x3fff] {
            v.push(("reserved-distance", bits(&|b| {
                b.bit(true);
                b.val(1, 2);
                b.code(lit[97].unwrap());
                b.code(lit[257].unwrap());
                b.code(dist[s].unwrap());
                b.val(extra, 14);
                b.code(lit[256].unwrap());
                b.val(0, 16);
            })));
        }
    }
    // reserved symbols in dynamic codes
    for (top, name) in [(30usize, "reserved-distance"), (31, "reserved-distance")] {
        let mut d = vec![0u8; top + 1];
        d[0] = 1;
        d[top] = 1;
        let mut l = vec![0u8; 258];
        l[97] = 1;
        l[256] = 2;
        l[257] = 2;
        let h = hdr_from_lens(&l, &d, Rle::Greedy, false);
        v.push((name, bits(&|b| {
            b.bit(true);
            b.val(2, 2);
            h.write(b);
            let lc = canon(&l);
            let dc = canon(&d);
            b.code(lc[97].unwrap());
            b.code(lc[257].unwrap());
            b.code(dc[top].unwrap());
            b.val(0, 20);
            b.code(lc[256].unwrap());
        })));
    }
    // a length without any distance code
    {
        let mut l = vec![0u8; 258];
        l[97] = 1;
        l[256] = 2;
        l[257] = 2;
        let h = hdr_from_lens(&l, &[0], Rle::Greedy, false);
        v.push(("length-without-distance", bits(&|b| {
            b.bit(true);
            b.val(2, 2);
            h.write(b);
            let lc = canon(&l);
            b.code(lc[97].unwrap());
            b.code(lc[257].unwrap());
            b.val(0, 5);
            b.code(lc[256].unwrap());
            b.val(0, 16);
        })));
    }
    // the single distance code's unused sibling
    {
        let mut l = vec![0u8; 258];
        l[97] = 1;
        l[256] = 2;
        l[257] = 2;
        for sym in [0usize, 1, 5, 29] {
            let mut d = vec![0u8; sym + 1];
            d[sym] = 1;
            let h = hdr_from_lens(&l, &d, Rle::Greedy, false);
            v.push(("unused-distance-code", bits(&|b| {
                b.bit(true);
                b.val(2, 2);
                h.write(b);
                let lc = canon(&l);
                b.code(lc[97].unwrap());
                b.code(lc[257].unwrap());
                b.bit(true);
                b.val(0, 15);
                b.code(lc[256].unwrap());
                b.val(0, 16);
            })));
        }
    }
    // descriptions of dynamic codes that break one rule, in blocks that are whole and in order otherwise
    let described = |lit: &[u8], dist: &[u8], items: Vec<Cl>, cl: Option<[u8; 19]>| {
        let mut b = Bits::default();
        b.bit(true);
        b.val(2, 2);
        let (mut cl_lens, mut hclen) = cl_code(&items, false);
        if let Some(c) = cl {
            cl_lens = c;
            hclen = 19;
        }
        let h = Hdr { hlit: lit.len(), hdist: dist.len(), hclen, cl_lens, items };
        h.write(&mut b);
        let lc = canon(lit);
        if let Some(c) = lc[97] {
            b.code(c);
        }
        if let Some(c) = lc[256] {
            b.code(c);
        }
        b.align();
        b.bytes
    };
    let base = |l97: u8, l256: u8, l257: u8| {
        let mut l = vec![0u8; 258];
        l[97] = l97;
        l[256] = l256;
        l[257] = l257;
        l
    };
    let items = |l: &[u8], d: &[u8]| {
        let mut all = l.to_vec();
        all.extend_from_slice(d);
        rle(&all, Rle::Greedy)
    };
    // the first item repeats the length before it: in order if that were v
    for v0 in (0..16u8).filter(|&x| x != 1) {
        let mut l = vec![0u8; 257];
        for x in l.iter_mut().take(3) {
            *x = v0;
        }
        if v0 == 0 {
            l[97] = 1;
            l[256] = 1;
        } else if v0 == 2 {
            l[256] = 2;
        } else {
            l[3] = v0;
            for (i, x) in (2..v0 - 1).enumerate() {
                l[97 + i] = x;
            }
            l[256] = 1;
        }
        let mut it = vec![Cl::Rep(3)];
        let mut rest = l[3..].to_vec();
        rest.extend([1, 1]);
        it.extend(rle(&rest, Rle::Greedy));
        v.push(("nothing-to-repeat", described(&l, &[1, 1], it, None)));
    }
    // repeats past the end of the lengths
    for (last, over) in [(Cl::Z3(3), 2usize), (Cl::Z3(10), 1), (Cl::Z3(10), 9), (Cl::Z11(11), 1), (Cl::Z11(138), 100), (Cl::Rep(3), 1), (Cl::Rep(6), 5)] {
        let l = base(1, 2, 2);
        let n = 2 + last.count() - over;
        let mut d = vec![0u8; n];
        d[0] = 1;
        d[1] = 1;
        if let Cl::Rep(_) = last {
            // three more codes of the length before
            d = vec![0, 0];
            for _ in 0..last.count() - over {
                d.push(0);
            }
        }
        let mut it = items(&l, &d[..2]);
        if let Cl::Rep(_) = last {
            it = items(&l, &[]);
            it.extend([Cl::Len(0), Cl::Len(0)]);
        }
        it.push(last);
        v.push(("repeat-past-the-end", described(&l, &d, it, None)));
    }
    // codes with too many or too few words
    for (l97, l256, l257) in [(1, 1, 1), (1, 1, 15), (2, 3, 1), (2, 2, 2), (1, 2, 3), (1, 15, 0), (2, 1, 0), (15, 15, 0)] {
        let over = kraft(&base(l97, l256, l257)) == Kraft::Over;
        let l = base(l97, l256, l257);
        v.push((if over { "too-many-literal-codes" } else { "too-few-literal-codes" }, described(&l, &[1, 1], items(&l, &[1, 1]), None)));
    }
    for d in [&[1u8, 1, 1][..], &[1, 1, 15], &[2, 2, 2, 2, 2], &[1, 2, 3], &[2, 2], &[1, 2, 0], &[2, 2, 2], &[15, 15], &[0, 2, 2, 0, 2]] {
        let l = base(1, 2, 2);
        v.push((if kraft(d) == Kraft::Over { "too-many-distance-codes" } else { "too-few-distance-codes" }, described(&l, d, items(&l, d), None)));
    }
    for (i, x) in [(3usize, 1u8), (3, 7), (7, 3), (18, 7), (0, 7), (1, 0), (17, 7), (2, 1), (2, 7)] {
        let l = base(1, 2, 2);
        let it = items(&l, &[1, 1]);
        let mut cl = cl_code(&it, false).0;
        if cl[i] == x {
            continue;
        }
        cl[i] = x;
        if kraft(&cl) == Kraft::Complete {
            continue;
        }
        // (a code of length 0 that is needed cannot be written)
        if it.iter().any(|k| cl[k.sym()] == 0) {
            continue;
        }
        v.push((if kraft(&cl) == Kraft::Over { "too-many-code-length-codes" } else { "too-few-code-length-codes" }, described(&l, &[1, 1], it, Some(cl))));
    }
    // a code-length code of one word, where a second one is used
    {
        let order = [16usize, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
        let one = |zeros: &dyn Fn() -> Vec<Cl>| {
            let mut it = vec![Cl::Len(1)];
            it.extend(zeros());
            it.extend([Cl::Len(1), Cl::Len(1)]);
            let mut l = vec![0u8; 257];
            l[0] = 1;
            l[256] = 1;
            (l, vec![1u8], it)
        };
        let eight = || {
            let mut it = vec![Cl::Len(0)];
            it.extend(vec![Cl::Len(8); 256]);
            it.push(Cl::Len(0));
            let mut l = vec![8u8; 257];
            l[0] = 0;
            (l, vec![0u8], it)
        };
        let cases = vec![
            one(&|| vec![Cl::Len(0); 255]),
            one(&|| vec![Cl::Z11(138), Cl::Z11(117)]),
            one(&|| (0..25).map(|_| Cl::Z3(10)).chain(vec![Cl::Z3(5)]).collect()),
            eight(),
        ];
        for (l, d, it) in cases {
            let whole = described(&l, &d, it.clone(), None);
            let used: std::collections::BTreeSet<usize> = it.iter().map(|k| k.sym()).collect();
            assert_eq!(used.len(), 2);
            for s in used {
                let at = 17 + 3 * order.iter().position(|&o| o == s).unwrap();
                let mut b = whole.clone();
                assert_eq!(b[at / 8] >> (at % 8) & 1, 1);
                b[at / 8] ^= 1 << (at % 8);
                v.push(("one-code-length-code", b));
            }
        }
    }
    // no end of block code
    {
        let mut l = base(1, 0, 2);
        l[98] = 2;
        v.push(("no-end-of-block", described(&l, &[1, 1], items(&l, &[1, 1]), None)));
        let l = base(1, 0, 1);
        v.push(("no-end-of-block", described(&l, &[1, 1], items(&l, &[1, 1]), None)));
    }
    v
}

fn flips(ch: &Ch, streams: &Arc<Vec<Vec<u8>>>, pairs_below: usize) -> Result<Out, String> {
    let s = ch.of(&streams[..]);
    let n = s.len() * 8;
    let i = ch.pick(n);
    let mut b = s.clone();
    b[i / 8] ^= 1 << (i % 8);
    ch.note(|| format!("{} with bit {} flipped", hex(s), i));
    let (l, mut h) = judge(&b)?;
    if s.len() <= pairs_below {
        for j in i + 1..n {
            b[j / 8] ^= 1 << (j % 8);
            let (_, g) = judge(&b)?;
            b[j / 8] ^= 1 << (j % 8);
            h = mix(h, g);
        }
        ch.inner((n - i - 1) as u64, (n - i - 1) as u64);
    }
    ok(l, h)
}

fn c03(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let cat: Arc<Vec<Vec<u8>>> = Arc::new(catalogue().iter().map(|b| write_stream(b).bytes).collect());
    let cat2 = cat.clone();
    let tg = Arc::new(targeted());
    let nb = if th { 9 } else { 6 };
    // dynamic headers followed by every short tail
    let heads: Arc<Vec<Bits>> = Arc::new({
        let mut v = vec![];
        for (i, st) in few_styles().into_iter().enumerate() {
            let codes = vec![C::L(b'a'), r(1, 3), r(if i % 2 == 0 { 1 } else { 5 }, 258)];
            let (l, d) = lens_for(&codes, st);
            let h = hdr_from_lens(&l, &d, st.rle, st.all_cl);
            let mut b = Bits::default();
            b.bit(true);
            b.val(2, 2);
            h.write(&mut b);
            v.push(b);
        }
        // one absent distance code
        let mut l = vec![0u8; 258];
        l[97] = 1;
        l[256] = 2;
        l[257] = 2;
        let h = hdr_from_lens(&l, &[0], Rle::Greedy, false);
        let mut b = Bits::default();
        b.bit(true);
        b.val(2, 2);
        h.write(&mut b);
        v.push(b);
        // after a fixed block
        let mut b = Bits::default();
        write_block(&mut b, &B::Fixed(vec![C::L(7), C::L(8)]), false);
        b.bit(true);
        b.val(1, 2);
        v.push(b);
        v
    });
    let tail = if th { 20 } else { 16 };
    vec![
        stage("bytes-2", 0, "every byte string of length 0 to 2", |ch| {
            let n = ch.pick(3);
            let b: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
            let (l, h) = judge(&b)?;
            ch.note(|| hex(&b));
            ok(l, h)
        }),
        stage("bytes", 0, "every byte string of length 3 (thorough: 4)", move |ch| {
            let mut b = vec![ch.pick(256) as u8, ch.pick(256) as u8, 0];
            if th {
                b.insert(0, ch.pick(256) as u8);
            }
            let mut h = 0;
            let at = b.len() - 1;
            let mut l = "none";
            for x in 0..=255u8 {
                b[at] = x;
                let (m, g) = judge(&b)?;
                l = m;
                h = mix(h, g);
            }
            ch.inner(255, 255);
            ch.note(|| hex(&b));
            ok(l, h)
        }),
        stage("tails", 0, "several dynamic and fixed block starts followed by every bit string of 16 (thorough 20) bits and by zeros or ones", move |ch| {
            let head = ch.of(&heads[..]);
            let hi = ch.pick(1 << (tail - 8));
            let ones = ch.flag();
            let mut h = 0;
            let mut l = "";
            for lo in 0..256u32 {
                let mut b = head.clone();
                b.val(hi as u32, tail as u32 - 8);
                b.val(lo, 8);
                for _ in 0..40 {
                    b.bit(ones);
                }
                let (m, g) = judge(&b.bytes)?;
                l = m;
                h = mix(h, g);
            }
            ch.inner(255, 255);
            ok(l, h)
        }),
        stage("flips", 0, "every single and (for streams up to 20, thorough 60 bytes) double bit flip of the catalogue streams", move |ch| flips(ch, &cat, if th { 60 } else { 20 })),
        stage("substitutions", 0, "every byte of every catalogue stream replaced by every value, removed, or doubled", move |ch| {
            let s = ch.of(&cat2[..]);
            let i = ch.pick(s.len());
            let mut h = 0;
            let mut l = "";
            for x in 0..258usize {
                let mut b = s.clone();
                match x {
                    256 => {
                        b.remove(i);
                    }
                    257 => b.insert(i, s[i]),
                    x => b[i] = x as u8,
                }
                let (m, g) = judge(&b)?;
                l = m;
                h = mix(h, g);
            }
            ch.inner(257, 257);
            ok(l, h)
        }),
        stage("kinds", 0, "every kind of violation of RFC 1951, placed deliberately at every bit offset that matters, with zero, one or many bytes following", move |ch| {
            let (name, b) = ch.of(&tg[..]);
            let mut b = b.clone();
            b.extend(vec![0u8; *ch.of(&[0usize, 1, 80])]);
            let d = decode(&b);
            match d.end {
                End::Invalid(_) => {}
                End::Truncated if *name == "no-end-of-block" => {}
                ref e => panic!("targeted case {} is not invalid: {:?} {}", name, e, hex(&b)),
            }
            let (l, h) = judge(&b)?;
            ch.note(|| format!("{} {}", name, hex(&b)));
            ok(l, h)
        }),
        stage("too-far", 0, "references 1 too far, exactly fitting, or 32768 back, after every kind of history (none, literals, stored, several blocks, around and beyond a full window)", move |ch| {
            let fill = *ch.of(&[0usize, 1, 2, 3, 4, 10, 257, 258, 259, 1024, 32766, 32767, 32768, 40000]);
            let mut v = vec![];
            match ch.pick(3) {
                0 => v.push(B::Stored(pattern(fill, 2))),
                1 => v.push(B::Fixed(pattern(fill, 2).into_iter().map(C::L).collect())),
                _ => {
                    let p = pattern(fill, 2);
                    let (a, b) = p.split_at(fill / 2);
                    v.push(B::Stored(a.to_vec()));
                    v.push(B::Stored(b.to_vec()));
                }
            }
            let ds: Vec<u16> = [1usize, 2, 3, fill.saturating_sub(1), fill, fill + 1, fill + 2, 32767, 32768].into_iter().filter(|&d| d >= 1 && d <= 32768).map(|d| d as u16).collect();
            let d = *ch.of(&ds);
            let lead = ch.pick(3);
            let mut c = vec![C::L(b'q'); lead];
            c.push(r(d, *ch.of(&[3u16, 258])));
            if ch.flag() {
                c.push(C::L(b'z'));
            }
            v.push(wrap_in(ch, c));
            let bytes = write_stream(&v).bytes;
            ch.note(|| format!("history {} reference {}", fill + lead, d));
            let (l, h) = judge(&bytes)?;
            let want = if d as usize <= fill + lead { "valid" } else { "too-far" };
            if l != want {
                panic!("generator: {} instead of {}", l, want);
            }
            ok(l, h)
        }),
        stage("header-items", 0, "dynamic descriptions spelled by every sequence of items around the literal/distance boundary, valid or not", move |ch| {
            let b = boundary_start(ch, nb);
            judge_tails(ch, &b, &boundary_tails())
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C04-C06

fn small_catalogue(max: usize) -> Vec<Vec<B>> {
    catalogue().into_iter().filter(|b| write_stream(b).bytes.len() <= max).collect()
}

fn c04(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let streams = Arc::new(small_catalogue(400));
    let s1 = streams.clone();
    let s2 = streams.clone();
    let cf = cfg(t, if th { 3 } else { 2 });
    let run = |ch: &Ch, blocks: &[B], trailer: &[u8], mode: Mode, deviate: bool| -> Result<Out, String> {
        let mut bytes = write_stream(blocks).bytes;
        let n = bytes.len();
        bytes.extend_from_slice(trailer);
        let mut e = EnvRead::new(&bytes, ch, mode);
        e.deviate = deviate;
        let (mut got, mut err) = (vec![], None);
        let mut after = None;
        {
            let mut it = librezip::parse_deflate(&mut e);
            for b in &mut it {
                match b {
                    Ok(b) => got.push(b),
                    Err(x) => {
                        err = Some(x.to_string());
                        break;
                    }
                }
            }
            if err.is_none() {
                // asked again, nothing more comes (and below: nothing more is taken)
                for _ in 0..3 {
                    after = after.or(it.next().map(|b| b.map(|b| sut::kind(&b)).map_err(|x| x.to_string())));
                }
            }
        }
        ch.note(|| format!("{} trailer {} mode {:?} calls {}", desc(blocks), hex(trailer), mode, e.calls));
        if let Some(x) = err {
            return Err(format!("valid stream refused (mode {:?}, trailer {}): {}", mode, hex(trailer), x));
        }
        if let Some(a) = after {
            return Err(format!("after the end of the stream another block is given: {:?} (trailer {})", a, hex(trailer)));
        }
        if e.pos != n {
            return Err(format!("the stream has {} bytes, {} were taken (trailer {})", n, e.pos, hex(trailer)));
        }
        let rb: Vec<RB> = blocks
            .iter()
            .map(to_rb)
            .map(|b| match b {
                RB::Fixed(c) => RB::Fixed(norm(&c)),
                RB::Dyn(t, c) => RB::Dyn(t, norm(&c)),
                x => x,
            })
            .collect();
        sut::blocks_eq(&got, &rb)?;
        let calls = e.calls as u64;
        ok("exact", mix(fnv(&bytes), calls))
    };
    let trailers: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![0xff; 40], vec![0; 40], vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0], vec![3, 0], vec![1, 0, 0, 0xff, 0xff]];
    let tr2 = trailers.clone();
    let big: Vec<Vec<B>> = vec![vec![B::Stored(pattern(65535, 1))], vec![B::Stored(pattern(40000, 1)), B::Fixed(vec![r(32768, 258)]), B::Stored(pattern(30000, 2))], vec![B::Fixed(pattern(5000, 1).into_iter().map(C::L).collect())]];
    vec![
        stage("trailers", 0, "catalogue streams x what follows them x read behaviour (full, byte by byte, interrupted up to 300 times before every answer, seven sizes of pieces)", move |ch| {
            let b = ch.of(&s1[..]);
            let tr = ch.of(&trailers);
            let m = *ch.of(&MODES);
            run(ch, b, tr, m, false)
        }),
        stage("reads", if th { 3 } else { 2 }, "catalogue streams, every pattern of up to 2 (thorough 3) unusual answers (interrupted, one byte, half, all but one) among all reads", move |ch| {
            let b = ch.of(&s2[..]);
            let m = *ch.of(&[Mode::Full, Mode::One]);
            run(ch, b, &[0xff, 0x00, 0xa5], m, true)
        }),
        stage("streams", 0, "every stream of up to 2 (thorough 3) menu blocks, followed by ones", move |ch| {
            let b = stream(ch, &cf);
            run(ch, &b, &[0xff, 0xff, 0xff], Mode::Full, false)
        }),
        stage("large", 1, "large stored and literal blocks, a trailer, and any one unusual answer among the first reads and the bulk reads", move |ch| {
            let b = ch.of(&big);
            let tr = ch.of(&tr2);
            let m = *ch.of(&[Mode::Full, Mode::One, Mode::Stutter]);
            // byte-by-byte answers would make every call a decision: only deviate with full reads on stored blocks
            let dev = m == Mode::Full && !matches!(b[0], B::Fixed(_));
            run(ch, b, tr, m, dev)
        }),
        stage("scale", 0, "many blocks, many codes, large stored blocks and long descriptions, followed by ones, from a whole or a byte-wise source", move |ch| {
            let m = *ch.of(&[Mode::Full, Mode::One]);
            run(ch, &scale_stream(ch, th, false, false), &[0xff, 0xff, 0xff], m, false)
        }),
        stage("concatenated", 0, "two different streams back to back from one source, read as two parses", move |ch| {
            let a = ch.of(&streams[..]);
            let b = ch.of(&streams[..]);
            let (x, y) = (write_stream(a).bytes, write_stream(b).bytes);
            let all: Vec<u8> = x.iter().chain(y.iter()).cloned().collect();
            let mut src = &all[..];
            let (ga, ea) = sut::parse_all(&mut src);
            if ea.is_some() || src.len() != y.len() {
                return Err(format!("first stream: error {:?}, {} bytes left instead of {}", ea, src.len(), y.len()));
            }
            let (gb, eb) = sut::parse_all(&mut src);
            if eb.is_some() || !src.is_empty() {
                return Err(format!("second stream: error {:?}, {} bytes left", eb, src.len()));
            }
            sut::blocks_eq(&ga, &a.iter().map(to_rb).collect::<Vec<_>>())?;
            sut::blocks_eq(&gb, &b.iter().map(to_rb).collect::<Vec<_>>())?;
            ok("both", fnv(&all))
        }),
    ]
}

fn c05(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let mut streams = catalogue();
    streams.push(vec![B::Stored(pattern(if th { 65535 } else { 3000 }, 1)), B::Fixed(vec![C::L(1)])]);
    streams.push(vec![B::Fixed(pattern(600, 3).into_iter().map(C::L).collect()), B::Stored(vec![]), make_dyn(vec![r(600, 258), C::L(0)], few_styles()[3])]);
    let streams = Arc::new(streams);
    let s1 = streams.clone();
    let s2 = Arc::new(small_catalogue(if th { 400 } else { 90 }));
    let cf = cfg(t, if th { 3 } else { 2 });
    fn run(ch: &Ch, blocks: &[B], cut: usize, kind: Option<ErrorKind>, mode: Mode, deviate: bool, once: bool) -> Result<Out, String> {
        let bytes = write_stream(blocks).bytes;
        let shown: &[u8] = if kind.is_none() { &bytes[..cut] } else { &bytes };
        let mut e = EnvRead::new(shown, ch, mode);
        e.deviate = deviate;
        e.fail_at = kind.map(|k| (cut, k));
        e.once = once;
        let (got, err) = sut::parse_all(&mut e);
        ch.note(|| format!("{} cut at {} of {} kind {:?} mode {:?}: {} blocks, {:?}", desc(blocks), cut, bytes.len(), kind, mode, got.len(), err));
        if err.is_none() {
            return Err(format!("source ends or fails ({:?}) after {} of {} bytes, but the stream is presented as complete ({} blocks)", kind, cut, bytes.len(), got.len()));
        }
        if got.len() > blocks.len() {
            return Err("more blocks than the stream has".into());
        }
        for (g, w) in got.iter().zip(blocks) {
            sut::block_eq(g, &to_rb(w)).map_err(|x| format!("block before the error differs: {}", x))?;
        }
        ok(if got.is_empty() { "error-first-block" } else { "error-later" }, mix(fnv(&bytes), mix(cut as u64, got.len() as u64)))
    }
    vec![
        stage("cuts", 0, "catalogue and large streams cut at every byte, with every read behaviour", move |ch| {
            let b = ch.of(&s1[..]);
            let n = write_stream(b).bytes.len();
            let cut = ch.pick(n);
            let m = if n > 2000 { Mode::Full } else { *ch.of(&MODES) };
            run(ch, b, cut, None, m, false, false)
        }),
        stage("errors", 0, "the same with each of 36 error kinds (streams over 100 bytes: 8) at every byte, for good or only once", move |ch| {
            let b = ch.of(&streams[..]);
            let n = write_stream(b).bytes.len();
            let cut = ch.pick(n);
            let k = *ch.of(if n > 100 { &ALL_KINDS[..8] } else { &ALL_KINDS });
            let (m, once) = *ch.of(&[(Mode::Full, false), (Mode::Full, true), (Mode::One, true), (Mode::Storm(3), true)]);
            run(ch, b, cut, Some(k), m, false, once)
        }),
        stage("streams", 0, "every stream of up to 2 (thorough 3) menu blocks cut at every byte", move |ch| {
            let b = stream(ch, &cf);
            let n = write_stream(&b).bytes.len();
            let mut last = ok("", 0)?;
            for cut in 0..n {
                last = run(ch, &b, cut, None, Mode::Full, false, false).map_err(|e| format!("{} | {}", desc(&b), e))?;
            }
            ch.inner(n as u64 - 1, n as u64);
            Ok(last)
        }),
        stage("large-cuts", 0, "streams of 65535 and 131070 stored bytes, of 40000 literals and of 300 blocks, cut or failing at and around every multiple of 4096 (thorough 256) and near both ends", move |ch| {
            let b: Vec<B> = match ch.pick(4) {
                0 => vec![B::Stored(pattern(65535, 2))],
                1 => vec![B::Stored(pattern(65535, 2)), B::Stored(pattern(65535, 4))],
                2 => vec![B::Fixed(pattern(40000, 3).into_iter().map(C::L).collect()), B::Fixed(vec![r(32768, 258), C::L(1)])],
                _ => (0..300).map(|i| if i % 2 == 0 { B::Stored(vec![i as u8; 20]) } else { B::Fixed(vec![C::L(i as u8)]) }).collect(),
            };
            let n = write_stream(&b).bytes.len();
            let every = if th { 256 } else { 4096 };
            let mut cuts: Vec<usize> = (0..20).chain(n - 20..n).collect();
            for m in (every..n).step_by(every) {
                cuts.extend([m - 1, m, m + 1, m + 4, m + 5, m + 6]);
            }
            cuts.retain(|&c| c < n);
            let cut = *ch.of(&cuts);
            let k = *ch.of(&[None, Some(ErrorKind::Other), Some(ErrorKind::UnexpectedEof)]);
            let once = k.is_some() && ch.flag();
            run(ch, &b, cut, k, Mode::Full, false, once)
        }),
        stage("mixed", if th { 2 } else { 1 }, "cut or failure at every byte combined with up to 1 (thorough 2) short or interrupted reads", move |ch| {
            let b = ch.of(&s2[..]);
            let n = write_stream(b).bytes.len();
            let cut = ch.pick(n);
            let k = *ch.of(&[None, Some(ErrorKind::Other), Some(ErrorKind::UnexpectedEof)]);
            let once = k.is_some() && ch.flag();
            run(ch, b, cut, k, Mode::Full, true, once)
        }),
    ]
}

fn c06(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let mk = |b: &Vec<B>| -> (Vec<Block>, Vec<u8>, Vec<u8>) {
        let bytes = write_stream(b).bytes;
        let (blocks, e) = sut::parse_all(&bytes[..]);
        if let Some(e) = e {
            panic!("catalogue stream refused: {}", e);
        }
        let out = expand(b).unwrap();
        (blocks, out, bytes)
    };
    // ops: 0 expand, 1 re-encode
    fn run(w: EnvWrite, blocks: &[Block], op: usize, want: &[u8]) -> Result<Out, String> {
        let mut w = w;
        let res: Result<(), String> = if op == 0 {
            let mut d = CircularBuffer::new();
            let mut r = Ok(());
            for b in blocks {
                if let Err(e) = librezip::decompressed_block(&mut w, &mut d, b) {
                    r = Err(e.to_string());
                    break;
                }
            }
            r
        } else {
            sut::reencode_to(&mut w, blocks).map(|_| ())
        };
        if !want.starts_with(&w.got) {
            return Err(format!("the sink received {} which is no prefix of {}", hex(&w.got), hex(want)));
        }
        match (res, w.faulted) {
            (Ok(()), false) => {
                if w.got != want {
                    return Err(format!("success, but the sink received {} of {} bytes", w.got.len(), want.len()));
                }
                ok("complete", mix(fnv(&w.got), w.calls as u64))
            }
            (Ok(()), true) => Err(format!("the sink failed after {} of {} bytes, but the operation succeeded", w.got.len(), want.len())),
            (Err(_), true) => ok("failed", mix(fnv(&w.got), w.calls as u64)),
            (Err(e), false) => Err(format!("the sink never failed, but the operation did: {}", e)),
        }
    }
    // what re-encoding writes to a perfect sink (its correctness is C01's business)
    let cat: Vec<Vec<B>> = catalogue();
    let all: Arc<Vec<(Vec<Block>, Vec<u8>, Vec<u8>)>> = Arc::new(
        cat.iter()
            .map(mk)
            .map(|(b, o, s)| {
                let re = sut::reencode(&b).unwrap_or(s);
                (b, o, re)
            })
            .collect(),
    );
    let small: Arc<Vec<(Vec<Block>, Vec<u8>, Vec<u8>)>> = Arc::new(all.iter().filter(|x| x.1.len() <= 320 && x.2.len() <= 320).cloned().collect());
    let small2 = small.clone();
    let tiny: Arc<Vec<(Vec<Block>, Vec<u8>, Vec<u8>)>> = Arc::new(all.iter().filter(|x| x.1.len() <= 60 && x.2.len() <= 80).cloned().collect());
    vec![
        stage("full", 0, "catalogue streams expanded and re-encoded into a sink that accepts bytes up to every possible size and then fails (each of 36 error kinds when it takes them whole, otherwise 4), taking them whole, one by one, or with interruptions (up to 400 bytes: 14 behaviours)", move |ch| {
            let x = ch.of(&all[..]);
            let op = ch.pick(2);
            let want = if op == 0 { &x.1 } else { &x.2 };
            let room = ch.pick(want.len() + 1);
            let m = *ch.of(if want.len() < 400 { &MODES[..] } else { &MODES[..3] });
            let mut w = EnvWrite::new(ch, m);
            w.deviate = false;
            w.room = if room == want.len() { None } else { Some(room) };
            w.kind = *ch.of(if m == Mode::Full { &ALL_KINDS[..] } else { &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WouldBlock] });
            ch.note(|| format!("op {} room {:?} of {} mode {:?}", op, w.room, want.len(), m));
            run(w, &x.0, op, want)
        }),
        stage("recovers", 0, "streams of up to 320 bytes: a sink that fails once, with each of 36 kinds of error, after every possible size and would then go on, taking data whole or byte by byte", move |ch| {
            let x = ch.of(&small2[..]);
            let op = ch.pick(2);
            let want = if op == 0 { &x.1 } else { &x.2 };
            if want.is_empty() {
                return ok("nothing to write", 0);
            }
            let room = ch.pick(want.len());
            let mut w = EnvWrite::new(ch, *ch.of(&[Mode::Full, Mode::One]));
            w.deviate = false;
            w.room = Some(room);
            w.once = true;
            w.kind = *ch.of(&ALL_KINDS);
            ch.note(|| format!("op {} fails once at {} of {} with {:?}", op, room, want.len(), w.kind));
            run(w, &x.0, op, want)
        }),
        stage("short", 1, "every single deviation (interruption, partial write, refusal, error) at every write", move |ch| {
            let x = ch.of(&small[..]);
            let op = ch.pick(2);
            let want = if op == 0 { &x.1 } else { &x.2 };
            let m = *ch.of(&[Mode::Full, Mode::One]);
            let mut w = EnvWrite::new(ch, m);
            w.faults = true;
            run(w, &x.0, op, want)
        }),
        stage("pairs", if th { 3 } else { 2 }, "small streams, every pattern of up to 2 (thorough 3) deviations", move |ch| {
            let x = ch.of(&tiny[..]);
            let op = ch.pick(2);
            let want = if op == 0 { &x.1 } else { &x.2 };
            let mut w = EnvWrite::new(ch, Mode::Full);
            w.faults = true;
            run(w, &x.0, op, want)
        }),
        stage("large", 0, "streams that expand to or take 40000 to 131100 bytes: a sink that fails at and around every multiple of 8192 (thorough 1024) and near both ends, whole, byte by byte or with interruptions", {
            let bs: Vec<Vec<B>> = vec![
                vec![B::Stored(pattern(65535, 2)), B::Stored(pattern(65535, 4)), B::Fixed(vec![r(32768, 20)])],
                vec![B::Fixed(pattern(40000, 3).into_iter().map(C::L).collect()), B::Fixed(vec![r(32768, 258), C::L(1)])],
                vec![make_dyn((0..300).map(|i| if i == 0 { C::L(7) } else { r(1, 258) }).collect(), few_styles()[2]), B::Stored(pattern(32768, 1)), B::Fixed(vec![r(32768, 258); 10])],
            ];
            let big: Arc<Vec<(Vec<Block>, Vec<u8>, Vec<u8>)>> = Arc::new(
                bs.iter()
                    .map(mk)
                    .map(|(b, o, s)| {
                        let re = sut::reencode(&b).unwrap_or(s);
                        (b, o, re)
                    })
                    .collect(),
            );
            move |ch| {
                let x = ch.of(&big[..]);
                let op = ch.pick(2);
                let want = if op == 0 { &x.1 } else { &x.2 };
                let n = want.len();
                let every = if th { 1024 } else { 8192 };
                let mut rooms: Vec<usize> = (0..6).chain(n.saturating_sub(6)..=n).collect();
                for m in (every..n).step_by(every) {
                    rooms.extend([m - 1, m, m + 1, m + 5]);
                }
                rooms.retain(|&r| r <= n);
                let room = *ch.of(&rooms);
                let m = *ch.of(&[Mode::Full, Mode::One, Mode::Stutter]);
                let mut w = EnvWrite::new(ch, m);
                w.deviate = false;
                w.room = if room == n { None } else { Some(room) };
                ch.note(|| format!("op {} room {:?} of {} mode {:?}", op, w.room, n, m));
                run(w, &x.0, op, want)
            }
        }),
        stage("codes-api", 1, "decompressed_codes with any history (also full and wrapping), long and short copies, any deviation at any write", move |ch| {
            let hist = *ch.of(&[0usize, 1, 5, 300, 32767, 32768, 65535 - 100]);
            let codes = match ch.pick(4) {
                3 => vec![C::L(1), r(1, 258), r(1, 3), C::L(2), r(2, 258)],
                0 => vec![C::L(1), C::L(2), r(2, 7)],
                1 => vec![C::L(b'x'), r(1, 20), C::L(b'y')],
                _ => {
                    if hist == 0 {
                        vec![]
                    } else {
                        vec![r(hist.min(32768) as u16, 9), C::L(3), r(1, 3)]
                    }
                }
            };
            let mut all = pattern(hist, 4);
            let mut d = CircularBuffer::new();
            d.extend(&all);
            expand_codes(&mut all, &codes).ok_or("generator")?;
            let want = all[hist..].to_vec();
            let mut w = EnvWrite::new(ch, Mode::Full);
            w.faults = true;
            let cs = sut::to_codes(&codes);
            let res = librezip::decompressed_codes(&mut w, &mut d, &cs);
            if !want.starts_with(&w.got) {
                return Err(format!("received {}, expected a prefix of {}", hex(&w.got), hex(&want)));
            }
            match (res.is_ok(), w.faulted) {
                (true, false) if w.got == want => ok("complete", mix(fnv(&w.got), w.calls as u64)),
                (false, true) => ok("failed", mix(fnv(&w.got), w.calls as u64)),
                (o, f) => Err(format!("success={} although sink failure={} (received {} of {} bytes)", o, f, w.got.len(), want.len())),
            }
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C07

#[derive(Clone)]
pub struct GzHdr {
    pub flags: u8,
    pub extra: usize,
    pub name: usize,
    pub comment: usize,
    pub fill: u8,
}
pub fn gz_bytes(h: &GzHdr) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, h.flags, 0x11, 0x22, 0x33, 0x44, 2, 255];
    let field = |n: usize, seed: usize| -> Vec<u8> { (0..n).map(|i| if h.fill != 0 { h.fill } else { 1 + ((i * 7 + seed) % 255) as u8 }).collect() };
    if h.flags & 4 != 0 {
        v.push(h.extra as u8);
        v.push((h.extra >> 8) as u8);
        // extra fields may contain zero bytes
        v.extend((0..h.extra).map(|i| if h.fill == 0 { (i % 3) as u8 } else { h.fill }));
    }
    if h.flags & 8 != 0 {
        v.extend(field(h.name, 1));
        v.push(0);
    }
    if h.flags & 16 != 0 {
        v.extend(field(h.comment, 2));
        v.push(0);
    }
    if h.flags & 2 != 0 {
        v.extend([0, 0x99]);
    }
    v
}

fn c07(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let extras: Vec<usize> = if th { vec![0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 32767, 32768, 65279, 65280, 65534, 65535] } else { vec![0, 1, 2, 127, 128, 255, 256, 257, 32768, 65280, 65535] };
    let strs: Vec<usize> = if th { vec![0, 1, 2, 7, 8, 31, 32, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 70000] } else { vec![0, 1, 2, 8, 255, 256, 4096, 65536] };
    let tails: [&[u8]; 3] = [&[0xab, 0xcd], &[0, 0, 0], &[]];
    fn good(ch: &Ch, hdr: &[u8], tail: &[u8], mode: Mode, deviate: bool) -> Result<Out, String> {
        let mut all = hdr.to_vec();
        all.extend_from_slice(tail);
        let mut e = EnvRead::new(&all, ch, mode);
        e.deviate = deviate;
        let got = librezip::gzip::discard_header(&mut e).map_err(|x| format!("valid header {} refused: {}", hex(hdr), x))?;
        if got != hdr {
            return Err(format!("header {} returned as {}", hex(hdr), hex(&got)));
        }
        if e.pos != hdr.len() {
            return Err(format!("header of {} bytes, {} taken", hdr.len(), e.pos));
        }
        ok("exact", mix(fnv(hdr), e.calls as u64))
    }
    fn variant(ch: &Ch, extras: &[usize], strs: &[usize]) -> GzHdr {
        let flags = ch.pick(32) as u8;
        let extra = if flags & 4 != 0 { *ch.of(extras) } else { 0 };
        let name = if flags & 8 != 0 { *ch.of(strs) } else { 0 };
        let comment = if flags & 16 != 0 { *ch.of(strs) } else { 0 };
        let fill = *ch.of(&[0u8, 0xff]);
        GzHdr { flags, extra, name, comment, fill }
    }
    let (e1, s1) = (extras.clone(), strs.clone());
    let small = [0usize, 1, 3];
    vec![
        stage("fields", 0, "all 32 flag combinations x extra field, name and comment lengths up to 65535/70000 bytes x contents x three tails", move |ch| {
            let h = variant(ch, &e1, &s1);
            let tail = *ch.of(&tails);
            ch.note(|| format!("flags {:02x} extra {} name {} comment {}", h.flags, h.extra, h.name, h.comment));
            good(ch, &gz_bytes(&h), tail, Mode::Full, false)
        }),
        stage("extra-lengths", 0, "every extra field length 0 to 65535 (quick: every length to 1024 and every 251st)", move |ch| {
            let n = ch.pick(if th { 65536 } else { 1025 + 64510 / 251 + 1 });
            let n = if th || n <= 1024 { n } else { (1025 + (n - 1025) * 251).min(65535) };
            good(ch, &gz_bytes(&GzHdr { flags: 4 + 8, extra: n, name: 2, comment: 0, fill: 0 }), &[0xee; 3], Mode::Full, false)
        }),
        stage("long-names", 0, "names and comments of up to 1 MiB (thorough 64 MiB) and one byte more or less than round numbers, whole, cut inside and right before the end of the field", move |ch| {
            let ns: &[usize] = if th { &[65535, 65537, 99999, 131071, 131072, 131073, 1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 10_000_001, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 26) + 1] } else { &[65535, 65537, 99999, 131073, (1 << 20) - 1, 1 << 20, (1 << 20) + 1] };
            let n = *ch.of(ns);
            let other = *ch.of(&[0usize, 3, 70000]);
            let (name, comment) = if ch.flag() { (n, other) } else { (other, n) };
            let flags = *ch.of(&[8u8 + 16, 4 + 8 + 16, 2 + 8 + 16]);
            let h = gz_bytes(&GzHdr { flags, extra: if flags & 4 != 0 { 65535 } else { 0 }, name, comment, fill: 0x55 });
            ch.note(|| format!("flags {:02x} name {} comment {}", flags, name, comment));
            match ch.pick(3) {
                0 => good(ch, &h, &[0xab, 0xcd], Mode::Full, false),
                k => {
                    // the terminating zero of the last field, or the second half of everything
                    let cut = if k == 1 { h.len() - 1 - if flags & 2 != 0 { 2 } else { 0 } } else { h.len() / 2 };
                    if librezip::gzip::discard_header(&h[..cut]).is_ok() {
                        return Err(format!("header of {} bytes (flags {:02x}) cut at {} is accepted", h.len(), flags, cut));
                    }
                    ok("error", mix(h.len() as u64, cut as u64))
                }
            }
        }),
        stage("reads", if th { 3 } else { 2 }, "all flag combinations with short fields, every pattern of up to 2 (thorough 3) short or interrupted reads, and 13 other behaviours from beginning to end", move |ch| {
            let h = variant(ch, &small, &small);
            let m = *ch.of(&MODES);
            // with the unusual ones no further deviations
            let usual = matches!(m, Mode::Full | Mode::One | Mode::Stutter);
            good(ch, &gz_bytes(&h), &[0xab, 0], m, usual)
        }),
        stage("mtime-etc", 0, "every value of every fixed header byte other than magic, method and flags", move |ch| {
            let mut b = gz_bytes(&GzHdr { flags: 8, extra: 0, name: 1, comment: 0, fill: 0 });
            b[4 + ch.pick(6)] = ch.pick(256) as u8;
            good(ch, &b, &[9], Mode::Full, false)
        }),
        stage("checksums", 0, "each of the 65536 values of the header checksum, with no other field and with all", move |ch| {
            let mut b = gz_bytes(&GzHdr { flags: *ch.of(&[2u8, 31]), extra: 2, name: 1, comment: 1, fill: 0 });
            let n = b.len();
            b[n - 2] = ch.pick(256) as u8;
            b[n - 1] = ch.pick(256) as u8;
            good(ch, &b, &[9], Mode::Full, false)
        }),
        stage("subfields", 0, "extra fields made of up to 2 subfields: 8 identifiers x data lengths 0 to 256 x declared lengths exact, one less, one more, 0, 255, 65535, with and without name and checksum; x three tails", move |ch| {
            let ids: [&[u8; 2]; 8] = [b"AP", b"BC", b"RA", b"Cp", b"KN", b"\0\0", b"\xff\xff", b"SL"];
            let n = ch.pick(3);
            let mut x = vec![];
            for i in 0..n {
                let len = if i == 0 { *ch.of(&[0usize, 1, 2, 4, 6, 254, 255, 256]) } else { *ch.of(&[0usize, 2, 255]) };
                x.extend(if i == 0 { *ch.of(&ids) } else { *ch.of(&ids[..3]) });
                let told = match ch.pick(6) {
                    0 => len,
                    1 => len.saturating_sub(1),
                    2 => len + 1,
                    3 => 0,
                    4 => 255,
                    _ => 65535,
                };
                x.extend((told as u16).to_le_bytes());
                // looks like further subfields, or like nothing at all
                x.extend((0..len).map(|k| if len % 2 == 0 { b"AP\x02\0"[k % 4] } else { 0xff }));
            }
            let flags = *ch.of(&[4u8, 12, 6, 31]);
            let mut h = vec![0x1f, 0x8b, 8, flags, 0, 0, 0, 0, 0, 3];
            h.extend((x.len() as u16).to_le_bytes());
            h.extend(&x);
            if flags & 8 != 0 {
                h.extend(b"n\0");
            }
            if flags & 16 != 0 {
                h.extend(b"c c\0");
            }
            if flags & 2 != 0 {
                h.extend([0, 0x41]);
            }
            ch.note(|| hex(&h));
            let tail = *ch.of(&tails);
            good(ch, &h, tail, Mode::Full, false)
        }),
        stage("contents", 0, "names and comments of every single byte value, every pair out of 24, and file names of 12 kinds; every pair of fixed header bytes over 8 values", move |ch| {
            let mut h = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
            if ch.flag() {
                let i = 4 + ch.pick(6);
                let j = 4 + ch.pick(6);
                h[i] = *ch.of(&[0u8, 1, 2, 4, 0x7f, 0x80, 0x8b, 0xff]);
                h[j] = *ch.of(&[0u8, 1, 2, 4, 0x7f, 0x80, 0x8b, 0xff]);
                h[3] = *ch.of(&[0u8, 4, 8, 2]);
                match h[3] {
                    4 => h.extend([2, 0, 0, 0]),
                    8 => h.extend([b'n', 0]),
                    2 => h.extend([1, 2]),
                    _ => {}
                }
            } else {
                let name: Vec<u8> = match ch.pick(3) {
                    0 => vec![1 + ch.pick(255) as u8],
                    1 => {
                        let m: Vec<u8> = b"\x01\x08\x09\x0a\x0d\x1b\x1f\x20\"'*./0:?A\\a~\x7f\x80\x8b\xff".to_vec();
                        vec![*ch.of(&m), *ch.of(&m)]
                    }
                    _ => ch.of(&[&b"a.gz"[..], b"../../x", b"/etc/passwd", b"C:\\x", b"\xc3\xa9", b"\xff\xfe", b"\x1f\x8b\x08", b"-", b".", b"\r\n", b" ", b"a.tar.gz.tmp~"]).to_vec(),
                };
                h[3] = *ch.of(&[8u8, 16, 24, 26]);
                for _ in 0..(h[3] >> 3 & 1) + (h[3] >> 4 & 1) {
                    h.extend(&name);
                    h.push(0);
                }
                if h[3] & 2 != 0 {
                    h.extend([0, 0]);
                }
            }
            ch.note(|| hex(&h));
            let tail = *ch.of(&tails);
            good(ch, &h, tail, Mode::Full, false)
        }),
        stage("refused", 0, "every wrong magic number, method and reserved flag value, over long and short inputs, is an error", move |ch| {
            let mut b = gz_bytes(&GzHdr { flags: 0x1e, extra: 2, name: 1, comment: 1, fill: 0 });
            let what;
            match ch.pick(4) {
                0 => {
                    b[0] = ch.pick(256) as u8;
                    let mut bad = 0;
                    for y in 0..=255u8 {
                        b[1] = y;
                        let r = librezip::gzip::discard_header(&b[..]);
                        let is_magic = b[0] == 0x1f && y == 0x8b;
                        if r.is_ok() != is_magic {
                            return Err(format!("magic {:02x}{:02x}: accepted={}", b[0], y, r.is_ok()));
                        }
                        bad += 1;
                    }
                    ch.inner(bad - 1, bad);
                    return ok("magic", b[0] as u64);
                }
                1 => {
                    b[2] = ch.pick(256) as u8;
                    what = b[2] == 8;
                }
                2 => {
                    b[3] = ch.pick(256) as u8;
                    // plenty of zero bytes: every legal combination is satisfied
                    b.truncate(10);
                    b.extend(vec![0; 64]);
                    what = b[3] & 0xe0 == 0;
                }
                _ => {
                    // reserved flag together with otherwise good fields, cut right after the fixed part
                    b[3] = ch.pick(256) as u8;
                    b.truncate(10);
                    what = b[3] & 0xfe == 0;
                }
            }
            let r = guarded(|| librezip::gzip::discard_header(&b[..]))?;
            if r.is_ok() != what {
                return Err(format!("{}: accepted={}, expected {}", hex(&b), r.is_ok(), what));
            }
            ok(if what { "accepted" } else { "refused" }, fnv(&b))
        }),
        stage("cut", 0, "headers of every flag combination and several field lengths, cut or failing for good or once (up to 60 bytes: with 36 kinds of error, else 2) at every byte, are errors", move |ch| {
            let h = variant(ch, &[0, 1, 5, 300], &[0, 1, 40]);
            let b = gz_bytes(&h);
            let few = b.len() > 60;
            let kinds: Vec<Option<ErrorKind>> = std::iter::once(None).chain(ALL_KINDS[..if few { 2 } else { ALL_KINDS.len() }].iter().map(|k| Some(*k))).collect();
            for cut in 0..b.len() {
                for (&k, once) in kinds.iter().flat_map(|k| [(k, false), (k, true)]).filter(|x| x.0.is_some() || !x.1) {
                    let shown = if k.is_none() { &b[..cut] } else { &b[..] };
                    let mut e = EnvRead::new(shown, ch, Mode::Full);
                    e.deviate = false;
                    e.fail_at = k.map(|k| (cut, k));
                    e.once = once;
                    let r = librezip::gzip::discard_header(&mut e);
                    if r.is_ok() {
                        return Err(format!("header {} cut at {} ({:?}) is accepted", hex(&b), cut, k));
                    }
                }
            }
            let n = ((kinds.len() * 2 - 1) * b.len()) as u64;
            ch.inner(n - 1, n);
            ok("errors", fnv(&b))
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C23

fn c23(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let skew = |n: usize, rot: usize| -> Vec<u8> {
        // a complete code with many different lengths, up to 15 bits, rotated over the alphabet
        let mut l: Vec<u8> = (1..=6).collect();
        l.extend(balanced(n - 6).into_iter().map(|x| x + 6));
        l.rotate_left(rot % n);
        l
    };
    let full: Vec<(Vec<u8>, Vec<u8>)> = vec![
        (balanced(286), balanced(30)),
        (skew(286, 40), skew(30, 7)),
        (skew(286, 255), { let mut b = balanced(30); b.reverse(); b }),
        ({ let mut b = balanced(286); b.reverse(); b }, skew(30, 20)),
    ];
    let full = Arc::new(full);
    let f2 = full.clone();
    let check = |codes: &[C], blk: B| -> Result<u64, String> {
        let bytes = write_stream(&[blk]).bytes;
        let (got, err) = sut::parse_all(&bytes[..]);
        if let Some(e) = err {
            return Err(format!("refused: {}", e));
        }
        let cs = match &got[..] {
            [Block::FixedHuffman(c)] => c,
            [Block::DynamicHuffman { codes, .. }] => codes,
            _ => return Err("one Huffman block expected".into()),
        };
        sut::codes_eq(cs, codes)?;
        let re = sut::reencode(&got)?;
        if re != bytes {
            // find the offending code
            return Err(format!("encoding differs for distance {:?}", codes.first()));
        }
        Ok(fnv(&bytes))
    };
    vec![
        stage("fixed", 0, "all 256 x 32768 (length, distance) pairs written with the RFC's symbols and extra bits in fixed codes, parsed, and written back", move |ch| {
            let d = 1 + ch.pick(32768) as u16;
            let codes: Vec<C> = (3..=258).map(|l| r(d, l)).collect();
            ch.inner(255, 255);
            ch.note(|| format!("distance {} with every length", d));
            let h = check(&codes, B::Fixed(codes.clone())).map_err(|e| format!("distance {}: {}", d, e))?;
            ok("pairs", h)
        }),
        stage("dynamic", 0, "the same with four complete dynamic codes (balanced, skewed to 15 bits, rotated, reversed)", move |ch| {
            let (l, ds) = ch.of(&full[..]);
            let d = 1 + ch.pick(32768) as u16;
            let codes: Vec<C> = (3..=258).map(|l| r(d, l)).collect();
            ch.inner(255, 255);
            let h = hdr_from_lens(l, ds, Rle::Greedy, false);
            let h = check(&codes, B::Dyn(h, codes.clone())).map_err(|e| format!("distance {}: {}", d, e))?;
            ok("pairs", h)
        }),
        stage("built", 0, "references built by the crate itself (from trace metadata) and written with fixed codes: the bits are the RFC's", move |ch| {
            let d = 1 + ch.pick(32768) as u16;
            let lens: Vec<u16> = if th { (3..=258).collect() } else { vec![3, 10, 11, 12, 13, 18, 19, 34, 35, 66, 67, 130, 131, 162, 163, 226, 227, 257, 258] };
            let codes: Vec<C> = lens.iter().map(|&l| r(d, l)).collect();
            let mut meta = vec![];
            for &l in &lens {
                meta.extend([d as u8, (d >> 8) as u8, (l - 3) as u8]);
            }
            let tr = librezip::serialise_trace::read(&meta[..]).map_err(|e| e.to_string())?;
            let cs: Vec<librezip::Code> = tr
                .iter()
                .map(|t| match t {
                    librezip::Trace::Actually(r) => Ok(librezip::Code::Reference(*r)),
                    x => Err(format!("read as {:?}", x)),
                })
                .collect::<Result<_, _>>()?;
            sut::codes_eq(&cs, &codes)?;
            let bytes = sut::reencode(&[Block::FixedHuffman(cs)])?;
            if bytes != write_stream(&[B::Fixed(codes)]).bytes {
                return Err(format!("distance {}: bits differ from RFC 1951's", d));
            }
            ch.inner(lens.len() as u64 - 1, lens.len() as u64 - 1);
            ok("pairs", fnv(&bytes))
        }),
        stage("expanded", 0, "every distance 1 to 32768 expanded with 9 lengths over a full window (thorough: 40 lengths)", move |ch| {
            let chunk = ch.pick(1024);
            let hist = pattern(32768 + 100, 1);
            let mut out = hist.clone();
            let mut dict = CircularBuffer::new();
            dict.extend(&hist);
            let mut codes = vec![];
            let lens: Vec<u16> = if th { (0..40).map(|i| 3 + (i * 13 + chunk as u16) % 256).collect() } else { vec![3, 4, 10, 11, 130, 131, 227, 257, 258] };
            for d in chunk * 32..chunk * 32 + 32 {
                for &l in &lens {
                    codes.push(r(d as u16 + 1, l));
                }
            }
            let bytes = write_stream(&[B::Fixed(codes.clone())]).bytes;
            expand_codes(&mut out, &codes).ok_or("generator")?;
            let (got, err) = sut::parse_all(&bytes[..]);
            if let Some(e) = err {
                return Err(e);
            }
            let mut o = vec![];
            librezip::decompressed_block(&mut o, &mut dict, &got[0]).map_err(|e| e.to_string())?;
            if o != out[hist.len()..] {
                let at = o.iter().zip(&out[hist.len()..]).position(|(a, b)| a != b);
                return Err(format!("expansion of distances {}.. differs at {:?}", chunk * 32 + 1, at));
            }
            ch.inner(codes.len() as u64, codes.len() as u64);
            ok("expanded", fnv(&o))
        }),
        stage("pairs-in-sequence", 0, "every pair of consecutive (length symbol, distance symbol) classes, extremes of their extra bits, fixed and dynamic", move |ch| {
            let mk = |ch: &Ch| {
                let i = ch.pick(29);
                let j = ch.pick(30);
                let hi = ch.flag();
                let ltop = if i == 28 { 258 } else if i == 27 { 257 } else { LEN_BASE[i + 1] - 1 };
                let dtop = if j == 29 { 32768 } else { DIST_BASE[j + 1] - 1 };
                if hi { r(dtop, ltop) } else { r(DIST_BASE[j], LEN_BASE[i]) }
            };
            let a = mk(ch);
            let mut h = 0;
            let mut n = 0;
            for i in 0..29 {
                for j in 0..30 {
                    let b = r(DIST_BASE[j], LEN_BASE[i]);
                    let codes = vec![a.clone(), b, C::L(0)];
                    h = mix(h, check(&codes, B::Fixed(codes.clone()))?);
                    n += 1;
                }
            }
            let (l, ds) = &f2[1];
            let codes: Vec<C> = (0..29).flat_map(|i| [a.clone(), r(DIST_BASE[i], LEN_BASE[i]), C::L(i as u8)]).collect();
            h = mix(h, check(&codes, B::Dyn(hdr_from_lens(l, ds, Rle::Small, true), codes.clone()))?);
            ch.inner(n, n);
            ok("pairs", h)
        }),
    ]
}

// ------------------------------------------------------------------------------------------ C24

/// Ordered complete length vectors for k symbols, chosen entry by entry (max length m).
fn complete_lens(ch: &Ch, k: usize, m: u8) -> Vec<u8> {
    let full = 1u32 << m;
    let mut left = full;
    let mut v = vec![];
    for i in 0..k {
        let rest = (k - i - 1) as u32;
        let menu: Vec<u8> = (1..=m)
            .filter(|&l| {
                let w = 1u32 << (m - l);
                w <= left && {
                    let rem = left - w;
                    if rest == 0 { rem == 0 } else { rem >= rest && rem as u64 <= rest as u64 * (full as u64 / 2) }
                }
            })
            .collect();
        if menu.is_empty() {
            return vec![];
        }
        let l = *ch.of(&menu);
        left -= 1 << (m - l);
        v.push(l);
    }
    v
}

fn use_all(lit: &[u8], dist: &[u8], ch: &Ch) -> Vec<C> {
    // every literal and length symbol that has a code, and every distance symbol, at least once
    let mut v = vec![];
    let ds: Vec<usize> = (0..dist.len().min(30)).filter(|&i| dist[i] > 0).collect();
    let ls: Vec<usize> = (257..lit.len().min(286)).filter(|&i| lit[i] > 0).collect();
    let _ = ch;
    for i in 0..256 {
        if lit.get(i).map(|&l| l > 0).unwrap_or(false) {
            v.push(C::L(i as u8));
        }
    }
    if !ds.is_empty() && !ls.is_empty() {
        for k in 0..ds.len().max(ls.len()) {
            v.push(r(DIST_BASE[ds[k % ds.len()]], LEN_BASE[ls[k % ls.len()] - 257]));
        }
    }
    v
}

/// Write a dynamic block with exactly these code lengths using every code, and compare everything.
fn check_lens(ch: &Ch, lit: &[u8], dist: &[u8], how: Rle, all_cl: bool) -> Result<Out, String> {
    let codes = use_all(lit, dist, ch);
    let h = hdr_from_lens(lit, dist, how, all_cl);
    let blk = B::Dyn(h, codes.clone());
    let bytes = write_stream(&[blk.clone(), B::Fixed(vec![C::L(1)])]).bytes;
    ch.note(|| format!("lit {:?} dist {:?} {:?} {}", lit.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>(), dist, how, hex(&bytes)));
    let d = decode(&bytes);
    if !matches!(d.end, End::Complete { .. }) && !matches!(d.end, End::Gray(_)) {
        panic!("generator made {:?}", d.end);
    }
    let (l, h) = judge_with(&bytes, &d)?;
    // and it is written back with the same codes
    if l == "valid" || l == "too-far" {
        let (got, _) = sut::parse_all(&bytes[..]);
        let re = sut::reencode(&got)?;
        if re != bytes {
            return Err(format!("re-encoding with the described codes gives {} instead of {}", hex(&re), hex(&bytes)));
        }
    }
    ok(l, h)
}

fn c24(t: Tier) -> Vec<Stage> {
    let th = thorough(t);
    let kmax = if th { 8 } else { 6 };
    let m = if th { 7 } else { 5 };
    let syms: [usize; 9] = [256, 0, 255, 97, 1, 257, 285, 284, 128];
    let vals = if th { 6usize } else { 5 };
    vec![
        stage("lit-codes", 0, "every complete code of 2 to 6 (thorough 8) literal/length symbols with lengths up to 5 (thorough 7), all symbols used; distances absent, single or paired", move |ch| {
            let k = 2 + ch.pick(kmax - 1);
            let lens = complete_lens(ch, k, m);
            if lens.is_empty() {
                return ok("no-such-code", 0);
            }
            let mut lit = vec![0u8; 286];
            for (i, &l) in lens.iter().enumerate() {
                lit[syms[i]] = l;
            }
            let top = (0..286).rev().find(|&i| lit[i] > 0).unwrap().max(256);
            lit.truncate(top + 1);
            let dist: &[u8] = *ch.of(&[&[0u8][..], &[1], &[0, 1], &[1, 1], &[2, 1, 2]]);
            check_lens(ch, &lit, dist, Rle::Greedy, false)
        }),
        stage("dist-codes", 0, "every complete code of 2 to 6 (thorough 8) distance symbols, and every single distance symbol, placed low, high or spread", move |ch| {
            let place = ch.pick(3);
            let mut lit = vec![0u8; 258];
            lit[97] = 1;
            lit[256] = 2;
            lit[257] = 2;
            let mut dist = vec![0u8; 30];
            if ch.flag() {
                dist[ch.pick(30)] = 1;
            } else {
                let k = 2 + ch.pick(kmax - 1);
                let lens = complete_lens(ch, k, m);
                if lens.is_empty() {
                    return ok("no-such-code", 0);
                }
                for (i, &l) in lens.iter().enumerate() {
                    let at = match place {
                        0 => i,
                        1 => 29 - i,
                        _ => (i * 7 + 3) % 30,
                    };
                    dist[at] = l;
                }
            }
            let top = (0..30).rev().find(|&i| dist[i] > 0).unwrap();
            dist.truncate(top + 1);
            check_lens(ch, &lit, &dist, Rle::Greedy, false)
        }),
        stage("unassigned", 0, "every single distance symbol with every number of distance codes: the other code bit (and no distance code at all) after a length, followed by chosen (thorough: up to all) strings of 13 bits and by zeros or ones, belongs to no symbol", move |ch| {
            let d = ch.pick(31);
            let mut lit = vec![0u8; 259];
            for s in [97, 256, 257, 258] {
                lit[s] = 2;
            }
            let n = if d == 30 { 1 } else { d + 1 + ch.pick(32 - d) };
            let mut dist = vec![0u8; n];
            if d < 30 {
                dist[d] = 1;
            }
            let how = *ch.of(&[Rle::Greedy, Rle::Plain]);
            let mut head = Bits::default();
            // enough earlier data for whatever distance could be understood
            let hist = if n > 16 { 32768 } else { 400u32 };
            head.val(0, 8);
            head.val(hist, 16);
            head.val(hist ^ 0xffff, 16);
            head.raw(&vec![b'x'; hist as usize]);
            head.bit(true);
            head.val(2, 2);
            hdr_from_lens(&lit, &dist, how, false).write(&mut head);
            let lc = canon(&lit);
            head.code(lc[97].unwrap());
            head.code(lc[257].unwrap());
            if d < 30 {
                head.bit(true);
            }
            let mut h = 0;
            let ones = ch.flag();
            let strings = if hist == 400 { 256 } else { 8 } * if th { 32u32 } else { 1 };
            for k in 0..strings {
                let mut b = head.clone();
                // quick: the ends of the string
                b.val(if strings > 256 { k } else { k & 15 | (k >> 4) << 9 }, 13);
                for _ in 0..40 {
                    b.bit(ones);
                }
                let (l, g) = judge(&b.bytes)?;
                if l == "valid" {
                    return Err(format!("reference decoder accepts an unassigned distance code (symbol {})", d));
                }
                h = mix(h, g);
            }
            ch.inner(strings as u64 - 1, strings as u64);
            ok("refused", h)
        }),
        stage("long-codes", 0, "codes with every maximal length 1 to 15, ascending or descending, rotated over the alphabet", move |ch| {
            let max = 1 + ch.pick(15);
            let rev = ch.flag();
            let mut l = if max == 1 { vec![1, 1] } else { skewed(max + 1) };
            if rev {
                l.reverse();
            }
            let n = l.len();
            l.rotate_left(ch.pick(n));
            let on_dist = ch.flag();
            let (mut lit, mut dist);
            if on_dist {
                lit = vec![0u8; 258];
                lit[97] = 1;
                lit[256] = 2;
                lit[257] = 2;
                dist = vec![0u8; 30];
                let start = ch.pick(30 - n + 1);
                dist[start..start + n].copy_from_slice(&l);
                let top = (0..30).rev().find(|&i| dist[i] > 0).unwrap();
                dist.truncate(top + 1);
            } else {
                lit = vec![0u8; 286];
                let base = *ch.of(&[0usize, 140, 256 - 15, 250, 256, 270]);
                let mut p = base.min(286 - n);
                if !(p..p + n).contains(&256) {
                    // the end-of-block code has to be one of them
                    for (i, &x) in l.iter().enumerate().skip(1) {
                        lit[p + i] = x;
                    }
                    lit[256] = l[0];
                } else {
                    for &x in &l {
                        lit[p] = x;
                        p += 1;
                    }
                }
                let top = (0..286).rev().find(|&i| lit[i] > 0).unwrap().max(256);
                lit.truncate(top + 1);
                dist = vec![1, 1];
            }
            check_lens(ch, &lit, &dist, *ch.of(&RLES), ch.flag())
        }),
        stage("counts", 0, "every number of literal (257-286), distance (1-30, and 31, 32) and code-length (4-19) codes", move |ch| {
            let hlit = 257 + ch.pick(30);
            let hdist = 1 + ch.pick(32);
            let mut lit = vec![0u8; hlit];
            lit[97] = 2;
            lit[98] = 2;
            lit[256] = 2;
            lit[hlit - 1] = 2;
            if hlit == 257 {
                lit[99] = 2;
            }
            let mut dist = vec![0u8; hdist];
            dist[0] = 1;
            if hdist > 1 && ch.flag() {
                dist[(hdist - 1).min(29)] = 1;
            }
            let codes = use_all(&lit, &dist, ch);
            let mut h = hdr_from_lens(&lit, &dist, *ch.of(&RLES), ch.flag());
            let min = h.hclen;
            h.hclen = min + ch.pick(20 - min);
            let bytes = write_stream(&[B::Dyn(h, codes)]).bytes;
            let (l, hh) = judge(&bytes)?;
            if l != "valid" && l != "too-far" {
                panic!("generator made {}", l);
            }
            ok(l, hh)
        }),
        stage("lit-verdict", 0, "every assignment of lengths 0-4 (thorough 0-5) to five literal/length symbols: complete codes accepted, all others refused", move |ch| {
            let lens: Vec<u8> = (0..5).map(|_| ch.pick(vals) as u8).collect();
            let mut lit = vec![0u8; 258];
            for (i, s) in [97usize, 98, 0, 256, 257].iter().enumerate() {
                lit[*s] = lens[i];
            }
            verdict(ch, &lit, &[1, 1])
        }),
        stage("dist-verdict", 0, "every assignment of lengths 0-4 (thorough 0-5) to five distance symbols", move |ch| {
            let lens: Vec<u8> = (0..5).map(|_| ch.pick(vals) as u8).collect();
            let mut lit = vec![0u8; 258];
            lit[97] = 1;
            lit[256] = 2;
            lit[257] = 2;
            let mut dist = vec![0u8; 30];
            let spread = ch.flag();
            for (i, &l) in lens.iter().enumerate() {
                dist[if spread { i * 7 } else { i }] = l;
            }
            let n = 1 + (0..30).rev().find(|&i| dist[i] > 0).unwrap_or(0);
            // trailing absent codes may be described, too
            let n = n.max(*ch.of(&[1usize, 5, 30]));
            dist.truncate(n);
            verdict(ch, &lit, &dist)
        }),
        stage("near-complete", 0, "large complete codes (286, 257, 200, 30 symbols; up to 15 bits) with one length changed by one, removed or added: refused unless complete", move |ch| {
            let which = ch.pick(4);
            let mut lit = vec![0u8; 286];
            let mut dist = balanced(30);
            match which {
                0 => lit.copy_from_slice(&balanced(286)),
                1 => {
                    let b = balanced(200);
                    for i in 0..200 {
                        lit[286 - 200 + i] = b[i];
                    }
                }
                2 => {
                    let b = skewed(16);
                    for i in 0..16 {
                        lit[245 + i] = b[i];
                    }
                }
                _ => {
                    lit.copy_from_slice(&balanced(286));
                    let b = skewed(16);
                    dist = vec![0; 30];
                    for i in 0..16 {
                        dist[14 + i] = b[i];
                    }
                }
            }
            let on_dist = ch.flag();
            let v = if on_dist { &mut dist } else { &mut lit };
            let i = ch.pick(v.len());
            match ch.pick(4) {
                0 => v[i] = v[i].saturating_sub(1),
                1 => v[i] = (v[i] + 1).min(15),
                2 => v[i] = 0,
                _ => v[i] = 15,
            }
            verdict(ch, &lit, &dist)
        }),
        stage("cl-verdict", 0, "every assignment of lengths 0-7 to the five code-length symbols in use (0 1 2 17 18), and each other symbol added", move |ch| {
            let lens: Vec<u8> = (0..5).map(|_| ch.pick(8) as u8).collect();
            let other = ch.pick(1 + 14);
            let mut cl = [0u8; 19];
            for (i, s) in [0usize, 1, 2, 17, 18].iter().enumerate() {
                cl[*s] = lens[i];
            }
            if other > 0 {
                let s = [3usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16][other - 1];
                cl[s] = 3;
            }
            let mut lit = vec![0u8; 258];
            lit[97] = 1;
            lit[256] = 2;
            lit[257] = 2;
            let mut all = lit.clone();
            all.extend([1u8, 1]);
            let items = rle(&all, Rle::Greedy);
            let mut b = Bits::default();
            b.bit(true);
            b.val(2, 2);
            b.val(1, 5);
            b.val(1, 5);
            b.val(15, 4);
            for i in 0..19 {
                b.val(cl[CL_ORDER[i]] as u32, 3);
            }
            let codes = canon(&cl);
            let complete = kraft(&cl) == Kraft::Complete;
            let writable = items.iter().all(|i| codes[i.sym()].is_some());
            if writable {
                for it in &items {
                    let c = codes[it.sym()].unwrap();
                    b.code((c.0 & ((1u32 << c.1) - 1) as u16, c.1));
                    match *it {
                        Cl::Len(_) => {}
                        Cl::Rep(n) => b.val(n as u32 - 3, 2),
                        Cl::Z3(n) => b.val(n as u32 - 3, 3),
                        Cl::Z11(n) => b.val(n as u32 - 11, 7),
                    }
                }
                write_codes(&mut b, &canon(&lit), &canon(&[1, 1]), &[C::L(97), r(1, 3), r(2, 3)]);
            } else {
                b.val(0x5a5a5a5a, 32);
                b.val(0, 32);
                b.val(0xffffffff, 32);
            }
            b.align();
            let d = decode(&b.bytes);
            if complete && writable && !matches!(d.end, End::Complete { .. }) {
                panic!("generator: {:?}", d.end);
            }
            ch.note(|| format!("code-length lengths {:?}: {:?}", cl, d.end));
            let (l, h) = judge_with(&b.bytes, &d)?;
            ok(l, h)
        }),
        stage("items", 0, "every sequence of items spelling the last lengths across the literal/distance boundary (repeats crossing it, overrunning, repeating nothing)", {
            let n = if th { 9 } else { 7 };
            move |ch| {
                let b = boundary_start(ch, n);
                judge_tails(ch, &b, &boundary_tails())
            }
        }),
        stage("first-items", 0, "every pair of first items (including a repeat with nothing before it), then a valid completion", move |ch| {
            let menu: Vec<Cl> = (0..3).map(Cl::Len).chain([Cl::Len(15)]).chain((3..=6).map(Cl::Rep)).chain((3..=10).map(Cl::Z3)).chain([11, 12, 96, 137, 138].map(Cl::Z11)).collect();
            let a = *ch.of(&menu);
            let b2 = *ch.of(&menu);
            let mut items = vec![a, b2];
            let have = a.count() + b2.count();
            // complete with zeros up to 300, then something
            let mut n = have;
            while n + 138 <= 250 {
                items.push(Cl::Z11(138));
                n += 138;
            }
            while n < 255 {
                let k = (255 - n).min(11);
                if k == 11 {
                    items.push(Cl::Z11(11));
                } else if k >= 3 {
                    items.push(Cl::Z3(k.min(10) as u8));
                } else {
                    items.push(Cl::Len(0));
                    n += 1;
                    continue;
                }
                n += if k == 11 { 11 } else { k.min(10) };
            }
            while n < 256 {
                items.push(Cl::Len(0));
                n += 1;
            }
            let l256 = *ch.of(&[1u8, 2]);
            items.push(Cl::Len(l256));
            items.push(Cl::Len(*ch.of(&[1u8, 2])));
            items.push(Cl::Len(1));
            items.push(Cl::Len(1));
            let (cl_lens, hclen) = cl_code(&items, true);
            let total: usize = items.iter().map(|i| i.count()).sum();
            let hdist = 2;
            let hlit = (total - 2).clamp(257, 286);
            let mut b = Bits::default();
            b.bit(true);
            b.val(2, 2);
            Hdr { hlit, hdist, hclen, cl_lens, items }.write(&mut b);
            let mut tails: Vec<Vec<bool>> = (1..=4).flat_map(strings).collect();
            tails.push((0..32).map(|i| 0xffff_3a5cu32 >> i & 1 == 1).collect());
            judge_tails(ch, &b, &tails)
        }),
    ]
}

fn verdict(ch: &Ch, lit: &[u8], dist: &[u8]) -> Result<Out, String> {
    let h = hdr_from_lens(lit, dist, Rle::Greedy, false);
    let mut b = Bits::default();
    b.bit(true);
    b.val(2, 2);
    h.write(&mut b);
    let okay = kraft(lit) == Kraft::Complete && lit[256] > 0;
    if okay {
        let codes = use_all(lit, dist, ch);
        let dc = if kraft(dist) == Kraft::Over { vec![None; dist.len()] } else { canon(dist) };
        let codes: Vec<C> = codes
            .into_iter()
            .filter(|c| match c {
                C::R { dist: d, .. } => dc.get(dist_symbol(*d)).map(|x| x.is_some()).unwrap_or(false),
                _ => true,
            })
            .collect();
        write_codes(&mut b, &canon(lit), &dc, &codes);
    } else {
        // an end-of-block, as the lengths alone would have it or of any short form
        let mut tails: Vec<Vec<bool>> = vec![];
        let l = lit[256] as usize;
        if l > 0 {
            tails.push(code_bits(canon(lit)[256].map(|c| (c.0 & ((1u32 << c.1) - 1) as u16, c.1)).unwrap()));
            if l <= 4 {
                tails.extend(strings(l));
            }
        }
        tails.push(vec![false; 64]);
        tails.push(vec![true; 64]);
        tails.push((0..96).map(|i| i < 32 && 0x12345678u32 >> i & 1 == 1 || i >= 64).collect());
        return judge_tails(ch, &b, &tails);
    }
    b.align();
    let d = decode(&b.bytes);
    ch.note(|| format!("{:?}: {}", d.end, hex(&b.bytes)));
    let (l, h) = judge_with(&b.bytes, &d)?;
    ok(l, h)
}
