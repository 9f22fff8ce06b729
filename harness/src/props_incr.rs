//! C26: blocks pass through one by one.
use crate::deflate::*;
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::sut;
use crate::{stage, Stage, Tier};
use librezip::verif_hooks::BitWriter;
use librezip::{Block, CircularBuffer};
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::sync::Arc;

pub fn stages(id: &str, t: Tier) -> Vec<Stage> {
    match id {
        "C26" => c26(t),
        _ => vec![],
    }
}

/// A source whose position can be seen while somebody else reads from it.
struct Seen<'a> {
    inner: EnvRead<'a>,
    at: &'a Cell<usize>,
}
impl<'a> Read for Seen<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = self.inner.read(buf);
        self.at.set(self.inner.pos);
        r
    }
}
/// A sink whose content can be counted while somebody else writes to it.
struct Sink<'a> {
    inner: EnvWrite<'a>,
    at: &'a Cell<usize>,
    sum: &'a Cell<u64>,
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let r = self.inner.write(buf);
        if let Ok(n) = r {
            self.at.set(self.inner.got.len());
            self.sum.set(run(self.sum.get(), &buf[..n]));
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// hash of a sequence, byte by byte
fn run(mut h: u64, d: &[u8]) -> u64 {
    for &b in d {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// A stream, and after each block: bits of the stream, bytes of content.
struct Marked {
    blocks: Vec<B>,
    bytes: Vec<u8>,
    bits: Vec<usize>,
    out: Vec<u8>,
    outs: Vec<usize>,
}
fn marked(blocks: Vec<B>) -> Marked {
    let mut b = Bits::default();
    let mut bits = vec![];
    let mut out = vec![];
    let mut outs = vec![];
    for (i, x) in blocks.iter().enumerate() {
        write_block(&mut b, x, i + 1 == blocks.len());
        bits.push(b.n);
        match x {
            B::Stored(d) => out.extend_from_slice(d),
            B::Fixed(c) | B::Dyn(_, c) => expand_codes(&mut out, c).expect("valid stream"),
        }
        outs.push(out.len());
    }
    b.align();
    Marked { blocks, bytes: b.bytes, bits, out, outs }
}
fn up(bits: usize) -> usize {
    (bits + 7) / 8
}

/// Every block is delivered once its last byte was taken, and no sooner is anything more taken.
fn taking(ch: &Ch, m: &Marked, mode: Mode, deviate: bool, fail: Option<(usize, io::ErrorKind)>) -> Result<Out, String> {
    let mut all = m.bytes.clone();
    all.extend([0xff; 9]);
    let at = Cell::new(0);
    let mut e = EnvRead::new(&all, ch, mode);
    e.deviate = deviate;
    e.fail_at = fail;
    ch.note(|| format!("blocks end at bits {:?}, source {:?} {:?}", few(&m.bits), mode, fail));
    let mut it = librezip::parse_deflate(Seen { inner: e, at: &at });
    for (k, &n) in m.bits.iter().enumerate() {
        let there = fail.map_or(true, |f| f.0 >= up(n));
        match it.next() {
            Some(Ok(b)) => {
                if !there {
                    return Err(format!("block {} delivered, of which the source has not given everything", k));
                }
                if at.get() != up(n) {
                    return Err(format!("block {} ends at bit {} (in byte {}), but is delivered after {} bytes", k, n, up(n), at.get()));
                }
                let want = match &m.blocks[k] {
                    B::Stored(_) => "stored",
                    B::Fixed(_) => "fixed",
                    B::Dyn(..) => "dynamic",
                };
                if sut::kind(&b) != want {
                    return Err(format!("block {} is {} instead of {}", k, sut::kind(&b), want));
                }
            }
            Some(Err(x)) if there => return Err(format!("block {} is not delivered although all of its {} bytes were given ({})", k, up(n), x)),
            Some(Err(_)) => return ok("all that was there", mix(fnv(&m.bytes[..at.get()]), k as u64)),
            None => return Err(format!("{} of {} blocks", k, m.bits.len())),
        }
    }
    match it.next() {
        None if at.get() == m.bytes.len() => ok("step by step", mix(fnv(&m.bytes), m.bits.len() as u64)),
        None => Err(format!("{} bytes taken of {}", at.get(), m.bytes.len())),
        Some(Ok(_)) => Err("a block too many".into()),
        Some(Err(x)) => Err(format!("after the last block: {}", x)),
    }
}
fn few(v: &[usize]) -> &[usize] {
    &v[..v.len().min(40)]
}
fn parsed(m: &Marked) -> Result<Vec<Block>, String> {
    let (b, e) = sut::parse_all(&m.bytes[..]);
    match e {
        None if b.len() == m.blocks.len() => Ok(b),
        e => Err(format!("a valid stream is read as {} blocks, error {:?}", b.len(), e)),
    }
}

/// After every block all of its content is in the sink.
fn giving(ch: &Ch, m: &Marked, mode: Mode, deviate: bool) -> Result<Out, String> {
    let blocks = parsed(m)?;
    let (at, sum) = (Cell::new(0), Cell::new(0));
    let mut w = EnvWrite::new(ch, mode);
    w.deviate = deviate;
    let mut w = Sink { inner: w, at: &at, sum: &sum };
    let mut d = CircularBuffer::new();
    let (mut h, mut done) = (0, 0);
    for (k, b) in blocks.iter().enumerate() {
        librezip::decompressed_block(&mut w, &mut d, b).map_err(|x| format!("block {}: {}", k, x))?;
        h = run(h, &m.out[done..m.outs[k]]);
        done = m.outs[k];
        if at.get() != done || sum.get() != h {
            return Err(format!("after block {} the sink has {} bytes; {} should be there{}", k, at.get(), done, if at.get() == done { " (and others)" } else { "" }));
        }
    }
    ok("step by step", mix(h, w.inner.calls as u64))
}

/// After every block all whole bytes of the stream are in the sink.
fn writing(ch: &Ch, m: &Marked, mode: Mode, deviate: bool) -> Result<Out, String> {
    let blocks = parsed(m)?;
    let (at, sum) = (Cell::new(0), Cell::new(0));
    let mut w = EnvWrite::new(ch, mode);
    w.deviate = deviate;
    let mut w = BitWriter::new(Sink { inner: w, at: &at, sum: &sum });
    let (mut h, mut done) = (0, 0);
    for (k, b) in blocks.iter().enumerate() {
        w.write_bit(k + 1 == blocks.len()).map_err(|x| format!("block {}: {}", k, x))?;
        librezip::compressed_block(&mut w, b).map_err(|x| format!("block {}: {}", k, x))?;
        let whole = m.bits[k] / 8;
        if at.get() != whole {
            return Err(format!("after block {} the stream has {} bits, but the sink {} bytes", k, m.bits[k], at.get()));
        }
        h = run(h, &m.bytes[done..whole]);
        done = whole;
        if sum.get() != h {
            return Err(format!("after block {} the sink has other bytes", k));
        }
    }
    w.align().map_err(|x| x.to_string())?;
    if at.get() != m.bytes.len() || sum.get() != run(h, &m.bytes[done..]) {
        return Err(format!("in the end the sink has {} of {} bytes, or others", at.get(), m.bytes.len()));
    }
    ok("step by step", mix(h, m.bits.len() as u64))
}

/// The three steps in any order that keeps every block's own: after each everything is where it belongs.
fn pipeline(ch: &Ch, m: &Marked) -> Result<Out, String> {
    let n = m.blocks.len();
    let at = Cell::new(0);
    let mut e = EnvRead::new(&m.bytes, ch, Mode::Full);
    e.deviate = false;
    let mut it = librezip::parse_deflate(Seen { inner: e, at: &at });
    let mut blocks: Vec<Block> = vec![];
    let (oat, osum, wat, wsum) = (Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0));
    let sink = |at, sum| {
        let mut w = EnvWrite::new(ch, Mode::Full);
        w.deviate = false;
        Sink { inner: w, at, sum }
    };
    let mut out = sink(&oat, &osum);
    let mut w = BitWriter::new(sink(&wat, &wsum));
    let mut d = CircularBuffer::new();
    let (mut expanded, mut written) = (0, 0);
    let mut order = String::new();
    while written < n || expanded < n {
        let mut can = vec![];
        if blocks.len() < n {
            can.push('p');
        }
        if expanded < blocks.len() {
            can.push('e');
        }
        if written < blocks.len() {
            can.push('w');
        }
        let c = *ch.of(&can);
        order.push(c);
        match c {
            'p' => match it.next() {
                Some(Ok(b)) => blocks.push(b),
                x => return Err(format!("{}: block {}: {:?}", order, blocks.len(), x.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))),
            },
            'e' => {
                librezip::decompressed_block(&mut out, &mut d, &blocks[expanded]).map_err(|x| x.to_string())?;
                expanded += 1;
            }
            _ => {
                w.write_bit(written + 1 == n).and_then(|_| librezip::compressed_block(&mut w, &blocks[written])).map_err(|x| x.to_string())?;
                written += 1;
            }
        }
        let last = |v: &[usize], k: usize| if k == 0 { 0 } else { v[k - 1] };
        let (a, b, c) = (up(last(&m.bits, blocks.len())), last(&m.outs, expanded), last(&m.bits, written) / 8);
        if (at.get(), oat.get(), wat.get()) != (a, b, c) {
            return Err(format!("{}: taken, expanded, written: {:?} bytes instead of {:?}", order, (at.get(), oat.get(), wat.get()), (a, b, c)));
        }
        if osum.get() != run(0, &m.out[..b]) || wsum.get() != run(0, &m.bytes[..c]) {
            return Err(format!("{}: other bytes", order));
        }
    }
    ch.note(|| order.clone());
    ok("in step", mix(run(0, order.as_bytes()), fnv(&m.bytes)))
}

fn alt(b: &[B]) -> bool {
    let has = |c: &[C]| c.iter().any(|c| matches!(c, C::R { alt: true, .. }));
    b.iter().any(|b| match b {
        B::Stored(_) => false,
        B::Fixed(c) | B::Dyn(_, c) => has(c),
    })
}

fn c26(t: Tier) -> Vec<Stage> {
    let th = t == Tier::Thorough;
    let cat: Arc<Vec<Marked>> = Arc::new(
        catalogue()
            .into_iter()
            .chain({
                // ends of blocks at every bit of a byte
                (0..8).map(|k| vec![B::Fixed(vec![C::L(200); k]), B::Fixed(vec![C::L(1)]), make_dyn(vec![C::L(2), r(1, 3)], few_styles()[0]), B::Stored(vec![3, 4]), B::Fixed(vec![])])
            })
            .map(marked)
            .collect(),
    );
    let (c1, c2, c3, c4) = (cat.clone(), cat.clone(), cat.clone(), cat.clone());
    let cf = move || Cfg { max_blocks: if th { 3 } else { 2 }, styles: few_styles(), stored: vec![0, 1, 2, 5, 300], free: 0 };
    vec![
        stage("taking", 0, "catalogue streams and block ends at every bit of a byte, 14 read behaviours: each block is delivered when the byte with its last bit was taken, and nothing more", move |ch| {
            taking(ch, ch.of(&c1[..]), *ch.of(&MODES), false, None)
        }),
        stage("waiting", 0, "the same streams from a source that fails after any number of bytes (36 kinds of error, among them would-block): every block that came whole is delivered before the error is", move |ch| {
            let m = ch.of(&c2[..]);
            // not beyond the last block's end: C05 and C04 have those
            let n = ch.pick(m.bytes.len());
            taking(ch, m, *ch.of(&[Mode::Full, Mode::One]), false, Some((n, *ch.of(&ALL_KINDS))))
        }),
        stage("reads", if th { 2 } else { 1 }, "the same streams, any one (thorough: two) short or interrupted reads", move |ch| {
            taking(ch, ch.of(&c3[..]), *ch.of(&[Mode::Full, Mode::One]), true, None)
        }),
        stage("giving", if th { 2 } else { 1 }, "the same streams: after each block its content is in the sink, and after each block written all its whole bytes are; sinks of 14 behaviours, or with any one (thorough: two) partial or interrupted writes", move |ch| {
            let m = ch.of(&c4[..]);
            let mode = *ch.of(&MODES);
            let dev = matches!(mode, Mode::Full | Mode::One) && m.out.len() <= 320;
            if ch.flag() {
                giving(ch, m, mode, dev)
            } else {
                writing(ch, m, mode, dev)
            }
        }),
        stage("streams", 0, "every stream of up to 2 (thorough 3) menu blocks, taken, expanded and written", move |ch| {
            let b = stream(ch, &cf());
            if alt(&b) {
                return ok("another spelling of 258", 0);
            }
            let m = marked(b);
            taking(ch, &m, Mode::Full, false, None)?;
            giving(ch, &m, Mode::Full, false)?;
            writing(ch, &m, Mode::Full, false)
        }),
        stage("pipeline", 0, "streams of up to 5 blocks: every order of taking, expanding and writing in which each block is taken first", {
            let st = few_styles();
            let ms: Arc<Vec<Marked>> = Arc::new(
                vec![
                    vec![B::Stored(vec![5, 6]), B::Fixed(vec![r(2, 9)]), make_dyn(vec![r(11, 3), C::L(4)], st[0])],
                    vec![B::Fixed(vec![C::L(200)]), B::Fixed(vec![]), B::Stored(vec![]), B::Fixed(vec![r(1, 258)])],
                    vec![make_dyn(vec![C::L(1)], st[1]), B::Stored(pattern(300, 1)), B::Fixed(vec![r(301, 4)]), B::Stored(vec![9])],
                    (0..if th { 5 } else { 4 }).map(|k| B::Fixed(vec![C::L(144 + k); 1 + k as usize])).collect(),
                ]
                .into_iter()
                .map(marked)
                .collect(),
            );
            move |ch| pipeline(ch, ch.of(&ms[..]))
        }),
        stage("bits", 0, "every sequence of up to 4 (thorough 5) writer operations out of 14 (single bits, values of 1 to 16 bits, bit vectors of up to 70 bits, padding, length-prefixed bytes): after each every whole byte is in the sink, and no more", move |ch| {
            let (at, sum) = (Cell::new(0), Cell::new(0));
            let mut w = EnvWrite::new(ch, Mode::Full);
            w.deviate = false;
            let mut w = BitWriter::new(Sink { inner: w, at: &at, sum: &sum });
            let mut b = Bits::default();
            let n = 1 + ch.pick(if th { 5 } else { 4 });
            for k in 0..n {
                let op = ch.pick(14);
                let r = match op {
                    0 | 1 => {
                        b.bit(op == 1);
                        w.write_bit(op == 1)
                    }
                    2..=7 => {
                        let n = [1u8, 2, 7, 8, 9, 16][op - 2];
                        b.val(0xa6d3 & ((1u32 << n) - 1), n as u32);
                        w.write_bits_val(n, 0xa6d3)
                    }
                    8..=11 => {
                        let n = [0usize, 5, 8, 70][op - 8];
                        let mut v = librezip::verif_hooks::BitVec::new();
                        for i in 0..n {
                            v.push(i % 3 == 1);
                            b.bit(i % 3 == 1);
                        }
                        w.write_vec(&v)
                    }
                    12 => {
                        b.align();
                        w.align()
                    }
                    _ => {
                        let d = pattern(k * 3, k);
                        b.align();
                        let n = d.len() as u16;
                        b.raw(&[n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8]);
                        b.raw(&d);
                        w.write_length_prefixed(&d)
                    }
                };
                r.map_err(|x| format!("operation {} ({}): {}", k, op, x))?;
                if at.get() != b.n / 8 || sum.get() != run(0, &b.bytes[..b.n / 8]) {
                    return Err(format!("after operation {} ({}): {} bits were written, the sink has {} bytes{}", k, op, b.n, at.get(), if at.get() == b.n / 8 { ", and others" } else { "" }));
                }
            }
            ok("whole bytes", mix(fnv(&b.bytes), b.n as u64))
        }),
        stage("scale", 0, "many blocks, many codes, large stored blocks, longest descriptions: taken, expanded and written block by block", move |ch| {
            let m = marked(scale_stream(ch, th, false, false));
            let mode = *ch.of(&[Mode::Full, Mode::Chunk(1000)]);
            taking(ch, &m, mode, false, None)?;
            giving(ch, &m, mode, false)?;
            writing(ch, &m, mode, false)
        }),
        stage("window", 0, "long histories and far references: taken, expanded and written block by block", move |ch| {
            let b = window_stream(ch, &[0, 1000, 40000], &[30000, 65535], &[1, 257, 32767, 32768], &[3, 258], if th { 2 } else { 1 });
            let m = marked(b);
            taking(ch, &m, Mode::Full, false, None)?;
            giving(ch, &m, Mode::Full, false)?;
            writing(ch, &m, Mode::Full, false)
        }),
    ]
}
